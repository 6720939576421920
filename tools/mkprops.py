import json
I='include/boost/signals2/'
ST=I+'detail/signal_template.hpp'; SG=I+'detail/slot_groups.hpp'; CI=I+'detail/slot_call_iterator.hpp'; CO=I+'connection.hpp'; SB=I+'slot_base.hpp'; SL=I+'detail/slot_template.hpp'
out=[]
def P(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],'observe_at':observe,'hook_needed':None}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    out.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})
P('C01','Slots are called in the documented order',
 'An invocation calls slots in this order: ungrouped slots connected at_front (latest connection first), then grouped slots by ascending group under the signal\'s own group comparison object, then ungrouped slots connected at_back (earliest first). Within one group, slots connected at_back run in connection order and slots connected at_front run before all earlier members of the group. The order is kept across any disconnections and reconnections, for any group values and any strict weak ordering, including stateful or function-pointer comparators.',
 ['inputs','histories'],'all sequences of connects (position, group) and disconnects up to the bound, all group values and comparators',
 'The existing tests connect a handful of fixed groups with std::less; order is a property of every group assignment and every connect/disconnect history, and the repository\'s own signal tests do not even compile against the installed Boost.',
 [SG,ST],[('grouped list: std::list plus map group->first element',SG),('nolock_connect chooses the group key and end',ST)],['order of slot calls in one invocation'],[('group map','first list element of each group',SG)])
P('C02','Every connected slot is called exactly once, with the arguments',
 'An invocation calls every slot that is connected and not blocked exactly once with exactly the arguments passed (by value, reference, or move-only reference as the signature says), and calls nothing else. num_slots() is the number of connected slots (blocked ones included) and empty() is true exactly when that number is 0. A connection made is visible to the very next invocation.',
 ['inputs','histories'],'all histories of connect, disconnect, block, unblock and invoke up to the bound, all argument values',
 'A lost, duplicated or resurrected slot appears only after particular histories of connects, disconnects and invocations (garbage collection is incremental); tests run a few fixed histories.',
 [ST,CI,SG],[('slot_call_iterator walks the connection list',CI),('nolock_connect / nolock_cleanup_connections_from keep the list',ST),('variadic_slot_invoker forwards arguments',I+'detail/variadic_slot_invoker.hpp')],['slot calls and arguments','num_slots()','empty()'])
P('C03','Disconnection is exact, complete, permanent and idempotent',
 'After connection::disconnect, signal::disconnect(group), signal::disconnect(function) or disconnect_all_slots returns, exactly the slots designated (that connection; the slots connected to an equivalent group; the slots whose function compares equal; all) are disconnected: connected() is false for every copy of their connection and they are never called by a later invocation. All other slots stay connected. Disconnecting twice, or through a handle that outlived its signal, does nothing.',
 ['inputs','histories'],'all histories of connects, disconnects of all four kinds and invocations up to the bound',
 'Which connections a disconnect hits depends on the history (groups emptied and refilled, slots already disconnected but not yet collected); tests check single examples.',
 [ST,CO,SG],[('connection_body_base::nolock_disconnect',CO),('disconnect(group), do_disconnect, disconnect_all_slots',ST)],['connection::connected()','slot calls'])
P('C04','Blocking suppresses a slot exactly while a block is held',
 'A slot is skipped by invocations while at least one shared_connection_block that refers to its connection is blocking, and is called again, in its old position, once every such block was released by unblock() or destruction; copies and assignments of a block each hold their own share. blocking() tells whether this object holds a share, connection::blocked() is true exactly when the slot is disconnected or some block is held, and connection() returns the connection given. A block is safe to use after the connection object, the slot or the signal is gone.',
 ['inputs','histories'],'all histories of creating, copying, assigning, blocking, unblocking and destroying up to the bound number of blocks, with disconnection and signal destruction interleaved',
 'The share counting is spread over weak and shared pointers; wrong sharing only shows for certain copy/assign/unblock orders, of which tests run one.',
 [I+'shared_connection_block.hpp',CO,CI],[('get_blocker hands out one shared blocker per connection',CO),('nolock_nograb_blocked is consulted per slot',CI)],['slot calls','connection::blocked()','shared_connection_block::blocking()'])
P('C05','Connection handles identify their connection; scoped ones own it',
 'Copies, moves, assignments and swaps of connection objects refer to the connection that their source referred to (a moved-from or default-constructed handle refers to none and is never connected), == and < are consistent with that identity. A scoped_connection disconnects the connection it owns when it is destroyed or assigned to, hands it over on move, swap and release without disconnecting it, and afterwards the source owns nothing. Handles stay safe to use after the signal is destroyed and then report not connected and blocked.',
 ['histories'],'all sequences of copy, move, assign, swap, release and destruction over a bounded pool of handles',
 'Ownership errors (double or missing disconnect, self-assignment, move between scoped and plain handles) need particular sequences; tests follow one.',
 [CO],[('connection and scoped_connection special members',CO)],['connected()','operator==, operator<','slot calls'])
P('C06','A slot with an expired tracked object is never called',
 'Once any object tracked by a slot (boost or foreign shared/weak pointer, signal, or the tracked objects of another slot; any number of them, in any position) has expired, the slot is never called again and counts as disconnected: connected() is false, num_slots() and empty() ignore it, and copies of the slot cannot be called directly (expired_slot is thrown). While all tracked objects live the slot stays connected and callable.',
 ['inputs','histories'],'every subset and position of expired objects, every kind of tracking, numbers of tracked objects around the internal buffer sizes',
 'Expiry of an object at an arbitrary position of an arbitrarily long tracking list, interleaved with connects and invocations, cannot be covered by the single-object tests.',
 [SB,SL,CO,CI,I+'detail/foreign_ptr.hpp',I+'detail/tracked_objects_visitor.hpp'],[('nolock_grab_tracked_objects',CO),('slot_base::lock / expired',SB),('slot::track, track_foreign',SL)],['slot calls','connected()','num_slots()','expired_slot'])
P('C07','Tracked objects outlive the call and are released right after',
 'While a slot runs, every object it tracks through a shared/weak pointer stays alive, even if all user-held owners are released during the call. The library holds no ownership of tracked objects at any other time: after the combiner moved past the slot (at the latest when the invocation ends, normally or by exception) an object with no user-held owner is destroyed, and merely connecting, querying or blocking never extends a tracked object\'s life beyond the call.',
 ['inputs','histories','schedules'],'any number of tracked objects around the buffer sizes; any slot releasing any owners during the call; normal and exceptional exit',
 'Lifetimes depend on which owners are dropped during which slot and on how many objects are tracked; tests track one object.',
 [CI,CO,SB,I+'detail/auto_buffer.hpp'],[('slot_call_iterator_cache::tracked_ptrs',CI),('auto_buffer growth',I+'detail/auto_buffer.hpp')],['object destruction times'])
P('C08','Re-entrant use from inside slots is safe and has the documented effect',
 'From inside a running slot it is safe to connect, disconnect (any slot, including itself, by any means), block, query, replace the combiner and invoke the same signal again, in any order and nesting. Slots connected during an invocation are not called by that invocation but by later ones; slots disconnected or blocked before their turn are not called. No such sequence touches freed memory, disturbs the slots still to be called by an invocation in progress, or loses a connection.',
 ['inputs','histories'],'all choices of what each slot does on each call (two operations per call, recursion depth 2) over small slot lists with arbitrary grouping',
 'The copy-on-write list and the incremental garbage collection interact only for particular nested sequences; tests do a single connect or disconnect from a slot.',
 [ST,CI,SG],[('nolock_force_unique_connection_list copies a list in use',ST),('invocation_janitor / force_cleanup_connections',ST),('set_combiner',ST)],['slot calls of nested and later invocations','memory safety'])
P('C09','Slots run only on demand of the combiner, at most once per position',
 'The combiner receives an input range over the slots\' results: a slot runs when its position is dereferenced for the first time, further dereferences of the same position return the same result without calling it again, and slots whose position is skipped or never reached are not called. The value returned by the combiner is the value of the invocation, and argument and result types (void included) are passed through.',
 ['inputs','histories'],'every behaviour of a combiner: any pattern of dereference and increment, stopping anywhere',
 'A combiner may pull in any pattern; tests use a few fixed combiners.',
 [CI,ST,I+'detail/result_type_wrapper.hpp'],[('dereference caches the result in the shared cache',CI),('combiner_invoker',I+'detail/result_type_wrapper.hpp')],['slot calls','results seen by the combiner'])
P('C10','last_value and optional_last_value return the last slot\'s result',
 'With optional_last_value an invocation returns the result of the last slot that completed, and an empty optional when none was called; with last_value it returns the last result and throws no_slots_error when no slot completed. Both call every slot, a slot that throws expired_slot is skipped (its result ignored) and every other exception propagates. The void versions call every slot in the same way.',
 ['inputs','histories'],'all numbers of slots up to the bound, all results, every subset throwing expired_slot or another exception, blocked and disconnected slots',
 'The result depends on which slots are blocked, expired or throw and in which position; tests check a few values.',
 [I+'last_value.hpp',I+'optional_last_value.hpp'],[('operator()(first,last)',I+'last_value.hpp'),('operator()(first,last)',I+'optional_last_value.hpp')],['return value','no_slots_error'])
P('C11','An exception leaving a slot propagates and leaves the signal intact',
 'An exception thrown by a slot reaches the caller of the invocation unchanged (unless the combiner handles it), slots after it are not called, and the signal, all connections, blocks and tracked objects are afterwards exactly as if the slot had returned: later invocations call the same slots, nothing stays locked and nothing leaks. If a slot throws expired_slot it is disconnected. An invocation that itself runs out of memory, or meets a throwing group comparison, leaves the signal in order too: the exception reaches the caller or the work is put off, and the program is never terminated.',
 ['inputs','histories','fault_sequences'],'any subset of slots throwing at any call, nested invocations included, copying of results throwing',
 'Clean-up on the exceptional exits depends on where the exception is thrown; tests throw from one slot.',
 [ST,CI,CO],[('invocation_janitor, slot_call_iterator_cache destructors',CI),('BOOST_CATCH(expired_slot &)',CI)],['exceptions at the call site','later invocations','locks and memory'])
P('C12','connect either succeeds or has no effect',
 'If connecting a slot (any overload, position or group, extended or not) fails because memory is exhausted or because copying the slot function, a tracked pointer or a group key, or comparing groups, throws, then the exception reaches the caller, no slot was added, all other slots are still connected in the same order, and nothing leaks or stays locked. The same holds for failing constructions of slots and signals, and for set_combiner.',
 ['fault_sequences','histories','inputs'],'a failure at every fallible point (each allocation, copy, comparison) of the operation, for lists in all shapes up to the bound, in use by an invocation or not',
 'Tests never inject allocation failures.',
 [ST,SG,SL],[('m_insert updates list and map',SG),('nolock_force_unique_connection_list',ST)],['slot calls after the failure','connected()','allocation balance'])
P('C13','A slot\'s function object is destroyed once, when disconnected and idle',
 'The copy of a slot\'s function object that the signal owns is destroyed exactly once: at the latest when the slot is disconnected and no invocation is running it, even while connection handles or blocks to it survive, and never while it is executing. Destroying the signal destroys all of them; no function object, connection record or buffer is leaked or destroyed twice over any history.',
 ['histories','inputs'],'all histories of connects, disconnects (outside and inside slots), handle copies and signal destruction up to the bound',
 'Release happens through reference counts spread over invocation caches and garbage lists; only particular histories expose early or late release.',
 [CO,CI,ST],[('slot refcount: inc_slot_refcount, dec_slot_refcount, release_slot',CO),('set_active_slot',CI)],['construction and destruction of function objects'])
P('C14','No library lock is held while user code runs',
 'While a slot function, the combiner, the destructor of a slot\'s function object, or the destructor of a tracked object runs because of a library operation, no mutex of the library is held by the running thread, so such code may use the same signal and connections freely without deadlock. The guarantee covers invocation, disconnect, connect, connected(), num_slots(), empty() and signal destruction.',
 ['histories','schedules','inputs'],'every operation that may run user code, over all histories up to the bound, including more than ten destructions at once',
 'Tests use slots that do not look at locks; a lock held during a destructor only shows when that destructor uses the signal.',
 [CO,ST,CI,I+'detail/auto_buffer.hpp'],[('garbage_collecting_lock destroys its garbage after unlocking',CO),('locks are scoped around list access only',ST)],['lock state inside user code'])
P('C15','Concurrent use of one signal is race-free and deadlock-free',
 'Any number of threads may invoke, connect, disconnect, block, query, copy connections of and set the combiner of one signal, and release tracked objects, at the same time: no interleaving has a data race, deadlock, use of freed memory or lost wakeup in the library. Afterwards the signal is consistent: num_slots() counts exactly the live connections and an invocation calls exactly those.',
 ['schedules','histories'],'every interleaving (within the preemption bound) of every pair of public operations, and of triples with an invocation in progress',
 'Races depend on the schedule; the threading tests in the repository run unsynchronised loops and do not build here.',
 [ST,CO,CI,I+'detail/lwm_pthreads.hpp'],[('signal mutex guards the shared state pointer',ST),('lists in use are copied before change',ST),('connection bodies lock the signal mutex',CO)],['happens-before between accesses','final state'])
P('C16','Concurrent connects and disconnects take effect exactly once',
 'An invocation that starts after a disconnect returned (in any thread) does not call the slot, and one that starts after a connect returned does call it, even if other invocations are in progress in other threads. An invocation concurrent with a connect or disconnect calls the slot at most once and is otherwise unaffected: every slot connected throughout is called exactly once. Concurrent disconnects of one connection disconnect it once.',
 ['schedules'],'every interleaving, within the preemption bound, of an invocation with one or two modifying threads',
 'Which list snapshot an invocation uses depends on the schedule.',
 [ST,CI,CO],[('local copy of the shared state under the mutex',ST),('connected/blocked re-checked per slot under the lock',CI)],['slot calls per invocation'])
P('C17','Tracked objects stay alive during calls despite concurrent release',
 'If the last user-held owner of a tracked object is released by another thread at any moment, then every call of the tracking slot runs entirely with the object alive or does not run at all. The object is destroyed once, after the last such call, and the slot is not called afterwards.',
 ['schedules'],'every interleaving, within the preemption bound, of invocations with threads releasing owners, disconnecting or querying',
 'The window between the expiry check and the call is schedule dependent.',
 [CI,CO],[('tracked pointers are locked before the slot is committed to',CI)],['object state as seen by the slot'])
P('C18','Blocking works across threads',
 'After one thread acquired a block, an invocation starting later in any thread does not call the slot until all blocks are released; a block taken or released concurrently with an invocation affects at most whether that slot is called in it. Blocks taken and released concurrently by several threads through their own block objects never interfere: the connection ends up unblocked when all are released.',
 ['schedules'],'every interleaving, within the preemption bound, of two or three threads blocking, unblocking, copying blocks and invoking',
 'Reference counting of shares races only in particular schedules.',
 [I+'shared_connection_block.hpp',CO],[('get_blocker under the lock',CO)],['slot calls','blocked()'])
P('C19','Mutex classes provide mutual exclusion, and dummy_mutex is free',
 'mutex::lock() blocks until the calling thread alone owns the mutex, try_lock() returns true exactly when it acquired it and never blocks, unlock() releases it, and everything done before an unlock is visible after the next lock. A mutex can be locked by at most one thread at a time and destroyed when unlocked. dummy_mutex\'s lock, try_lock and unlock never block, and a signal using it performs no locking at all.',
 ['schedules'],'every interleaving, within the preemption bound, of two or three threads using lock, try_lock and unlock',
 'mutex_test runs wall-clock dependent threads; exclusion is a property of every schedule.',
 [I+'mutex.hpp',I+'dummy_mutex.hpp',I+'detail/lwm_pthreads.hpp',I+'detail/lwm_nop.hpp',I+'detail/unique_lock.hpp'],[('pthread mutex wrapper',I+'detail/lwm_pthreads.hpp'),('unique_lock RAII',I+'detail/unique_lock.hpp')],['ownership','visibility of protected writes'])
P('C20','deconstruct runs construction hooks exactly once and releases fully',
 'Objects made with deconstruct<T>() get the constructor arguments unchanged, live in the same shared_ptr, and have adl_postconstruct called exactly once with the fully built, shared-owned object (with the arguments given to postconstruct()) before the user receives it. adl_predestruct is called exactly once with the still complete object right before destruction if the object was postconstructed, and memory is released once. If the constructor, postconstruct or an allocation throws, the exception reaches the caller, everything constructed is destroyed and nothing leaks.',
 ['inputs','fault_sequences','configurations'],'all argument values, numbers of arguments 0 to 9, and a failure at each fallible point',
 'deconstruct_test checks fixed values and no failing allocation or constructor.',
 [I+'deconstruct.hpp'],[('postconstructor_invoker, deconstruct_deleter',I+'deconstruct.hpp')],['hook calls','object lifetime','allocation balance'])
P('C21','deconstruct_ptr and the pre/postconstructible bases run their hooks',
 'deconstruct_ptr(p) returns a shared_ptr that owns p, calls postconstruct() once on objects derived from postconstructible (others are left alone) and, when the last owner goes, calls predestruct() once before deleting objects derived from predestructible, then deletes p exactly once. If postconstruct() throws, the exception propagates, the object is deleted exactly once, and nothing leaks.',
 ['inputs','fault_sequences','configurations'],'all combinations of bases, with and without custom deleter state, failures at every point',
 'deconstruct_test checks one happy path.',
 [I+'deconstruct_ptr.hpp',I+'postconstructible.hpp',I+'predestructible.hpp'],[('predestructing_deleter, do_postconstruct',I+'deconstruct_ptr.hpp')],['hook calls','object lifetime'])
P('C22','Signals can be chained as slots and are tracked automatically',
 'A signal connected to another signal is invoked with the same arguments and its result used as the slot\'s result whenever the outer signal is invoked. The connection tracks the inner signal: when the inner signal is destroyed, even during an invocation of the outer one, the connection is dropped and the inner signal is never used again; connecting does not keep the inner signal alive. Slots made with boost::ref to a signal behave the same way.',
 ['histories','inputs'],'all chains up to the bound, destruction or reset of any link at any step, including from inside slots',
 'Destruction order of chained signals is arbitrary; tests use one.',
 [ST,SL,SB,I+'signal_base.hpp',I+'detail/tracked_objects_visitor.hpp'],[('weak_signal',ST),('track_signal / lock_pimpl',SB)],['slot calls','results','connected()'])
P('C23','Moving and swapping signals carries all connections over',
 'After move construction, move assignment or swap of signals, the destination has exactly the slots (in order), combiner and group comparison that the source had, existing connections, blocks and chained connections keep referring to the same slots, and connections of a move-assigned-to signal are disconnected. Swapping exchanges everything; self-swap is harmless.',
 ['histories'],'all sequences of move, swap, connect, disconnect and invoke over two or three signals up to the bound',
 'Tests move one signal with one slot.',
 [ST],[('signal move members and swap on the pimpl',ST)],['slot calls','connected()'])
P('C24','set_combiner affects later invocations only',
 'combiner() returns a copy of the combiner in effect; after set_combiner(c) every invocation that starts later uses c, and an invocation in progress (in this or another thread) finishes undisturbed with the combiner and slots it started with. Replacing the combiner never changes which slots are connected or their order, now or after any further connects and disconnects.',
 ['histories','schedules','inputs'],'set_combiner at any point of a history, from inside slots, or in another thread, followed by any operations up to the bound',
 'The effect depends on whether the slot list and combiner are shared with an invocation in progress.',
 [ST],[('invocation_state shares list and combiner',ST),('set_combiner',ST)],['results','slot calls','memory safety'])
P('C25','Destroying a trackable disconnects the slots bound to it',
 'A slot whose function object binds a pointer or reference to an object derived from trackable (directly or in bound arguments) is disconnected when that object is destroyed and never called again. Copying or assigning trackable objects copies no connections: each slot follows the object it was made from. Calling a slot does not extend the life of the trackable object.',
 ['histories','inputs'],'all sequences of constructing, copying, assigning and destroying trackables and connecting slots to them up to the bound',
 'Tests destroy one trackable object.',
 [I+'trackable.hpp',I+'detail/tracked_objects_visitor.hpp',SL],[('trackable holds a shared token, slots track it weakly',I+'trackable.hpp'),('tracked_objects_visitor via visit_each',I+'detail/tracked_objects_visitor.hpp')],['slot calls','connected()'])
P('C26','Extended slots receive the connection they were connected with',
 'A slot connected with connect_extended is called with a connection object identifying its own connection, followed by the invocation\'s arguments, also if it is invoked immediately, from another thread, or nested. Through it the slot can disconnect or block itself; tracking, groups and positions work as for ordinary slots, and the extended connection neither keeps the slot alive nor leaks.',
 ['histories','inputs','schedules'],'all groups, positions and numbers of extended and ordinary slots up to the bound, self-disconnection at any call',
 'Tests use one extended slot.',
 [ST],[('bound_extended_slot_function binds the connection',ST)],['connection argument','slot calls'])
P('C27','Slot objects copy, convert, track and call faithfully',
 'A slot object calls the function it was made from with the given arguments and returns its result, keeping all tracked objects alive for the call and throwing expired_slot instead of calling if any has expired. Copies, assignments and conversions between slot types carry the function and all tracked objects; track and track_foreign add to them and affect only that object. Slots made from function pointers, member functions with arguments, function objects and references behave as the wrapped call.',
 ['inputs','histories'],'all argument values, slots built by up to the bound of track/copy/assign/convert steps, any subset of tracked objects expired',
 'Tests build a few fixed slots.',
 [SL,SB],[('slot constructors, track, init_slot_function, operator()',SL)],['results','expired_slot','tracked object lifetime'])
P('C28','Memory stays bounded under connect/disconnect churn',
 'A signal on which slots are connected and disconnected forever, in whatever pattern and whether or not it is ever invoked, holds a bounded number of disconnected connection records and no function objects of disconnected idle slots: the memory held depends on the number of live connections, not on the number of past ones. The disconnected records present at a connect are reclaimed gradually by later connects or by invocations.',
 ['histories'],'all bounded histories in which the number of live connections stays small',
 'Growth is a property of long histories; no test measures it.',
 [ST],[('nolock_cleanup_connections(_from) with the garbage collector iterator',ST)],['number of live allocations'],[('garbage collector iterator','where the incremental cleanup continues',ST)])
P('C29','The internal growable buffer behaves as a sequence',
 'The small-buffer-optimised container that holds tracked pointers and garbage during library operations keeps every pushed element exactly once and in order across growth from inline to heap storage, copy, assignment, swap, pop, clear, reserve and shrink; every element is destroyed exactly once. If an allocation or element copy fails while pushing, the elements already held are unchanged and nothing leaks.',
 ['histories','inputs','fault_sequences'],'all operation sequences up to the bound around the inline capacity, with a failure at each fallible point',
 'It has no test of its own in the repository; growth needs more elements than signal tests ever hold.',
 [I+'detail/auto_buffer.hpp'],[('auto_buffer::push_back, reserve_impl, copy_impl, auto_buffer_destroy',I+'detail/auto_buffer.hpp')],['element sequence','element lifetimes'])
P('C30','Destroying or clearing a signal releases everything it owns',
 'Destroying a signal disconnects all of its slots: every connection reports not connected, every function object the signal owned is destroyed (once no invocation is executing it), and surviving connections, scoped connections and blocks can be used and destroyed safely. A chained signal or one held by shared pointer may be destroyed while an invocation of it is in progress through another signal; the invocation in progress stays memory safe.',
 ['histories'],'all orders of destroying the signal, its handles, blocks, tracked objects and chained signals up to the bound',
 'Tests destroy everything in one order.',
 [ST,CO],[('signal destructor disconnects all slots',ST),('connection bodies share the mutex',CO)],['connected()','destruction of function objects','memory safety'])
P('C31','Every arity, mutex and build configuration behaves the same',
 'The guarantees on calls, order, results, disconnection, blocking, tracking and combiners hold alike for signals of zero to several arguments of any kind, for mutex, dummy_mutex and user-supplied mutex types, for user-supplied slot function types, and for builds without variadic templates or rvalue references. A configuration changes no observable result.',
 ['configurations','inputs','histories'],'each listed configuration, with all histories and values up to the bound, compared with the same reference',
 'Tests build one configuration.',
 [I+'preprocessed_signal.hpp',I+'variadic_signal.hpp',I+'detail/preprocessed_arg_type.hpp',I+'detail/preprocessed_arg_type_template.hpp',I+'detail/variadic_arg_type.hpp',I+'signal_type.hpp',ST,SL],[('preprocessor expansion of the same templates',I+'preprocessed_signal.hpp')],['slot calls','results'])
P('C32','signal_type maps keyword arguments to the same signal type',
 'For every choice and order of keyword arguments, signal_type yields a signal type that behaves exactly like the signal class with those template arguments written out and defaults for the others: the same calls, order, results, connection states, mutex acquisitions and uses of the slot function types.',
 ['configurations','histories','inputs'],'listed subsets and orders of the keyword parameters, each compared in lock step with the explicit type over all histories up to the bound',
 'Tests name two combinations and call one signal once.',
 [I+'signal_type.hpp'],[('Boost.Parameter keywords',I+'signal_type.hpp')],['slot calls','results','mutex acquisitions'])
P('C33','The Windows mutex provides mutual exclusion',
 'On Windows builds the mutex class provides the same exclusion and visibility between threads as the POSIX one, given critical sections that behave as documented (recursive for their owner): each operation maps to the matching critical-section call, try_lock() is true exactly when the lock was acquired, and a signal using it is race and deadlock free.',
 ['schedules','configurations'],'every interleaving, within the preemption bound, of two or three threads on the mutex and of two threads on a signal, over a model of the five imported functions',
 'The tests run on POSIX only here.',
 [I+'detail/lwm_win32_cs.hpp'],[('critical section wrapper',I+'detail/lwm_win32_cs.hpp')],['ownership','visibility of protected writes'])
open('properties.jsonl','w').write(''.join(json.dumps(o)+'\n' for o in out))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for o in out:
    jsonschema.validate(o,sch); n=o['statement'].count('. ')+1
    assert n<=3,(o['id'],n)
    assert len(o['title'])<=80
print(len(out))
