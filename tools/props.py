def J(tu, entry, about='', q=None, t=None, **k):
    d = dict(tu=tu, entry=entry, about=about, quick=dict(params=q or {}), thorough=dict(params=t or q or {}))
    for x in ('workers', 'preempt', 'maxsteps', 'samples', 'defs', 'tiers', 'optional'):
        if x in k: d[x] = k.pop(x)
    for x in ('deadline', 'preempt', 'workers'):
        if 't' + x in k: d['thorough'][x] = k.pop('t' + x)
        if 'q' + x in k: d['quick'][x] = k.pop('q' + x)
    assert not k, k
    return d
PROPS = {}

H='hist.cpp'; G = 'glist.cpp'; AR = 'args.cpp'
C = 'conn.cpp'; K = 'track.cpp'; R = 'reent.cpp'; O = 'comb.cpp'; L = 'life.cpp'; T = 'thr.cpp'; T2 = 'thr2.cpp'; F = 'fault.cpp'; M = 'mtx.cpp'; D = 'decon.cpp'; CH = 'chain.cpp'; BI = 'bind.cpp'; CU = 'churn.cpp'; AU = 'auto.cpp'; CF = 'cfg.cpp'
PROPS['C01'] = dict(jobs=[
    J(H, 'order_less', 'history of connects, all positions and symbolic groups, std::less', dict(len=4), dict(len=5), workers=8),
    J(H, 'order_wide', 'groups over the whole int range', dict(len=3), dict(len=4)),
    J(H, 'order_greater', 'std::greater', dict(len=3), dict(len=4)),
    J(H, 'order_stateful', 'comparator object with state', dict(len=3), dict(len=4)),
    J(H, 'order_fnptr', 'function-pointer comparator', dict(len=3), dict(len=4)),
    J(H, 'order_churn', 'groups with disconnections in between', dict(pre=3, len=2), dict(pre=2, len=4), workers=8),
    J(H, 'order_refill', 'groups emptied, collected and refilled', dict(groups=3, pre=4, drop=2, post=2), dict(groups=3, pre=4, drop=3, post=3), workers=4),
    J(G, 'gl_hist', 'the grouped list itself: insert, erase, erase group with symbolic groups', dict(pre=2, len=3), dict(pre=3, len=3), workers=8, optional=True),
    J(G, 'gl_copy', 'the grouped list itself: copies, clear', dict(pre=2, len=2), dict(pre=2, len=3), workers=4, optional=True),
])
PROPS['C02'] = dict(jobs=[
    J(H, 'once_hist', 'connect, disconnect, block, unblock, invoke; state checked after each step', dict(len=4), dict(len=6), workers=8),
    J(H, 'once_front', 'all positions with disconnect_all_slots', dict(len=4), dict(len=5), workers=4),
    J(H, 'once_many', 'many slots, any of them disconnected or blocked', dict(n=8), dict(n=24), workers=4),
    J(AR, 'args_int', 'arguments of class type by value, by reference; every kind of slot', dict(n=3), dict(n=4), workers=2), J(AR, 'args_void', 'void slots', dict(n=2), dict(n=4), workers=2), J(AR, 'args_comb', 'pulling combiner', dict(n=2), dict(n=3), workers=2), J(AR, 'args_chain', 'through chained signals', dict(n=3), dict(n=4), workers=2), J(AR, 'args_std', 'std::function slots', dict(n=2), dict(n=4), workers=2),
    J(AR, 'args_refs', 'changes through references and pointers, move-only objects', workers=1), J(AR, 'args_kinds', 'argument kinds and sizes', workers=1),
])
PROPS['C03'] = dict(jobs=[
    J(H, 'disc_hist', 'connect, disconnect by handle and group, invoke', dict(len=4), dict(len=5), workers=8),
    J(H, 'disc_group', 'disconnecting groups out of a grouped list', dict(pre=3, len=2), dict(pre=3, len=3), workers=8),
    J(H, 'disc_greater', 'group disconnect under a stateful comparator', dict(len=2), dict(len=3)),
    J(H, 'disc_fn', 'disconnect by function equality, with duplicates', dict(len=4), dict(len=5), workers=8),
    J(H, 'disc_ext', 'extended and plain slots mixed, equal functions connected several times', dict(n=3, len=2), dict(n=4, len=3), workers=4),
    J(H, 'disc_kinds', 'function pointers, references, copies, handles outliving the signal', dict(len=2), dict(len=4)),
])
PROPS['C04'] = dict(jobs=[
    J(H, 'block_hist', 'blocks and unblocks within a signal history', dict(len=4), dict(len=6), workers=8),
    J(H, 'block_pool', 'pool of three block objects over two connections: construct, copy, assign, block, unblock, destroy; slot or signal gone', dict(len=3), dict(len=4), workers=8),
    J(H, 'block_many', 'many blocks on one connection', dict(nb=4, len=3), dict(nb=5, len=4), workers=8),
])
PROPS['C05'] = dict(jobs=[
    J(C, 'handles', 'pool of connection and scoped_connection objects: every copy, move, assignment, swap, release, disconnect, compare', dict(len=3), dict(len=4), workers=8),
    J(C, 'self_cases', 'self assignment, self swap, self move; handles outliving the signal', workers=1),
])
PROPS['C06'] = dict(jobs=[
    J(K, 'expiry', 'n tracked objects of every kind, any subset expired', dict(n=3), dict(n=4), workers=4),
    J(K, 'expiry_long', 'tracked lists beyond the inline buffer, one expired at any position', dict(sizes=5), dict(sizes=8)),
    J(K, 'expiry_hist', 'history of expiry, queries, invocation, copies of the slot', dict(len=2), dict(len=3), workers=8),
    J(K, 'expiry_via', 'tracked objects carried over by extended slots, slots tracking slots, conversions; any one expires', dict(n=2), dict(n=3), workers=8),
])
PROPS['C07'] = dict(jobs=[
    J(K, 'keep_small', 'owners released in any slot; alive during the call, destroyed right after it', workers=2),
    J(K, 'keep_long', 'tracked lists beyond the inline buffer', dict(sizes=4), dict(sizes=8)),
    J(K, 'keep_skip', 'slots blocked, disconnected, expired around the running one; any owners released in any slot', dict(n=3), dict(n=4), workers=4),
    J(K, 'keep_nested', 'nested invocations', workers=2),
    J(K, 'keep_release', 'release after calls, exceptions and queries', workers=2),
])
PROPS['C08'] = dict(jobs=[
    J(R, 're_all', 'every kind of action from inside slots', dict(pre=2, acts=2), dict(pre=3, acts=2), workers=4),
    J(R, 're_conn', 'connecting from inside slots at any place', dict(pre=3, acts=3), dict(pre=3, acts=4), workers=4),
    J(R, 're_group', 'symbolic groups connected and disconnected from inside slots', dict(pre=2, acts=2), dict(pre=2, acts=3), workers=8),
    J(R, 're_comb', 'replacing the combiner from inside slots', dict(pre=2, acts=3), dict(pre=3, acts=4), workers=4),
    J(R, 're_block', 'blocking and unblocking from inside slots', dict(pre=3, acts=3), dict(pre=3, acts=4), workers=4),
])
PROPS['C09'] = dict(jobs=[
    J(O, 'pull', 'combiner program: any sequence of increments, dereferences, iterator copies and comparisons', dict(n=3, budget=5), dict(n=3, budget=7), workers=8),
    J(O, 'pull_void', 'void slots'), J(O, 'pull_owning', 'results owning memory'), J(O, 'pull_kinds', 'result and argument kinds', workers=1),
])
PROPS['C10'] = dict(jobs=[
    J(O, e, 'n slots, each returning, throwing, expiring, blocked or disconnected', dict(n=3), dict(n=5), workers=2) for e in ('optional_last', 'last_val', 'optional_void', 'last_void')] + [J(O, 'last_owning', 'results owning memory')])
PROPS['C11'] = dict(jobs=[
    J(L, 'ex_slots', 'any slot throws, or throws expired_slot', dict(pre=3, acts=3), dict(pre=4, acts=4), workers=4),
    J(L, 'ex_nested', 'exceptions through nested invocations, handled or passed on', dict(pre=2, acts=3), dict(pre=2, acts=5), workers=4),
    J(L, 'ex_disc', 'a slot disconnects itself or another and throws', dict(pre=3, acts=2), dict(pre=3, acts=3), workers=4),
    J(L, 'ex_mixed', 'exceptions mixed with disconnects, connects and blocks', dict(pre=2, acts=3), dict(pre=2, acts=4), workers=8),
    J(L, 'ex_track', 'slots that track objects and throw', dict(pre=2, acts=2), dict(pre=3, acts=2), workers=8),
])
PROPS['C13'] = dict(jobs=[
    J(L, 'fn_life', 'exactly one function object per connected or running slot: connects, disconnects, nesting', dict(pre=2, acts=3), dict(pre=3, acts=3), workers=8),
    J(L, 'fn_life_fn', 'disconnect by function and group, blocks', dict(pre=2, acts=2), dict(pre=2, acts=3), workers=8),
    J(L, 'fn_life_ex', 'slots that disconnect and throw', dict(pre=3, acts=2), dict(pre=3, acts=3), workers=4),
    J(L, 'fn_life_stop', 'combiners that stop early', dict(pre=2, acts=3), dict(pre=3, acts=3), workers=8),
    J(L, 'fn_life_comb', 'with combiner replacement', dict(pre=2, acts=3), dict(pre=3, acts=4), workers=4),
    J(L, 'fn_handles', 'handles, blocks, tracked objects; the signal destroyed at any point', dict(len=3), dict(len=5), workers=4),
    J(L, 'fn_life_track', 'slots that track objects', dict(pre=2, acts=2), dict(pre=2, acts=3), workers=8),
])
PROPS['C14'] = dict(jobs=[
    J(L, 'locks_dtor', 'function objects and tracked objects whose destructors use the signal', dict(len=3), dict(len=4), workers=4),
    J(L, 'locks_many', 'more function objects released at once than the inline garbage buffer holds', dict(n=5), dict(n=12)),
    J(L, 'locks_inuse', 'releases while the list is in use by an invocation', dict(n=4), dict(n=10)),
    J(L, 'locks_comb', 'combiner and pulled slots'),
    J(L, 'locks_slots', 'slots using their signal in every way', dict(pre=3, acts=2), dict(pre=3, acts=3), workers=4),
])
PROPS['C15'] = dict(jobs=[
    J(T, e, 'two threads, every pair of operations; happens-before race detection, deadlock, heap, final consistency', workers=8, qpreempt=2, tpreempt=3) for e in ('race_a', 'race_b', 'race_c')])
PROPS['C16'] = dict(jobs=[
    J(T2, 'vis_one', 'operations of one thread against invocations of another', dict(nops=2, inv=2), dict(nops=3, inv=2), workers=8, qpreempt=2, tpreempt=2),
    J(T2, 'vis_two', 'two operating threads, one invoking', dict(nops=1, inv=1), dict(nops=1, inv=1), workers=8, qpreempt=1, tpreempt=2),
    J(T2, 'vis_inv2', 'two concurrent invocations', workers=4, qpreempt=2, tpreempt=3),
    J(T2, 'disc_once', 'concurrent disconnects of one connection', dict(thr=2), dict(thr=3), workers=4, qpreempt=2, tpreempt=3),
])
PROPS['C17'] = dict(jobs=[
    J(T2, 'tracked_one', 'last owner released concurrently with invocation or queries', workers=8, qpreempt=2, tpreempt=3),
    J(T2, 'tracked_two', 'three threads', workers=8, qpreempt=1, tpreempt=1),
])
PROPS['C18'] = dict(jobs=[
    J(T2, 'blocks2', 'two threads with their own blocks', workers=8, qpreempt=2, tpreempt=3),
    J(T2, 'blocks3', 'three threads', workers=8, qpreempt=1, tpreempt=2),
    J(T2, 'block_window', 'block taken and released against an invocation', workers=4, qpreempt=2, tpreempt=3),
])
PROPS['C24'] = dict(jobs=[
    J(R, 're_comb', 'replacing the combiner from inside slots', dict(pre=2, acts=3), dict(pre=3, acts=4), workers=4),
    J(T2, 'comb_thr', 'set_combiner concurrent with invocations, connects and disconnects', workers=8, qpreempt=2, tpreempt=3),
])
PROPS['C30'] = dict(jobs=[
    J(L, 'sig_destroy', 'destruction of signals, blocks, scoped connections, tracked objects in any order', dict(len=4), dict(len=6), workers=4),
    J(L, 'sig_inflight', 'signal destroyed or cleared while an invocation of it is in progress'),
    J(CH, 'move_inflight', 'replaced or destroyed by a slot', workers=2),
    J(T2, 'destroy_thr', 'destroyed, replaced or moved while another thread uses its connections', workers=8, qpreempt=2, tpreempt=3), J(T2, 'destroy_thr3', 'two other threads', workers=8, qpreempt=1, tpreempt=2),
])
PROPS['C12'] = dict(jobs=[
    J(F, 'fault_connect', 'any connect overload fails at any allocation, copy or comparison', dict(pre=1), dict(pre=2), workers=4),
    J(F, 'fault_groups', 'failing connects into grouped lists', dict(pre=2), dict(pre=3, nf=1), workers=4),
    J(F, 'fault_inuse', 'the failing connect is made by a slot during an invocation', dict(pre=2, wh=2), dict(pre=2, nf=2), workers=8),
    J(F, 'fault_cleanup', 'cleanup of disconnected slots fails half way', dict(pre=3, wh=2), dict(pre=4), workers=8),
    J(F, 'fault_many', 'failing cleanup of more slots than the garbage buffer holds', dict(n=12), dict(n=21), workers=2),
    J(F, 'fault_slot', 'construction of slots and signals, track, set_combiner', dict(nf=1), dict(nf=2), workers=2),
    J(F, 'fault_chain', 'connecting signals; blocks', dict(nf=1), dict(nf=2), workers=2),
])
PROPS['C19'] = dict(jobs=[
    J(M, 'excl2', 'two threads, programs of lock, try_lock, unique_lock on one or two mutexes', dict(len=2), dict(len=3), qpreempt=3, tpreempt=4),
    J(M, 'excl3', 'three threads', dict(len=1), dict(len=2), qpreempt=2, tpreempt=2, workers=4),
    J(M, 'waits', 'lock() waits and sees what was done before', qpreempt=3, tpreempt=6, workers=1), J(M, 'tries', 'try_lock() against an owner', qpreempt=3, tpreempt=6, workers=1),
    J(M, 'seq', 'one thread, sequences on two mutexes', dict(len=5), dict(len=8)),
    J(M, 'dummy_ops', 'dummy_mutex never blocks', dict(len=4), dict(len=6), workers=1),
    J(M, 'dummy_signal', 'a signal with dummy_mutex acquires no mutex', dict(len=3), dict(len=4)),
])
PROPS['C20'] = dict(jobs=[
    J(D, 'decon_basic', 'every form of construction and postconstruct, every way to release'), J(D, 'decon_fault', 'constructor, hook or allocation fails'), J(D, 'decon_kinds', 'alignment, enable_shared_from_this, hooks that keep the owner, inherited hooks'),
    J(D, 'decon_many', 'histories of three owners', dict(len=5), dict(len=6), workers=4), J(D, 'decon_args', 'symbolic arguments, value categories'),
])
PROPS['C21'] = dict(jobs=[
    J(D, 'dptr', 'five kinds of classes, with and without deleter, failing allocations and hooks'), J(D, 'dptr_null', 'null pointers, base pointers'), J(D, 'dptr_many', 'histories of three owners', dict(len=5), dict(len=6), workers=4),
])
OLDV = ['-DOLD', '-DBOOST_NO_CXX11_VARIADIC_TEMPLATES']; OLDR = ['-DOLD', '-DBOOST_NO_CXX11_RVALUE_REFERENCES']; NOTHR = ['-DBOOST_DISABLE_THREADS']
PROPS['C20']['jobs'] += [J(D, 'decon_arity', 'constructors and postconstruct with every number of arguments')] + [
    J(D, e, a + ', without ' + w, defs=d) for d, w in ((OLDV, 'variadic templates'), (OLDR, 'rvalue references')) for e, a in (('decon_arity', 'every number of arguments'), ('decon_basic', 'every form'), ('decon_fault', 'failures'))]
PROPS['C22'] = dict(jobs=[
    J(CH, 'chain_hist', 'history of connecting, disconnecting, destroying and invoking chained signals', dict(len=2), dict(len=3), workers=8),
    J(CH, 'chain_topo', 'every topology of three signals', dict(len=2), dict(len=3), workers=4),
    J(CH, 'chain_inflight', 'chained signals destroyed or disconnected during an invocation'), J(CH, 'chain_types', 'result and argument kinds', workers=1),
    J(CH, 'chain_dup', 'one signal connected several times, disconnected by signal, group, handle', dict(n=3, len=2), dict(n=4, len=2), workers=8),
])
PROPS['C23'] = dict(jobs=[
    J(CH, 'move_hist', 'swap, move construction and assignment within a history', dict(pre=3, len=2), dict(pre=3, len=3), workers=8),
    J(CH, 'move_misc', 'moved-from signals, self swap, moves of combiners', workers=2),
    J(CH, 'move_inflight', 'moved, swapped, assigned or destroyed by a slot during an invocation through another signal', workers=2),
])
PROPS['C25'] = dict(jobs=[
    J(BI, 'trk_forms', 'every way of binding a trackable object', dict(len=2), dict(len=3), workers=4),
    J(BI, 'trk_inflight', 'a trackable object destroyed by a slot'), J(BI, 'trk_copy', 'copies and assignments of trackable objects', dict(len=4), dict(len=6), workers=4),
])
PROPS['C26'] = dict(jobs=[
    J(BI, 'ext_slots', 'extended slots: the connection they receive, used in every way', dict(n=3), dict(n=4), workers=2),
    J(BI, 'ext_misc', 'groups, positions, copies, tracked extended slots'), J(BI, 'ext_thread', 'the signal invoked by another thread before connect_extended returned', qpreempt=2, tpreempt=6),
    J(K, 'expiry_via', 'tracked objects of extended slots', dict(n=2), dict(n=3), workers=8),
])
PROPS['C27'] = dict(jobs=[
    J(BI, 'slot_calls', 'calling a slot, tracked objects expired or not', workers=1), J(BI, 'slot_hist', 'history of slot copies, assignments, track, expiry', dict(len=3), dict(len=5), workers=4), J(BI, 'slot_keep', 'tracked objects live during a call'), J(BI, 'slot_kinds', 'slots made of every kind of function', workers=1),
    J(K, 'expiry_via', 'tracked objects carried over by conversion, assignment and track(slot)', dict(n=2), dict(n=3), workers=8),
])
PROPS['C28'] = dict(jobs=[
    J(CU, 'churn_word', 'every word of operations, repeated: the memory held stays bounded', dict(len=3, rep=48, letters=17), dict(len=4, rep=48, letters=17), workers=8),
    J(CU, 'churn_inside', 'words repeated inside one invocation', dict(len=2), dict(len=3), workers=4),
    J(CU, 'churn_burst', 'many slots connected, disconnected, collected', dict(n=24), dict(n=60)), J(CU, 'churn_handles', 'many handles and blocks on one connection', dict(n=8), dict(n=20)),
])
PROPS['C29'] = dict(jobs=[J(AU, e, a, dict(len=2), dict(len=3), workers=2) for e, a in (
    ('buf_int', 'histories of operations, ints, inline buffer of 10'), ('buf_int0', 'no inline buffer'), ('buf_pod', 'structures'), ('buf_el', 'elements with identity'), ('buf_el0', 'elements with identity, no inline buffer'), ('buf_el10', 'inline buffer of 10'),
    ('buf_sp', 'shared pointers'), ('buf_var', 'variants of pointers, as the library uses them'), ('buf_bytes', 'bytes'), ('buf_fault', 'copies and allocations fail'), ('buf_fault0', 'failures without inline buffer'), ('buf_fault_int', 'failures with ints'), ('buf_fault_sp', 'failures with shared pointers'))] + [
    J(AU, 'grow_el', 'growth to any size', workers=1), J(AU, 'grow_int', 'growth to any size', workers=1), J(AU, 'grow_sp', 'growth to any size', workers=1)])
PROPS['C31'] = dict(jobs=[
    J(CF, 'cfg_lock', 'one history drives signals with mutex, dummy_mutex, a user mutex, other group, comparator and function types in lock step', dict(pre=1, len=2), dict(pre=2, len=2), workers=8, defs=['-DCFG_PART=1']),
    J(CF, 'cfg_lock2', 'function-pointer and stateful comparators, slot function types', dict(pre=2, len=1), dict(pre=2, len=2), workers=8, defs=['-DCFG_PART=1']),
    J(CF, 'arity', 'arities 0 to 9, every kind of slot', workers=4, defs=['-DCFG_PART=2']), J(CF, 'arity_big', 'arities above 9', workers=1, defs=['-DCFG_PART=2']), J(CF, 'arg_types', 'the types signals and slots name', workers=1, defs=['-DCFG_PART=2']), J(CF, 'arg_types', 'the types signals and slots name', workers=1, defs=['-DCFG_PART=2'] + OLDV),
    J(AR, 'args_int', 'arguments, without variadic templates', dict(n=2), dict(n=3), defs=OLDV), J(AR, 'args_chain', 'arguments, without variadic templates', dict(n=2), dict(n=3), defs=OLDV), J(AR, 'args_refs', 'arguments, without variadic templates', workers=1, defs=OLDV), J(AR, 'args_comb', 'arguments, without rvalue references', dict(n=2), dict(n=3), defs=OLDR),
] + [J(CF, e, 'without ' + w, q, q, workers=8, defs=d + (['-DCFG_PART=2'] if e == 'arity' else ['-DCFG_PART=1'])) for d, w in ((OLDV, 'variadic templates'), (OLDR, 'rvalue references'), (NOTHR, 'threads')) for e, q in (('cfg_lock', dict(pre=1, len=1)), ('cfg_lock2', dict(pre=1, len=1)), ('arity', {}))] + [
  J(tu, e, a + ', without ' + w, q, t, workers=4, defs=d) for d, w in ((OLDV, 'variadic templates'), (OLDR, 'rvalue references'), (NOTHR, 'threads')) for tu, e, a, q, t in (
    (H, 'order_churn', 'order', dict(pre=2, len=2), dict(pre=3, len=2)), (H, 'once_hist', 'calls', dict(len=3), dict(len=4)), (H, 'disc_hist', 'disconnection', dict(len=3), dict(len=4)), (H, 'disc_fn', 'disconnection by function', dict(len=3), dict(len=4)), (H, 'block_pool', 'blocking', dict(len=2), dict(len=3)),
    (K, 'expiry', 'tracking', dict(n=2), dict(n=3)), (K, 'keep_small', 'tracked lifetimes', {}, {}), (O, 'pull', 'combiners', dict(n=2, budget=4), dict(n=3, budget=5)), (L, 'ex_mixed', 'exceptions', dict(pre=2, acts=2), dict(pre=2, acts=3)), (R, 're_all', 're-entrant use', dict(pre=2, acts=1), dict(pre=2, acts=2)),
    (BI, 'slot_calls', 'slots', {}, {}), (BI, 'slot_hist', 'slots', dict(len=2), dict(len=3)), (BI, 'ext_slots', 'extended slots', dict(n=2), dict(n=3)), (BI, 'trk_forms', 'trackable', dict(len=1), dict(len=2)))])
PROPS['C32'] = dict(jobs=[
    J(CF, 'st_pairs', 'signal_type with keywords in several orders against the explicit type in lock step, locks and function calls counted', dict(pre=1, len=1), dict(pre=2, len=1), workers=8, defs=['-DCFG_PART=3']),
    J(CF, 'st_default', 'defaults', workers=1, defs=['-DCFG_PART=3'])])
WIN = ['-include', 'win.hpp']; import os; WINH = WIN + ['-DBOOST_USE_WINDOWS_H', '-I' + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'winh')]
PROPS['C33'] = dict(assumptions=['the Windows API is modelled: a critical section is a recursive lock owned by a thread (harness/win.hpp)'], jobs=[
    J(M, 'excl2', 'two threads on the critical-section mutex', dict(len=2), dict(len=3), defs=WIN, qpreempt=3, tpreempt=4), J(M, 'excl3', 'three threads', dict(len=1), dict(len=2), defs=WIN, qpreempt=2, tpreempt=2, workers=4),
    J(M, 'waits', 'lock() waits', defs=WIN, qpreempt=3, tpreempt=6, workers=1), J(M, 'tries', 'try_lock() against an owner', defs=WIN, qpreempt=3, tpreempt=6, workers=1), J(M, 'seq', 'one thread, two mutexes', dict(len=5), dict(len=8), defs=WIN),
    J(M, 'excl2', 'with windows.h', dict(len=1), dict(len=2), defs=WINH, qpreempt=3, tpreempt=4), J(M, 'tries', 'with windows.h', defs=WINH, qpreempt=3, tpreempt=6, workers=1), J(M, 'waits', 'with windows.h', defs=WINH, qpreempt=3, tpreempt=6, workers=1),
] + [J(T, e, 'two threads on a signal with the Windows mutex', defs=WIN, workers=8, qpreempt=1, tpreempt=2) for e in ('race_a', 'race_b', 'race_c')])
# --- the general model (harness/world.hpp): slots of every flavour, every operation, at top level and inside slots
WO = 'world.cpp'
W = dict(
    w_track=lambda: J(WO, 'w_track', 'general model: tracked objects, groups, blocks, queries', dict(), dict(len=3), workers=8),
    w_kinds=lambda: J(WO, 'w_kinds', 'general model: foreign, trackable and signal objects tracked by plain and extended slots', dict(), dict(len=3), workers=8),
    w_keep=lambda: J(WO, 'w_keep', 'general model: owners released inside slots', dict(), {'len': 2, 'in': 2}, workers=8),
    w_block=lambda: J(WO, 'w_block', 'general model: blocks on every flavour of slot', dict(len=2), dict(len=3), workers=8),
    w_block_in=lambda: J(WO, 'w_block_in', 'general model: blocks taken and released inside slots', dict(len=1), {'len': 2, 'in': 2}, workers=8),
    w_disc=lambda: J(WO, 'w_disc', 'general model: every way to disconnect, blocked and equal slots', dict(), dict(pre=3, len=2), workers=8),
    w_disc_in=lambda: J(WO, 'w_disc_in', 'general model: every way to disconnect from inside slots', dict(), {'pre': 3, 'len': 1, 'in': 2}, workers=8),
    w_reent=lambda: J(WO, 'w_reent', 'general model: every action from inside slots', dict(), {'pre': 2, 'len': 2, 'in': 2}, workers=8),
    w_order=lambda: J(WO, 'w_order', 'general model: every place, connects and disconnects', dict(), {'pre': 2, 'len': 3}, workers=8),
    w_order_in=lambda: J(WO, 'w_order_in', 'general model: every place, connects and disconnects inside slots', {'len': 1, 'in': 2}, {'len': 2, 'in': 2}, workers=8),
    w_exc=lambda: J(WO, 'w_exc', 'general model: slots throw any exception', dict(), {'pre': 3, 'len': 2, 'in': 2}, workers=8),
    w_pull=lambda: J(WO, 'w_pull', 'general model: combiners that skip positions and stop early', dict(), {'pre': 3, 'len': 1, 'in': 4}, workers=8),
    w_move=lambda: J(WO, 'w_move', 'general model: moves and swaps', dict(len=2), dict(len=3), workers=8),
    w_comb=lambda: J(WO, 'w_comb', 'general model: combiner replaced at any point', dict(), {'pre': 2, 'len': 3, 'in': 2}, workers=8),
    w_ext=lambda: J(WO, 'w_ext', 'general model: extended slots', dict(), {'pre': 2, 'len': 2, 'in': 2}, workers=8),
)
for p, es in dict(C01='w_order w_order_in', C02='w_track w_reent w_order', C03='w_disc w_disc_in w_block', C04='w_block w_block_in', C05='w_block w_move', C06='w_track w_kinds', C07='w_track w_keep', C08='w_keep w_block_in w_disc_in w_reent w_order_in',
                  C09='w_pull', C10='w_exc', C11='w_exc w_comb', C13='w_disc_in w_exc w_pull', C14='w_keep w_exc w_disc_in', C23='w_move w_kinds', C24='w_comb w_order', C26='w_ext').items():
    PROPS[p]['jobs'] += [W[e]() for e in es.split()]
# --- entries that also decide further properties
X = dict(re_all=(R, dict(pre=2, acts=2), dict(pre=3, acts=2)), re_group=(R, dict(pre=2, acts=2), dict(pre=2, acts=3)), re_block=(R, dict(pre=3, acts=3), dict(pre=3, acts=4)), fn_life=(L, dict(pre=2, acts=3), dict(pre=3, acts=3)),
    fn_life_ex=(L, dict(pre=3, acts=2), dict(pre=3, acts=3)), fn_life_track=(L, dict(pre=2, acts=2), dict(pre=2, acts=3)), ex_track=(L, dict(pre=2, acts=2), dict(pre=3, acts=2)), fn_handles=(L, dict(len=3), dict(len=5)), sig_destroy=(L, dict(len=4), dict(len=6)),
    sig_inflight=(L, {}, {}), chain_dup=(CH, dict(n=3, len=2), dict(n=4, len=2)), chain_hist=(CH, dict(len=2), dict(len=3)), chain_inflight=(CH, {}, {}), fault_chain=(F, dict(nf=1), dict(nf=2)), fault_inuse=(F, dict(pre=2, wh=2), dict(pre=2, nf=2)), trk_forms=(BI, dict(len=2), dict(len=3)), disc_group=(H, dict(pre=3, len=2), dict(pre=3, len=3)))
XA = dict(re_all='every kind of action from inside slots', re_group='groups connected and disconnected inside slots', re_block='blocks from inside slots', fn_life='function objects of running and connected slots', fn_life_ex='slots that disconnect and throw', fn_life_track='slots that track objects', ex_track='slots that track objects and throw',
    fn_handles='handles, blocks, tracked objects; the signal destroyed at any point', sig_destroy='destruction of signals, blocks, scoped connections, tracked objects in any order', sig_inflight='signal destroyed or cleared during an invocation', chain_dup='a signal connected several times', chain_hist='chained signals', chain_inflight='chained signals destroyed or disconnected during an invocation',
    fault_chain='connecting signals fails', fault_inuse='connects failing inside an invocation', trk_forms='trackable objects', disc_group='groups disconnected')
for p, es in dict(C01='re_group disc_group', C02='re_all', C03='re_all chain_dup fn_handles', C04='re_block', C05='fn_handles sig_destroy', C06='trk_forms chain_hist', C07='fn_life_track ex_track', C08='fn_life fault_inuse', C11='fn_life_ex', C13='sig_destroy sig_inflight re_all', C22='fault_chain', C30='chain_inflight fn_handles').items():
    PROPS[p]['jobs'] += [J(X[e][0], e, XA[e], X[e][1], X[e][2], workers=8) for e in es.split()]
for p, es in dict(C06=('tracked_one', 'last owner released concurrently'), C04=('block_window', 'block taken and released against an invocation'), C03=('disc_once', 'concurrent disconnects of one connection')).items():
    PROPS[p]['jobs'].append(J(T2, es[0], es[1], workers=8, qpreempt=2, tpreempt=2))
for p in ('C06', 'C26', 'C27'): PROPS[p]['jobs'].append(J(K, 'expiry_many', 'many tracked objects, on every route into the connected slot; any one expires', dict(sizes=4), dict(sizes=6), workers=4))
for p in ('C06', 'C22', 'C25'): PROPS[p]['jobs'].append(J(BI, 'trk_sigs', 'functions bound to signals and trackable objects together', workers=4))
for p in ('C15', 'C16'): PROPS[p]['jobs'].append(J(T2, 'vis_cleanup', 'an invocation that ends by collecting disconnected slots, against another thread', dict(inv=1), dict(inv=2), workers=8, qpreempt=3, tpreempt=3))
PROPS['C17']['jobs'] += [J(T2, 'tracked_std', 'std::shared_ptr objects released concurrently', workers=8, qpreempt=2, tpreempt=3), J(T2, 'tracked_many', 'the last of many tracked objects released concurrently', workers=8, qpreempt=2, tpreempt=3)]
PROPS['C06']['jobs'].append(J(T2, 'tracked_std', 'std::shared_ptr objects released concurrently', workers=8, qpreempt=1, tpreempt=2))
# --- preemption bounds
for p in PROPS.values():
    for j in p['jobs']:
        e = j['entry']
        if e in ('race_a', 'race_b', 'race_c', 'tracked_one', 'tracked_std', 'tracked_many', 'block_window', 'disc_once', 'destroy_thr', 'comb_thr', 'blocks2') and 'defs' not in j: j['quick']['preempt'] = 3; j['thorough']['preempt'] = 5 if e in ('race_a', 'race_b', 'race_c', 'tracked_one', 'block_window', 'tracked_many') else 4
        if e in ('vis_two', 'destroy_thr3') : j['quick']['preempt'] = 2
        if e == 'vis_inv2': j['quick']['preempt'] = 3
PROPS['C11']['jobs'] += [J(F, 'fault_invoke', 'an invocation, query or disconnect meets a failing allocation, copy or comparison', dict(pre=3), dict(pre=4), workers=8), J(F, 'fault_call', 'an invocation or slot call without memory for its tracked objects')]
PROPS['C12']['jobs'] += [J(F, 'fault_invoke', 'an invocation, query or disconnect meets a failing allocation, copy or comparison', dict(pre=3), dict(pre=4), workers=8)]
