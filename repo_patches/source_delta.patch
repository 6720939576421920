From 2245558f9e2ca2fecc2ba388be402179ed315868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 01/10] fix: use the signal's group compare object in the slot
 group map

---
 include/boost/signals2/detail/slot_groups.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/slot_groups.hpp b/include/boost/signals2/detail/slot_groups.hpp
index 5e1853a..118a4ae 100644
--- a/include/boost/signals2/detail/slot_groups.hpp
+++ b/include/boost/signals2/detail/slot_groups.hpp
@@ -64,7 +64,7 @@ namespace boost {
         typedef typename group_key<Group>::type group_key_type;
 
         grouped_list(const group_key_compare_type &group_key_compare):
-          _group_key_compare(group_key_compare)
+          _group_map(group_key_compare), _group_key_compare(group_key_compare)
         {}
         grouped_list(const grouped_list &other): _list(other._list),
           _group_map(other._group_map), _group_key_compare(other._group_key_compare)
-- 
2.43.0


From fb31b2f623997086e547a2ce53c31d673dbf747e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:02 +0000
Subject: [PATCH 02/10] fix: connection::blocked() must hold the lock and be
 true once disconnected

---
 include/boost/signals2/connection.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/signals2/connection.hpp b/include/boost/signals2/connection.hpp
index 6449735..ec3d18e 100644
--- a/include/boost/signals2/connection.hpp
+++ b/include/boost/signals2/connection.hpp
@@ -89,13 +89,15 @@ namespace boost
           }
           return blocker;
         }
-        bool blocked() const
+        bool blocked()
         {
-          return !_weak_blocker.expired();
+          if(connected() == false) return true;
+          unique_lock<connection_body_base> local_lock(*this);
+          return nolock_nograb_blocked();
         }
         bool nolock_nograb_blocked() const
         {
-          return nolock_nograb_connected() == false || blocked();
+          return nolock_nograb_connected() == false || !_weak_blocker.expired();
         }
         bool nolock_nograb_connected() const {return _connected;}
         // expose part of Lockable concept of mutex
-- 
2.43.0


From 57556ceeda0d6a622d67143d90e7d84ec3ffbd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:48 +0000
Subject: [PATCH 03/10] fix: set_combiner must not touch the combiner and slot
 list of invocations in progress

A unique invocation state could still share its combiner with the state of a
running invocation, so assigning to it changed a combiner in use; a shared
state was replaced by one sharing the connection list, so later connects
modified a list being iterated and kept a stale garbage collector iterator.
---
 .../boost/signals2/detail/signal_template.hpp  | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 61e486b..80344b5 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -306,11 +306,14 @@ namespace boost
         }
         void set_combiner(const combiner_type &combiner_arg)
         {
-          unique_lock<mutex_type> lock(*_mutex);
-          if(_shared_state.unique())
-            _shared_state->combiner() = combiner_arg;
-          else
-            _shared_state = boost::make_shared<invocation_state>(*_shared_state, combiner_arg);
+          // declared before the lock, so the replaced combiner is
+          // destroyed after the lock is released.
+          shared_ptr<combiner_type> new_combiner(new combiner_type(combiner_arg));
+          garbage_collecting_lock<mutex_type> lock(*_mutex);
+          /* Invocations in progress must keep both their combiner and
+          their connection list. */
+          nolock_force_unique_connection_list(lock);
+          _shared_state->swap_combiner(new_combiner);
         }
       private:
         typedef Mutex mutex_type;
@@ -391,14 +394,11 @@ namespace boost
             _connection_bodies(new connection_list_type(connections_in)),
             _combiner(other._combiner)
           {}
-          invocation_state(const invocation_state &other, const combiner_type &combiner_in):
-            _connection_bodies(other._connection_bodies),
-            _combiner(new combiner_type(combiner_in))
-          {}
           connection_list_type & connection_bodies() { return *_connection_bodies; }
           const connection_list_type & connection_bodies() const { return *_connection_bodies; }
           combiner_type & combiner() { return *_combiner; }
           const combiner_type & combiner() const { return *_combiner; }
+          void swap_combiner(shared_ptr<combiner_type> &other) { _combiner.swap(other); }
         private:
           invocation_state(const invocation_state &);
 
-- 
2.43.0


From fb81510ab1effd4192c46ebe72de74112fba806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 04/10] fix: connection::connected() must not own tracked
 objects

Locking the tracked weak pointers could make the query the last owner when
another thread releases the object meanwhile, so its destructor ran with the
signal's mutex held and deadlocked if it used the signal.
---
 include/boost/signals2/connection.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/signals2/connection.hpp b/include/boost/signals2/connection.hpp
index ec3d18e..9cc4102 100644
--- a/include/boost/signals2/connection.hpp
+++ b/include/boost/signals2/connection.hpp
@@ -152,13 +152,15 @@ namespace boost
         virtual bool connected() const
         {
           garbage_collecting_lock<mutex_type> local_lock(*_mutex);
-          nolock_grab_tracked_objects(local_lock, detail::null_output_iterator());
+          // only check for expiration: briefly owning the tracked objects here
+          // could make this the last owner, destroying them with the mutex locked
+          disconnect_expired_slot(local_lock);
           return nolock_nograb_connected();
         }
         const GroupKey& group_key() const {return _group_key;}
         void set_group_key(const GroupKey &key) {_group_key = key;}
         template<typename M>
-        void disconnect_expired_slot(garbage_collecting_lock<M> &lock_arg)
+        void disconnect_expired_slot(garbage_collecting_lock<M> &lock_arg) const
         {
           if(!m_slot) return;
           bool expired = slot().expired();
-- 
2.43.0


From 897fd44ebf1b1f8ab9452f0bf707132707981286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 05/10] fix: connect_extended() must not copy or destroy slot
 functions under the lock

---
 include/boost/signals2/detail/signal_template.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 80344b5..d5cf5b0 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -176,9 +176,9 @@ namespace boost
         // connect extended slot
         connection connect_extended(const extended_slot_type &ext_slot, connect_position position = at_back)
         {
-          garbage_collecting_lock<mutex_type> lock(*_mutex);
           bound_extended_slot_function_type bound_slot(ext_slot.slot_function());
           slot_type slot = replace_slot_function<slot_type>(ext_slot, bound_slot);
+          garbage_collecting_lock<mutex_type> lock(*_mutex);
           connection conn = nolock_connect(lock, slot, position);
           bound_slot.set_connection(conn);
           return conn;
@@ -186,9 +186,9 @@ namespace boost
         connection connect_extended(const group_type &group,
           const extended_slot_type &ext_slot, connect_position position = at_back)
         {
-          garbage_collecting_lock<Mutex> lock(*_mutex);
           bound_extended_slot_function_type bound_slot(ext_slot.slot_function());
           slot_type slot = replace_slot_function<slot_type>(ext_slot, bound_slot);
+          garbage_collecting_lock<Mutex> lock(*_mutex);
           connection conn = nolock_connect(lock, group, slot, position);
           bound_slot.set_connection(conn);
           return conn;
-- 
2.43.0


From 22006cbe8bc46f57aca466002a8d17ec8031cfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 06/10] fix: a failing connect() must not leave the slot in the
 list

grouped_list::m_insert inserted into the list before the group map; when the
map insertion threw, the connection stayed in the list, and when the group
comparison threw after erasing the map entry the group was lost.
---
 include/boost/signals2/detail/slot_groups.hpp | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/boost/signals2/detail/slot_groups.hpp b/include/boost/signals2/detail/slot_groups.hpp
index 118a4ae..a575d25 100644
--- a/include/boost/signals2/detail/slot_groups.hpp
+++ b/include/boost/signals2/detail/slot_groups.hpp
@@ -182,20 +182,25 @@ namespace boost {
         void m_insert(const map_iterator &map_it, const group_key_type &key, const ValueType &value)
         {
           iterator list_it = get_list_iterator(map_it);
-          iterator new_it = _list.insert(list_it, value);
+          // prepare everything which might throw before modifying _list
+          list_type new_list(1, value);
+          iterator new_it = new_list.begin();
           if(map_it != _group_map.end() && weakly_equivalent(key, map_it->first))
           {
-            _group_map.erase(map_it);
-          }
-          map_iterator lower_bound_it = _group_map.lower_bound(key);
-          if(lower_bound_it == _group_map.end() ||
-            weakly_equivalent(lower_bound_it->first, key) == false)
+            map_it->second = new_it;
+          }else
           {
-            /* doing the following instead of just
-              _group_map[key] = new_it;
-              to avoid bogus error when enabling checked iterators with g++ */
-            _group_map.insert(typename map_type::value_type(key, new_it));
+            map_iterator lower_bound_it = _group_map.lower_bound(key);
+            if(lower_bound_it == _group_map.end() ||
+              weakly_equivalent(lower_bound_it->first, key) == false)
+            {
+              /* doing the following instead of just
+                _group_map[key] = new_it;
+                to avoid bogus error when enabling checked iterators with g++ */
+              _group_map.insert(typename map_type::value_type(key, new_it));
+            }
           }
+          _list.splice(list_it, new_list);
         }
         iterator get_list_iterator(const const_map_iterator &map_it)
         {
-- 
2.43.0


From 1d5d7371eaa67a5d4d699293d32b26f30f689773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:47 +0000
Subject: [PATCH 07/10] fix: keep the garbage collector position valid when
 cleanup throws

The position could be left pointing at an erased list element, or into the
list of an earlier state, if a group comparison or an allocation failed
while disconnected slots were being removed.
---
 include/boost/signals2/detail/signal_template.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index d5cf5b0..53c2b59 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -440,6 +440,8 @@ namespace boost
           BOOST_ASSERT(_shared_state.unique());
           typename connection_list_type::iterator it;
           unsigned i;
+          // must not be left pointing at an erased element if something throws
+          _garbage_collector_it = begin;
           for(it = begin, i = 0;
             it != _shared_state->connection_bodies().end() && (count == 0 || i < count);
             ++i)
@@ -451,6 +453,7 @@ namespace boost
             if(connected == false)
             {
               it = _shared_state->connection_bodies().erase((*it)->group_key(), it);
+              _garbage_collector_it = it;
             }else
             {
               ++it;
-- 
2.43.0


From c1fd956566d7d4e2636c709c41e525ba0cbb2785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:44 +0000
Subject: [PATCH 08/10] fix: destroying a signal disconnects its slots even
 while another thread uses a connection

---
 include/boost/signals2/detail/signal_template.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 53c2b59..d801a09 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -161,6 +161,12 @@ namespace boost
           _garbage_collector_it(_shared_state->connection_bodies().end()),
           _mutex(new mutex_type())
         {}
+        // another thread that is just using a connection keeps its body alive,
+        // so destroying the connection list is not enough to disconnect it.
+        ~BOOST_SIGNALS2_SIGNAL_IMPL_CLASS_NAME(BOOST_SIGNALS2_NUM_ARGS)()
+        {
+          disconnect_all_slots();
+        }
         // connect slot
         connection connect(const slot_type &slot, connect_position position = at_back)
         {
-- 
2.43.0


From 986d1d75ddce5d59f188766c2081720cfd31fc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:11 +0000
Subject: [PATCH 09/10] fix: slot::track() of the slot itself traversed its own
 growing container

---
 include/boost/signals2/detail/slot_template.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/signals2/detail/slot_template.hpp b/include/boost/signals2/detail/slot_template.hpp
index 1c17c5b..e83f49e 100644
--- a/include/boost/signals2/detail/slot_template.hpp
+++ b/include/boost/signals2/detail/slot_template.hpp
@@ -123,6 +123,8 @@ namespace boost
       }
       BOOST_SIGNALS2_SLOT_CLASS_NAME(BOOST_SIGNALS2_NUM_ARGS)& track(const slot_base &slot)
       {
+        // a slot's own container must not grow while it is traversed
+        if(&slot == this) return track(slot_base(slot));
         tracked_container_type::const_iterator it;
         for(it = slot.tracked_objects().begin(); it != slot.tracked_objects().end(); ++it)
         {
-- 
2.43.0


From 6c2d4ae4d071e8b1ef9c4d919e8688bbba0b3619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:50 +0000
Subject: [PATCH 10/10] fix: a failing cleanup after an invocation terminated
 the program

---
 include/boost/signals2/detail/signal_template.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index d801a09..9e86bac 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -429,7 +429,14 @@ namespace boost
             // force a full cleanup of disconnected slots if there are too many
             if(_cache.disconnected_slot_count > _cache.connected_slot_count)
             {
-              _sig.force_cleanup_connections(_connection_bodies);
+              // must not throw from a destructor; a later cleanup makes up for it
+              BOOST_TRY
+              {
+                _sig.force_cleanup_connections(_connection_bodies);
+              }
+              BOOST_CATCH(...)
+              {}
+              BOOST_CATCH_END
             }
           }
         private:
-- 
2.43.0

