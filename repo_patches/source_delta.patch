From fd47301ad7558b1f10341b2cb12f555cd8b40890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:39 +0000
Subject: [PATCH 01/50] fix: thread_pool destructor must not hold the task
 mutex while joining its workers

---
 threads/thread_pool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/threads/thread_pool.cc b/threads/thread_pool.cc
index 21278a7..5fcda2c 100644
--- a/threads/thread_pool.cc
+++ b/threads/thread_pool.cc
@@ -59,7 +59,7 @@ thread_pool::thread_pool(unsigned num_threads) {
  * Stop the scheduler and terminate the threads used to execute tasks.
  */
 thread_pool::~thread_pool() {
-    write_lock_guard guard(_task_mutex);
+    // workers need the task mutex to finish, so it can not be held here
     this->_running = false;
     for (auto& thread : _thread_list) {
         thread.join();
-- 
2.43.0


From 860834bc01468d01fdd53fe96bdb58dd89b1597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:39 +0000
Subject: [PATCH 02/50] fix: assign task ids with a single atomic operation so
 they are unique

---
 threads/thread_task.cc | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/threads/thread_task.cc b/threads/thread_task.cc
index 2dbd9c7..df628b9 100755
--- a/threads/thread_task.cc
+++ b/threads/thread_task.cc
@@ -7,7 +7,6 @@
 #include <usml/threads/thread_task.h>
 
 #include <iostream>
-#include <limits>
 
 using namespace usml::threads;
 using namespace std;
@@ -23,12 +22,7 @@ std::atomic<std::size_t> thread_task::_num_active = 0;
  */
 thread_task::thread_task() {
     _abort = false;
-    _id = _id_next;
-    if (_id_next == std::numeric_limits<std::size_t>::max()) {
-        _id_next = 0;
-    } else {
-        ++_id_next;
-    }
+    _id = _id_next++;  // atomic, wraps around back to zero
     ++_num_active;
 }
 
-- 
2.43.0


From 667ff5b07e96adb1efb26bbc8f3f71fb286cb048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:39 +0000
Subject: [PATCH 03/50] fix: tasks discarded before they start no longer count
 as active

---
 threads/thread_task.cc |  1 +
 threads/thread_task.h  | 10 ++++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/threads/thread_task.cc b/threads/thread_task.cc
index df628b9..16514aa 100755
--- a/threads/thread_task.cc
+++ b/threads/thread_task.cc
@@ -30,6 +30,7 @@ thread_task::thread_task() {
  * Initiates a task in the thread pool.
  */
 void thread_task::start() {
+    _started = true;
     try {
         run();  // invoke the user's version of this task
     } catch (std::exception& ex) {
diff --git a/threads/thread_task.h b/threads/thread_task.h
index 5bf92ca..470aa2e 100755
--- a/threads/thread_task.h
+++ b/threads/thread_task.h
@@ -59,9 +59,12 @@ class USML_DECLSPEC thread_task {
     thread_task();
 
     /**
-     * Virtual destructor.
+     * Virtual destructor. Decrements the number of active tasks if this
+     * task was discarded without ever having been started by a thread_pool.
      */
-    virtual ~thread_task() {}
+    virtual ~thread_task() {
+        if (!_started) --_num_active;
+    }
 
     /**
      * Automatically assigned identification number for this task.
@@ -142,6 +145,9 @@ class USML_DECLSPEC thread_task {
 
     /// Automatically assigned identification number for this task.
     std::size_t _id;
+
+    /// Set to true when a thread_pool starts this task.
+    bool _started{false};
 };
 
 /// @}
-- 
2.43.0


From fd66e600e4396eec73eac1c2fcbd96d783ed2e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:39 +0000
Subject: [PATCH 04/50] fix: thread_pool constructor stops its workers if a
 thread can not be created

---
 threads/thread_pool.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/threads/thread_pool.cc b/threads/thread_pool.cc
index 5fcda2c..8ebe8db 100644
--- a/threads/thread_pool.cc
+++ b/threads/thread_pool.cc
@@ -50,8 +50,17 @@ thread_pool::thread_pool(unsigned num_threads) {
 
     // create a list of threads using this worker
 
-    for (unsigned n = 0; n < num_threads; ++n) {
-        _thread_list.emplace_back(worker);
+    try {
+        for (unsigned n = 0; n < num_threads; ++n) {
+            _thread_list.emplace_back(worker);
+        }
+    } catch (...) {
+        // stop the threads that have already been created
+        this->_running = false;
+        for (auto& thread : _thread_list) {
+            thread.join();
+        }
+        throw;
     }
 }
 
-- 
2.43.0


From 33441e0de358ce910a64c064a875c9e0a63e44cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:14 +0000
Subject: [PATCH 05/50] fix: platform position and orientation are never read
 half updated

---
 platforms/platform_model.cc | 11 +++++++----
 platforms/platform_model.h  | 15 +++++++++++++--
 sensors/sensor_model.cc     |  7 ++++---
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/platforms/platform_model.cc b/platforms/platform_model.cc
index cd26d47..5f1af0d 100644
--- a/platforms/platform_model.cc
+++ b/platforms/platform_model.cc
@@ -113,10 +113,13 @@ void platform_model::update_internals(time_t time, const wposition1& pos,
                                       update_type_enum update_type) {
     // update motion of host
 
-    _time = time;
-    _position = pos;
-    _orient = orient;
-    _speed = speed;
+    {
+        write_lock_guard guard(_motion_mutex);
+        _time = time;
+        _position = pos;
+        _orient = orient;
+        _speed = speed;
+    }
 
     // update motion of children
 
diff --git a/platforms/platform_model.h b/platforms/platform_model.h
index 7a084db..0784f47 100644
--- a/platforms/platform_model.h
+++ b/platforms/platform_model.h
@@ -82,10 +82,16 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
     time_t time() const { return _time; }
 
     /// Location of the platform in world coordinates.
-    wposition1 position() const { return _position; }
+    wposition1 position() const {
+        read_lock_guard guard(_motion_mutex);
+        return _position;
+    }
 
     /// Orientation of the platform in world coordinates.
-    orientation orient() const { return _orient; }
+    orientation orient() const {
+        read_lock_guard guard(_motion_mutex);
+        return _orient;
+    }
 
     /// Platform speed in world coordinates (m/s).
     double speed() const { return _speed; }
@@ -212,6 +218,11 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
     /// Mutex to that locks object during changes.
     mutable read_write_lock _mutex;
 
+    /// Mutex that only protects the copying of motion parameters. No other lock
+    /// is ever requested while it is held, so that position() and orient() can
+    /// also be used by threads that have already locked this object.
+    mutable read_write_lock _motion_mutex;
+
     /// Container for location and orientation of platforms on platform.
     manager_template<linkage> _child_manager;
 
diff --git a/sensors/sensor_model.cc b/sensors/sensor_model.cc
index 7edf8ce..7040978 100644
--- a/sensors/sensor_model.cc
+++ b/sensors/sensor_model.cc
@@ -194,9 +194,10 @@ void sensor_model::update_internals(time_t time, const wposition1& pos,
             // count the number of targets
             size_t count = 0;
             for (const auto& target : targets) {
-                tpos.latitude(count, 0, target->position().latitude());
-                tpos.longitude(count, 0, target->position().longitude());
-                tpos.altitude(count, 0, target->position().altitude());
+                const wposition1 target_pos = target->position();
+                tpos.latitude(count, 0, target_pos.latitude());
+                tpos.longitude(count, 0, target_pos.longitude());
+                tpos.altitude(count, 0, target_pos.altitude());
                 targetIDs(count, 0) = target->keyID();
                 ++count;
             }
-- 
2.43.0


From d98f30e8345ff8eaf885a9e0ecb4b05f680d5fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:03 +0000
Subject: [PATCH 06/50] fix: a platform that is not attached to a host reports
 no host

---
 platforms/platform_model.cc | 21 ++++++++++++++++++++-
 platforms/platform_model.h  | 14 ++++++--------
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/platforms/platform_model.cc b/platforms/platform_model.cc
index 5f1af0d..1a6145b 100644
--- a/platforms/platform_model.cc
+++ b/platforms/platform_model.cc
@@ -13,6 +13,17 @@
 
 using namespace usml::platforms;
 
+/**
+ * Detaches all children, they may outlive this host.
+ */
+platform_model::~platform_model() {
+    for (const auto& link : _child_manager.list()) {
+        if (link->child->_host == this) {
+            link->child->_host = nullptr;
+        }
+    }
+}
+
 /**
  * Get all of the motion parameters, locked by a common mutex.
  */
@@ -78,7 +89,8 @@ platform_model::key_type platform_model::add_child(
     const platform_model::sptr& child, const bvector& pos,
     const orientation& orient) {
     write_lock_guard guard(mutex());
-    _child_manager.add(std::make_shared<linkage>(this, child, pos, orient));
+    _child_manager.add(std::make_shared<linkage>(child, pos, orient));
+    child->_host = this;
     update_internals(_time, _position, _orient, _speed, NO_UPDATE);
     return child->keyID();
 }
@@ -88,6 +100,13 @@ platform_model::key_type platform_model::add_child(
  */
 bool platform_model::remove_child(platform_model::key_type keyID) {
     write_lock_guard guard(mutex());
+    const linkage::sptr link = _child_manager.find(keyID);
+    if (link == nullptr) {
+        return false;
+    }
+    if (link->child->_host == this) {
+        link->child->_host = nullptr;
+    }
     return _child_manager.remove(keyID);
 }
 
diff --git a/platforms/platform_model.h b/platforms/platform_model.h
index 0784f47..2522a7f 100644
--- a/platforms/platform_model.h
+++ b/platforms/platform_model.h
@@ -13,6 +13,7 @@
 #include <usml/types/orientation.h>
 #include <usml/types/wposition1.h>
 
+#include <atomic>
 #include <list>
 #include <string>
 
@@ -70,7 +71,7 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
           _speed(speed) {}
 
     /// Virtual destructor
-    virtual ~platform_model() {}
+    virtual ~platform_model();
 
     /// Mutex to that locks object during changes.
     read_write_lock& mutex() const { return _mutex; }
@@ -191,19 +192,16 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
          * already been assigned a keyID and description, and these values can
          * be reused for this map.
          *
-         * @param host		Reference to the platform that owns this child.
          * @param child		Reference to the child to be linked to the host.
          * @param pos		Position of child relative to host.
          * @param orient	Orientation of child relative to host.
          */
-        linkage(const platform_model* host, platform_model::sptr child,
-                const bvector& pos, const orientation& orient)
+        linkage(platform_model::sptr child, const bvector& pos,
+                const orientation& orient)
             : managed_obj(child->keyID(), child->description()),
               child(child),
               position(pos),
-              orient(orient) {
-            child->_host = host;
-        }
+              orient(orient) {}
 
         /// Reference to the child platform.
         platform_model::sptr child;
@@ -227,7 +225,7 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
     manager_template<linkage> _child_manager;
 
     /// Platform that controls the motion of this platform.
-    const platform_model* _host{nullptr};
+    std::atomic<const platform_model*> _host{nullptr};
 
     /// Time of last update.
     time_t _time{0};
-- 
2.43.0


From df963b142b71319420ef76aa015911d5da0f0721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:26 +0000
Subject: [PATCH 07/50] fix: listeners can be added and removed while
 notifications are delivered

---
 managed/listener_list.h       | 136 ++++++++++++++++++++++++++++++++++
 managed/managed.h             |   1 +
 managed/update_notifier.h     |  13 ++--
 wavegen/wavefront_notifier.cc |   8 +-
 wavegen/wavefront_notifier.h  |   5 +-
 5 files changed, 149 insertions(+), 14 deletions(-)
 create mode 100644 managed/listener_list.h

diff --git a/managed/listener_list.h b/managed/listener_list.h
new file mode 100644
index 0000000..e0b584d
--- /dev/null
+++ b/managed/listener_list.h
@@ -0,0 +1,136 @@
+/**
+ * @file listener_list.h
+ * Thread-safe list of event listeners.
+ */
+#pragma once
+
+#include <usml/usml_config.h>
+
+#include <algorithm>
+#include <condition_variable>
+#include <list>
+#include <mutex>
+#include <set>
+#include <thread>
+
+namespace usml {
+namespace managed {
+
+/// @ingroup managed
+/// @{
+
+/**
+ * Thread-safe list of pointers to event listeners. Listeners can be added and
+ * removed by any thread, including from inside of a notification. No lock is
+ * held while a listener is being called.
+ *
+ * @param listener_type  Type of listener stored in this list.
+ */
+template <typename listener_type>
+class listener_list {
+   public:
+    /**
+     * Add a listener to this list.
+     */
+    void add(listener_type* listener) {
+        std::lock_guard<std::mutex> guard(_mutex);
+        _listeners.insert(listener);
+    }
+
+    /**
+     * Remove a listener from this list. Waits for other threads that are
+     * calling this listener, it will not be called after this method returns.
+     * Does not wait for threads that are themselves removing a listener from
+     * inside of a notification, because they could be waiting for this one.
+     */
+    void remove(listener_type* listener) {
+        std::unique_lock<std::mutex> guard(_mutex);
+        _listeners.erase(listener);
+        const auto self = std::this_thread::get_id();
+        mark_removing(self, true);
+        _finished.wait(guard, [this, listener, self] {
+            return std::none_of(
+                _calls.begin(), _calls.end(), [&](const call_type& call) {
+                    return call.listener == listener && call.thread != self &&
+                           !call.removing;
+                });
+        });
+        mark_removing(self, false);
+    }
+
+    /**
+     * Calls a function for each of the listeners that are registered at the
+     * beginning of this method, and have not been removed before their turn.
+     *
+     * @param notify  Function to call, with the listener as its argument.
+     */
+    template <typename function>
+    void for_each(function notify) const {
+        std::unique_lock<std::mutex> guard(_mutex);
+        const std::set<listener_type*> listeners(_listeners);
+        for (listener_type* listener : listeners) {
+            if (_listeners.count(listener) == 0) continue;
+            active_call call(this, guard, listener);
+            notify(listener);
+        }
+    }
+
+   private:
+    /// Listener that is being called.
+    struct call_type {
+        listener_type* listener;  ///< Listener that is being called.
+        std::thread::id thread;   ///< Thread that is calling this listener.
+        bool removing;            ///< True while thread is in remove().
+    };
+
+    /// Mark the calls of one thread as being inside of the remove() method.
+    void mark_removing(std::thread::id thread, bool removing) {
+        for (call_type& call : _calls) {
+            if (call.thread == thread) {
+                call.removing = removing;
+                _finished.notify_all();
+            }
+        }
+    }
+
+    /// Unlocks the list while a listener is being called.
+    class active_call {
+       public:
+        active_call(const listener_list* list,
+                    std::unique_lock<std::mutex>& guard,
+                    listener_type* listener)
+            : _list(list),
+              _guard(guard),
+              _iter(list->_calls.insert(
+                  list->_calls.end(),
+                  call_type{listener, std::this_thread::get_id(), false})) {
+            _guard.unlock();
+        }
+        ~active_call() {
+            _guard.lock();
+            _list->_calls.erase(_iter);
+            _list->_finished.notify_all();
+        }
+
+       private:
+        const listener_list* _list;
+        std::unique_lock<std::mutex>& _guard;
+        typename std::list<call_type>::iterator _iter;
+    };
+
+    /// Mutex for changes to this list.
+    mutable std::mutex _mutex;
+
+    /// Signals that a call to one of the listeners has finished.
+    mutable std::condition_variable _finished;
+
+    /// List of active listeners.
+    std::set<listener_type*> _listeners;
+
+    /// List of calls that are in progress.
+    mutable std::list<call_type> _calls;
+};
+
+/// @}
+}  // namespace managed
+}  // namespace usml
diff --git a/managed/managed.h b/managed/managed.h
index 97c36a1..8f5538a 100644
--- a/managed/managed.h
+++ b/managed/managed.h
@@ -14,6 +14,7 @@
  */
 #pragma once
 
+#include <usml/managed/listener_list.h>
 #include <usml/managed/managed_obj.h>
 #include <usml/managed/manager_listener.h>
 #include <usml/managed/manager_template.h>
diff --git a/managed/update_notifier.h b/managed/update_notifier.h
index 63d48e9..604c425 100755
--- a/managed/update_notifier.h
+++ b/managed/update_notifier.h
@@ -4,11 +4,10 @@
  */
 #pragma once
 
+#include <usml/managed/listener_list.h>
 #include <usml/managed/update_listener.h>
 #include <usml/usml_config.h>
 
-#include <set>
-
 namespace usml {
 namespace managed {
 
@@ -32,13 +31,13 @@ class USML_DECLSPEC update_notifier {
     /**
      * Add an update listener to this object.
      */
-    void add_listener(listener_type* listener) { _listeners.insert(listener); }
+    void add_listener(listener_type* listener) { _listeners.add(listener); }
 
     /**
      * Remove an update listener to this object.
      */
     void remove_listener(listener_type* listener) {
-        _listeners.erase(listener);
+        _listeners.remove(listener);
     }
 
     /**
@@ -47,14 +46,14 @@ class USML_DECLSPEC update_notifier {
      * @param object    Reference to the object that has been updated.
      */
     virtual void notify_update(const obj_type* object) const {
-        for (auto listener : _listeners) {
+        _listeners.for_each([object](listener_type* listener) {
             listener->notify_update(object);
-        }
+        });
     }
 
    private:
     /// List of active managed listeners.
-    std::set<listener_type*> _listeners;
+    listener_list<listener_type> _listeners;
 };
 
 /// @}
diff --git a/wavegen/wavefront_notifier.cc b/wavegen/wavefront_notifier.cc
index 7c69b83..6ac908b 100644
--- a/wavegen/wavefront_notifier.cc
+++ b/wavegen/wavefront_notifier.cc
@@ -13,7 +13,7 @@ using namespace usml::wavegen;
  * Add an wavefront listener to this object.
  */
 void wavefront_notifier::add_wavefront_listener(wavefront_listener* listener) {
-    _listeners.insert(listener);
+    _listeners.add(listener);
 }
 
 /**
@@ -21,7 +21,7 @@ void wavefront_notifier::add_wavefront_listener(wavefront_listener* listener) {
  */
 void wavefront_notifier::remove_wavefront_listener(
     wavefront_listener* listener) {
-    _listeners.erase(listener);
+    _listeners.remove(listener);
 }
 
 /**
@@ -30,7 +30,7 @@ void wavefront_notifier::remove_wavefront_listener(
 void wavefront_notifier::notify_wavefront_listeners(
     const sensor_model* sensor, const eigenray_collection::csptr& eigenrays,
     const eigenverb_collection::csptr& eigenverbs) {
-    for (wavefront_listener* listener : _listeners) {
+    _listeners.for_each([&](wavefront_listener* listener) {
         listener->update_wavefront_data(sensor, eigenrays, eigenverbs);
-    }
+    });
 }
diff --git a/wavegen/wavefront_notifier.h b/wavegen/wavefront_notifier.h
index a51d185..5dbb555 100644
--- a/wavegen/wavefront_notifier.h
+++ b/wavegen/wavefront_notifier.h
@@ -6,11 +6,10 @@
 
 #include <usml/eigenrays/eigenray_collection.h>
 #include <usml/eigenverbs/eigenverb_collection.h>
+#include <usml/managed/listener_list.h>
 #include <usml/usml_config.h>
 #include <usml/wavegen/wavefront_listener.h>
 
-#include <set>
-
 namespace usml {
 namespace wavegen {
 
@@ -45,7 +44,7 @@ class USML_DECLSPEC wavefront_notifier {
     /**
      * List of active wavefront listeners.
      */
-    std::set<wavefront_listener*> _listeners;
+    usml::managed::listener_list<wavefront_listener> _listeners;
 };
 
 /// @}
-- 
2.43.0


From 458accf8667b97ffb14ce75860507bdfab694a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:10 +0000
Subject: [PATCH 08/50] fix: removing a receiver also removes its pairs with
 sensors that only transmit

---
 sensors/sensor_manager.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sensors/sensor_manager.cc b/sensors/sensor_manager.cc
index 0c2415b..6fc1eef 100644
--- a/sensors/sensor_manager.cc
+++ b/sensors/sensor_manager.cc
@@ -282,7 +282,7 @@ void sensor_manager::remove_multistatic_receiver(
     const sensor_model::sptr& receiver,
     update_listener<sensor_pair>* listener) {
     auto receiverID = receiver->keyID();
-    for (auto sourceID : _rcv_list) {
+    for (auto sourceID : _src_list) {
         if (sourceID != receiverID) {
             auto source = platform_manager::instance()->find(sourceID);
             auto hash_key =
-- 
2.43.0


From 6c7234bc30715d51607d85c740e31aff292e5ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:10 +0000
Subject: [PATCH 09/50] fix: adding a sensor can not deadlock with the update
 of that sensor

---
 sensors/sensor_manager.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sensors/sensor_manager.cc b/sensors/sensor_manager.cc
index 6fc1eef..1ef1ed3 100644
--- a/sensors/sensor_manager.cc
+++ b/sensors/sensor_manager.cc
@@ -69,6 +69,12 @@ void sensor_manager::frequencies(const seq_vector::csptr& freq) {
  */
 void sensor_manager::add_sensor(const sensor_model::sptr& sensor,
                                 update_listener<sensor_pair>* listener) {
+    // query sensor before locking the manager, because sensors use the manager
+    // while they are locked
+
+    const bool is_source = sensor->is_source();
+    const bool is_receiver = sensor->is_receiver();
+
     write_lock_guard guard(_mutex);
     if (_frequencies == nullptr || _frequencies->size() < 1) {
         throw freq_missing();
@@ -85,26 +91,26 @@ void sensor_manager::add_sensor(const sensor_model::sptr& sensor,
 
     // add sensor ID to the lists of active sources and receivers
 
-    if (sensor->is_source()) {
+    if (is_source) {
         _src_list.insert(sensor->keyID());
     }
-    if (sensor->is_receiver()) {
+    if (is_receiver) {
         _rcv_list.insert(sensor->keyID());
     }
 
     // add monostatic pair if this sensor can both transmit and receive
 
-    if (sensor->is_source() && sensor->is_receiver()) {
+    if (is_source && is_receiver) {
         add_monostatic_pair(sensor, listener);
     }
 
     // add bistatic pairs for other sensors in the same multistatic group
 
     if (multistatic > 0) {
-        if (sensor->is_source()) {
+        if (is_source) {
             add_multistatic_source(sensor, multistatic, listener);
         }
-        if (sensor->is_receiver()) {
+        if (is_receiver) {
             add_multistatic_receiver(sensor, multistatic, listener);
         }
     }
-- 
2.43.0


From 38c3e971ae9a255565aa45402b8f10f24b7e562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:40 +0000
Subject: [PATCH 10/50] fix: objects removed from a manager are destroyed after
 it is unlocked

Destroying a sensor pair waits for the listener calls that are in progress,
and those can be waiting for the manager.
---
 managed/manager_template.h    |  2 ++
 platforms/platform_manager.cc |  3 +-
 sensors/sensor_manager.cc     | 53 ++++++++++++++++++++---------------
 sensors/sensor_manager.h      | 12 ++++----
 4 files changed, 40 insertions(+), 30 deletions(-)

diff --git a/managed/manager_template.h b/managed/manager_template.h
index e3993a5..713654d 100755
--- a/managed/manager_template.h
+++ b/managed/manager_template.h
@@ -87,6 +87,7 @@ class USML_DLLEXPORT manager_template {
      * @return          False if keyID was not found.
      */
     bool remove(typename obj_type::key_type keyID) {
+        typename obj_type::sptr object;  // destroyed after mutex is unlocked
         write_lock_guard guard(_mutex);
         iterator iter = _object_map.find(keyID);
         if (iter == _object_map.end()) return false;
@@ -98,6 +99,7 @@ class USML_DLLEXPORT manager_template {
 
         // remove object from manager
         // delete object when shared_ptr goes out of scope
+        object = iter->second;
         return _object_map.erase(keyID);
     }
 
diff --git a/platforms/platform_manager.cc b/platforms/platform_manager.cc
index ed4c93d..7153033 100755
--- a/platforms/platform_manager.cc
+++ b/platforms/platform_manager.cc
@@ -36,8 +36,9 @@ platform_manager* platform_manager::instance() {
  * Removes all platforms from the manager and destroys it.
  */
 void platform_manager::reset() {
+    std::unique_ptr<platform_manager> old;  // destroyed after mutex is unlocked
     write_lock_guard guard(_mutex);
-    _instance.reset();
+    old.swap(_instance);
 }
 
 /**
diff --git a/sensors/sensor_manager.cc b/sensors/sensor_manager.cc
index 1ef1ed3..aa5d069 100644
--- a/sensors/sensor_manager.cc
+++ b/sensors/sensor_manager.cc
@@ -43,8 +43,9 @@ sensor_manager* sensor_manager::instance() {
  * Reset the sensor_manager instance to empty.
  */
 void sensor_manager::reset() {
+    std::unique_ptr<sensor_manager> old;  // destroyed after mutex is unlocked
     write_lock_guard guard(_mutex);
-    _instance.reset();
+    old.swap(_instance);
     usml::platforms::platform_manager::reset();
 }
 
@@ -122,22 +123,34 @@ void sensor_manager::add_sensor(const sensor_model::sptr& sensor,
  */
 void sensor_manager::remove_sensor(const sensor_model::sptr& sensor,
                                    update_listener<sensor_pair>* listener) {
-    write_lock_guard guard(_mutex);
+    pair_list removed;
+    {
+        write_lock_guard guard(_mutex);
+
+        // remove sensor from the lists of active sources and receivers
 
-    // remove sensor from the lists of active sources and receivers
+        _src_list.erase(sensor->keyID());
+        _rcv_list.erase(sensor->keyID());
 
-    _src_list.erase(sensor->keyID());
-    _rcv_list.erase(sensor->keyID());
+        // search for pairs to remove
 
-    // search for pairs to remove
+        remove_monostatic_pair(sensor, &removed);
+        remove_multistatic_source(sensor, &removed);
+        remove_multistatic_receiver(sensor, &removed);
 
-    remove_monostatic_pair(sensor, listener);
-    remove_multistatic_source(sensor, listener);
-    remove_multistatic_receiver(sensor, listener);
+        // remove reference from platform_manager
+
+        platform_manager::instance()->remove(sensor->keyID());
+    }
 
-    // remove reference from platform_manager
+    // wait for listener calls that are in progress without locking the manager,
+    // because they can use the manager themselves
 
-    platform_manager::instance()->remove(sensor->keyID());
+    if (listener != nullptr) {
+        for (const auto& pair : removed) {
+            pair->remove_listener(listener);
+        }
+    }
 }
 
 /**
@@ -245,15 +258,13 @@ void sensor_manager::add_multistatic_receiver(
  * sensor_manager::remove_sensor().
  */
 void sensor_manager::remove_monostatic_pair(
-    const sensor_model::sptr& sensor, update_listener<sensor_pair>* listener) {
+    const sensor_model::sptr& sensor, pair_list* removed) {
     auto sensorID = sensor->keyID();
     auto hash_key = sensor_pair::generate_hash_key(sensorID, sensorID);
     auto pair = find(hash_key);
     if (pair != nullptr) {
         remove(hash_key);
-        if (listener != nullptr) {
-            pair->remove_listener(listener);
-        }
+        removed->push_back(pair);
     }
 }
 
@@ -262,7 +273,7 @@ void sensor_manager::remove_monostatic_pair(
  * sensor_manager::remove_sensor().
  */
 void sensor_manager::remove_multistatic_source(
-    const sensor_model::sptr& source, update_listener<sensor_pair>* listener) {
+    const sensor_model::sptr& source, pair_list* removed) {
     auto sourceID = source->keyID();
     for (auto receiverID : _rcv_list) {
         if (sourceID != receiverID) {
@@ -272,9 +283,7 @@ void sensor_manager::remove_multistatic_source(
             auto pair = find(hash_key);
             if (pair != nullptr) {
                 remove(hash_key);
-                if (listener != nullptr) {
-                    pair->remove_listener(listener);
-                }
+                removed->push_back(pair);
             }
         }
     }
@@ -286,7 +295,7 @@ void sensor_manager::remove_multistatic_source(
  */
 void sensor_manager::remove_multistatic_receiver(
     const sensor_model::sptr& receiver,
-    update_listener<sensor_pair>* listener) {
+    pair_list* removed) {
     auto receiverID = receiver->keyID();
     for (auto sourceID : _src_list) {
         if (sourceID != receiverID) {
@@ -296,9 +305,7 @@ void sensor_manager::remove_multistatic_receiver(
             auto pair = find(hash_key);
             if (pair != nullptr) {
                 remove(hash_key);
-                if (listener != nullptr) {
-                    pair->remove_listener(listener);
-                }
+                removed->push_back(pair);
             }
         }
     }
diff --git a/sensors/sensor_manager.h b/sensors/sensor_manager.h
index df69ebc..5461e52 100644
--- a/sensors/sensor_manager.h
+++ b/sensors/sensor_manager.h
@@ -167,30 +167,30 @@ class USML_DECLSPEC sensor_manager : public manager_template<sensor_pair> {
      * sensor_manager::remove_sensor().
      *
      * @param sensor 	Monostatic sensor to be removed.
-     * @param listener	Update listener for sensor_pair objects.
+     * @param removed	List to which the removed pairs are added.
      */
     void remove_monostatic_pair(const sensor_model::sptr& sensor,
-                                update_listener<sensor_pair>* listener);
+                                pair_list* removed);
 
     /**
      * Removes all multistatic pairs with the provided source. Called from
      * sensor_manager::remove_sensor().
      *
      * @param source 	Multistatic source to be removed.
-     * @param listener	Update listener for sensor_pair objects.
+     * @param removed	List to which the removed pairs are added.
      */
     void remove_multistatic_source(const sensor_model::sptr& source,
-                                   update_listener<sensor_pair>* listener);
+                                   pair_list* removed);
 
     /**
      * Removes all multistatic pairs with he provided receiver. Called from
      * sensor_manager::remove_sensor().
      *
      * @param receiver 	Multistatic receiver to be removed.
-     * @param listener	Update listener for sensor_pair objects.
+     * @param removed	List to which the removed pairs are added.
      */
     void remove_multistatic_receiver(const sensor_model::sptr& receiver,
-                                     update_listener<sensor_pair>* listener);
+                                     pair_list* removed);
 
     /**
      * The singleton access pointer.
-- 
2.43.0


From 82e22204189a3c268b027050deb08fe98ddfa079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:58 +0000
Subject: [PATCH 11/50] fix: background tasks keep the sensors and pairs that
 they use alive

A task could use its sensor, or a pair that it could not find in the manager
anymore, after they had been removed and destroyed.
---
 platforms/platform_model.h     |  3 ++-
 rvbts/rvbts_generator.cc       |  3 ++-
 rvbts/rvbts_generator.h        |  3 +++
 sensors/sensor_manager.cc      |  6 ++++--
 sensors/sensor_pair.cc         | 16 ++++++++++------
 sensors/sensor_pair.h          |  3 ++-
 wavegen/wavefront_generator.cc | 11 +++++++++++
 wavegen/wavefront_generator.h  | 15 ++++++++++++++-
 8 files changed, 48 insertions(+), 12 deletions(-)

diff --git a/platforms/platform_model.h b/platforms/platform_model.h
index 2522a7f..7e271a3 100644
--- a/platforms/platform_model.h
+++ b/platforms/platform_model.h
@@ -39,7 +39,8 @@ using namespace usml::types;
  * notifications for "major" changes like acoustic updates in the sub-classes.
  */
 class platform_model : public managed_obj<uint64_t, platform_model>,
-                       public update_notifier<platform_model> {
+                       public update_notifier<platform_model>,
+                       public std::enable_shared_from_this<platform_model> {
    public:
     /// Thresholds update type.
     enum update_type_enum {
diff --git a/rvbts/rvbts_generator.cc b/rvbts/rvbts_generator.cc
index fdaa55c..b250975 100644
--- a/rvbts/rvbts_generator.cc
+++ b/rvbts/rvbts_generator.cc
@@ -26,7 +26,8 @@ rvbts_generator::rvbts_generator(const sensor_pair::sptr& pair,
                                  const sensor_model::sptr& receiver,
                                  const double treverb,
                                  const biverb_collection::csptr& biverbs)
-    : _description(pair->description()),
+    : _sensor_pair(pair),
+      _description(pair->description()),
       _source(source),
       _source_pos(source->position()),
       _source_orient(source->orient()),
diff --git a/rvbts/rvbts_generator.h b/rvbts/rvbts_generator.h
index 421ba40..7a1abc7 100644
--- a/rvbts/rvbts_generator.h
+++ b/rvbts/rvbts_generator.h
@@ -79,6 +79,9 @@ class USML_DECLSPEC rvbts_generator
      */
     matrix<double> compute_src_steering() const;
 
+    /// Sensor pair to notify when complete, kept alive until then.
+    const sensor_pair::sptr _sensor_pair;
+
     /// Human readable name for this object instance.
     const std::string _description;
 
diff --git a/sensors/sensor_manager.cc b/sensors/sensor_manager.cc
index aa5d069..21be571 100644
--- a/sensors/sensor_manager.cc
+++ b/sensors/sensor_manager.cc
@@ -220,7 +220,8 @@ void sensor_manager::add_multistatic_source(
     for (auto receiverID : _rcv_list) {
         if (sourceID != receiverID) {
             auto receiver = find_sensor(receiverID);
-            if (receiver->multistatic() == multistatic) {
+            if (receiver != nullptr &&
+                receiver->multistatic() == multistatic) {
                 sensor_pair::sptr pair(new sensor_pair(source, receiver));
                 if (listener != nullptr) {
                     pair->add_listener(listener);
@@ -242,7 +243,8 @@ void sensor_manager::add_multistatic_receiver(
     for (auto sourceID : _src_list) {
         if (sourceID != receiverID) {
             auto source = find_sensor(sourceID);
-            if (source->multistatic() == multistatic) {
+            if (source != nullptr &&
+                source->multistatic() == multistatic) {
                 sensor_pair::sptr pair(new sensor_pair(source, receiver));
                 if (listener != nullptr) {
                     pair->add_listener(listener);
diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index c7cd34f..e3d9c53 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -8,7 +8,6 @@
 #include <usml/managed/manager_template.h>
 #include <usml/platforms/platform_model.h>
 #include <usml/rvbts/rvbts_generator.h>
-#include <usml/sensors/sensor_manager.h>
 #include <usml/sensors/sensor_pair.h>
 #include <usml/threads/thread_controller.h>
 #include <usml/threads/thread_pool.h>
@@ -76,6 +75,14 @@ sensor_model::sptr sensor_pair::complement(
 void sensor_pair::update_wavefront_data(
     const sensor_model* sensor, eigenray_collection::csptr eigenrays,
     eigenverb_collection::csptr eigenverbs) {
+    // keep this pair alive during the update, and ignore updates that arrive
+    // while it is being destroyed
+
+    const sensor_pair::sptr self = weak_from_this().lock();
+    if (self == nullptr) {
+        return;
+    }
+
     bool notify_early{true};
     {
         write_lock_guard guard(_mutex);
@@ -140,12 +147,10 @@ void sensor_pair::update_wavefront_data(
                 if (_biverb_task != nullptr) {  // abort incomplete tasks
                     _biverb_task->abort();
                 }
-                sensor_pair::sptr reference =
-                    sensor_manager::instance()->find(keyID());
                 eigenverb_collection::csptr src_verbs = _src_eigenverbs;
                 eigenverb_collection::csptr rcv_verbs = _rcv_eigenverbs;
                 _biverb_task = std::make_shared<biverb_generator>(
-                    reference, src_verbs, rcv_verbs);
+                    self, src_verbs, rcv_verbs);
                 thread_controller::instance()->run(_biverb_task);
                 _biverb_task.reset();  // destroy background task shared pointer
             }
@@ -188,9 +193,8 @@ void sensor_pair::notify_update(const biverb_collection::csptr* object) {
         if (_rvbts_task != nullptr) {  // abort incomplete tasks
             _rvbts_task->abort();
         }
-        sensor_pair::sptr reference = sensor_manager::instance()->find(keyID());
         _rvbts_task = std::make_shared<rvbts_generator>(
-            reference, _source, _receiver, treverb, _biverbs);
+            shared_from_this(), _source, _receiver, treverb, _biverbs);
         thread_controller::instance()->run(_rvbts_task);
         _rvbts_task.reset();  // destroy background task shared pointer
     }
diff --git a/sensors/sensor_pair.h b/sensors/sensor_pair.h
index 0674a08..a1146a1 100755
--- a/sensors/sensor_pair.h
+++ b/sensors/sensor_pair.h
@@ -62,7 +62,8 @@ class USML_DECLSPEC sensor_pair
       public wavefront_listener,
       public update_listener<biverb_collection::csptr>,
       public update_listener<rvbts_collection::csptr>,
-      public update_notifier<sensor_pair> {
+      public update_notifier<sensor_pair>,
+      public std::enable_shared_from_this<sensor_pair> {
    public:
     /**
      * Construct link between source and receiver. Makes this pair an
diff --git a/wavegen/wavefront_generator.cc b/wavegen/wavefront_generator.cc
index ba0f041..88f8e14 100755
--- a/wavegen/wavefront_generator.cc
+++ b/wavegen/wavefront_generator.cc
@@ -33,6 +33,8 @@ wavefront_generator::wavefront_generator(
     int max_bottom, int max_surface, const std::string& wavefront_file)
     : _ocean(ocean_shared::current()),
       _source(source),
+      _source_ref(source->weak_from_this()),
+      _source_shared(!_source_ref.expired()),
       _source_position(source->position()),
       _target_positions(target_positions),
       _targetIDs(targetIDs),
@@ -58,6 +60,15 @@ void wavefront_generator::run() {
         return;
     }
 
+    // keep source alive until the end of this calculation
+
+    const platform_model::sptr source_ref = _source_ref.lock();
+    if (_source_shared && source_ref == nullptr) {
+        cout << "task #" << id()
+             << " wavefront_generator *** source has been removed ***" << endl;
+        return;
+    }
+
     // create a new wavefront
 
     cout << "task #" << id()
diff --git a/wavegen/wavefront_generator.h b/wavegen/wavefront_generator.h
index fda1f92..7e6b21a 100644
--- a/wavegen/wavefront_generator.h
+++ b/wavegen/wavefront_generator.h
@@ -5,6 +5,7 @@
 #pragma once
 
 #include <usml/ocean/ocean_model.h>
+#include <usml/platforms/platform_model.h>
 #include <usml/threads/thread_task.h>
 #include <usml/types/seq_vector.h>
 #include <usml/types/wposition.h>
@@ -12,6 +13,7 @@
 #include <usml/usml_config.h>
 
 #include <boost/numeric/ublas/matrix.hpp>
+#include <memory>
 
 namespace usml {
 namespace sensors {
@@ -23,6 +25,7 @@ namespace usml {
 namespace wavegen {
 
 using namespace usml::ocean;
+using namespace usml::platforms;
 using namespace usml::sensors;
 using namespace usml::threads;
 using namespace usml::types;
@@ -43,7 +46,10 @@ class USML_DECLSPEC wavefront_generator : public thread_task {
     /**
      * Construct wavefront generator for a specific sensor.
      *
-     * @param source        	Reference to the source for this wavefront.
+     * @param source        	Reference to the source for this wavefront. If it
+     * 							is managed by a shared pointer then this task
+     * 							does nothing if it starts after the source has
+     * 							been destroyed.
      * @param target_positions 	Positions of targets for this wavefront.
      * @param targetIDs  		IDs of targets for this wavefront.
      * @param frequencies   	List of frequencies to use in wavefront calc.
@@ -81,6 +87,13 @@ class USML_DECLSPEC wavefront_generator : public thread_task {
     /// Also the destination of wavefront_listener callbacks.
     sensor_model* _source;
 
+    /// Shared reference to the source, used to keep it alive during the
+    /// calculation. Empty if source is not managed by a shared pointer.
+    std::weak_ptr<platform_model> _source_ref;
+
+    /// True if source is managed by a shared pointer.
+    const bool _source_shared;
+
     /// Position of the source at the time of invocation.
     /// Cached to avoid change while the calculation is being performed.
     const wposition1 _source_position;
-- 
2.43.0


From b8caa9bf4d3f3e2fa367d3804493e1337b91ec55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:47 +0000
Subject: [PATCH 12/50] fix: superseded background tasks never publish their
 results

The tasks of a sensor pair could not be aborted because their references were
reset right after they were launched, and an aborted task could still replace
the results of a newer one when it was about to finish.
---
 biverbs/biverb_generator.cc    |  6 ++++++
 rvbts/rvbts_generator.cc       |  6 ++++++
 sensors/sensor_model.h         |  9 +++++++++
 sensors/sensor_pair.cc         | 22 ++++++++++++----------
 sensors/sensor_pair.h          | 13 +++++++++++--
 threads/thread_task.h          |  4 ++--
 wavegen/wavefront_generator.cc |  7 +++++++
 7 files changed, 53 insertions(+), 14 deletions(-)

diff --git a/biverbs/biverb_generator.cc b/biverbs/biverb_generator.cc
index 03a8bad..ae49811 100644
--- a/biverbs/biverb_generator.cc
+++ b/biverbs/biverb_generator.cc
@@ -76,6 +76,12 @@ void biverb_generator::run() {
         }
     }
     _collection = biverb_collection::csptr(collection);
+    std::lock_guard<std::recursive_mutex> guard(_sensor_pair->publish_mutex());
+    if (_abort) {
+        cout << "task #" << id()
+             << " biverb_generator *** aborted before publication ***" << endl;
+        return;
+    }
     _done = true;
     notify_update(&_collection);
     cout << "task #" << id() << " biverb_generator: done" << endl;
diff --git a/rvbts/rvbts_generator.cc b/rvbts/rvbts_generator.cc
index b250975..b06371f 100644
--- a/rvbts/rvbts_generator.cc
+++ b/rvbts/rvbts_generator.cc
@@ -121,6 +121,12 @@ void rvbts_generator::run() {
 
     // notify listeners of results
 
+    std::lock_guard<std::recursive_mutex> guard(_sensor_pair->publish_mutex());
+    if (_abort) {
+        cout << "task #" << id()
+             << " rvbts_generator *** aborted before publication ***" << endl;
+        return;
+    }
     _done = true;
     notify_update(&result);
     cout << "task #" << id() << " rvbts_generator: done" << endl;
diff --git a/sensors/sensor_model.h b/sensors/sensor_model.h
index 5b3b6e9..265d0fb 100644
--- a/sensors/sensor_model.h
+++ b/sensors/sensor_model.h
@@ -23,6 +23,7 @@
 #include <list>
 #include <map>
 #include <memory>
+#include <mutex>
 #include <string>
 
 namespace usml {
@@ -276,6 +277,11 @@ class USML_DECLSPEC sensor_model : public platform_model,
     	_wavefront_file = filename;
     }
 
+    /// Mutex that is locked while a wavefront generator checks that it has not
+    /// been aborted and then publishes its results, so that the results of a
+    /// superseded task never replace those of a newer one.
+    std::recursive_mutex& publish_mutex() { return _publish_mutex; }
+
     /// Force wavefront calculation on next update.
     void set_needs_update() { _needs_update = true; }
 
@@ -375,6 +381,9 @@ class USML_DECLSPEC sensor_model : public platform_model,
     /// Reference to currently executing wavefront generator.
     std::shared_ptr<wavefront_generator> _wavefront_task;
 
+    /// Mutex that is locked while wavefront generators publish results.
+    std::recursive_mutex _publish_mutex;
+
     /// NetCDF file in which to store wavefront data for debugging.
     std::string _wavefront_file;
 
diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index e3d9c53..d548933 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -144,15 +144,16 @@ void sensor_pair::update_wavefront_data(
             // launch a new bistatic eigenverb generator background task
 
             if (_src_eigenverbs != nullptr && _rcv_eigenverbs != nullptr) {
-                if (_biverb_task != nullptr) {  // abort incomplete tasks
-                    _biverb_task->abort();
+                const auto old_task = _biverb_task.lock();
+                if (old_task != nullptr) {  // abort incomplete tasks
+                    old_task->abort();
                 }
                 eigenverb_collection::csptr src_verbs = _src_eigenverbs;
                 eigenverb_collection::csptr rcv_verbs = _rcv_eigenverbs;
-                _biverb_task = std::make_shared<biverb_generator>(
+                const auto new_task = std::make_shared<biverb_generator>(
                     self, src_verbs, rcv_verbs);
-                thread_controller::instance()->run(_biverb_task);
-                _biverb_task.reset();  // destroy background task shared pointer
+                _biverb_task = new_task;
+                thread_controller::instance()->run(new_task);
             }
         }
     }
@@ -190,13 +191,14 @@ void sensor_pair::notify_update(const biverb_collection::csptr* object) {
         // launch a new reverberation time series generator background task
 
         notify_early = false;
-        if (_rvbts_task != nullptr) {  // abort incomplete tasks
-            _rvbts_task->abort();
+        const auto old_task = _rvbts_task.lock();
+        if (old_task != nullptr) {  // abort incomplete tasks
+            old_task->abort();
         }
-        _rvbts_task = std::make_shared<rvbts_generator>(
+        const auto new_task = std::make_shared<rvbts_generator>(
             shared_from_this(), _source, _receiver, treverb, _biverbs);
-        thread_controller::instance()->run(_rvbts_task);
-        _rvbts_task.reset();  // destroy background task shared pointer
+        _rvbts_task = new_task;
+        thread_controller::instance()->run(new_task);
     }
     if (notify_early) {
         notify_update(this);
diff --git a/sensors/sensor_pair.h b/sensors/sensor_pair.h
index a1146a1..c42ae1a 100755
--- a/sensors/sensor_pair.h
+++ b/sensors/sensor_pair.h
@@ -18,6 +18,7 @@
 
 #include <list>
 #include <memory>
+#include <mutex>
 #include <string>
 
 namespace usml {
@@ -212,10 +213,18 @@ class USML_DECLSPEC sensor_pair
      */
     virtual void notify_update(const sensor_pair* object) const override;
 
+    /// Mutex that is locked while a background task checks that it has not
+    /// been aborted and then publishes its results, so that the results of a
+    /// superseded task never replace those of a newer one.
+    std::recursive_mutex& publish_mutex() { return _publish_mutex; }
+
    private:
     /// Mutex to that locks pair updates.
     mutable read_write_lock _mutex;
 
+    /// Mutex that is locked while background tasks publish results.
+    std::recursive_mutex _publish_mutex;
+
     /// Reference to the source sensor.
     /// The source and receiver will be equal for monostatic sensors.
     const sensor_model::sptr _source;
@@ -243,10 +252,10 @@ class USML_DECLSPEC sensor_pair
     rvbts_collection::csptr _rvbts;
 
     /// Background task used to generate biverb objects.
-    std::shared_ptr<biverb_generator> _biverb_task;
+    std::weak_ptr<biverb_generator> _biverb_task;
 
     /// Background task used to generate reverberation time series objects.
-    std::shared_ptr<rvbts_generator> _rvbts_task;
+    std::weak_ptr<rvbts_generator> _rvbts_task;
 };
 
 typedef std::list<sensor_pair::sptr> pair_list;
diff --git a/threads/thread_task.h b/threads/thread_task.h
index 470aa2e..f66cfb6 100755
--- a/threads/thread_task.h
+++ b/threads/thread_task.h
@@ -124,10 +124,10 @@ class USML_DECLSPEC thread_task {
 
    protected:
     /// Indication that task needs to abort.
-    bool _abort;
+    std::atomic<bool> _abort;
 
     /// Set to true when this task complete.
-    bool _done{false};
+    std::atomic<bool> _done{false};
 
    private:
     /**
diff --git a/wavegen/wavefront_generator.cc b/wavegen/wavefront_generator.cc
index 88f8e14..a268af7 100755
--- a/wavegen/wavefront_generator.cc
+++ b/wavegen/wavefront_generator.cc
@@ -130,6 +130,13 @@ void wavefront_generator::run() {
 
     // distribute eigenrays and eigenverbs to listeners
 
+    std::lock_guard<std::recursive_mutex> guard(_source->publish_mutex());
+    if (_abort) {
+        cout << "task #" << id()
+             << " wavefront_generator *** aborted before publication ***"
+             << endl;
+        return;
+    }
     _done = true;
     _source->notify_wavefront_listeners(
         _source, eigenray_collection::csptr(eigenrays),
-- 
2.43.0


From d860970bd9fa5c57326cb0b881f9f3394694faa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:33 +0000
Subject: [PATCH 13/50] fix: transmit schedule updates do not replace newer
 bistatic eigenverbs

A change of the transmit schedule stored the bistatic eigenverbs that it had
read before, and used a null reference if there were none yet. The listeners of
a pair without a transmit schedule were never notified.
---
 sensors/sensor_model.cc |  3 +-
 sensors/sensor_pair.cc  | 68 +++++++++++++++++++++++++----------------
 sensors/sensor_pair.h   | 15 +++++++++
 3 files changed, 58 insertions(+), 28 deletions(-)

diff --git a/sensors/sensor_model.cc b/sensors/sensor_model.cc
index 7040978..145af5c 100644
--- a/sensors/sensor_model.cc
+++ b/sensors/sensor_model.cc
@@ -137,8 +137,7 @@ void sensor_model::transmit_schedule(const transmit_list& schedule,
     if (old_schedule.empty() || update_type == FORCE_UPDATE) {
         sensor_manager* sensor_mgr = sensor_manager::instance();
         for (const sensor_pair::sptr& pair : sensor_mgr->find_source(keyID())) {
-            biverb_collection::csptr biverbs = pair->biverbs();
-            pair->notify_update(&biverbs);
+            pair->update_rvbts();
         }
     }
 }
diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index d548933..cfb9ade 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -167,42 +167,58 @@ void sensor_pair::update_wavefront_data(
  * background task.
  */
 void sensor_pair::notify_update(const biverb_collection::csptr* object) {
-    bool notify_early{true};
+    bool notify_early{false};
     {
         write_lock_guard guard(_mutex);
         _biverbs = *object;
-        if (_source->transmit_schedule().empty()) {
-            return;
-        }
+        notify_early = !launch_rvbts();
+    }
+    if (notify_early) {
+        notify_update(this);
+    }
+}
 
-        // compute treverb from transmit schedule
+/**
+ * Recompute the reverberation time series for the current transmit schedule.
+ */
+void sensor_pair::update_rvbts() {
+    write_lock_guard guard(_mutex);
+    launch_rvbts();
+}
 
-        const double treverb_min = 0.1;
-        double treverb = 0.0;
-        for (const auto& transmit : _source->transmit_schedule()) {
-            if (treverb == 0.0) {
-                treverb = transmit->duration;
-            } else {
-                treverb = std::min(treverb, transmit->duration);
-            }
-        }
-        treverb = std::max(treverb_min, treverb / 2.0);
+/**
+ * Launch a new reverberation time series generator background task.
+ */
+bool sensor_pair::launch_rvbts() {
+    const transmit_list schedule = _source->transmit_schedule();
+    if (_biverbs == nullptr || schedule.empty()) {
+        return false;
+    }
 
-        // launch a new reverberation time series generator background task
+    // compute treverb from transmit schedule
 
-        notify_early = false;
-        const auto old_task = _rvbts_task.lock();
-        if (old_task != nullptr) {  // abort incomplete tasks
-            old_task->abort();
+    const double treverb_min = 0.1;
+    double treverb = 0.0;
+    for (const auto& transmit : schedule) {
+        if (treverb == 0.0) {
+            treverb = transmit->duration;
+        } else {
+            treverb = std::min(treverb, transmit->duration);
         }
-        const auto new_task = std::make_shared<rvbts_generator>(
-            shared_from_this(), _source, _receiver, treverb, _biverbs);
-        _rvbts_task = new_task;
-        thread_controller::instance()->run(new_task);
     }
-    if (notify_early) {
-        notify_update(this);
+    treverb = std::max(treverb_min, treverb / 2.0);
+
+    // launch a new reverberation time series generator background task
+
+    const auto old_task = _rvbts_task.lock();
+    if (old_task != nullptr) {  // abort incomplete tasks
+        old_task->abort();
     }
+    const auto new_task = std::make_shared<rvbts_generator>(
+        shared_from_this(), _source, _receiver, treverb, _biverbs);
+    _rvbts_task = new_task;
+    thread_controller::instance()->run(new_task);
+    return true;
 }
 
 /**
diff --git a/sensors/sensor_pair.h b/sensors/sensor_pair.h
index c42ae1a..2c448f1 100755
--- a/sensors/sensor_pair.h
+++ b/sensors/sensor_pair.h
@@ -191,6 +191,13 @@ class USML_DECLSPEC sensor_pair
      */
     virtual void notify_update(const biverb_collection::csptr* object) override;
 
+    /**
+     * Recompute the reverberation time series using the current bistatic
+     * eigenverbs and the current transmit schedule of the source. Does nothing
+     * if either of them is missing.
+     */
+    void update_rvbts();
+
     /**
      * Update reverberation time series using results of the rvbts_generator
      * background task. Stores a reference to the reverberation time series then
@@ -219,6 +226,14 @@ class USML_DECLSPEC sensor_pair
     std::recursive_mutex& publish_mutex() { return _publish_mutex; }
 
    private:
+    /**
+     * Launches a new rvbts_generator to compute reverberation time series, and
+     * aborts the previous one. The pair must be locked by the caller.
+     *
+     * @return  False if bistatic eigenverbs or transmit schedule are missing.
+     */
+    bool launch_rvbts();
+
     /// Mutex to that locks pair updates.
     mutable read_write_lock _mutex;
 
-- 
2.43.0


From a6ead95f7dffa710f1912bd677519907301e0350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:28 +0000
Subject: [PATCH 14/50] fix: reverberation tasks keep the host of their source
 alive

---
 platforms/platform_model.cc |  6 +++---
 platforms/platform_model.h  | 33 +++++++++++++++++++++++++++++++++
 rvbts/rvbts_generator.cc    |  6 +++---
 3 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/platforms/platform_model.cc b/platforms/platform_model.cc
index 1a6145b..01d1a3f 100644
--- a/platforms/platform_model.cc
+++ b/platforms/platform_model.cc
@@ -19,7 +19,7 @@ using namespace usml::platforms;
 platform_model::~platform_model() {
     for (const auto& link : _child_manager.list()) {
         if (link->child->_host == this) {
-            link->child->_host = nullptr;
+            link->child->host(nullptr);
         }
     }
 }
@@ -90,7 +90,7 @@ platform_model::key_type platform_model::add_child(
     const orientation& orient) {
     write_lock_guard guard(mutex());
     _child_manager.add(std::make_shared<linkage>(child, pos, orient));
-    child->_host = this;
+    child->host(this);
     update_internals(_time, _position, _orient, _speed, NO_UPDATE);
     return child->keyID();
 }
@@ -105,7 +105,7 @@ bool platform_model::remove_child(platform_model::key_type keyID) {
         return false;
     }
     if (link->child->_host == this) {
-        link->child->_host = nullptr;
+        link->child->host(nullptr);
     }
     return _child_manager.remove(keyID);
 }
diff --git a/platforms/platform_model.h b/platforms/platform_model.h
index 7e271a3..ff8972e 100644
--- a/platforms/platform_model.h
+++ b/platforms/platform_model.h
@@ -80,6 +80,18 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
     /// Platform that controls the motion of this platform.
     const platform_model* host() const { return _host; }
 
+    /// Shared reference to the platform that controls the motion of this
+    /// platform, used to keep the host alive while it is being used. Does not
+    /// own hosts that are not managed by a shared pointer.
+    std::shared_ptr<const platform_model> host_ref() const {
+        read_lock_guard guard(_motion_mutex);
+        if (_host_shared) {
+            return _host_ref.lock();
+        }
+        return std::shared_ptr<const platform_model>(std::shared_ptr<void>(),
+                                                     _host);
+    }
+
     /// Time of last update.
     time_t time() const { return _time; }
 
@@ -182,6 +194,21 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
         update_type_enum update_type = TEST_THRESHOLD);
 
    private:
+    /**
+     * Changes the platform that controls the motion of this platform.
+     *
+     * @param host      New host, nullptr if detached.
+     */
+    void host(const platform_model* host) {
+        write_lock_guard guard(_motion_mutex);
+        _host = host;
+        _host_ref.reset();
+        if (host != nullptr) {
+            _host_ref = host->weak_from_this();
+        }
+        _host_shared = !_host_ref.expired();
+    }
+
     /**
      * Private class to manage location and orientation of child relative to
      * host.
@@ -228,6 +255,12 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
     /// Platform that controls the motion of this platform.
     std::atomic<const platform_model*> _host{nullptr};
 
+    /// Weak reference to host, protected by the motion mutex of this platform.
+    std::weak_ptr<const platform_model> _host_ref;
+
+    /// True if host is managed by a shared pointer, also protected by that mutex.
+    bool _host_shared{false};
+
     /// Time of last update.
     time_t _time{0};
 
diff --git a/rvbts/rvbts_generator.cc b/rvbts/rvbts_generator.cc
index b06371f..54eae23 100644
--- a/rvbts/rvbts_generator.cc
+++ b/rvbts/rvbts_generator.cc
@@ -62,15 +62,15 @@ matrix<double> rvbts_generator::compute_src_steering() const {
 
     // use these steerings if sensor has no host
 
-    const platform_model* host = _source->host();
+    std::shared_ptr<const platform_model> host = _source->host_ref();
     if (host == nullptr) {
         return steering;
     }
 
     // convert steerings to world coordinates using orientation of host
 
-    while (host->host() != nullptr) {
-        host = host->host();
+    while (const auto next = host->host_ref()) {
+        host = next;
     }
     steering = prod(host->orient().rotation(), steering);
 
-- 
2.43.0


From b7def45898762d25430dad5e9b622b6b38baecfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:17 +0000
Subject: [PATCH 15/50] fix: reverberation time series use one motion state and
 transmit schedule

The position, orientation and speed of a sensor could come from different
updates, and the time increment from another schedule than the pulses.
---
 rvbts/rvbts_generator.cc | 21 ++++++++++-----------
 rvbts/rvbts_generator.h  | 34 +++++++++++++++++-----------------
 sensors/sensor_pair.cc   |  2 +-
 3 files changed, 28 insertions(+), 29 deletions(-)

diff --git a/rvbts/rvbts_generator.cc b/rvbts/rvbts_generator.cc
index 54eae23..5424bc3 100644
--- a/rvbts/rvbts_generator.cc
+++ b/rvbts/rvbts_generator.cc
@@ -25,18 +25,16 @@ rvbts_generator::rvbts_generator(const sensor_pair::sptr& pair,
                                  const sensor_model::sptr& source,
                                  const sensor_model::sptr& receiver,
                                  const double treverb,
-                                 const biverb_collection::csptr& biverbs)
+                                 const biverb_collection::csptr& biverbs,
+                                 const transmit_list& transmit_schedule)
     : _sensor_pair(pair),
       _description(pair->description()),
       _source(source),
-      _source_pos(source->position()),
-      _source_orient(source->orient()),
-      _source_speed(source->speed()),
-      _transmit_schedule(source->transmit_schedule()),
+      _source_motion(*source),
+      _transmit_schedule(transmit_schedule),
       _receiver(receiver),
-      _receiver_pos(receiver->position()),
-      _receiver_orient(receiver->orient()),
-      _receiver_speed(receiver->speed()),
+      _receiver_motion(receiver == source ? _source_motion
+                                          : motion_type(*receiver)),
       _travel_times(new seq_linear(receiver->time_minimum(), treverb,
                                    receiver->time_maximum())),
       _biverbs(biverbs),
@@ -76,7 +74,7 @@ matrix<double> rvbts_generator::compute_src_steering() const {
 
     // convert steerings from world to array coordinates
 
-    steering = prod(trans(_source_orient.rotation()), steering);
+    steering = prod(trans(_source_motion.orient.rotation()), steering);
     return steering;
 }
 
@@ -91,8 +89,9 @@ void rvbts_generator::run() {
     }
 
     auto* collection = new rvbts_collection(
-        _source, _source_pos, _source_orient, _source_speed, _receiver,
-        _receiver_pos, _receiver_orient, _receiver_speed, _travel_times);
+        _source, _source_motion.position, _source_motion.orient,
+        _source_motion.speed, _receiver, _receiver_motion.position,
+        _receiver_motion.orient, _receiver_motion.speed, _travel_times);
     rvbts_collection::csptr result(collection);
 
     cout << "task #" << id() << " rvbts_generator: " << _description << endl;
diff --git a/rvbts/rvbts_generator.h b/rvbts/rvbts_generator.h
index 7a1abc7..46da2ad 100644
--- a/rvbts/rvbts_generator.h
+++ b/rvbts/rvbts_generator.h
@@ -52,11 +52,13 @@ class USML_DECLSPEC rvbts_generator
      * @param receiver    	Reference to the receiver for this pair.
      * @param treverb		Time increment for reverberation time series.
      * @param biverbs		Overlap of source and receiver eigenverbs.
+     * @param transmit_schedule	List of transmit pulses for this source.
      */
     rvbts_generator(const sensor_pair::sptr& pair,
                     const sensor_model::sptr& source,
                     const sensor_model::sptr& receiver, const double treverb,
-                    const biverb_collection::csptr& biverbs);
+                    const biverb_collection::csptr& biverbs,
+                    const transmit_list& transmit_schedule);
 
     /**
      * Compute reverberation time series for a bistatic pair. Loops through all
@@ -66,6 +68,16 @@ class USML_DECLSPEC rvbts_generator
     virtual void run();
 
    private:
+    /// Motion parameters that all come from the same update of a sensor.
+    struct motion_type {
+        explicit motion_type(const sensor_model& sensor) {
+            sensor.get_motion(nullptr, &position, &orient, &speed);
+        }
+        wposition1 position;   ///< Location of the sensor.
+        orientation orient;    ///< Orientation of the sensor.
+        double speed{0.0};     ///< Speed of the sensor (m/s).
+    };
+
     /**
      * Compute source steerings for each transmit waveform. Steerings in the
      * transmission schedule are defined relative to the orientation of the host
@@ -88,14 +100,8 @@ class USML_DECLSPEC rvbts_generator
     /// Reference to source sensor
     const sensor_model::sptr _source;
 
-    /// Source position at time that class constructed.
-    const wposition1 _source_pos;
-
-    /// Source orientation at time that class constructed.
-    const orientation _source_orient;
-
-    /// Source speed at time that class constructed (m/s).
-    const double _source_speed;
+    /// Source motion at time that class constructed.
+    const motion_type _source_motion;
 
     /// List of transmit pulses for this source.
     transmit_list _transmit_schedule;
@@ -103,14 +109,8 @@ class USML_DECLSPEC rvbts_generator
     /// Reference to receiver sensor
     const sensor_model::sptr _receiver;
 
-    /// Receiver position at time that class constructed.
-    const wposition1 _receiver_pos;
-
-    /// Receiver orientation at time that class constructed.
-    const orientation _receiver_orient;
-
-    /// Receiver speed at time that class constructed (m/s).
-    const double _receiver_speed;
+    /// Receiver motion at time that class constructed.
+    const motion_type _receiver_motion;
 
     /// Receiver times at which reverberation is computed (sec).
     const seq_vector::csptr _travel_times;
diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index cfb9ade..0c9d5f8 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -215,7 +215,7 @@ bool sensor_pair::launch_rvbts() {
         old_task->abort();
     }
     const auto new_task = std::make_shared<rvbts_generator>(
-        shared_from_this(), _source, _receiver, treverb, _biverbs);
+        shared_from_this(), _source, _receiver, treverb, _biverbs, schedule);
     _rvbts_task = new_task;
     thread_controller::instance()->run(new_task);
     return true;
-- 
2.43.0


From bf2bad43c7291581a72a4ea6084e77b75b22164d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:11 +0000
Subject: [PATCH 16/50] fix: requests to update the acoustics of a sensor are
 never lost

A request made during an update was cleared by it, an update that was already
running could miss a new pair, and updates without frequencies crashed.
---
 sensors/sensor_model.cc | 14 ++++++++++----
 sensors/sensor_model.h  |  3 ++-
 sensors/sensor_pair.cc  |  4 ++--
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/sensors/sensor_model.cc b/sensors/sensor_model.cc
index 145af5c..df8c54d 100644
--- a/sensors/sensor_model.cc
+++ b/sensors/sensor_model.cc
@@ -153,10 +153,15 @@ void sensor_model::update_internals(time_t time, const wposition1& pos,
     auto o1 = orient;
     auto o2 = _update_orient;
 
+    // clear request before using it, so that a new request is never lost
+
+    const bool needs_update =
+        update_type != NO_UPDATE && _needs_update.exchange(false);
+
     // clang-format off
     bool update_acoustics =
 		update_type != NO_UPDATE && (
-        update_type == FORCE_UPDATE || _needs_update
+        update_type == FORCE_UPDATE || needs_update
 		|| abs(p1.latitude() - p2.latitude()) >= motion_thresholds::lat_threshold
 		|| abs(p1.longitude() - p2.longitude()) >= motion_thresholds::lon_threshold
 		|| abs(p1.altitude() - p2.altitude()) >= motion_thresholds::alt_threshold
@@ -172,13 +177,15 @@ void sensor_model::update_internals(time_t time, const wposition1& pos,
     // start wavefront_generator background task to update acoustics
 
     if (update_acoustics) {
-        _needs_update = false;
         _update_position = pos;
         _update_orient = orient;
 
         auto targets = find_targets();
+        auto frequencies = sensor_manager::instance()->frequencies();
 
-        if (!targets.empty() || _compute_reverb) {
+        if (frequencies == nullptr) {
+            set_needs_update();  // wait until acoustics can be computed
+        } else if (!targets.empty() || _compute_reverb) {
             // abort previous wavefront generator if it exists
 
             if (_wavefront_task != nullptr) {
@@ -200,7 +207,6 @@ void sensor_model::update_internals(time_t time, const wposition1& pos,
                 targetIDs(count, 0) = target->keyID();
                 ++count;
             }
-            auto frequencies = sensor_manager::instance()->frequencies();
 
             _wavefront_task = std::make_shared<wavefront_generator>(
                 this, tpos, targetIDs, frequencies, _de_fan, _az_fan,
diff --git a/sensors/sensor_model.h b/sensors/sensor_model.h
index 265d0fb..e966923 100644
--- a/sensors/sensor_model.h
+++ b/sensors/sensor_model.h
@@ -19,6 +19,7 @@
 #include <usml/usml_config.h>
 #include <usml/wavegen/wavefront_notifier.h>
 
+#include <atomic>
 #include <cstddef>
 #include <list>
 #include <map>
@@ -388,7 +389,7 @@ class USML_DECLSPEC sensor_model : public platform_model,
     std::string _wavefront_file;
 
     /// True if acoustics ever updated.
-    bool _needs_update{true};
+    std::atomic<bool> _needs_update{true};
 
     /// Location of the platform at last acoustic update.
     wposition1 _update_position;
diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index 0c9d5f8..ce1a66b 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -33,10 +33,10 @@ sensor_pair::sensor_pair(const sensor_model::sptr& source,
       _source(source),
       _receiver(receiver),
       _compute_reverb(source->compute_reverb() && receiver->compute_reverb()) {
-    source->set_needs_update();
-    receiver->set_needs_update();
     source->add_wavefront_listener(this);
     receiver->add_wavefront_listener(this);
+    source->set_needs_update();
+    receiver->set_needs_update();
 }
 
 /**
-- 
2.43.0


From 390425b7570256318dce2b1ed2059847b9c3fba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:58 +0000
Subject: [PATCH 17/50] fix: background tasks release results that they do not
 publish

Aborted and failed tasks leaked their collections. Tasks also crashed if the
shared ocean or the frequencies of the sensor manager had been reset.
---
 biverbs/biverb_generator.cc    | 15 +++++++++------
 rvbts/rvbts_generator.cc       |  4 ++--
 wavegen/wavefront_generator.cc | 27 +++++++++++++++------------
 3 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/biverbs/biverb_generator.cc b/biverbs/biverb_generator.cc
index ae49811..0bebc8d 100644
--- a/biverbs/biverb_generator.cc
+++ b/biverbs/biverb_generator.cc
@@ -8,12 +8,13 @@
 #include <usml/managed/managed_obj.h>
 #include <usml/ocean/ocean_model.h>
 #include <usml/ocean/ocean_shared.h>
-#include <usml/sensors/sensor_manager.h>
 #include <usml/types/seq_vector.h>
 
 #include <boost/numeric/ublas/vector.hpp>
 #include <iostream>
 #include <memory>
+#include <mutex>
+#include <stdexcept>
 
 using namespace usml::biverbs;
 
@@ -48,10 +49,11 @@ void biverb_generator::run() {
     // initialize workspace for results
 
     auto ocean = ocean_shared::current();
-    auto freq = sensor_manager::instance()->frequencies();
-    const size_t num_freq = freq->size();
-    vector<double> scatter(num_freq, 0.0);
-    auto* collection = new biverb_collection(ocean->num_volume());
+    if (ocean == nullptr) {
+        throw std::runtime_error("no shared ocean for biverb_generator");
+    }
+    const auto collection =
+        std::make_shared<biverb_collection>(ocean->num_volume());
 
     // loop through eigenverbs for each interface
 
@@ -60,6 +62,7 @@ void biverb_generator::run() {
         for (const auto& rcv_verb : _rcv_eigenverbs->eigenverbs(interface)) {
             eigenverb_list found_verbs =
                 _src_eigenverbs->find_eigenverbs(rcv_verb, interface);
+            vector<double> scatter(rcv_verb->frequencies->size(), 0.0);
             for (const auto& src_verb : found_verbs) {
                 ocean->scattering(interface, rcv_verb->position,
                                   rcv_verb->frequencies, src_verb->grazing,
@@ -75,7 +78,7 @@ void biverb_generator::run() {
             }
         }
     }
-    _collection = biverb_collection::csptr(collection);
+    _collection = collection;
     std::lock_guard<std::recursive_mutex> guard(_sensor_pair->publish_mutex());
     if (_abort) {
         cout << "task #" << id()
diff --git a/rvbts/rvbts_generator.cc b/rvbts/rvbts_generator.cc
index 5424bc3..dd50399 100644
--- a/rvbts/rvbts_generator.cc
+++ b/rvbts/rvbts_generator.cc
@@ -88,11 +88,11 @@ void rvbts_generator::run() {
         return;
     }
 
-    auto* collection = new rvbts_collection(
+    const auto collection = std::make_shared<rvbts_collection>(
         _source, _source_motion.position, _source_motion.orient,
         _source_motion.speed, _receiver, _receiver_motion.position,
         _receiver_motion.orient, _receiver_motion.speed, _travel_times);
-    rvbts_collection::csptr result(collection);
+    const rvbts_collection::csptr result(collection);
 
     cout << "task #" << id() << " rvbts_generator: " << _description << endl;
 
diff --git a/wavegen/wavefront_generator.cc b/wavegen/wavefront_generator.cc
index a268af7..3d191d4 100755
--- a/wavegen/wavefront_generator.cc
+++ b/wavegen/wavefront_generator.cc
@@ -15,6 +15,8 @@
 
 #include <iostream>
 #include <memory>
+#include <mutex>
+#include <stdexcept>
 #include <string>
 #include <utility>
 
@@ -69,6 +71,10 @@ void wavefront_generator::run() {
         return;
     }
 
+    if (_ocean == nullptr) {
+        throw std::runtime_error("no shared ocean for wavefront_generator");
+    }
+
     // create a new wavefront
 
     cout << "task #" << id()
@@ -82,18 +88,19 @@ void wavefront_generator::run() {
 
     // create listener to store eigenrays, if targets exist
 
-    auto* eigenrays = new eigenray_collection(_frequencies, _source_position,
-                                              _target_positions,
-                                              _source->keyID(), _targetIDs);
+    const auto eigenrays = std::make_shared<eigenray_collection>(
+        _frequencies, _source_position, _target_positions, _source->keyID(),
+        _targetIDs);
     if (_targetIDs.size1() > 0 && _targetIDs.size2() > 0) {
-        wave.add_eigenray_listener(eigenrays);
+        wave.add_eigenray_listener(eigenrays.get());
     }
 
     // create listener to store eigenverbs
 
-    auto* eigenverbs = new eigenverb_collection(_ocean->num_volume());
+    const auto eigenverbs =
+        std::make_shared<eigenverb_collection>(_ocean->num_volume());
     if (_source->compute_reverb()) {
-        wave.add_eigenverb_listener(eigenverbs);
+        wave.add_eigenverb_listener(eigenverbs.get());
     }
 
     // propagate wavefront to build eigenrays and eigenverbs
@@ -124,9 +131,7 @@ void wavefront_generator::run() {
     if (has_wavefront_file) {
         wave.close_netcdf();
     }
-    if (eigenrays != nullptr) {
-        eigenrays->sum_eigenrays();
-    }
+    eigenrays->sum_eigenrays();
 
     // distribute eigenrays and eigenverbs to listeners
 
@@ -138,8 +143,6 @@ void wavefront_generator::run() {
         return;
     }
     _done = true;
-    _source->notify_wavefront_listeners(
-        _source, eigenray_collection::csptr(eigenrays),
-        eigenverb_collection::csptr(eigenverbs));
+    _source->notify_wavefront_listeners(_source, eigenrays, eigenverbs);
     cout << "task #" << id() << " wavefront_generator: done" << endl;
 }
-- 
2.43.0


From 769e980017596778ddb94349e38d2d4b5444dedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:08 +0000
Subject: [PATCH 18/50] fix: resetting beams is locked like the other changes
 of a sensor

---
 sensors/sensor_model.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/sensors/sensor_model.cc b/sensors/sensor_model.cc
index df8c54d..57fa67e 100644
--- a/sensors/sensor_model.cc
+++ b/sensors/sensor_model.cc
@@ -25,7 +25,10 @@ using namespace usml::sensors;
 /**
  * Reset source beams.
  */
-void sensor_model::reset_src_beams() { _src_beams.clear(); }
+void sensor_model::reset_src_beams() {
+    write_lock_guard guard(mutex());
+    _src_beams.clear();
+}
 
 /**
  * Add source beam pattern to this sensor.
@@ -64,7 +67,10 @@ std::list<int> sensor_model::src_keys() const {
 /**
  * Reset receiver beams.
  */
-void sensor_model::reset_rcv_beams() { _rcv_beams.clear(); }
+void sensor_model::reset_rcv_beams() {
+    write_lock_guard guard(mutex());
+    _rcv_beams.clear();
+}
 
 /**
  * Add receiver beam pattern to this sensor.
@@ -95,8 +101,12 @@ bp_model::csptr sensor_model::rcv_beam(int keyID) const {
  */
 bvector sensor_model::rcv_steering(int keyID) const {
     read_lock_guard guard(mutex());
+    bvector steering(1.0, 0.0, 0.0);
     auto iter = _rcv_steering.find(keyID);
-    return iter->second;
+    if (iter != _rcv_steering.end()) {
+        steering = iter->second;
+    }
+    return steering;
 }
 
 /**
-- 
2.43.0


From 124217261a9deabb9d1d38fdd3cc4c4ba060526b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:39 +0000
Subject: [PATCH 19/50] fix: reverberation time series do not use uninitialized
 memory

The time series started with whatever was in memory, and the power above the
last frequency of the eigenverbs was read.
---
 rvbts/rvbts_collection.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index 9f56918..2c70b86 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -47,7 +47,8 @@ rvbts_collection::rvbts_collection(
       _receiver_orient(receiver_orient),
       _receiver_speed(receiver_speed),
       _travel_times(travel_times),
-      _time_series(receiver->rcv_num_keys(), travel_times->size()) {}
+      _time_series(zero_matrix<double>(receiver->rcv_num_keys(),
+                                       travel_times->size())) {}
 
 /**
  * Adds the intensity contribution for a single bistatic eigenverb.
@@ -79,8 +80,8 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
         double freq = transmit->fcenter;
         const seq_vector &axis = *(verb->frequencies);
         size_t index = axis.find_nearest(freq);
-        if (index >= axis.size()) {
-            --index;
+        if (index + 1 >= axis.size()) {
+            index = axis.size() - 2;
         }
         double u = (freq - axis[index]) / axis.increment(index);
         verb_level = u * verb->power[index + 1] + (1 - u) * verb->power[index];
-- 
2.43.0


From bc2cf81ebf65f51c8f8a9bba130fcaf574222a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:04 +0000
Subject: [PATCH 20/50] fix: receiver channels with any key stay inside of the
 time series

---
 rvbts/rvbts_collection.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index 2c70b86..e6da408 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -103,7 +103,13 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
 
     // add Gaussian to each receiver channel
 
+    size_t channel = 0;
     for (int rcv : this->_receiver->rcv_keys()) {
+        const size_t row = channel++;
+        if (row >= _time_series.size1()) {
+            break;  // ignore channels added after the time series was created
+        }
+
         // compute received level for this transmission
 
         bp_model::csptr rcv_beam = _receiver->rcv_beam(rcv);
@@ -120,7 +126,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
 
         for (size_t n = 0; n < gaussian.size(); ++n) {
             auto t = n + first;
-            _time_series(rcv, t) += rcv_level * gaussian[n];
+            _time_series(row, t) += rcv_level * gaussian[n];
         }
     }
 }
-- 
2.43.0


From f587859ec63ef4212a5e9b9840eaa6438d055ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:09 +0000
Subject: [PATCH 21/50] fix: direct paths keep the positions for which they
 have been computed

---
 eigenrays/eigenray_collection.h |  3 +++
 sensors/sensor_pair.cc          | 28 +++++++++++++++++++---------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/eigenrays/eigenray_collection.h b/eigenrays/eigenray_collection.h
index 90380f5..f50f720 100644
--- a/eigenrays/eigenray_collection.h
+++ b/eigenrays/eigenray_collection.h
@@ -81,6 +81,9 @@ class USML_DECLSPEC eigenray_collection : public eigenray_listener {
         return wposition1(_target_pos, t1, t2);
     }
 
+    /// Position of the source.
+    const wposition1 &source_position() const { return _source_pos; }
+
     /// Platform ID number for this source. Set to zero if unknown.
     uint64_t sourceID() const { return _sourceID; }
 
diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index ce1a66b..d693cdd 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -92,8 +92,6 @@ void sensor_pair::update_wavefront_data(
 
         auto sourceID = _source->keyID();
         auto targetID = _receiver->keyID();
-        wposition1 source_pos(_source->position());
-        wposition1 receiver_pos(_receiver->position());
         eigenray_list raylist = eigenrays->find_eigenrays(targetID);
 
         // swap source/receiver sense of direct path eigenrays, if needed
@@ -101,8 +99,6 @@ void sensor_pair::update_wavefront_data(
         if (_source != _receiver && sensor->keyID() == _receiver->keyID()) {
             sourceID = _receiver->keyID();
             targetID = _source->keyID();
-            source_pos = _receiver->position();
-            receiver_pos = _source->position();
             eigenray_list new_list;
             for (const auto& ray : eigenrays->find_eigenrays(targetID)) {
                 auto* copy = new eigenray_model(*ray);
@@ -113,20 +109,34 @@ void sensor_pair::update_wavefront_data(
             raylist = new_list;  // replace original list
         }
 
+        // use the positions for which the eigenrays have been computed, these
+        // sensors could have moved in the meantime
+
+        const wposition1& source_pos = eigenrays->source_position();
+        wposition1 target_pos = targetID == _receiver->keyID()
+                                    ? _receiver->position()
+                                    : _source->position();
+        for (size_t t1 = 0; t1 < eigenrays->size1(); ++t1) {
+            for (size_t t2 = 0; t2 < eigenrays->size2(); ++t2) {
+                if (eigenrays->targetID(t1, t2) == targetID) {
+                    target_pos = eigenrays->position(t1, t2);
+                }
+            }
+        }
+
         // create new direct path collection with just rays for a single target
 
         matrix<uint64_t> receiverID(1, 1);
         receiverID(0, 0) = targetID;
 
-        auto* collection = new eigenray_collection(
-            eigenrays->frequencies(), _source->position(),
-            wposition(receiver_pos), sourceID, receiverID,
-            eigenrays->coherent());
+        const auto collection = std::make_shared<eigenray_collection>(
+            eigenrays->frequencies(), source_pos, wposition(target_pos),
+            sourceID, receiverID, eigenrays->coherent());
         for (const auto& ray : raylist) {
             collection->add_eigenray(0, 0, ray);
         }
         collection->sum_eigenrays();
-        _dirpaths = eigenray_collection::csptr(collection);
+        _dirpaths = collection;
 
         // update eigenverb contributions
 
-- 
2.43.0


From b6bd0360642553ae3db638bd697ae7bdf5e90c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:45 +0000
Subject: [PATCH 22/50] fix: wave_queue releases its memory if it can not be
 constructed

---
 waveq3d/wave_queue.cc | 15 ++++++++++++++-
 waveq3d/wave_queue.h  | 10 +++++++---
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index eb36bcf..62aee9d 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -67,6 +67,15 @@ wave_queue::wave_queue(const ocean_model::csptr& ocean,
         _source_pos.rho(bottom_rho);
     }
 
+    // release memory if this constructor fails, destructor is not called then
+
+    struct cleanup {
+        wave_queue* wave;
+        ~cleanup() {
+            if (wave != nullptr) wave->destroy();
+        }
+    } failure{this};
+
     // create storage space for all wavefront elements
 
     _past = new wave_front(_ocean, _frequencies, de->size(), az->size(),
@@ -95,10 +104,14 @@ wave_queue::wave_queue(const ocean_model::csptr& ocean,
                 break;
         }
     }
+    failure.wave = nullptr;
 }
 
 /** Destroy all temporary memory. */
-wave_queue::~wave_queue() {
+wave_queue::~wave_queue() { destroy(); }
+
+/** Destroy all temporary memory. */
+void wave_queue::destroy() {
     delete _spreading_model;
     delete _reflection_model;
     delete _past;
diff --git a/waveq3d/wave_queue.h b/waveq3d/wave_queue.h
index a60c5b5..bbafb3c 100755
--- a/waveq3d/wave_queue.h
+++ b/waveq3d/wave_queue.h
@@ -330,13 +330,13 @@ class USML_DECLSPEC wave_queue : public eigenray_notifier,
     matrix<double> _targets_sin_theta;
 
     /** Reference to the reflection model component. */
-    reflection_model* _reflection_model;
+    reflection_model* _reflection_model{nullptr};
 
     /**
      * Reference to the spreading loss model component.
      * Supports either classic ray theory or Hybrid Gaussian Beams.
      */
-    spreading_model* _spreading_model;
+    spreading_model* _spreading_model{nullptr};
 
     /**
      * Circular queue of wavefront elements needed by the
@@ -347,7 +347,11 @@ class USML_DECLSPEC wave_queue : public eigenray_notifier,
      *    - _curr is for iteration n (the current wavefront)
      *    - _next is for iteration n+1
      */
-    wave_front *_past, *_prev, *_curr, *_next;
+    wave_front *_past{nullptr}, *_prev{nullptr}, *_curr{nullptr},
+        *_next{nullptr};
+
+    /** Destroy all temporary memory. */
+    void destroy();
 
     /**
      * Create an Azimuthal boundary loop condition upon initialization.
-- 
2.43.0


From a721bbca472cc55982de2f70106962ec367dc542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:17 +0000
Subject: [PATCH 23/50] fix: eigenverbs below the threshold are released

---
 waveq3d/wave_queue.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index 62aee9d..c726872 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -14,6 +14,7 @@
 #include <boost/numeric/ublas/vector_proxy.hpp>
 #include <cmath>
 #include <iomanip>
+#include <memory>
 #include <utility>
 
 // #define DEBUG_EIGENRAYS_DETAIL
@@ -1122,7 +1123,7 @@ void wave_queue::build_eigenverb(size_t de, size_t az, double dt,
     }
     const double sin_grazing = sin(grazing);
 
-    auto* verb = new eigenverb_model();
+    auto verb = std::make_shared<eigenverb_model>();
     verb->length = 0.5 * path_length * de_delta / sin_grazing;
     verb->width = 0.5 * path_length * az_delta;
 
@@ -1173,5 +1174,5 @@ void wave_queue::build_eigenverb(size_t de, size_t az, double dt,
          << "\tsurface=" << verb->surface << " bottom=" << verb->bottom
          << " caustic=" << verb->caustic << endl;
 #endif
-    notify_eigenverb_listeners(eigenverb_model::csptr(verb), type);
+    notify_eigenverb_listeners(verb, type);
 }
-- 
2.43.0


From 07d0166c7ae34cc26af60220acab6d99e181b2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:19 +0000
Subject: [PATCH 24/50] fix: bistatic eigenverbs are released when memory runs
 out

---
 biverbs/biverb_collection.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/biverbs/biverb_collection.cc b/biverbs/biverb_collection.cc
index 6d19cc9..32550db 100644
--- a/biverbs/biverb_collection.cc
+++ b/biverbs/biverb_collection.cc
@@ -14,6 +14,7 @@
 #include <boost/numeric/ublas/vector_expression.hpp>
 #include <cmath>
 #include <list>
+#include <memory>
 #include <netcdf>
 #include <sstream>
 #include <string>
@@ -91,7 +92,7 @@ void biverb_collection::add_biverb(const eigenverb_model::csptr& src_verb,
 #endif
     // copy data from source and receiver eigenverbs
 
-    auto* biverb = new biverb_model();
+    auto biverb = std::make_shared<biverb_model>();
     biverb->travel_time = src_verb->travel_time + rcv_verb->travel_time;
     biverb->frequencies = rcv_verb->frequencies;
     biverb->de_index = rcv_verb->de_index;
@@ -182,7 +183,7 @@ void biverb_collection::add_biverb(const eigenverb_model::csptr& src_verb,
 
     // add to collection
 
-    auto verb = biverb_model::csptr(biverb);
+    const biverb_model::csptr verb(biverb);
     if (norm_inf(biverb->power) >= power_threshold) {
         _collection[interface].insert({verb->travel_time, verb});
     }
-- 
2.43.0


From 4f7a1de7506ede37ac3d281d263e47beb3170683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 25/50] fix: replaced oceans are destroyed after the shared
 ocean is unlocked

---
 ocean/ocean_shared.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ocean/ocean_shared.cc b/ocean/ocean_shared.cc
index e798df6..1a09ae0 100644
--- a/ocean/ocean_shared.cc
+++ b/ocean/ocean_shared.cc
@@ -23,17 +23,18 @@ ocean_model::csptr ocean_shared::current() {
 }
 
 /**
- * Update shared ocean with new data.
+ * Update shared ocean with new data.  The ocean that it replaces is destroyed,
+ * if nobody else uses it, after the lock has been released.
  */
 void ocean_shared::update(const ocean_model::csptr& ocean) {
+    ocean_model::csptr previous = ocean;
     write_lock_guard guard(ocean_shared::_mutex);
-    _current = ocean;
+    _current.swap(previous);
 }
 
 /**
  * Reset the shared ocean to empty.
  */
 void ocean_shared::reset() {
-    write_lock_guard guard(ocean_shared::_mutex);
-    _current.reset();
+    update(nullptr);
 }
-- 
2.43.0


From c922671bd9aa35719105b6583f002abdfd57ed0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:07 +0000
Subject: [PATCH 26/50] fix: bistatic eigenverbs skip layers that one of their
 oceans does not have

---
 biverbs/biverb_generator.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/biverbs/biverb_generator.cc b/biverbs/biverb_generator.cc
index 0bebc8d..d8c9744 100644
--- a/biverbs/biverb_generator.cc
+++ b/biverbs/biverb_generator.cc
@@ -10,6 +10,7 @@
 #include <usml/ocean/ocean_shared.h>
 #include <usml/types/seq_vector.h>
 
+#include <algorithm>
 #include <boost/numeric/ublas/vector.hpp>
 #include <iostream>
 #include <memory>
@@ -55,9 +56,12 @@ void biverb_generator::run() {
     const auto collection =
         std::make_shared<biverb_collection>(ocean->num_volume());
 
-    // loop through eigenverbs for each interface
+    // loop through eigenverbs for each interface, skip the volume layers of
+    // eigenverbs that have been computed in an ocean with more layers
 
-    auto num_interfaces = _rcv_eigenverbs->num_interfaces();
+    const auto num_interfaces = std::min(
+        {collection->num_interfaces(), _src_eigenverbs->num_interfaces(),
+         _rcv_eigenverbs->num_interfaces()});
     for (size_t interface = 0; interface < num_interfaces; ++interface) {
         for (const auto& rcv_verb : _rcv_eigenverbs->eigenverbs(interface)) {
             eigenverb_list found_verbs =
-- 
2.43.0


From 7921df875a3a9ece1c564aeff0697fb1d8f0d267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 27/50] fix: eigenverbs of different frequencies are not
 combined

---
 biverbs/biverb_generator.cc | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/biverbs/biverb_generator.cc b/biverbs/biverb_generator.cc
index d8c9744..78807a9 100644
--- a/biverbs/biverb_generator.cc
+++ b/biverbs/biverb_generator.cc
@@ -35,6 +35,24 @@ biverb_generator::biverb_generator(
     add_listener(pair.get());
 }
 
+/**
+ * True if the eigenverbs of two wavefronts use the same frequencies.
+ */
+static bool same_axis(const seq_vector::csptr& a, const seq_vector::csptr& b) {
+    if (a == b) {
+        return true;
+    }
+    if (a->size() != b->size()) {
+        return false;
+    }
+    for (size_t n = 0; n < a->size(); ++n) {
+        if ((*a)[n] != (*b)[n]) {
+            return false;
+        }
+    }
+    return true;
+}
+
 /**
  * Executes the Eigenverb reverberation model.
  */
@@ -68,6 +86,9 @@ void biverb_generator::run() {
                 _src_eigenverbs->find_eigenverbs(rcv_verb, interface);
             vector<double> scatter(rcv_verb->frequencies->size(), 0.0);
             for (const auto& src_verb : found_verbs) {
+                if (!same_axis(src_verb->frequencies, rcv_verb->frequencies)) {
+                    continue;  // computed before frequencies were changed
+                }
                 ocean->scattering(interface, rcv_verb->position,
                                   rcv_verb->frequencies, src_verb->grazing,
                                   rcv_verb->grazing, src_verb->direction,
-- 
2.43.0


From 0666025074e6072981082667b1f282e558b84474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 28/50] fix: saving results reports data that could not be
 written when the file is closed

---
 biverbs/biverb_collection.cc       | 2 ++
 eigenrays/eigenray_collection.cc   | 1 +
 eigenverbs/eigenverb_collection.cc | 1 +
 rvbts/rvbts_collection.cc          | 1 +
 types/data_grid.h                  | 1 +
 5 files changed, 6 insertions(+)

diff --git a/biverbs/biverb_collection.cc b/biverbs/biverb_collection.cc
index 32550db..8ed66dd 100644
--- a/biverbs/biverb_collection.cc
+++ b/biverbs/biverb_collection.cc
@@ -226,6 +226,7 @@ void biverb_collection::write_netcdf(const char* filename,
 
     biverb_list list = biverbs(interface);
     if (list.empty()) {
+        nc_file.close();  // reports data that could not be written
         return;
     }
 
@@ -342,4 +343,5 @@ void biverb_collection::write_netcdf(const char* filename,
 		i = verb->receiver_lower;			receiver_lower_var.putVar(index, &i);
         // clang-format on
     }
+    nc_file.close();  // reports data that could not be written
 }
diff --git a/eigenrays/eigenray_collection.cc b/eigenrays/eigenray_collection.cc
index 0f2ec9a..edc231e 100644
--- a/eigenrays/eigenray_collection.cc
+++ b/eigenrays/eigenray_collection.cc
@@ -353,6 +353,7 @@ void eigenray_collection::write_netcdf(const char *filename,
             }  // loop over # of eigenrays
         }      // loop over target# t2
     }          // loop over target# t1
+    nc_file.close();  // reports data that could not be written
 }
 
 /**
diff --git a/eigenverbs/eigenverb_collection.cc b/eigenverbs/eigenverb_collection.cc
index 62f6c67..3f93909 100644
--- a/eigenverbs/eigenverb_collection.cc
+++ b/eigenverbs/eigenverb_collection.cc
@@ -234,6 +234,7 @@ void eigenverb_collection::write_netcdf(const char* filename,
             // clang-format on
         }
     }
+    nc_file.close();  // reports data that could not be written
 }
 
 /**
diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index e6da408..80c0dc4 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -228,4 +228,5 @@ void rvbts_collection::write_netcdf(const char *filename) const {
     channels_var.putVar(channels.data().begin());
     time_var.putVar(_travel_times->data().begin());
     time_series_var.putVar(_time_series.data().begin());
+    nc_file.close();  // reports data that could not be written
 }
diff --git a/types/data_grid.h b/types/data_grid.h
index 4450fde..bf56f71 100755
--- a/types/data_grid.h
+++ b/types/data_grid.h
@@ -306,6 +306,7 @@ class USML_DLLEXPORT data_grid {
             axis_var[i].putVar(_axis[i]->data().begin());
         }
         data_var.putVar(_data.get());
+        file.close();  // reports data that could not be written
     }
 
    protected:
-- 
2.43.0


From 21bd06220aba763cc835b7c730e7c5e597ecad4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 29/50] fix: interfaces without eigenverbs can be saved

---
 eigenverbs/eigenverb_collection.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eigenverbs/eigenverb_collection.cc b/eigenverbs/eigenverb_collection.cc
index 3f93909..92af1eb 100644
--- a/eigenverbs/eigenverb_collection.cc
+++ b/eigenverbs/eigenverb_collection.cc
@@ -99,7 +99,6 @@ void eigenverb_collection::write_netcdf(const char* filename,
                                         size_t interface) const {
     netCDF::NcFile nc_file(filename, netCDF::NcFile::replace);
     eigenverb_list list = eigenverbs(interface);
-    size_t num_freq = list.begin()->get()->frequencies->size();
 
     switch (interface) {
         case eigenverb_model::BOTTOM:
@@ -129,6 +128,8 @@ void eigenverb_collection::write_netcdf(const char* filename,
     }
 
     if (!list.empty()) {
+        const size_t num_freq = list.begin()->get()->frequencies->size();
+
         // clang-format off
         // dimensions
 
-- 
2.43.0


From 3d037d1129b45748a7915daf6030c0f295c294e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 30/50] fix: saved eigenverbs can be read back, and failed
 reads change nothing

---
 eigenverbs/eigenverb_collection.cc | 40 +++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/eigenverbs/eigenverb_collection.cc b/eigenverbs/eigenverb_collection.cc
index 92af1eb..f63b951 100644
--- a/eigenverbs/eigenverb_collection.cc
+++ b/eigenverbs/eigenverb_collection.cc
@@ -20,6 +20,7 @@
 #include <iostream>
 #include <iterator>
 #include <list>
+#include <memory>
 #include <netcdf>
 #include <sstream>
 #include <string>
@@ -244,17 +245,27 @@ void eigenverb_collection::write_netcdf(const char* filename,
 void eigenverb_collection::read_netcdf(const char* filename, size_t interface) {
     netCDF::NcFile nc_file(filename, netCDF::NcFile::read);
 
+    // an interface without eigenverbs is saved as a file without variables
+
+    if (nc_file.getVarCount() == 0 && nc_file.getAtts().count("long_name") > 0) {
+        return;
+    }
+
     // dimensions
 
     netCDF::NcDim eigenverb_dim = nc_file.getDim("eigenverbs");
+    netCDF::NcDim freq_dim = nc_file.getDim("frequencies");
+    if (eigenverb_dim.isNull() || freq_dim.isNull()) {
+        throw netCDF::exceptions::NcBadDim("missing eigenverb dimensions",
+                                           __FILE__, __LINE__);
+    }
     size_t num_eigenverbs = eigenverb_dim.getSize();
-    netCDF::NcDim freq_dim = nc_file.getDim("frequency");
     size_t num_freq = freq_dim.getSize();
 
     // variables
 
     netCDF::NcVar time_var = nc_file.getVar("travel_time");
-    netCDF::NcVar freq_var = nc_file.getVar("frequency");
+    netCDF::NcVar freq_var = nc_file.getVar("frequencies");
     netCDF::NcVar power_var = nc_file.getVar("power");
     netCDF::NcVar length_var = nc_file.getVar("length");
     netCDF::NcVar width_var = nc_file.getVar("width");
@@ -262,7 +273,7 @@ void eigenverb_collection::read_netcdf(const char* filename, size_t interface) {
     netCDF::NcVar lng_var = nc_file.getVar("longitude");
     netCDF::NcVar alt_var = nc_file.getVar("altitude");
     netCDF::NcVar direction_var = nc_file.getVar("direction");
-    netCDF::NcVar grazing_var = nc_file.getVar("grazing_angle");
+    netCDF::NcVar grazing_var = nc_file.getVar("grazing");
     netCDF::NcVar sound_speed_var = nc_file.getVar("sound_speed");
     netCDF::NcVar de_index_var = nc_file.getVar("de_index");
     netCDF::NcVar az_index_var = nc_file.getVar("az_index");
@@ -276,10 +287,9 @@ void eigenverb_collection::read_netcdf(const char* filename, size_t interface) {
 
     // get frequencies just once
 
-    auto* freq_data = new double[num_freq];
-    freq_var.getVar(freq_data);
-    seq_vector::csptr frequencies(new seq_data(freq_data, num_freq));
-    delete[] freq_data;
+    std::vector<double> freq_data(num_freq);
+    freq_var.getVar(freq_data.data());
+    seq_vector::csptr frequencies(new seq_data(freq_data.data(), num_freq));
 
     // read each record
 
@@ -291,9 +301,10 @@ void eigenverb_collection::read_netcdf(const char* filename, size_t interface) {
     rec_freq_count[0] = 1;
     rec_freq_count[1] = num_freq;
 
-    auto* power = new double[num_freq];
+    std::vector<double> power(num_freq);
+    eigenverb_list list;
     for (size_t record = 0; record < num_eigenverbs; ++record) {
-        auto* verb = new eigenverb_model();
+        auto verb = std::make_shared<eigenverb_model>();
         verb->power.resize(num_freq, true);
         index[0] = record;
         rec_freq_index[0] = record;
@@ -306,7 +317,7 @@ void eigenverb_collection::read_netcdf(const char* filename, size_t interface) {
         verb->travel_time = v;
         verb->frequencies = frequencies;
 
-        power_var.getVar(rec_freq_index, rec_freq_count, power);
+        power_var.getVar(rec_freq_index, rec_freq_count, power.data());
         for (size_t n = 0; n < num_freq; ++n) {
             verb->power[n] = pow(10.0, power[n] / 10.0);
         }
@@ -331,7 +342,12 @@ void eigenverb_collection::read_netcdf(const char* filename, size_t interface) {
         lower_var.getVar(index, &i);        verb->lower = int(i);
         // clang-format on
 
-        add_eigenverb(eigenverb_model::csptr(verb), interface);
+        list.push_back(verb);
+    }
+
+    // add them once all of them have been read
+
+    for (const auto& verb : list) {
+        add_eigenverb(verb, interface);
     }
-    delete[] power;
 }
-- 
2.43.0


From 117f416ec758fb47e9858cc2fa3b32fa08516474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 31/50] fix: grids keep no lazily written origin, so that
 threads can share them

---
 netcdf/netcdf_coards.h | 38 +++++++++-----------
 types/gen_grid.h       | 80 ++++++++++++++++++------------------------
 2 files changed, 52 insertions(+), 66 deletions(-)

diff --git a/netcdf/netcdf_coards.h b/netcdf/netcdf_coards.h
index ecfc75f..8133cfd 100644
--- a/netcdf/netcdf_coards.h
+++ b/netcdf/netcdf_coards.h
@@ -12,6 +12,7 @@
 #include <memory>
 #include <netcdf>
 #include <stdexcept>
+#include <string>
 #include <vector>
 
 namespace usml {
@@ -54,6 +55,10 @@ class netcdf_coards : public gen_grid<NUM_DIMS> {
     seq_vector::csptr make_axis(netCDF::NcFile& file, const std::string& name) {
         // search for this axis in the NetCDF file
         netCDF::NcVar axis = file.getVar(name);
+        if (axis.isNull() || axis.getDimCount() != 1 ||
+            axis.getDim(0).getName() != name) {
+            throw std::invalid_argument("no axis for " + name);
+        }
 
         // convert to std::vector
         const size_t N = axis.getDim(0).getSize();
@@ -77,11 +82,12 @@ class netcdf_coards : public gen_grid<NUM_DIMS> {
      */
     netcdf_coards(netCDF::NcFile& file, const std::string& name,
                   bool read_fill = false) {
-        this->_zero = 0.0;  // avoid uninitialized values in gen_grid class
-
         // search for this grid in the NetCDF file
 
         netCDF::NcVar variable = file.getVar(name);
+        if (variable.isNull() || variable.getDimCount() != NUM_DIMS) {
+            throw std::invalid_argument("no such grid: " + name);
+        }
 
         // read axis data from NetCDF file.
 
@@ -97,26 +103,16 @@ class netcdf_coards : public gen_grid<NUM_DIMS> {
 
         double missing = NAN;  // default value for missing data
         double filling = NAN;  // default for fill value
-        {
-            // NOLINTBEGIN(bugprone-empty-catch)
-            netCDF::NcVarAtt att;
-
-            // extract scale factor attribute
-            try {
-                att = variable.getAtt("missing_value");
-                att.getValues(&missing);
-            } catch (const netCDF::exceptions::NcException& ex) {
-            }
-
-            // extract fill value attribute
-            if (read_fill) {
-                try {
-                    att = variable.getAtt("_FillValue");
-                    att.getValues(&filling);
-                } catch (const netCDF::exceptions::NcException& ex) {
-                }
+        const auto atts = variable.getAtts();
+        auto att = atts.find("missing_value");
+        if (att != atts.end()) {
+            att->second.getValues(&missing);
+        }
+        if (read_fill) {
+            att = atts.find("_FillValue");
+            if (att != atts.end()) {
+                att->second.getValues(&filling);
             }
-            // NOLINTEND(bugprone-empty-catch)
         }
 
         // copy interpolant data from the NetCDF file into local memory.
diff --git a/types/gen_grid.h b/types/gen_grid.h
index c276910..e09f83c 100755
--- a/types/gen_grid.h
+++ b/types/gen_grid.h
@@ -47,7 +47,6 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         _writeable_data = std::shared_ptr<DATA_TYPE[]>(new DATA_TYPE[N]);
         this->_data = _writeable_data;  // read only reference
         initialize<DATA_TYPE>::zero_n(_writeable_data.get(), N);
-        _zero = initialize<DATA_TYPE>::zero((_writeable_data.get())[0]);
     }
 
     /**
@@ -124,11 +123,7 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
 
         // compute interpolation results for value and derivative
 
-        if (!_zero_init) {
-            _zero_init = true;
-            _zero = initialize<DATA_TYPE>::zero((_writeable_data.get())[0]);
-        }
-        DATA_TYPE dresult = _zero;
+        DATA_TYPE dresult = zero();
         return interp(NUM_DIMS - 1, index, loc, dresult, derivative);
     }
 
@@ -136,6 +131,17 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
     //*************************************************************************
     // interpolation methods
 
+    /**
+     * Example of empty data type with vector/matrix correct size. If results
+     * variables are left uninitialized, Valgrind's Memcheck flags them out as
+     * potential errors. Initializing declaration of DATA_TYPE to zeros quiets
+     * this error message. Computed from the data each time so that grids
+     * can be shared by several threads.
+     */
+    DATA_TYPE zero() const {
+        return initialize<DATA_TYPE>::zero(this->_data.get()[0]);
+    }
+
     /**
      * Private recursion engine for multi-dimensional interpolation.
      * The type of interpolation for each dimension is determined using
@@ -157,7 +163,7 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
     DATA_TYPE
     interp(int dim, const size_t index[], const double location[],
            DATA_TYPE& deriv, DATA_TYPE deriv_vec[]) const {
-        DATA_TYPE result = _zero;
+        DATA_TYPE result = zero();
 
         if (dim < 0) {
             const size_t offset =
@@ -202,15 +208,15 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
      */
     DATA_TYPE nearest(int dim, const size_t index[], const double location[],
                       DATA_TYPE& deriv, DATA_TYPE deriv_vec[]) const {
-        DATA_TYPE result = _zero;
-        DATA_TYPE da = _zero;
+        DATA_TYPE result = zero();
+        DATA_TYPE da = zero();
 
         // compute field value in this dimension
 
         const size_t k = index[dim];
         seq_vector::csptr ax = this->_axis[dim];
         const double u = (location[dim] - (*ax)(k)) / ax->increment(k);
-        if (u < 0.5) {
+        if (ax->size() < 2 || u < 0.5) {
             result = interp(dim - 1, index, location, da, deriv_vec);
         } else {
             size_t next[NUM_DIMS];
@@ -247,9 +253,9 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
      */
     DATA_TYPE linear(int dim, const size_t index[], const double location[],
                      DATA_TYPE& deriv, DATA_TYPE deriv_vec[]) const {
-        DATA_TYPE result = _zero;
-        DATA_TYPE da = _zero;
-        DATA_TYPE db = _zero;
+        DATA_TYPE result = zero();
+        DATA_TYPE da = zero();
+        DATA_TYPE db = zero();
 
         // build interpolation coefficients
 
@@ -352,21 +358,21 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         seq_vector::csptr ax = this->_axis[dim];
         const size_t kmin = 1u;               // at endpt if k-1 < 0
         const size_t kmax = ax->size() - 3u;  // at endpt if k+2 > N-1
-        DATA_TYPE result = _zero;
+        DATA_TYPE result = zero();
 
         // dim-1 values at k-1, k, k+1, k+2
 
-        DATA_TYPE y0 = _zero;
-        DATA_TYPE y1 = _zero;
-        DATA_TYPE y2 = _zero;
-        DATA_TYPE y3 = _zero;
+        DATA_TYPE y0 = zero();
+        DATA_TYPE y1 = zero();
+        DATA_TYPE y2 = zero();
+        DATA_TYPE y3 = zero();
 
         // dim-1 derivatives at k-1, k, k+1, k+2
 
-        DATA_TYPE dy0 = _zero;
-        DATA_TYPE dy1 = _zero;
-        DATA_TYPE dy2 = _zero;
-        DATA_TYPE dy3 = _zero;
+        DATA_TYPE dy0 = zero();
+        DATA_TYPE dy1 = zero();
+        DATA_TYPE dy2 = zero();
+        DATA_TYPE dy3 = zero();
 
         // interpolate in dim-1 dimension to find values and derivs at k, k-1
 
@@ -424,9 +430,9 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
 
         // forward derivatives of dim-1 derivatives
 
-        DATA_TYPE dderiv0 = _zero;
-        DATA_TYPE dderiv1 = _zero;
-        DATA_TYPE dderiv2 = _zero;
+        DATA_TYPE dderiv0 = zero();
+        DATA_TYPE dderiv1 = zero();
+        DATA_TYPE dderiv2 = zero();
         if (deriv_vec) {  // fwd deriv of dim-1 derivatives
             dderiv0 = (dy1 - dy0) / h0;
             dderiv1 = (dy2 - dy1) / h1;
@@ -439,8 +445,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         // set it zero at local maxima or minima
         // deriv0 * deriv1 condition guards against division by zero
 
-        DATA_TYPE slope1 = _zero;
-        DATA_TYPE dslope1 = _zero;
+        DATA_TYPE slope1 = zero();
+        DATA_TYPE dslope1 = zero();
 
         // when not at an end-point, slope1 is the harmonic, weighted
         // average of deriv0 and deriv1.
@@ -467,8 +473,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         // set it zero at local maxima or minima
         // deriv1 * deriv2 condition guards against division by zero
 
-        DATA_TYPE slope2 = _zero;
-        DATA_TYPE dslope2 = _zero;
+        DATA_TYPE slope2 = zero();
+        DATA_TYPE dslope2 = zero();
 
         // when not at an end-point, slope2 is the harmonic, weighted
         // average of deriv1 and deriv2.
@@ -528,22 +534,6 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
      * Local copy of data storage to support data editing.
      */
     std::shared_ptr<DATA_TYPE[]> _writeable_data;
-
-    /**
-     * Example of empty data type with vector/matrix correct size. If results
-     * variables are left uninitialized, Valgrind's Memcheck flags them out as
-     * potential errors. Initializing declaration of DATA_TYPE to _zeros quiets
-     * this error message.
-     */
-    mutable DATA_TYPE _zero;
-
-    /**
-     * Since we don't know that the size of vector/matrix DATA_TYPEs are going
-     * to be until the interpolate() has been called, we set the value of _zero
-     * in interpolate() if it has not yet already been initialized. Since the
-     * interpolate() method is const, this field must be mutable.
-     */
-    mutable bool _zero_init{false};
 };
 
 }  // end of namespace types
-- 
2.43.0


From 369ef0b7c517f5c4e797bfe3aa3ad9cca80504ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 32/50] fix: ARC bathymetry reports broken files and has no
 shared label buffer

---
 ocean/ascii_arc_bathy.cc | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/ocean/ascii_arc_bathy.cc b/ocean/ascii_arc_bathy.cc
index 438a937..afb81da 100644
--- a/ocean/ascii_arc_bathy.cc
+++ b/ocean/ascii_arc_bathy.cc
@@ -13,6 +13,8 @@
 #include <fstream>
 #include <iostream>
 #include <memory>
+#include <stdexcept>
+#include <string>
 
 using namespace usml::ocean;
 using namespace usml::types;
@@ -27,7 +29,7 @@ ascii_arc_bathy::ascii_arc_bathy(const char* filename) {
     double yllcorner;
     double cellsize;
     double nodata_value;
-    static char label[80];
+    std::string label;
     const auto R = (double)wposition::earth_radius;
 
     std::ifstream fi(filename);
@@ -41,6 +43,9 @@ ascii_arc_bathy::ascii_arc_bathy(const char* filename) {
     fi >> label >> yllcorner;
     fi >> label >> cellsize;
     fi >> label >> nodata_value;
+    if (!fi || ncols == 0 || nrows == 0) {
+        throw std::invalid_argument("can not read ARC header");
+    }
 
     // construct latitude and longitude axes in spherical coordinates
     // note that axis[0] starts in the south and moves north
@@ -54,21 +59,23 @@ ascii_arc_bathy::ascii_arc_bathy(const char* filename) {
     // read depths and convert to rho coordinate of spherical earth system
     // flip latitude direction upside down during the read.
 
-    auto* data = new double[ncols * nrows];
-    for (int r = 0; r < nrows; ++r) {
+    std::shared_ptr<double[]> data(new double[ncols * nrows]);
+    for (size_t r = 0; r < nrows; ++r) {
         double* ptr = &(data[r * ncols]);
-        for (int c = 0; c < ncols; ++c) {
-            fi >> *ptr;
+        for (size_t c = 0; c < ncols; ++c) {
+            if (!(fi >> *ptr)) {
+                throw std::invalid_argument("can not read ARC depths");
+            }
             *(ptr++) += R;
         }
     }
-    this->_writeable_data = std::shared_ptr<double[]>(data);
+    this->_writeable_data = data;
     this->_data = this->_writeable_data;  // read only reference
 
     // set interp type and edge limit
 
     for (size_t n = 0; n < 2; ++n) {
-        this->_interp_type[n] = interp_enum::pchip;
-        this->_edge_limit[n] = true;
+        this->interp_type(n, interp_enum::pchip);
+        this->edge_limit(n, true);
     }
 }
-- 
2.43.0


From 47090fb8e15a2a73df2d191bb3c7d46a6d72de75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 33/50] fix: profile tables report broken lines and keep no
 trailing points

---
 ocean/ascii_profile.cc | 58 +++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/ocean/ascii_profile.cc b/ocean/ascii_profile.cc
index 88c8ad0..6013f4e 100644
--- a/ocean/ascii_profile.cc
+++ b/ocean/ascii_profile.cc
@@ -8,12 +8,14 @@
 #include <usml/types/seq_vector.h>
 #include <usml/types/wposition.h>
 
+#include <algorithm>
 #include <cctype>
-#include <cstddef>
 #include <fstream>
-#include <iostream>
 #include <memory>
+#include <sstream>
+#include <stdexcept>
 #include <string>
+#include <vector>
 
 using namespace usml::ocean;
 
@@ -21,44 +23,48 @@ using namespace usml::ocean;
  * Read a 1-D profile from a text file.
  */
 ascii_profile::ascii_profile(const char *filename) {
-    // count the number of lines in the input file
+    // read data from input file
 
     std::ifstream infile(filename);
-    size_t size = 0;
+    std::vector<double> height;
+    std::vector<double> speed;
     std::string line;
     while (getline(infile, line)) {
-        ++size;
-    }
-    infile.clear();
-    infile.seekg(0);
-
-    // read data from input file
-
-    double depth;
-    auto *height = new double[size];
-    auto *speed = new double[size];
-    int c;
-    for (size_t n = 0; n < size; ++n) {
-        infile >> depth;
+        if (line.find_first_not_of(" \t\r") == std::string::npos) {
+            continue;  // ignore empty lines
+        }
+        std::istringstream fields(line);
+        double depth;
+        double value;
+        fields >> depth;
         while (true) {  // skip comma and space delimiters
-            c = infile.peek();
+            const int c = fields.peek();
             if (c != ',' && (isspace(c) == 0)) {
                 break;
             }
-            infile.get();
+            fields.get();
         }
-        infile >> speed[n];
-        height[n] = wposition::earth_radius - depth;
+        fields >> value;
+        if (!fields) {
+            throw std::invalid_argument("can not read profile");
+        }
+        height.push_back(wposition::earth_radius - depth);
+        speed.push_back(value);
+    }
+    if (infile.bad() || speed.empty()) {
+        throw std::invalid_argument("can not read profile");
     }
 
     // load into data_grid variables
 
-    this->_axis[0] = seq_vector::csptr(new seq_data(height, size));
-    this->_data = std::shared_ptr<const double[]>(speed);
-    delete[] height;
+    this->_axis[0] = seq_vector::csptr(new seq_data(height));
+    this->_writeable_data =
+        std::shared_ptr<double[]>(new double[speed.size()]);
+    std::copy(speed.begin(), speed.end(), this->_writeable_data.get());
+    this->_data = this->_writeable_data;  // read only reference
 
     // set interp type and edge limit
 
-    this->_interp_type[0] = interp_enum::pchip;
-    this->_edge_limit[0] = true;
+    this->interp_type(0, interp_enum::pchip);
+    this->edge_limit(0, true);
 }
-- 
2.43.0


From 754d8149e9760ef12cc074d13ffc749eccf601a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 34/50] fix: netCDF profiles read all attributes, fill missing
 values and know global files that end at 179

---
 netcdf/netcdf_profile.cc | 85 +++++++++++++---------------------------
 1 file changed, 28 insertions(+), 57 deletions(-)

diff --git a/netcdf/netcdf_profile.cc b/netcdf/netcdf_profile.cc
index bbc9b14..10d7f13 100644
--- a/netcdf/netcdf_profile.cc
+++ b/netcdf/netcdf_profile.cc
@@ -24,8 +24,8 @@ netcdf_profile::netcdf_profile(const char *filename, double date, double south,
     netCDF::NcFile file(fname, netCDF::NcFile::FileMode::read);
 
     double missing = NAN;       // default value for missing information
-    double scale_factor = NAN;  // default value for scale_factor
-    double add_offset = NAN;    // default value for add_offset
+    double scale_factor = 1.0;  // default value for scale_factor
+    double add_offset = 0.0;    // default value for add_offset
     netCDF::NcVar longitude;
     netCDF::NcVar latitude;
     netCDF::NcVar altitude;
@@ -78,7 +78,7 @@ netcdf_profile::netcdf_profile(const char *filename, double date, double south,
     bool zero_to_360 = value0 < 1.0 && valueN >= 359.0;
 
     // Is the data set bounds -180 to 179(180)
-    bool bounds_180 = value0 < -179.0 && valueN > 179.0;
+    bool bounds_180 = value0 < -179.0 && valueN >= 179.0;
 
     // Is this set a global data set
     bool global = (zero_to_360 || bounds_180);
@@ -212,18 +212,12 @@ netcdf_profile::netcdf_profile(const char *filename, double date, double south,
 
     // apply logic for missing, scale_factor, and add_offset
 
-    if (!std::isnan(missing) || !std::isnan(scale_factor * add_offset)) {
-        const size_t N = alt_num * lat_num * lng_num;
-        double *ptr = data;
-        while (ptr < data + N) {
-            if (!std::isnan(missing) && *ptr == missing) {
-                *ptr = NAN;
-            }
-            if (!std::isnan(scale_factor * add_offset)) {
-                *ptr = *ptr * scale_factor + add_offset;
-            }
-            ++ptr;
+    const size_t N = alt_num * lat_num * lng_num;
+    for (double *ptr = data; ptr < data + N; ++ptr) {
+        if (!std::isnan(missing) && *ptr == missing) {
+            *ptr = NAN;
         }
+        *ptr = *ptr * scale_factor + add_offset;
     }
 }
 
@@ -336,27 +330,15 @@ void netcdf_profile::fill_missing() {
     for (size_t j = 0; j < nlat; ++j) {
         for (size_t k = 0; k < nlon; ++k) {
             double w = 2.0;
-            if (max_depth + 1 < ndepth) {
-                for (size_t d = max_depth + 1; d < ndepth; ++d) {
-                    replace_grad(d)(j, k) = replace_grad(max_depth)(j, k) / w;
-                    const size_t index[] = {d, j, k};
-                    const size_t prev[] = {d - 1, j, k};
-                    const double v =
-                        replace.data(prev) +
-                        replace_grad(d)(j, k) * abs(depth->increment(d - 1));
-                    replace.setdata(index, v);
-                    w *= 2.0;
-                }
-            } else {
-                replace_grad(max_depth)(j, k) =
-                    replace_grad(max_depth)(j, k) / w;
-                const size_t index[] = {max_depth, j, k};
-                const size_t prev[] = {max_depth - 1, j, k};
+            for (size_t d = max_depth + 1; d < ndepth; ++d) {
+                replace_grad(d)(j, k) = replace_grad(max_depth)(j, k) / w;
+                const size_t index[] = {d, j, k};
+                const size_t prev[] = {d - 1, j, k};
                 const double v = replace.data(prev) +
-                                 replace_grad(max_depth)(j, k) *
-                                     abs(depth->increment(max_depth - 1));
+                                 replace_grad(d)(j, k) * depth->increment(d - 1);
                 replace.setdata(index, v);
-            }  // end if( max_depth+1 < ndepth )
+                w *= 2.0;
+            }
         }      // end for k<nlon
     }          // end for j<nlat
 
@@ -395,31 +377,20 @@ void netcdf_profile::decode_filetype(
         latitude = file.getVar(var.getDim(2).getName());
         longitude = file.getVar(var.getDim(3).getName());
 
-        {
-            // NOLINTBEGIN(bugprone-empty-catch)
-            netCDF::NcVarAtt att;
+        // extract fill value, scale factor, and offset attributes, if any
 
-            // extract fill value attribute
-            try {
-                att = profile.getAtt("_FillValue");
-                att.getValues(&missing);
-            } catch (const netCDF::exceptions::NcException &ex) {
-            }
-
-            // extract scale factor attribute
-            try {
-                att = profile.getAtt("scale_factor");
-                att.getValues(&scale);
-            } catch (const netCDF::exceptions::NcException &ex) {
-            }
-
-            // extract add offset attribute
-            try {
-                att = profile.getAtt("add_offset");
-                att.getValues(&offset);
-            } catch (const netCDF::exceptions::NcException &ex) {
-            }
-            // NOLINTEND(bugprone-empty-catch)
+        const auto atts = profile.getAtts();
+        auto att = atts.find("_FillValue");
+        if (att != atts.end()) {
+            att->second.getValues(&missing);
+        }
+        att = atts.find("scale_factor");
+        if (att != atts.end()) {
+            att->second.getValues(&scale);
+        }
+        att = atts.find("add_offset");
+        if (att != atts.end()) {
+            att->second.getValues(&offset);
         }
 
         // stop searching
-- 
2.43.0


From 8a82a3f18f8f110c2a6c9ab1736f4f98d1f6c08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 35/50] fix: global bathymetry files may end at 179 degrees

---
 netcdf/netcdf_bathy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netcdf/netcdf_bathy.cc b/netcdf/netcdf_bathy.cc
index 18d5914..e154dcf 100644
--- a/netcdf/netcdf_bathy.cc
+++ b/netcdf/netcdf_bathy.cc
@@ -47,7 +47,7 @@ netcdf_bathy::netcdf_bathy(const char* filename, double south, double north,
     bool zero_to_360 = value0 < 1.0 && valueN >= 359.0;
 
     // Is the data set bounds -180 to 179(180)
-    bool bounds_180 = value0 < -179.0 && valueN > 179.0;
+    bool bounds_180 = value0 < -179.0 && valueN >= 179.0;
 
     // Is this set a global data set
     bool global = (zero_to_360 || bounds_180);
-- 
2.43.0


From a07ebef93a7aee19bbe02b9423de102d55195c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 36/50] fix: World Ocean Atlas files of different grids are
 reported

---
 netcdf/netcdf_woa.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/netcdf/netcdf_woa.cc b/netcdf/netcdf_woa.cc
index c0321b6..d3cacbd 100644
--- a/netcdf/netcdf_woa.cc
+++ b/netcdf/netcdf_woa.cc
@@ -12,6 +12,7 @@
 #include <cmath>
 #include <cstddef>
 #include <memory>
+#include <stdexcept>
 
 using namespace usml::netcdf;
 
@@ -27,6 +28,11 @@ netcdf_woa::netcdf_woa(const char* deep, const char* shallow, int month,
     if (shallow != nullptr) {
         netcdf_profile replace(shallow, int(round(30.5 * (month - 0.5))), south,
                                north, west, east);
+        if (replace.axis(0).size() > axis(0).size() ||
+            replace.axis(1).size() != axis(1).size() ||
+            replace.axis(2).size() != axis(2).size()) {
+            throw std::invalid_argument("shallow grid does not match deep");
+        }
         size_t N = replace.axis(0).size() * replace.axis(1).size() *
                    replace.axis(2).size();
         std::copy_n(replace.data(), N, _writeable_data.get());
-- 
2.43.0


From 3e14edf167ebad4af88965cbe2af2c58d4ab1fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 37/50] fix: bottom province files are read completely or
 reported

---
 ocean/reflect_loss_netcdf.cc | 110 ++++++++++++++++-------------------
 1 file changed, 50 insertions(+), 60 deletions(-)

diff --git a/ocean/reflect_loss_netcdf.cc b/ocean/reflect_loss_netcdf.cc
index 9bf4e8f..303ccac 100644
--- a/ocean/reflect_loss_netcdf.cc
+++ b/ocean/reflect_loss_netcdf.cc
@@ -4,12 +4,31 @@
  */
 #include <usml/ocean/reflect_loss_netcdf.h>
 #include <usml/types/gen_grid.h>
+#include <usml/types/seq_data.h>
 
-#include <exception>
+#include <memory>
 #include <netcdf>
+#include <stdexcept>
+#include <vector>
 
 using namespace usml::ocean;
 
+/**
+ * Extracts all of the values in a NetCDF variable.
+ */
+static std::vector<double> read_all(const netCDF::NcVar& var) {
+    if (var.isNull()) {
+        throw std::invalid_argument("missing bottom province variable");
+    }
+    size_t size = 1;
+    for (const auto& dim : var.getDims()) {
+        size *= dim.getSize();
+    }
+    std::vector<double> data(size);
+    var.getVar(data.data());
+    return data;
+}
+
 /**
  * Loads bottom province data from a netCDF formatted file.
  */
@@ -25,66 +44,47 @@ reflect_loss_netcdf::reflect_loss_netcdf(const char* filename) {
     netCDF::NcVar lat = file.getVar("latitude");
     netCDF::NcVar bot_num = file.getVar("type");
 
-    // gets the size of the dimensions to be used to create the data grid
-
-    int ncid = ncopen(filename, NC_NOWRITE);
-
-    int latid = ncdimid(ncid, "latitude");
-    long latdim;
-    ncdiminq(ncid, latid, nullptr, &latdim);
-
-    int lonid = ncdimid(ncid, "longitude");
-    long londim;
-    ncdiminq(ncid, lonid, nullptr, &londim);
-
-    int types = ncdimid(ncid, "speed_ratio");
-    long n_types;
-    ncdiminq(ncid, types, nullptr, &n_types);
-
-    ncclose(ncid);
-
     // extracts the data for all of the variables from the netcdf file
 
-    auto* latitude = new double[latdim];
-    auto* longitude = new double[londim];
-    auto* type_num = new double[latdim * londim];
-    auto* speed = new double[n_types];
-    auto* density = new double[n_types];
-    auto* atten = new double[n_types];
-    auto* shearspd = new double[n_types];
-    auto* shearatten = new double[n_types];
-
-    lat.getVar(latitude);
-    lon.getVar(longitude);
-    bot_num.getVar(type_num);
-    bot_speed.getVar(speed);
-    bot_density.getVar(density);
-    bot_atten.getVar(atten);
-    bot_shear_speed.getVar(shearspd);
-    bot_shear_atten.getVar(shearatten);
+    const std::vector<double> latitude = read_all(lat);
+    const std::vector<double> longitude = read_all(lon);
+    const std::vector<double> type_num = read_all(bot_num);
+    const std::vector<double> speed = read_all(bot_speed);
+    const std::vector<double> density = read_all(bot_density);
+    const std::vector<double> atten = read_all(bot_atten);
+    const std::vector<double> shearspd = read_all(bot_shear_speed);
+    const std::vector<double> shearatten = read_all(bot_shear_atten);
+    const size_t latdim = latitude.size();
+    const size_t londim = longitude.size();
+    const size_t n_types = speed.size();
+    if (latdim < 1 || londim < 1 || type_num.size() != latdim * londim ||
+        density.size() != n_types || atten.size() != n_types ||
+        shearspd.size() != n_types || shearatten.size() != n_types) {
+        throw std::invalid_argument("inconsistent bottom province file");
+    }
 
     // creates a sequence vector of axes that are passed to data grid
 
     seq_vector::csptr axis[2];
-    double latinc = (latitude[latdim - 1] - latitude[0]) / double(latdim);
-    double loninc = (longitude[londim - 1] - longitude[0]) / double(londim);
-    auto* seq_lat = new seq_linear(latitude[0], latinc, int(latdim));
-    auto* seq_lon = new seq_linear(longitude[0], loninc, int(londim));
-    axis[0] = seq_vector::csptr(seq_lat);
-    axis[1] = seq_vector::csptr(seq_lon);
+    axis[0] = seq_vector::csptr(new seq_data(latitude));
+    axis[1] = seq_vector::csptr(new seq_data(longitude));
 
     // creates a data grid and populates the data from the netcdf file
 
-    auto* grid = new gen_grid<2>(axis);
+    auto grid = std::make_shared<gen_grid<2>>(axis);
     size_t index[2];
-    for (int i = 0; i < latdim; i++) {
-        for (int j = 0; j < londim; j++) {
+    for (size_t i = 0; i < latdim; i++) {
+        for (size_t j = 0; j < londim; j++) {
+            const double type = type_num[i * londim + j];
+            if (!(type >= 0.0 && type < double(n_types))) {
+                throw std::invalid_argument("unknown bottom province");
+            }
             index[0] = i;
             index[1] = j;
-            grid->setdata(index, type_num[i * londim + j]);
+            grid->setdata(index, type);
         }
     }
-    _bottom_grid = data_grid<2>::csptr(grid);
+    _bottom_grid = grid;
 
     // set the interpolation type to the nearest neighbor and restrict extrap
 
@@ -95,20 +95,10 @@ reflect_loss_netcdf::reflect_loss_netcdf(const char* filename) {
 
     // builds a vector of reflect_loss_rayleigh for all bottom province numbers
 
-    for (int i = 0; i < int(n_types); i++) {
-        auto* model = new reflect_loss_rayleigh(density[i], speed[i], atten[i],
-                                                shearspd[i], shearatten[i]);
-        _loss_model.push_back(reflect_loss_model::csptr(model));
+    for (size_t i = 0; i < n_types; i++) {
+        _loss_model.push_back(std::make_shared<reflect_loss_rayleigh>(
+            density[i], speed[i], atten[i], shearspd[i], shearatten[i]));
     }
-
-    delete[] latitude;
-    delete[] longitude;
-    delete[] speed;
-    delete[] density;
-    delete[] atten;
-    delete[] shearspd;
-    delete[] shearatten;
-    delete[] type_num;
 }
 
 /**
-- 
2.43.0


From fe38c4331b1a23ba9fd900a12ceb94ba49331cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 38/50] fix: best axis of a series has the values of the series

---
 types/seq_vector.cc | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/types/seq_vector.cc b/types/seq_vector.cc
index 8b7e5ed..78905e8 100755
--- a/types/seq_vector.cc
+++ b/types/seq_vector.cc
@@ -9,6 +9,8 @@
 #include <usml/types/seq_vector.h>
 
 #include <boost/numeric/ublas/storage.hpp>
+#include <algorithm>
+#include <cmath>
 #include <cstdlib>
 
 using namespace usml::types;
@@ -48,28 +50,25 @@ seq_vector::csptr seq_vector::clip(double min, double max) const {
  * based on the contents of the array.
  */
 seq_vector::csptr seq_vector::build_best(const double* data, size_t count) {
-    bool isLinear = true;
-    bool isLog = true;
+    // compare each element to its value in linear and logarithmic sequences
+    // with the same end points, tolerates single precision rounding
 
     const int N = (int)count;
-    double p1 = data[0];
-    double minValue = p1;
-    double maxValue = p1;
-
-    if (N > 1) {
-        double p2 = data[1];
-        maxValue = p2;
-        for (size_t n = 2; n < N; ++n) {
-            double p3 = data[n];
-            maxValue = p3;
-            if (p2 != 0.0 && abs(((p3 - p2) - (p2 - p1)) / p2) > 1E-4) {
-                isLinear = false;
-            }
-            if (p1 != 0.0 && p2 != 0.0 && abs((p3 / p2) - (p2 / p1)) > 1E-5) {
-                isLog = false;
-            }
-            p1 = p2;
-            p2 = p3;
+    const double minValue = data[0];
+    const double maxValue = data[N > 0 ? N - 1 : 0];
+    const double linear = (maxValue - minValue) / (N - 1);
+    const double log = std::pow(maxValue / minValue, 1.0 / (N - 1));
+    bool isLinear = true;
+    bool isLog = minValue != 0.0 && maxValue / minValue > 0.0;
+    for (int n = 1; n < N - 1; ++n) {
+        const double increment = data[n + 1] - data[n];
+        const double tolerance = std::max(
+            1e-3 * std::abs(increment), 1e-6 * std::abs(data[n]));
+        if (std::abs(data[n] - (minValue + linear * n)) > tolerance) {
+            isLinear = false;
+        }
+        if (isLog && std::abs(data[n] - minValue * std::pow(log, n)) > tolerance) {
+            isLog = false;
         }
     }
 
@@ -81,7 +80,7 @@ seq_vector::csptr seq_vector::build_best(const double* data, size_t count) {
     } else if (isLinear) {
         seq = new seq_linear(minValue, (maxValue - minValue) / (N - 1), N);
     } else if (isLog) {
-        seq = new seq_log(minValue, (maxValue / minValue) / (N - 1), N);
+        seq = new seq_log(minValue, log, N);
     } else {
         seq = new seq_data(data, count);
     }
-- 
2.43.0


From 26c1a3f312be8025342b6f2523b09b763015d3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:24 +0000
Subject: [PATCH 39/50] fix: wavefront logs report data that could not be
 written when they are closed

---
 waveq3d/wave_queue_netcdf.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/waveq3d/wave_queue_netcdf.cc b/waveq3d/wave_queue_netcdf.cc
index 97577ed..70d8c3d 100644
--- a/waveq3d/wave_queue_netcdf.cc
+++ b/waveq3d/wave_queue_netcdf.cc
@@ -5,6 +5,8 @@
 #include <usml/waveq3d/wave_queue.h>
 
 #include <memory>
+#include <stdexcept>
+#include <utility>
 
 using namespace usml::waveq3d;
 
@@ -12,6 +14,7 @@ using namespace usml::waveq3d;
  * Initialize recording to netCDF wavefront log.
  */
 void wave_queue::init_netcdf(const char *filename, const char *long_name) {
+    close_netcdf();
     _nc_file = std::make_unique<netCDF::NcFile>(
         filename, netCDF::NcFile::replace);
     _nc_rec = 0;
@@ -78,7 +81,9 @@ void wave_queue::init_netcdf(const char *filename, const char *long_name) {
  * Write current record to netCDF wavefront log.
  */
 void wave_queue::save_netcdf() {
-    // NcError( verbose_nonfatal ) ;
+    if (_nc_file == nullptr) {
+        throw std::logic_error("wavefront log is not open");
+    }
     const std::vector<size_t> start1 = {_nc_rec};
     const std::vector<size_t> count1 = {1};
     const std::vector<size_t> startp = {_nc_rec, 0, 0};
@@ -104,5 +109,8 @@ void wave_queue::save_netcdf() {
  * Close netCDF wavefront log.
  */
 void wave_queue::close_netcdf() {
-    _nc_file.reset();  // destructor frees all netCDF temp variables
+    if (_nc_file != nullptr) {
+        auto nc_file = std::move(_nc_file);
+        nc_file->close();  // reports data that could not be written
+    }
 }
-- 
2.43.0


From ff8fe7955de64956fa99134b94417ffe01db69a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:34 +0000
Subject: [PATCH 40/50] fix: seeding a random generator forgets values drawn
 before, complex values are drawn in order

---
 ublas/randgen.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ublas/randgen.cc b/ublas/randgen.cc
index e152689..9bdaa48 100755
--- a/ublas/randgen.cc
+++ b/ublas/randgen.cc
@@ -24,7 +24,11 @@ randgen::randgen(unsigned seed)
 /**
  * Update the random number generator with a specific seed.
  */
-void randgen::seed(unsigned seed) { _generator.seed(seed); }
+void randgen::seed(unsigned seed) {
+    _generator.seed(seed);
+    _uniform_dist.reset();
+    _gaussian_dist.reset();  // forget values derived from the former seed
+}
 
 //******************************************************************
 // Scalar random numbers
@@ -76,8 +80,8 @@ vector<double> randgen::gaussian(int N) {
 vector<std::complex<double>> randgen::cgaussian(int N) {
     vector<std::complex<double>> result(N);
     auto gen = [this]() {
-        return std::complex<double>(_gaussian_dist(_generator),
-                                    _gaussian_dist(_generator));
+        return std::complex<double>{_gaussian_dist(_generator),
+                                    _gaussian_dist(_generator)};
     };
     std::generate(begin(result), end(result), gen);
     return result;
@@ -113,8 +117,8 @@ matrix<double> randgen::gaussian(int N, int M) {
 matrix<std::complex<double>> randgen::cgaussian(int N, int M) {
     matrix<std::complex<double>> result(N, M);
     auto gen = [this]() {
-        return std::complex<double>(_gaussian_dist(_generator),
-                                    _gaussian_dist(_generator));
+        return std::complex<double>{_gaussian_dist(_generator),
+                                    _gaussian_dist(_generator)};
     };
     std::generate(begin(result.data()), end(result.data()), gen);
     return result;
-- 
2.43.0


From 3294cd28976818d191848628d380a0bf3c2ad1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:06 +0000
Subject: [PATCH 41/50] fix: sloping boundaries keep their own copy of the
 location

---
 ocean/boundary_slope.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocean/boundary_slope.h b/ocean/boundary_slope.h
index e522a7b..1fc714b 100644
--- a/ocean/boundary_slope.h
+++ b/ocean/boundary_slope.h
@@ -81,7 +81,7 @@ class USML_DECLSPEC boundary_slope : public boundary_model {
 
    private:
     /** Location at which initial depth and slope are specified. */
-    const wposition1& _location;
+    const wposition1 _location;
 
     /** Surface height in spherical earth coords. */
     const double _height;
-- 
2.43.0


From 218f80f5ed65bd45f948fc61cb5ba68d80985133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:06 +0000
Subject: [PATCH 42/50] fix: reverse iteration of an axis ends

---
 types/seq_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/seq_vector.h b/types/seq_vector.h
index ad4442a..c7f6eff 100644
--- a/types/seq_vector.h
+++ b/types/seq_vector.h
@@ -171,14 +171,14 @@ class USML_DECLSPEC seq_vector : public vector_container<seq_vector> {
      * Return reverse iterator to end of sequence.
      */
     const_reverse_iterator rbegin() const {
-        return const_reverse_iterator(rbegin());
+        return const_reverse_iterator(end());
     }
 
     /**
      * Return reverse iterator to start of sequence.
      */
     const_reverse_iterator rend() const {
-        return const_reverse_iterator(rend());
+        return const_reverse_iterator(begin());
     }
 
     /**
-- 
2.43.0


From f72fad007d3feecbc94b443335844e20c27f0789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:06 +0000
Subject: [PATCH 43/50] fix: fast sound speed grids free their derivative table

---
 types/data_grid_svp.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/types/data_grid_svp.h b/types/data_grid_svp.h
index 2a52be3..fd70758 100755
--- a/types/data_grid_svp.h
+++ b/types/data_grid_svp.h
@@ -139,6 +139,7 @@ class USML_DECLSPEC data_grid_svp : public gen_grid<3> {
             }
             delete[] _derv_z[i];
         }
+        delete[] _derv_z;
     }
 
     /**
-- 
2.43.0


From cd49372023c397824b71a859678ea0c392ecf939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:46 +0000
Subject: [PATCH 44/50] fix: beam levels do not depend on what the output held
 before

---
 beampatterns/bp_arb.cc    | 2 +-
 beampatterns/bp_model.cc  | 1 +
 beampatterns/bp_piston.cc | 2 +-
 beampatterns/bp_planar.cc | 2 +-
 4 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/beampatterns/bp_arb.cc b/beampatterns/bp_arb.cc
index f93ca3a..570db5b 100644
--- a/beampatterns/bp_arb.cc
+++ b/beampatterns/bp_arb.cc
@@ -23,7 +23,7 @@ void bp_arb::beam_level(const bvector& arrival,
 
     if (_back_baffle) {
         if (arrival.front() <= 0.0) {
-            *level *= 0.0;
+            level->clear();
             return;
         }
     }
diff --git a/beampatterns/bp_model.cc b/beampatterns/bp_model.cc
index 8c9d0c2..cfeaf49 100644
--- a/beampatterns/bp_model.cc
+++ b/beampatterns/bp_model.cc
@@ -31,6 +31,7 @@ void bp_model::directivity(const seq_vector::csptr& frequencies,
                            double sound_speed) const {
     // loop over all solid angles
 
+    level->clear();
     vector<double> beam(frequencies->size(), 0.0);
     const double dangle = M_PI / 180.0;  // both dtheta and dphi
     for (double az = 0.0; az <= TWO_PI; az += dangle) {
diff --git a/beampatterns/bp_piston.cc b/beampatterns/bp_piston.cc
index fb6b286..8ed2dab 100644
--- a/beampatterns/bp_piston.cc
+++ b/beampatterns/bp_piston.cc
@@ -24,7 +24,7 @@ void bp_piston::beam_level(const bvector& arrival,
     // set gain to zero in backplane when baffle is on
     if (_back_baffle) {
         if (arrival.front() <= 0.0) {
-            *level *= 0.0;
+            level->clear();
             return;
         }
     }
diff --git a/beampatterns/bp_planar.cc b/beampatterns/bp_planar.cc
index 6f965d8..b51db7b 100644
--- a/beampatterns/bp_planar.cc
+++ b/beampatterns/bp_planar.cc
@@ -41,7 +41,7 @@ void bp_planar::beam_level(const bvector& arrival,
     // set gain to zero in backplane when baffle is on
     if (_back_baffle) {
         if (arrival.front() <= 0.0) {
-            *level *= 0.0;
+            level->clear();
             return;
         }
     }
-- 
2.43.0


From a197c45d3f4e598adeda7b1bec02440ca8b266b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:48 +0000
Subject: [PATCH 45/50] fix: augmented axes can be searched

---
 types/seq_augment.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/seq_augment.h b/types/seq_augment.h
index 2bb3093..8639be9 100755
--- a/types/seq_augment.h
+++ b/types/seq_augment.h
@@ -60,6 +60,10 @@ class USML_DECLSPEC seq_augment : public seq_data {
             _increment[i - 1] = _data[i] - _data[i - 1];
         }
         _increment[_max_index] = _data[_max_index] - _data[_max_index - 1];
+
+        for (size_t i = 0; i < size; ++i) {
+            _data_map[_sign * _data[i]] = i;
+        }
     }
 };
 
-- 
2.43.0


From 9289f9fb40d5a70471fba9153cf989d5acfebe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 46/50] fix: motion across the date line or through south is
 not a large motion

The longitude, yaw and roll of a sensor wrap around, and their difference
was compared with the threshold as it is.  A small turn from +179 to -179
degrees, or a small step across the date line, started a new computation of
the acoustics.
---
 sensors/sensor_model.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sensors/sensor_model.cc b/sensors/sensor_model.cc
index 57fa67e..81208e3 100644
--- a/sensors/sensor_model.cc
+++ b/sensors/sensor_model.cc
@@ -163,6 +163,12 @@ void sensor_model::update_internals(time_t time, const wposition1& pos,
     auto o1 = orient;
     auto o2 = _update_orient;
 
+    // the difference between +179 and -179 degrees is only two degrees
+
+    auto angle_change = [](double a, double b) {
+        return abs(std::remainder(a - b, 360.0));
+    };
+
     // clear request before using it, so that a new request is never lost
 
     const bool needs_update =
@@ -173,11 +179,11 @@ void sensor_model::update_internals(time_t time, const wposition1& pos,
 		update_type != NO_UPDATE && (
         update_type == FORCE_UPDATE || needs_update
 		|| abs(p1.latitude() - p2.latitude()) >= motion_thresholds::lat_threshold
-		|| abs(p1.longitude() - p2.longitude()) >= motion_thresholds::lon_threshold
+		|| angle_change(p1.longitude(), p2.longitude()) >= motion_thresholds::lon_threshold
 		|| abs(p1.altitude() - p2.altitude()) >= motion_thresholds::alt_threshold
-		|| abs(o1.yaw() - o2.yaw()) >= motion_thresholds::yaw_threshold
+		|| angle_change(o1.yaw(), o2.yaw()) >= motion_thresholds::yaw_threshold
 		|| abs(o1.pitch() - o2.pitch()) >= motion_thresholds::pitch_threshold
-		|| abs(o1.roll() - o2.roll()) >= motion_thresholds::roll_threshold);
+		|| angle_change(o1.roll(), o2.roll()) >= motion_thresholds::roll_threshold);
     // clang-format on
 
     // update motion of sensor
-- 
2.43.0


From ae8f59457d0f818c08b863ac1f76476cd1557100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:25 +0000
Subject: [PATCH 47/50] fix: sound speeds need temperatures and salinities of
 the same grid

---
 ocean/data_grid_mackenzie.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ocean/data_grid_mackenzie.h b/ocean/data_grid_mackenzie.h
index 2a6fe3c..e469c70 100644
--- a/ocean/data_grid_mackenzie.h
+++ b/ocean/data_grid_mackenzie.h
@@ -10,6 +10,8 @@
 #include <usml/types/seq_vector.h>
 #include <usml/types/wposition.h>
 
+#include <stdexcept>
+
 namespace usml {
 namespace ocean {
 
@@ -70,6 +72,7 @@ class data_grid_mackenzie : public gen_grid<3> {
      *
      * @param temperature   Ocean temperature profile (degrees C).
      * @param salinity      Ocean salinity profile (ppt).
+     * @throw std::invalid_argument  If the grids have different sizes.
      */
     data_grid_mackenzie(data_grid<3>::csptr temperature,
                         data_grid<3>::csptr salinity)
@@ -77,6 +80,10 @@ class data_grid_mackenzie : public gen_grid<3> {
         // build grid the same size as the temperature grid
 
         for (int dim = 0; dim < 3; ++dim) {
+            if (salinity->axis(dim).size() != temperature->axis(dim).size()) {
+                throw std::invalid_argument(
+                    "salinity grid does not match temperature");
+            }
             this->interp_type(dim, temperature->interp_type(dim));
             this->edge_limit(dim, temperature->edge_limit(dim));
         }
-- 
2.43.0


From 4d5e394c180d31c80f059f8433b6966200bf736e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:58 +0000
Subject: [PATCH 48/50] fix: listeners of a wavefront may be removed while they
 are called

---
 eigenrays/eigenray_notifier.cc   | 12 ++++++------
 eigenrays/eigenray_notifier.h    |  6 +++---
 eigenverbs/eigenverb_notifier.cc |  8 ++++----
 eigenverbs/eigenverb_notifier.h  |  6 +++---
 managed/listener_list.h          |  8 ++++++++
 waveq3d/reflection_notifier.cc   |  8 ++++----
 waveq3d/reflection_notifier.h    |  6 +++---
 7 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/eigenrays/eigenray_notifier.cc b/eigenrays/eigenray_notifier.cc
index 2746e8b..16e54be 100755
--- a/eigenrays/eigenray_notifier.cc
+++ b/eigenrays/eigenray_notifier.cc
@@ -11,14 +11,14 @@ using namespace usml::eigenrays;
  * Add an eigenray listener to this object.
  */
 void eigenray_notifier::add_eigenray_listener(eigenray_listener* listener) {
-    _listeners.insert(listener);
+    _listeners.add(listener);
 }
 
 /**
  * Remove an eigenray listener to this object.
  */
 void eigenray_notifier::remove_eigenray_listener(eigenray_listener* listener) {
-    _listeners.erase(listener);
+    _listeners.remove(listener);
 }
 
 /**
@@ -27,9 +27,9 @@ void eigenray_notifier::remove_eigenray_listener(eigenray_listener* listener) {
 void eigenray_notifier::notify_eigenray_listeners(
     size_t t1, size_t t2, const eigenray_model::csptr& ray,
     size_t runID) const {
-    for (eigenray_listener* listener : _listeners) {
+    _listeners.for_each([&](eigenray_listener* listener) {
         listener->add_eigenray(t1, t2, ray, runID);
-    }
+    });
 }
 
 /**
@@ -39,7 +39,7 @@ void eigenray_notifier::notify_eigenray_listeners(
  */
 void eigenray_notifier::check_eigenray_listeners(double wave_time,
                                                  size_t runID) const {
-    for (eigenray_listener* listener : _listeners) {
+    _listeners.for_each([&](eigenray_listener* listener) {
         listener->check_eigenrays(wave_time, runID);
-    }
+    });
 }
diff --git a/eigenrays/eigenray_notifier.h b/eigenrays/eigenray_notifier.h
index 5c9965b..2fbe058 100755
--- a/eigenrays/eigenray_notifier.h
+++ b/eigenrays/eigenray_notifier.h
@@ -6,10 +6,10 @@
 
 #include <usml/eigenrays/eigenray_listener.h>
 #include <usml/eigenrays/eigenray_model.h>
+#include <usml/managed/listener_list.h>
 #include <usml/usml_config.h>
 
 #include <cstddef>
-#include <set>
 
 namespace usml {
 namespace eigenrays {
@@ -61,13 +61,13 @@ class USML_DECLSPEC eigenray_notifier {
      * Determines if any listeners exist
      * @return true when listeners exist, false otherwise.
      */
-    inline bool has_eigenray_listeners() const { return _listeners.size() > 0; }
+    inline bool has_eigenray_listeners() const { return !_listeners.empty(); }
 
    private:
     /**
      * List of active eigenray listeners.
      */
-    std::set<eigenray_listener*> _listeners;
+    usml::managed::listener_list<eigenray_listener> _listeners;
 };
 
 /// @}
diff --git a/eigenverbs/eigenverb_notifier.cc b/eigenverbs/eigenverb_notifier.cc
index a1ba62f..d192144 100755
--- a/eigenverbs/eigenverb_notifier.cc
+++ b/eigenverbs/eigenverb_notifier.cc
@@ -11,7 +11,7 @@ using namespace usml::eigenverbs;
  * Add an eigenverb listener to this object.
  */
 void eigenverb_notifier::add_eigenverb_listener(eigenverb_listener* listener) {
-    _listeners.insert(listener);
+    _listeners.add(listener);
 }
 
 /**
@@ -19,7 +19,7 @@ void eigenverb_notifier::add_eigenverb_listener(eigenverb_listener* listener) {
  */
 void eigenverb_notifier::remove_eigenverb_listener(
     eigenverb_listener* listener) {
-    _listeners.erase(listener);
+    _listeners.remove(listener);
 }
 
 /**
@@ -27,7 +27,7 @@ void eigenverb_notifier::remove_eigenverb_listener(
  */
 void eigenverb_notifier::notify_eigenverb_listeners(
     const eigenverb_model::csptr& verb, size_t interface_num) const {
-    for (eigenverb_listener* listener : _listeners) {
+    _listeners.for_each([&](eigenverb_listener* listener) {
         listener->add_eigenverb(verb, interface_num);
-    }
+    });
 }
diff --git a/eigenverbs/eigenverb_notifier.h b/eigenverbs/eigenverb_notifier.h
index b4f7db7..ae744ab 100755
--- a/eigenverbs/eigenverb_notifier.h
+++ b/eigenverbs/eigenverb_notifier.h
@@ -6,10 +6,10 @@
 
 #include <usml/eigenverbs/eigenverb_listener.h>
 #include <usml/eigenverbs/eigenverb_model.h>
+#include <usml/managed/listener_list.h>
 #include <usml/usml_config.h>
 
 #include <cstddef>
-#include <set>
 
 namespace usml {
 namespace eigenverbs {
@@ -47,13 +47,13 @@ class USML_DECLSPEC eigenverb_notifier {
      * Determines if any listeners exist
      * @return true when listeners exist, false otherwise.
      */
-    bool has_eigenverb_listeners() const { return _listeners.size() > 0; }
+    bool has_eigenverb_listeners() const { return !_listeners.empty(); }
 
    private:
     /**
      * List of active eigenverb listeners.
      */
-    std::set<eigenverb_listener*> _listeners;
+    usml::managed::listener_list<eigenverb_listener> _listeners;
 };
 
 /// @}
diff --git a/managed/listener_list.h b/managed/listener_list.h
index e0b584d..f86e5e2 100644
--- a/managed/listener_list.h
+++ b/managed/listener_list.h
@@ -58,6 +58,14 @@ class listener_list {
         mark_removing(self, false);
     }
 
+    /**
+     * Determines if there are no listeners in this list.
+     */
+    bool empty() const {
+        std::lock_guard<std::mutex> guard(_mutex);
+        return _listeners.empty();
+    }
+
     /**
      * Calls a function for each of the listeners that are registered at the
      * beginning of this method, and have not been removed before their turn.
diff --git a/waveq3d/reflection_notifier.cc b/waveq3d/reflection_notifier.cc
index 65d1c4e..d733fb6 100755
--- a/waveq3d/reflection_notifier.cc
+++ b/waveq3d/reflection_notifier.cc
@@ -14,7 +14,7 @@ using namespace usml::waveq3d;
  */
 void reflection_notifier::add_reflection_listener(
     reflection_listener* listener) {
-    _listeners.insert(listener);
+    _listeners.add(listener);
 }
 
 /**
@@ -22,7 +22,7 @@ void reflection_notifier::add_reflection_listener(
  */
 void reflection_notifier::remove_reflection_listener(
     reflection_listener* listener) {
-    _listeners.erase(listener);
+    _listeners.remove(listener);
 }
 
 /**
@@ -31,8 +31,8 @@ void reflection_notifier::remove_reflection_listener(
 void reflection_notifier::notify_reflection_listeners(
     double time, size_t de, size_t az, double dt, double grazing, double speed,
     const wposition1& position, const wvector1& ndirection, size_t type) const {
-    for (reflection_listener* listener : _listeners) {
+    _listeners.for_each([&](reflection_listener* listener) {
         listener->reflect(time, de, az, dt, grazing, speed, position,
                           ndirection, type);
-    }
+    });
 }
diff --git a/waveq3d/reflection_notifier.h b/waveq3d/reflection_notifier.h
index b52e9b5..529b94e 100755
--- a/waveq3d/reflection_notifier.h
+++ b/waveq3d/reflection_notifier.h
@@ -4,12 +4,12 @@
  */
 #pragma once
 
+#include <usml/managed/listener_list.h>
 #include <usml/types/wposition1.h>
 #include <usml/usml_config.h>
 #include <usml/waveq3d/reflection_listener.h>
 
 #include <cstddef>
-#include <set>
 
 namespace usml {
 namespace waveq3d {
@@ -60,13 +60,13 @@ class USML_DECLSPEC reflection_notifier {
      * Determines if any listeners exist
      * @return true when listeners exist, false otherwise.
      */
-    bool has_reflection_listeners() const { return _listeners.size() > 0; }
+    bool has_reflection_listeners() const { return !_listeners.empty(); }
 
    private:
     /**
      * List of active reflection listeners.
      */
-    std::set<reflection_listener*> _listeners;
+    usml::managed::listener_list<reflection_listener> _listeners;
 };
 
 /// @}
-- 
2.43.0


From 59ef7cedc99e39b55ec23601b5e719e41edfed65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:19 +0000
Subject: [PATCH 49/50] fix: settings of a sensor that run out of memory change
 nothing

---
 sensors/sensor_model.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sensors/sensor_model.cc b/sensors/sensor_model.cc
index 81208e3..b389da7 100644
--- a/sensors/sensor_model.cc
+++ b/sensors/sensor_model.cc
@@ -78,8 +78,9 @@ void sensor_model::reset_rcv_beams() {
 size_t sensor_model::rcv_beam(int keyID, const bp_model::csptr& pattern,
                               const bvector& steering) {
     write_lock_guard guard(mutex());
+    auto iter = _rcv_steering.emplace(keyID, bvector(1.0, 0.0, 0.0)).first;
     _rcv_beams[keyID] = pattern;
-    _rcv_steering[keyID] = steering;
+    iter->second = steering;
     return _rcv_beams.size();
 }
 
@@ -138,11 +139,10 @@ std::list<int> sensor_model::rcv_keys() const {
  */
 void sensor_model::transmit_schedule(const transmit_list& schedule,
                                      update_type_enum update_type) {
-    transmit_list old_schedule;
+    transmit_list old_schedule(schedule);  // copied before anything changes
     {
         write_lock_guard guard(mutex());
-        old_schedule = _transmit_schedule;
-        _transmit_schedule = schedule;
+        old_schedule.swap(_transmit_schedule);
     }
     if (old_schedule.empty() || update_type == FORCE_UPDATE) {
         sensor_manager* sensor_mgr = sensor_manager::instance();
-- 
2.43.0


From 788c4bf9eced38418abfedb47c5401acdfcc23b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:37 +0000
Subject: [PATCH 50/50] fix: a sensor whose addition runs out of memory leaves
 nothing behind

---
 managed/manager_template.h |  7 ++--
 sensors/sensor_manager.cc  | 70 +++++++++++++++++++++++++-------------
 sensors/sensor_manager.h   | 12 +++++--
 sensors/sensor_pair.cc     | 11 ++++--
 4 files changed, 68 insertions(+), 32 deletions(-)

diff --git a/managed/manager_template.h b/managed/manager_template.h
index 713654d..65f9c54 100755
--- a/managed/manager_template.h
+++ b/managed/manager_template.h
@@ -68,14 +68,15 @@ class USML_DLLEXPORT manager_template {
         write_lock_guard guard(_mutex);
         if (_object_map.count(object->keyID()) > 0) throw duplicate_key();
 
-        // add object to map
-        _object_map[object->keyID()] = object;
+        // add object to map, nothing can fail once it is there
+        typename obj_type::key_type keyID = object->keyID();
+        _object_map[keyID] = object;
 
         // notify listeners after add
         for (auto listener : _listeners) {
             listener->notify_add(object.get());
         }
-        return object->keyID();
+        return keyID;
     }
 
     /**
diff --git a/sensors/sensor_manager.cc b/sensors/sensor_manager.cc
index 21be571..f1adb56 100644
--- a/sensors/sensor_manager.cc
+++ b/sensors/sensor_manager.cc
@@ -10,6 +10,7 @@
 
 #include <list>
 #include <utility>
+#include <vector>
 
 using namespace usml::sensors;
 
@@ -89,31 +90,51 @@ void sensor_manager::add_sensor(const sensor_model::sptr& sensor,
 
     auto* pmgr = platform_manager::instance();
     pmgr->add(sensor);
+    std::vector<sensor_pair::key_type> added;  // keys of new pairs
+    size_t num_added = 0;
+    try {
+        // add sensor ID to the lists of active sources and receivers
 
-    // add sensor ID to the lists of active sources and receivers
-
-    if (is_source) {
-        _src_list.insert(sensor->keyID());
-    }
-    if (is_receiver) {
-        _rcv_list.insert(sensor->keyID());
-    }
+        if (is_source) {
+            _src_list.insert(sensor->keyID());
+        }
+        if (is_receiver) {
+            _rcv_list.insert(sensor->keyID());
+        }
 
-    // add monostatic pair if this sensor can both transmit and receive
+        // add monostatic pair if this sensor can both transmit and receive
 
-    if (is_source && is_receiver) {
-        add_monostatic_pair(sensor, listener);
-    }
+        pair_list pairs;
+        if (is_source && is_receiver) {
+            add_monostatic_pair(sensor, listener, &pairs);
+        }
 
-    // add bistatic pairs for other sensors in the same multistatic group
+        // add bistatic pairs for other sensors in the same multistatic group
 
-    if (multistatic > 0) {
-        if (is_source) {
-            add_multistatic_source(sensor, multistatic, listener);
+        if (multistatic > 0) {
+            if (is_source) {
+                add_multistatic_source(sensor, multistatic, listener, &pairs);
+            }
+            if (is_receiver) {
+                add_multistatic_receiver(sensor, multistatic, listener, &pairs);
+            }
         }
-        if (is_receiver) {
-            add_multistatic_receiver(sensor, multistatic, listener);
+        for (const auto& pair : pairs) {
+            added.push_back(pair->keyID());
         }
+        for (const auto& pair : pairs) {
+            add(pair);
+            ++num_added;
+        }
+    } catch (...) {
+        // leave no part of a sensor that could not be added
+        while (num_added > 0) {
+            remove(std::move(added[--num_added]));
+        }
+        _src_list.erase(sensor->keyID());
+        _rcv_list.erase(sensor->keyID());
+        pmgr->remove(sensor->keyID());
+        throw;
     }
 }
 
@@ -199,13 +220,14 @@ pair_list sensor_manager::find_receiver(sensor_model::key_type keyID) {
  * and receiver. Called from sensor_manager::add_sensor().
  */
 void sensor_manager::add_monostatic_pair(
-    const sensor_model::sptr& sensor, update_listener<sensor_pair>* listener) {
+    const sensor_model::sptr& sensor, update_listener<sensor_pair>* listener,
+    pair_list* pairs) {
     if (sensor->min_range() < 1e-6) {
         sensor_pair::sptr pair(new sensor_pair(sensor, sensor));
         if (listener != nullptr) {
             pair->add_listener(listener);
         }
-        add(pair);
+        pairs->push_back(pair);
     }
 }
 
@@ -215,7 +237,7 @@ void sensor_manager::add_monostatic_pair(
  */
 void sensor_manager::add_multistatic_source(
     const sensor_model::sptr& source, uint64_t multistatic,
-    update_listener<sensor_pair>* listener) {
+    update_listener<sensor_pair>* listener, pair_list* pairs) {
     auto sourceID = source->keyID();
     for (auto receiverID : _rcv_list) {
         if (sourceID != receiverID) {
@@ -226,7 +248,7 @@ void sensor_manager::add_multistatic_source(
                 if (listener != nullptr) {
                     pair->add_listener(listener);
                 }
-                add(pair);
+                pairs->push_back(pair);
             }
         }
     }
@@ -238,7 +260,7 @@ void sensor_manager::add_multistatic_source(
  */
 void sensor_manager::add_multistatic_receiver(
     const sensor_model::sptr& receiver, uint64_t multistatic,
-    update_listener<sensor_pair>* listener) {
+    update_listener<sensor_pair>* listener, pair_list* pairs) {
     auto receiverID = receiver->keyID();
     for (auto sourceID : _src_list) {
         if (sourceID != receiverID) {
@@ -249,7 +271,7 @@ void sensor_manager::add_multistatic_receiver(
                 if (listener != nullptr) {
                     pair->add_listener(listener);
                 }
-                add(pair);
+                pairs->push_back(pair);
             }
         }
     }
diff --git a/sensors/sensor_manager.h b/sensors/sensor_manager.h
index 5461e52..66304ad 100644
--- a/sensors/sensor_manager.h
+++ b/sensors/sensor_manager.h
@@ -132,9 +132,11 @@ class USML_DECLSPEC sensor_manager : public manager_template<sensor_pair> {
      *
      * @param sensor 	Monostatic sensor to be added as a monostatic pair.
      * @param listener	Update listener for sensor_pair objects.
+     * @param pairs			List to which the new pairs are appended.
      */
     void add_monostatic_pair(const sensor_model::sptr& sensor,
-                             update_listener<sensor_pair>* listener);
+                             update_listener<sensor_pair>* listener,
+                             pair_list* pairs);
 
     /**
      * Creates bistatic pairs between the new source and all bistatic receivers
@@ -144,10 +146,12 @@ class USML_DECLSPEC sensor_manager : public manager_template<sensor_pair> {
      * receivers.
      * @param multistatic 	Multistatic group for this sensor.
      * @param listener		Update listener for sensor_pair objects.
+     * @param pairs			List to which the new pairs are appended.
      */
     void add_multistatic_source(const sensor_model::sptr& source,
                                 uint64_t multistatic,
-                                update_listener<sensor_pair>* listener);
+                                update_listener<sensor_pair>* listener,
+                                pair_list* pairs);
 
     /**
      * Creates bistatic pairs between the new receiver and all bistatic sources
@@ -157,10 +161,12 @@ class USML_DECLSPEC sensor_manager : public manager_template<sensor_pair> {
      * sources.
      * @param multistatic 	Multistatic group for this sensor.
      * @param listener		Update listener for sensor_pair objects.
+     * @param pairs			List to which the new pairs are appended.
      */
     void add_multistatic_receiver(const sensor_model::sptr& receiver,
                                   uint64_t multistatic,
-                                  update_listener<sensor_pair>* listener);
+                                  update_listener<sensor_pair>* listener,
+                                  pair_list* pairs);
 
     /**
      * Removes a monostatic pair from the sensor_manager. Called from
diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index d693cdd..bcd8475 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -33,8 +33,14 @@ sensor_pair::sensor_pair(const sensor_model::sptr& source,
       _source(source),
       _receiver(receiver),
       _compute_reverb(source->compute_reverb() && receiver->compute_reverb()) {
-    source->add_wavefront_listener(this);
-    receiver->add_wavefront_listener(this);
+    try {
+        source->add_wavefront_listener(this);
+        receiver->add_wavefront_listener(this);
+    } catch (...) {
+        source->remove_wavefront_listener(this);
+        receiver->remove_wavefront_listener(this);
+        throw;
+    }
     source->set_needs_update();
     receiver->set_needs_update();
 }
@@ -52,6 +58,7 @@ sensor_pair::~sensor_pair() {
  */
 std::string sensor_pair::generate_hash_key(uint64_t src_id, uint64_t rcv_id) {
     std::stringstream key;
+    key.exceptions(std::ios::badbit);  // do not use part of a key
     key << src_id << '_' << rcv_id;
     return key.str();
 }
-- 
2.43.0

