From 88fa167d51fc2186faeaead4e2b70d95d249dcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 01/14] fix: Semaphore wakes another waiter when a functor
 throws

When the functor passed to take or give threw, the wake-up its caller had
consumed was lost: a permit (or room) was available again, but a thread
already waiting for it was never notified and stayed blocked.
---
 src/Semaphore.cpp | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/Semaphore.cpp b/src/Semaphore.cpp
index d5da882..1db37bb 100644
--- a/src/Semaphore.cpp
+++ b/src/Semaphore.cpp
@@ -160,17 +160,18 @@ public:
         _take(lock);
 
         struct AvailableCountManager {
-            explicit AvailableCountManager( AvailableCountType & theAC ) noexcept : rAC(theAC)  {}
-            ~AvailableCountManager() noexcept { if ( !released ) ++rAC; }
+            explicit AvailableCountManager( Imple & theImple ) noexcept : rImple(theImple)  {}
+            ~AvailableCountManager() noexcept { if ( !released ) { ++rImple.availableCount; rImple._giveNotify(); } }
 
             void release() { released = true; }
 
-            AvailableCountType & rAC;
+            Imple & rImple;
             bool released{ false };
         };
 
-        // Guard the available count and call user provided operation.
-        AvailableCountManager availableCountManager{ availableCount };
+        // Guard the available count and call user provided operation. Should it throw, what we restore may have been
+        // announced to us alone, so another waiting "taker" has to be notified in our place.
+        AvailableCountManager availableCountManager{ *this };
         operation();
         availableCountManager.release();
 
@@ -210,7 +211,22 @@ public:
     {
         std::unique_lock< Mutex > lock{mutex };
         _giveWait( lock );
+
+        struct GiveRoomManager {
+            explicit GiveRoomManager( Imple & theImple ) noexcept : rImple(theImple)  {}
+            ~GiveRoomManager() noexcept { if ( !released ) rImple._takeNotify(); }
+
+            void release() { released = true; }
+
+            Imple & rImple;
+            bool released{ false };
+        };
+
+        // Call user provided operation. Should it throw, the room we leave unused may have been announced to us alone,
+        // so another waiting "giver" has to be notified in our place.
+        GiveRoomManager giveRoomManager{ *this };
         operation();
+        giveRoomManager.release();
         _give();
     }
 
@@ -376,7 +392,18 @@ private:
         if ( abortFlag ) throw SemaphoreAborted{ "Semaphore::Imple::_giveWait: Semaphore Aborted!" };
 
         ++availableCount;
+        _giveNotify();
+    }
 
+    /**
+    * @brief The Give Notify Operation
+    *
+    * This operation notifies one potential "taker" that could be waiting.
+    *
+    * @pre This operation assumes that our internal mutex is locked by the current thread.
+    */
+    inline void _giveNotify()
+    {
 #ifdef REISER_RT_HAS_PTHREADS
         pthread_cond_signal( &takeConditionVar );
 #else
-- 
2.43.0


From 0e57c2f4a218f7bcba9f081a9927a8b9517704fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 02/14] fix: Semaphore clamps a maximum available count beyond
 32 bits

Such a maximum was silently truncated, so that for example 2^32 behaved as
zero (every give blocked) and 2^32+1 could be below the initial count.
---
 src/Semaphore.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Semaphore.cpp b/src/Semaphore.cpp
index 1db37bb..1afef66 100644
--- a/src/Semaphore.cpp
+++ b/src/Semaphore.cpp
@@ -447,6 +447,10 @@ private:
         if ( theMaxAvailableCount == 0 ) return std::numeric_limits< AvailableCountType >::max();
         if ( theMaxAvailableCount < clampedInitialCount ) return clampedInitialCount;
 
+        // Clamp what our counter type cannot represent, rather than truncating it.
+        if ( theMaxAvailableCount > std::numeric_limits< AvailableCountType >::max() )
+            return std::numeric_limits< AvailableCountType >::max();
+
         // If here, neither of the above were true, return the maximum available count as is.
         return theMaxAvailableCount;
     }
-- 
2.43.0


From 1fa01e39ff3e89afbdf80e0b333e7f490310e6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 03/14] fix: RingBufferGuarded flush empties the ring however
 far it was primed

---
 src/RingBufferGuarded.hpp |  5 +++--
 src/RingBufferSimple.hpp  | 18 ++++++++++++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/RingBufferGuarded.hpp b/src/RingBufferGuarded.hpp
index c76cc4f..9c0f439 100644
--- a/src/RingBufferGuarded.hpp
+++ b/src/RingBufferGuarded.hpp
@@ -267,8 +267,9 @@ namespace ReiserRT
                     throw RingBufferStateError{ "RingBufferGuarded::flush invoked while not in the Terminal state!" };
                 }
 
-                const size_t count = semaphore.getAvailableCount();
-                for ( size_t i = 0; count != i; ++i ) operation( Base::get() );
+                // The semaphore's available count cannot tell us what is left. It does not account for what priming may
+                // have left undone, nor for what has been flushed already.
+                while ( !this->isEmpty() ) operation( Base::get() );
             }
 
             /**
diff --git a/src/RingBufferSimple.hpp b/src/RingBufferSimple.hpp
index a336a31..e8fb7eb 100644
--- a/src/RingBufferSimple.hpp
+++ b/src/RingBufferSimple.hpp
@@ -220,6 +220,15 @@ namespace ReiserRT
             */
             [[nodiscard]] inline size_t getMask() const noexcept { return numElementsMask; }
 
+            /**
+            * @brief Is Empty Operation
+            *
+            * This operation indicates whether the ring buffer holds no elements.
+            *
+            * @return Returns true if a get operation would result in underflow, false otherwise.
+            */
+            [[nodiscard]] inline bool isEmpty() const noexcept { return getCount == putCount; }
+
         private:
             /**
             * @brief Our Get Count
@@ -391,6 +400,15 @@ namespace ReiserRT
             */
             [[nodiscard]] inline size_t getMask() const noexcept { return imple.getMask(); }
 
+            /**
+            * @brief The Is Empty Operation
+            *
+            * This operation forwards to our implementation to determine whether any elements are held.
+            *
+            * @return Returns true if the ring buffer holds no elements, false otherwise.
+            */
+            [[nodiscard]] inline bool isEmpty() const noexcept { return imple.isEmpty(); }
+
         private:
             /**
             * @brief The Implementation
-- 
2.43.0


From 870b0bb5f0927b4168e4b6ee8712233f195282a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:35 +0000
Subject: [PATCH 04/14] fix: MemoryPoolBase spaces its elements by their padded
 size

---
 src/MemoryPoolBase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MemoryPoolBase.cpp b/src/MemoryPoolBase.cpp
index e3bf7a7..5aaeb8a 100644
--- a/src/MemoryPoolBase.cpp
+++ b/src/MemoryPoolBase.cpp
@@ -112,11 +112,11 @@ private:
       , paddedElementSize{ getPaddedTypeAllocSize( elementSize ) }
       , poolSize{ ringBuffer.getSize() }
       , runningState{}
-      , arena{ new unsigned char [ theElementSize * poolSize ] }
+      , arena{ new unsigned char [ paddedElementSize * poolSize ] }
     {
         // Stuff elements taken from the arena memory into the ring buffer.
         for ( size_t i = 0; i != poolSize; ++i )
-            ringBuffer.put( reinterpret_cast< void* >( arena + i * theElementSize ) );
+            ringBuffer.put( reinterpret_cast< void* >( arena + i * paddedElementSize ) );
 
         // Initialize running state.
         InternalRunningStateStats runningStats;
-- 
2.43.0


From cd32d15414f01e7adc51eb49b17d8ceb739736f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:21 +0000
Subject: [PATCH 05/14] fix: pools and message queues take back the whole
 object, not its base

---
 src/MessageQueueBase.hpp  | 13 +++++++++++--
 src/ObjectPoolDeleter.hpp | 31 +++++++++++++++++++++++++++++--
 2 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/MessageQueueBase.hpp b/src/MessageQueueBase.hpp
index b003d96..b88eb45 100644
--- a/src/MessageQueueBase.hpp
+++ b/src/MessageQueueBase.hpp
@@ -423,9 +423,18 @@ namespace ReiserRT
                 * @brief Destructor for CookedMemoryManager.
                 *
                 * This destructor invokes the destructor of the MessageBase object it is mantaining
-                * and returns the formerly "cooked" MessageBase memory back to the raw queue.
+                * and returns the formerly "cooked" MessageBase memory back to the raw queue. This is the memory of the
+                * most derived object, which may begin at a different address than its MessageBase.
                 */
-                ~CookedMemoryManager() { if ( pMQB && pMsg ) { pMsg->~MessageBase(); pMQB->rawPutAndNotify( pMsg ); } }
+                ~CookedMemoryManager()
+                {
+                    if ( pMQB && pMsg )
+                    {
+                        void * pR = dynamic_cast< void * >( pMsg );
+                        pMsg->~MessageBase();
+                        pMQB->rawPutAndNotify( pR );
+                    }
+                }
 
                 /**
                 * @brief Copy Constructor for CookedMemoryManager Disallowed
diff --git a/src/ObjectPoolDeleter.hpp b/src/ObjectPoolDeleter.hpp
index 24e75d0..35bd048 100644
--- a/src/ObjectPoolDeleter.hpp
+++ b/src/ObjectPoolDeleter.hpp
@@ -10,6 +10,8 @@
 
 #include "MemoryPoolDeleterBase.hpp"
 
+#include <type_traits>
+
 namespace ReiserRT
 {
     namespace Core
@@ -89,12 +91,37 @@ namespace ReiserRT
             * @brief Function Call Interface for ObjectPoolDeleter
             *
             * This operation provides the interface necessary for instances of unique_ptr or shared_ptr to
-            * destroy the object and return the memory to the pool.
+            * destroy the object and return the memory to the pool. The memory is that of the most derived object
+            * which may begin at a different address than its base of type T.
             *
             * @param pT A pointer to the object to be destroyed and returned to the pool.
             * @warning Do not call with a nullptr. Type unique_ptr does not do so when it is destroyed.
             */
-            void operator()( T * pT ) noexcept { pT->~T(); if ( pool ) returnRawBlock( pT ); }
+            void operator()( T * pT ) noexcept
+            {
+                void * pRaw = getRawBlock( pT, std::is_polymorphic< T >{} );
+                pT->~T();
+                if ( pool ) returnRawBlock( pRaw );
+            }
+
+        private:
+            /**
+            * @brief Get Raw Block for Polymorphic Types
+            *
+            * @param pT A pointer to the object, which could be a base of the object created.
+            *
+            * @return Returns the address of the most derived object, which is that of its raw block.
+            */
+            static void * getRawBlock( T * pT, std::true_type ) noexcept { return dynamic_cast< void * >( pT ); }
+
+            /**
+            * @brief Get Raw Block for Non-Polymorphic Types
+            *
+            * @param pT A pointer to the object created.
+            *
+            * @return Returns the address of the object, which is that of its raw block.
+            */
+            static void * getRawBlock( T * pT, std::false_type ) noexcept { return pT; }
         };
     }
 }
-- 
2.43.0


From e6b882129e5825814d0b4c5f5ac158bffddf7c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:08 +0000
Subject: [PATCH 06/14] fix: MemoryPoolBase accounts for a returned block
 before handing it on

---
 src/MemoryPoolBase.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/MemoryPoolBase.cpp b/src/MemoryPoolBase.cpp
index 5aaeb8a..72d6d4a 100644
--- a/src/MemoryPoolBase.cpp
+++ b/src/MemoryPoolBase.cpp
@@ -222,16 +222,8 @@ private:
     */
     void returnRawBlock( void * pRaw ) noexcept
     {
-        // Utilize small block scoping for mutex lock to minimize lock time.
-        {
-            // Take lock RAII style
-            std::lock_guard< Mutex > lock( mutex );
-
-            // Return raw memory back to the pool.
-            ringBuffer.put( pRaw );
-        }
-
-        // Manage Watermark Logic
+        // Manage Watermark Logic. This precedes returning the memory so that the next owner, who will account for it
+        // again, cannot do so before we have.
         InternalRunningStateStats runningStats;
         InternalRunningStateStats runningStatsNew;
         runningStats.state = runningState.load( std::memory_order_seq_cst );
@@ -244,6 +236,12 @@ private:
 
         } while ( !runningState.compare_exchange_weak( runningStats.state, runningStatsNew.state,
                                                        std::memory_order_seq_cst, std::memory_order_seq_cst ) );
+
+        // Take lock RAII style
+        std::lock_guard< Mutex > lock( mutex );
+
+        // Return raw memory back to the pool.
+        ringBuffer.put( pRaw );
     }
 
     /**
-- 
2.43.0


From c2c9016775c910fe65777ec0fd48cfe382a8fd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:49 +0000
Subject: [PATCH 07/14] fix: a message queue aborted while returning memory
 does not terminate the program

---
 src/MessageQueueBase.cpp  | 10 +++++-----
 src/MessageQueueBase.hpp  |  4 +---
 src/RingBufferGuarded.hpp |  8 +++++---
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index 99d15cc..e075eef 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -195,11 +195,9 @@ private:
     * @brief The rawPutAndNotify Operation
     *
     * This operation restores raw memory back into the our implementation and notifies any
-    * waiters for such availability.
+    * waiters for such availability. It does nothing of significance if the "raw" ring buffer becomes aborted.
     *
     * @param pRaw A pointer to raw memory that is to be made available for cooking.
-    *
-    * @throw Throws std::runtime_error if the "raw" ring buffer becomes aborted.
     */
     void rawPutAndNotify( void * pRaw );
 
@@ -421,8 +419,10 @@ void * MessageQueueBase::Imple::rawWaitAndGet()
 
 void MessageQueueBase::Imple::rawPutAndNotify( void * pRaw )
 {
-    // Put formerly cooked memory into the cooked ring buffer.
-    rawRingBuffer.put( pRaw );
+    // Put formerly cooked memory into the raw ring buffer. We are invoked by destructors, from which nothing may escape.
+    // Should we be aborted meanwhile, there is no one left to make the memory available to.
+    try { rawRingBuffer.put( pRaw ); }
+    catch ( const SemaphoreAborted & ) {}
 
     // Manage running count.
     ///@todo Couldn't we leverage the rawRingBuffer for this information?
diff --git a/src/MessageQueueBase.hpp b/src/MessageQueueBase.hpp
index b88eb45..bd33d66 100644
--- a/src/MessageQueueBase.hpp
+++ b/src/MessageQueueBase.hpp
@@ -551,11 +551,9 @@ namespace ReiserRT
             * @brief The rawPutAndNotify Operation
             *
             * This operation restores raw memory back into the our implementation and notifies any
-            * waiters for such availability.
+            * waiters for such availability. It does nothing of significance if the "raw" ring buffer becomes aborted.
             *
             * @param pRaw A pointer to raw memory that is to be made available for cooking.
-            *
-            * @throw Throws ReiserRT::Core::SemaphoreAborted if the "raw" ring buffer becomes aborted.
             */
             void rawPutAndNotify( void * pRaw );
 
diff --git a/src/RingBufferGuarded.hpp b/src/RingBufferGuarded.hpp
index 9c0f439..d114f9e 100644
--- a/src/RingBufferGuarded.hpp
+++ b/src/RingBufferGuarded.hpp
@@ -170,11 +170,13 @@ namespace ReiserRT
             */
             inline void put( T val )
             {
-                // If we are in the terminal state, we will just get out of the way
-                if ( state == State::Terminal ) return;
+                // If we are in the terminal state, we will just get out of the way. An abort may come at any moment,
+                // so we look at the state only once.
+                const State currentState = state;
+                if ( currentState == State::Terminal ) return;
 
                 // We have to be in the "Ready" state, or we will throw a logic error.
-                if ( state != State::Ready )
+                if ( currentState != State::Ready )
                 {
                     throw RingBufferStateError{ "RingBufferGuarded::put invoked while not in the Ready state!" };
                 }
-- 
2.43.0


From 2005d6123f104a40f8af0e2b12c5c2079b9d04ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:55 +0000
Subject: [PATCH 08/14] fix: a message refused by an aborted message queue is
 destroyed

---
 src/MessageQueue.hpp      | 12 ++++++------
 src/MessageQueueBase.cpp  | 13 ++++++++++++-
 src/MessageQueueBase.hpp  |  1 +
 src/RingBufferGuarded.hpp | 11 ++++++++---
 4 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/MessageQueue.hpp b/src/MessageQueue.hpp
index ca673b6..7a951da 100644
--- a/src/MessageQueue.hpp
+++ b/src/MessageQueue.hpp
@@ -140,10 +140,10 @@ namespace ReiserRT
                 // Cook raw memory
                 M * pM = new( pRaw )M{ std::forward<M>(msg) };
 
-                // If here, raw is successfully cooked. Release RawMemoryManager from cleanup responsibility and
-                // send cooked out for delivery.
-                rawMemoryManager.release();
+                // If here, raw is successfully cooked. Send cooked out for delivery and release RawMemoryManager from
+                // cleanup responsibility. Should we be aborted meanwhile, cooked is destroyed instead and raw goes back.
                 cookedPutAndNotify( pM );
+                rawMemoryManager.release();
             }
 
             /**
@@ -191,10 +191,10 @@ namespace ReiserRT
                 // Cook raw memory
                 M * pM = new( pRaw )M{ std::forward<Args>(args)... };
 
-                // If here, raw is successfully cooked. Release RawMemoryManager from cleanup responsibility and
-                // send cooked out for delivery.
-                rawMemoryManager.release();
+                // If here, raw is successfully cooked. Send cooked out for delivery and release RawMemoryManager from
+                // cleanup responsibility. Should we be aborted meanwhile, cooked is destroyed instead and raw goes back.
                 cookedPutAndNotify( pM );
+                rawMemoryManager.release();
             }
 
             /**
diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index e075eef..8ab6ec1 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -165,6 +165,7 @@ private:
     * @brief The cookedPutAndNotify Operation
     *
     * This operation loads cooked memory into the implementation and notifies any waiters of availability.
+    * If it throws, the message has been destroyed and its memory remains the responsibility of our client.
     *
     * @param pCooked A pointer to an abstract MessageBase object.
     *
@@ -173,7 +174,17 @@ private:
     inline void cookedPutAndNotify( MessageBase * pCooked )
     {
         // Put cooked memory into the cooked ring buffer. The guarded ring buffer performs the notification.
-        cookedRingBuffer.put( pCooked );
+        // Should we be aborted meanwhile, nobody else will ever destroy the message.
+        try
+        {
+            if ( !cookedRingBuffer.put( pCooked ) )
+                throw SemaphoreAborted{ "MessageQueueBase::Imple::cookedPutAndNotify: Message Queue Aborted!" };
+        }
+        catch ( ... )
+        {
+            pCooked->~MessageBase();
+            throw;
+        }
     }
 
     /**
diff --git a/src/MessageQueueBase.hpp b/src/MessageQueueBase.hpp
index bd33d66..295d734 100644
--- a/src/MessageQueueBase.hpp
+++ b/src/MessageQueueBase.hpp
@@ -529,6 +529,7 @@ namespace ReiserRT
             * @brief The cookedPutAndNotify Operation
             *
             * This operation loads cooked memory into the implementation and notifies any waiters of availability.
+            * If it throws, the message has been destroyed and its raw memory remains the responsibility of our client.
             *
             * @param pCooked A pointer to an abstract MessageBase object.
             *
diff --git a/src/RingBufferGuarded.hpp b/src/RingBufferGuarded.hpp
index d114f9e..6bd5f5f 100644
--- a/src/RingBufferGuarded.hpp
+++ b/src/RingBufferGuarded.hpp
@@ -167,13 +167,15 @@ namespace ReiserRT
             * @throw Throws ReiserRT::Core::SemaphoreAborted if the semaphore is aborted.
             *
             * @param p val A value to be put into the ring buffer implementation.
+            *
+            * @return Returns true if the value was put, false if it was not because we are in the "Terminal" state.
             */
-            inline void put( T val )
+            inline bool put( T val )
             {
                 // If we are in the terminal state, we will just get out of the way. An abort may come at any moment,
                 // so we look at the state only once.
                 const State currentState = state;
-                if ( currentState == State::Terminal ) return;
+                if ( currentState == State::Terminal ) return false;
 
                 // We have to be in the "Ready" state, or we will throw a logic error.
                 if ( currentState != State::Ready )
@@ -186,6 +188,7 @@ namespace ReiserRT
                 // It is up to the client to manage and/or mitigate this possibility.
                 auto putFunk = [ this, val ]() { this->Base::put( val ); };
                 semaphore.give(std::ref(putFunk));
+                return true;
             }
 
             /**
@@ -566,8 +569,10 @@ namespace ReiserRT
             * @throw Throws ReiserRT::Core::RingBufferOverflow if there is no room left to fulfill the request (full).
             *
             * @param p A pointer to the object to be put into the ring buffer implementation.
+            *
+            * @return Returns true if the pointer was put, false if it was not because we are in the "Terminal" state.
             */
-            inline void put( T * p ) { Base::put( const_cast< PutType >( p ) ); }
+            inline bool put( T * p ) { return Base::put( const_cast< PutType >( p ) ); }
         };
 
     }
-- 
2.43.0


From 8e53336dbd0e5f4e64525d4479f888a0e2264619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 09/14] fix: assigning over an AutoDispatchLock releases the
 lock it holds

---
 src/MessageQueueBase.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MessageQueueBase.hpp b/src/MessageQueueBase.hpp
index 295d734..50d077f 100644
--- a/src/MessageQueueBase.hpp
+++ b/src/MessageQueueBase.hpp
@@ -270,6 +270,7 @@ namespace ReiserRT
                 * Move assignment transfers ownership of the MessageQueueBase reference.
                 * @note A default move assignment operator does not guarantee this. It is critical the moved from gets
                 * assigned null.
+                * If we hold a dispatch lock ourselves, it is released first.
                 *
                 * @param another Another instance of an AutoDispatchLock
                 */
@@ -277,6 +278,7 @@ namespace ReiserRT
                 {
                     if (this != &another)
                     {
+                        unlock();
                         pMQB = another.pMQB;
                         locked = another.locked;
                         another.pMQB = nullptr;
-- 
2.43.0


From 37e09b192d374ee226ff31d6f87b46753fbd39cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:59 +0000
Subject: [PATCH 10/14] fix: MessageQueue accounts for returned memory before
 making it available

---
 src/MessageQueueBase.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index 8ab6ec1..c8a59de 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -430,12 +430,8 @@ void * MessageQueueBase::Imple::rawWaitAndGet()
 
 void MessageQueueBase::Imple::rawPutAndNotify( void * pRaw )
 {
-    // Put formerly cooked memory into the raw ring buffer. We are invoked by destructors, from which nothing may escape.
-    // Should we be aborted meanwhile, there is no one left to make the memory available to.
-    try { rawRingBuffer.put( pRaw ); }
-    catch ( const SemaphoreAborted & ) {}
-
-    // Manage running count.
+    // Manage running count. This must happen before the memory becomes available to others. Otherwise, they could count it
+    // again and raise the high watermark beyond what we have.
     ///@todo Couldn't we leverage the rawRingBuffer for this information?
     InternalRunningStateStats runningStats;
     InternalRunningStateStats runningStatsNew;
@@ -449,6 +445,11 @@ void MessageQueueBase::Imple::rawPutAndNotify( void * pRaw )
 
     } while ( !runningState.compare_exchange_weak( runningStats.state, runningStatsNew.state,
                                                    std::memory_order_seq_cst, std::memory_order_seq_cst ) );
+
+    // Put formerly cooked memory into the raw ring buffer. We are invoked by destructors, from which nothing may escape.
+    // Should we be aborted meanwhile, there is no one left to make the memory available to.
+    try { rawRingBuffer.put( pRaw ); }
+    catch ( const SemaphoreAborted & ) {}
 }
 
 void MessageQueueBase::Imple::dispatchMessage( MessageBase * pMsg )
-- 
2.43.0


From 77d537552f82777ce72de03c455aecdb966afb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 11/14] fix: Semaphore counts 65536 and more waiting threads

---
 src/Semaphore.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Semaphore.cpp b/src/Semaphore.cpp
index 1afef66..268aa55 100644
--- a/src/Semaphore.cpp
+++ b/src/Semaphore.cpp
@@ -420,13 +420,13 @@ private:
     using AvailableCountType = uint32_t;
 
     /**
-    * @brief Pending 16bit Count Type
+    * @brief Pending 32bit Count Type
     *
-    * We use a signed 16bit integer for our pending counter. There can only be as
+    * We use an unsigned 32bit integer for our pending counter. There can only be as
     * many pending clients as there are threads entering the take operation
-    * and actually waiting.
+    * and actually waiting. It must not wrap to zero, or those waiting would never be notified.
     */
-    using PendingCountType = uint16_t;
+    using PendingCountType = uint32_t;
 
     /**
     * @brief The Static Doctor Max Available Count Operation
-- 
2.43.0


From 39ff169bc71bd73bf6e50720068280001cb8d481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:03 +0000
Subject: [PATCH 12/14] fix: a message queue whose construction fails gives its
 arena back

---
 src/MessageQueueBase.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index c8a59de..b611256 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -275,10 +275,10 @@ private:
     /**
     * @brief Our Memory Arena
     *
-    * This attribute records the pointer to our memory arena that was allocated during construction so that
-    * it may be properly returned to the standard heap during ObjectQueue destruction.
+    * This attribute owns our memory arena that was allocated during construction so that
+    * it is properly returned to the standard heap during ObjectQueue destruction, or should construction fail.
     */
-    alignas( void * ) unsigned char * arena;
+    std::unique_ptr< unsigned char[] > arena;
 
     /**
     * @brief The Name of the Last Message Dispatched
@@ -371,7 +371,7 @@ MessageQueueBase::Imple::Imple( std::size_t theRequestedNumElements, std::size_t
 {
     // Prime the raw ring buffer with void pointers into our arena space. We do this with a lambda function.
     auto funk = [ this ]( size_t i )
-            { return reinterpret_cast< void * >( arena + i * elementSize ); };
+            { return reinterpret_cast< void * >( arena.get() + i * elementSize ); };
     rawRingBuffer.prime( funk );
 }
 
@@ -380,9 +380,6 @@ MessageQueueBase::Imple::~Imple()
     // Flush anything left in the cooked ring buffer.
     auto funk = []( void * pV ) { auto * pM = reinterpret_cast< MessageBase * >( pV ); pM->~MessageBase(); };
     cookedRingBuffer.flush( funk );
-
-    // Return our arena memory to the standard heap.
-    delete[] arena;
 }
 
 MessageQueueBase::RunningStateStats MessageQueueBase::Imple::getRunningStateStatistics() noexcept
-- 
2.43.0


From e6fc8a14170332307968c7d862f75bd1d9ee21e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:37 +0000
Subject: [PATCH 13/14] fix: pools and message queues refuse sizes that cannot
 be represented

---
 src/BlockPool.hpp        | 21 ++++++++++++++++++++-
 src/MemoryPoolBase.cpp   | 25 ++++++++++++++++++++++++-
 src/MessageQueueBase.cpp | 27 ++++++++++++++++++++++++++-
 3 files changed, 70 insertions(+), 3 deletions(-)

diff --git a/src/BlockPool.hpp b/src/BlockPool.hpp
index 7728e4d..a20c333 100644
--- a/src/BlockPool.hpp
+++ b/src/BlockPool.hpp
@@ -12,6 +12,9 @@
 #include "BlockPoolFwd.hpp"
 #include "BlockPoolDeleter.hpp"
 
+#include <limits>
+#include <new>
+
 namespace ReiserRT
 {
     namespace Core
@@ -64,7 +67,7 @@ namespace ReiserRT
             * @param theElementsPerBlock. This specifies the number of elements to be delivered in a call to `getBlock`.
             */
             explicit BlockPool( size_t requestedNumberOfBlocks, size_t theElementsPerBlock )
-              : ReiserRT::Core::MemoryPoolBase{ requestedNumberOfBlocks, sizeof( T ) * theElementsPerBlock }
+              : ReiserRT::Core::MemoryPoolBase{ requestedNumberOfBlocks, getBlockSize( theElementsPerBlock ) }
               , elementsPerBlock{ theElementsPerBlock }
             {
             }
@@ -166,6 +169,22 @@ namespace ReiserRT
             */
             BlockPoolDeleter< T[] > createDeleter() { return BlockPoolDeleter< T[] >{ this }; }
 
+            /**
+            * @brief Get the Block Size
+            *
+            * This operation provides the number of bytes in a block. It is static as it is used at time of construction.
+            *
+            * @throw Throws std::bad_alloc if the size cannot be represented, as the memory cannot be provided then.
+            *
+            * @return The size of a block of elements.
+            */
+            static size_t getBlockSize( size_t theElementsPerBlock )
+            {
+                if ( theElementsPerBlock > std::numeric_limits< size_t >::max() / sizeof( T ) ) throw std::bad_alloc{};
+
+                return sizeof( T ) * theElementsPerBlock;
+            }
+
             /**
             * @brief The Number of Elements Per Block
             */
diff --git a/src/MemoryPoolBase.cpp b/src/MemoryPoolBase.cpp
index 72d6d4a..36796ba 100644
--- a/src/MemoryPoolBase.cpp
+++ b/src/MemoryPoolBase.cpp
@@ -13,7 +13,9 @@
 #include "Mutex.hpp"
 
 #include <atomic>
+#include <limits>
 #include <mutex>
+#include <new>
 
 using namespace ReiserRT::Core;
 
@@ -112,7 +114,7 @@ private:
       , paddedElementSize{ getPaddedTypeAllocSize( elementSize ) }
       , poolSize{ ringBuffer.getSize() }
       , runningState{}
-      , arena{ new unsigned char [ paddedElementSize * poolSize ] }
+      , arena{ new unsigned char [ getArenaSize( paddedElementSize, poolSize ) ] }
     {
         // Stuff elements taken from the arena memory into the ring buffer.
         for ( size_t i = 0; i != poolSize; ++i )
@@ -273,16 +275,37 @@ private:
     * properly aligned to the size of the architecture. It is static as it is used at time of
     * construction.
     *
+    * @throw Throws std::bad_alloc if the padded size cannot be represented.
+    *
     * @return Returns the padded element type allocation size which may be slightly larger than
     * the requested element size.
     */
     static size_t getPaddedTypeAllocSize( size_t requestedElementSize )
     {
+        if ( requestedElementSize > std::numeric_limits< size_t >::max() - sizeof( void * ) ) throw std::bad_alloc{};
+
         size_t alignmentOverspill = requestedElementSize % sizeof( void * );
         return  ( alignmentOverspill != 0 ) ? requestedElementSize + sizeof( void * ) - alignmentOverspill :
                 requestedElementSize;
     }
 
+    /**
+    * @brief Get the Arena Size
+    *
+    * This operation provides the size of the arena for a number of elements. It is static as it is used at time of
+    * construction.
+    *
+    * @throw Throws std::bad_alloc if the size cannot be represented, as the memory cannot be provided then.
+    *
+    * @return Returns the number of bytes required for the arena.
+    */
+    static size_t getArenaSize( size_t thePaddedElementSize, size_t theNumElements )
+    {
+        if ( thePaddedElementSize > std::numeric_limits< size_t >::max() / theNumElements ) throw std::bad_alloc{};
+
+        return thePaddedElementSize * theNumElements;
+    }
+
     /**
     * @brief Our RingBuffer
     *
diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index b611256..2abd2ae 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -15,6 +15,8 @@
 #include "Mutex.hpp"
 
 #include <cstring>
+#include <limits>
+#include <new>
 #include <thread>
 #include <mutex>
 
@@ -244,11 +246,25 @@ private:
     * properly aligned to the size of the architecture. It is static as it is used at time of
     * construction.
     *
+    * @throw Throws std::bad_alloc if the padded size cannot be represented.
+    *
     * @return Returns the padded element type allocation size which may be slightly larger than
     * the requested element size.
     */
     static size_t getPaddedTypeAllocSize( size_t requestedElementSize );
 
+    /**
+    * @brief Get the Arena Size
+    *
+    * This operation provides the size of the arena for a number of elements. It is static as it is used at time of
+    * construction.
+    *
+    * @throw Throws std::bad_alloc if the size cannot be represented, as the memory cannot be provided then.
+    *
+    * @return Returns the number of bytes required for the arena.
+    */
+    static size_t getArenaSize( size_t thePaddedElementSize, size_t theNumElements );
+
     /**
     * @brief The Actual Requested Size
     *
@@ -365,7 +381,7 @@ MessageQueueBase::Imple::Imple( std::size_t theRequestedNumElements, std::size_t
   : requestedNumElements{ theRequestedNumElements }
   , elementSize{ getPaddedTypeAllocSize( theElementSize ) }
   , pMutex{ enableDispatchLocking ? new Mutex{} : nullptr }
-  , arena{ new unsigned char [ elementSize * requestedNumElements ] }
+  , arena{ new unsigned char [ getArenaSize( elementSize, requestedNumElements ) ] }
   , rawRingBuffer{ theRequestedNumElements, true }
   , cookedRingBuffer{ theRequestedNumElements }
 {
@@ -465,11 +481,20 @@ void MessageQueueBase::Imple::dispatchMessage( MessageBase * pMsg )
 
 size_t MessageQueueBase::Imple::getPaddedTypeAllocSize( size_t requestedElementSize )
 {
+    if ( requestedElementSize > std::numeric_limits< size_t >::max() - sizeof( void * ) ) throw std::bad_alloc{};
+
     size_t alignmentOverspill = requestedElementSize % sizeof( void * );
     return  ( alignmentOverspill != 0 ) ? requestedElementSize + sizeof( void * ) - alignmentOverspill :
             requestedElementSize;
 }
 
+size_t MessageQueueBase::Imple::getArenaSize( size_t thePaddedElementSize, size_t theNumElements )
+{
+    if ( theNumElements != 0 && thePaddedElementSize > std::numeric_limits< size_t >::max() / theNumElements )
+        throw std::bad_alloc{};
+
+    return thePaddedElementSize * theNumElements;
+}
 
 MessageQueueBase::MessageQueueBase( std::size_t requestedNumElements, std::size_t requestedMaxMessageSize,
                                     bool enableDispatchLocking )
-- 
2.43.0


From fe5e1862f11809d365cea942337bd901de5558b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:26 +0000
Subject: [PATCH 14/14] fix: a lock or condition variable the platform refuses
 is reported, not used

---
 src/Mutex.cpp     |  9 ++++++++-
 src/Semaphore.cpp | 12 ++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/Mutex.cpp b/src/Mutex.cpp
index ff37479..59e0a7e 100644
--- a/src/Mutex.cpp
+++ b/src/Mutex.cpp
@@ -34,10 +34,17 @@ Mutex::Mutex()
     }
 
     // Initialize our native type (pthread_mutex_t) with our modified attribute.
-    pthread_mutex_init( nativeHandle, &attr );
+    int e = pthread_mutex_init( nativeHandle, &attr );
 
     // Destroy the attribute, we are done with it.
     pthread_mutexattr_destroy( &attr );
+
+    // ENOMEM, EAGAIN, EPERM and ENOTSUP potentially. Our destructor will not be invoked.
+    if ( e )
+    {
+        delete nativeHandle;
+        throw std::system_error{ e, std::system_category() };
+    }
 #endif
 }
 
diff --git a/src/Semaphore.cpp b/src/Semaphore.cpp
index 268aa55..5b50dd0 100644
--- a/src/Semaphore.cpp
+++ b/src/Semaphore.cpp
@@ -19,6 +19,7 @@
 #include <condition_variable>
 #endif
 #include <mutex>
+#include <system_error>
 #include <thread>
 
 
@@ -60,11 +61,18 @@ public:
         pthread_condattr_init( &attr );
 
         // Initialize the condition variables
-        pthread_cond_init( &takeConditionVar, &attr );
-        pthread_cond_init( &giveConditionVar, &attr );
+        int e = pthread_cond_init( &takeConditionVar, &attr );
+        if ( !e )
+        {
+            e = pthread_cond_init( &giveConditionVar, &attr );
+            if ( e ) pthread_cond_destroy( &takeConditionVar );
+        }
 
         // Destroy attribute, we are done with it.
         pthread_condattr_destroy( &attr );
+
+        // ENOMEM and EAGAIN potentially. Our destructor will not be invoked.
+        if ( e ) throw std::system_error{ e, std::system_category() };
 #endif
     }
 
-- 
2.43.0

