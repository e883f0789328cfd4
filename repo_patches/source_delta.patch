From 03d4c2b1ccb7f4c81b61d7ff670baf07a458db99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:15 +0000
Subject: [PATCH 01/50] fix: polled WPs receive a copy-on-write ref to the
 queued message

WPInterface::do_poll() passed its own SHARED ref to receive(), so that a WP
modifying the message changed it for every other recipient and for the sender.
---
 OCTOPUSSY/src/WPInterface.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OCTOPUSSY/src/WPInterface.cc b/OCTOPUSSY/src/WPInterface.cc
index eb11668..f36d100 100755
--- a/OCTOPUSSY/src/WPInterface.cc
+++ b/OCTOPUSSY/src/WPInterface.cc
@@ -806,7 +806,7 @@ bool WPInterface::do_poll (ulong tick)
       }
     }
     else  
-      res = receive(mref);
+      res = receive(mref2);
     receive_lock = false;
   }
   lock.relock(queue_cond);
-- 
2.43.0


From 91d70541a6687be4a2d7d88349586d784d8c8c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:28 +0000
Subject: [PATCH 02/50] fix: threaded event delivery keeps its own copy of
 message id and state

---
 OCTOPUSSY/src/WPInterface.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/OCTOPUSSY/src/WPInterface.cc b/OCTOPUSSY/src/WPInterface.cc
index f36d100..519d660 100755
--- a/OCTOPUSSY/src/WPInterface.cc
+++ b/OCTOPUSSY/src/WPInterface.cc
@@ -182,7 +182,10 @@ int WPInterface::deliver (Thread::Mutex::Lock &lock)
     lock.release();
 
     const Message &msg = qe.mref.deref();
-    const HIID &id = msg.id();
+    // keep copies: the message itself may go away as soon as our ref is made
+    // writable (copy-on-write) or passed on
+    const HIID id = msg.id();
+    const int msgstate = msg.state();
     FailWhen( id.empty(),"null message ID" );
     dprintf1(3)("%s: receiving %s\n",sdebug(1).c_str(),msg.debug(1));
 
@@ -210,7 +213,7 @@ int WPInterface::deliver (Thread::Mutex::Lock &lock)
       else if( id[1] == AidInput ) // deliver input message
       {
         FailWhen( id.size() != 3,"malformed "+id.toString('.')+" message" );
-        int fd=id[2],flags=msg.state();
+        int fd=id[2],flags=msgstate;
         if( flags )  // no flags? Means the input has been already removed. Ignore
         {
           res = input(fd,flags);
-- 
2.43.0


From 62bcf6cc71632d9ce6c50525f67c836876f33638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 03/50] fix: dispatcher event thread no longer loses signals
 that arrive before it sleeps

---
 OCTOPUSSY/src/Dispatcher.cc | 58 ++++++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 11 deletions(-)

diff --git a/OCTOPUSSY/src/Dispatcher.cc b/OCTOPUSSY/src/Dispatcher.cc
index 3dbf533..3d29441 100755
--- a/OCTOPUSSY/src/Dispatcher.cc
+++ b/OCTOPUSSY/src/Dispatcher.cc
@@ -69,6 +69,17 @@ void Dispatcher::signalHandler (int signum,siginfo_t *,void *)
   // interrupt any poll loops
   if( signum == SIGINT )
     stop_polling = true;
+#ifdef USE_THREADS
+  // if some other thread has caught the signal, wake up the event thread, since
+  // that's where raised signals are distributed from
+  Dispatcher *dsp = dispatcher;
+  if( dsp && signum != SIGUSR1 )
+  {
+    Thread::ThrID id = dsp->event_thread;
+    if( id.id() != 0 && id != Thread::self() )
+      id.kill(SIGUSR1);
+  }
+#endif
 }
 //##ModelId=3C7CD444039C
 
@@ -307,9 +318,9 @@ void Dispatcher::start ()
   // main thread blocks all signals
   main_thread = Thread::self();
   Thread::signalMask(SIG_BLOCK,validSignals());
-  Thread::signalMask(SIG_UNBLOCK,SIGINT);
   // launch event processing thread -- no timer required
   event_thread = Thread::create(start_eventThread,this);
+  Thread::signalMask(SIG_UNBLOCK,SIGINT);
 #endif
   dprintf(2)("start: complete\n");
 }
@@ -334,9 +345,11 @@ void Dispatcher::stop ()
   // cancel the event thread
   if( event_thread.id() != 0 )
   {
-    event_thread.kill(SIGUSR1);
-    event_thread.join();
+    // clear event_thread first, so that no-one else tries to signal it
+    Thread::ThrID id = event_thread;
     event_thread = 0;
+    id.kill(SIGUSR1);
+    id.join();
   }
 #else
   running = false;
@@ -865,6 +878,12 @@ void Dispatcher::rebuildSignals (WPInterface *remove)
     }
   }
   allSignals = newmask;
+#ifdef USE_THREADS
+  // send a signal to the event thread, so that it picks up the new signal set
+  lock.release();
+  if( event_thread.id() != 0 )
+    event_thread.kill(SIGUSR1);
+#endif
 }
 
 //##ModelId=3DB9367202F9
@@ -1073,12 +1092,17 @@ void * Dispatcher::start_eventThread (void *pdsp)
 //##ModelId=3DB9366B015E
 void * Dispatcher::eventThread ()
 {
-  // no signals are blocked
   try
   {
     dprintf(1)("Entering event thread\n");
-    // unblock all signals
-    Thread::signalMask(SIG_UNBLOCK,validSignals());
+    // make sure this is set before we look at any event lists, so that anyone
+    // changing them afterwards knows to signal us
+    event_thread = Thread::self();
+    // Our signals stay blocked here, and are only let through while we're 
+    // inside pselect() below. This way a signal that arrives after we've looked 
+    // at the event lists, but before going to sleep, is not missed.
+    sigset_t origmask,waitmask;
+    pthread_sigmask(SIG_BLOCK,validSignals(),&origmask);
     // wait for startup to complete
     if( in_start )
     {
@@ -1092,6 +1116,15 @@ void * Dispatcher::eventThread ()
     // loop while still running
     while( running )
     {
+      // (set of signals may have changed since last time)
+      waitmask = origmask;
+      {
+        Thread::Mutex::Lock lock(sigmutex);
+        for( int sig=1; sig<_NSIG; sig++ )
+          if( sigismember(&allSignals,sig) == 1 )
+            sigdelset(&waitmask,sig);
+        pthread_sigmask(SIG_BLOCK,&allSignals,0);
+      }
       // call checkEvents() to distribute timeout/input/signal events
       dprintf(5)("Checking events\n");
       checkEvents();
@@ -1099,7 +1132,8 @@ void * Dispatcher::eventThread ()
         stopPolling();
       // pause until next timeout, or until an fd is active
       Thread::Mutex::Lock lock(tomutex);
-      struct timeval tv,*ptv = &tv;
+      struct timeval tv;
+      struct timespec ts,*ptv = &ts;
       if( next_to )
       {
         (next_to - Timestamp::now()).to_timeval(tv);
@@ -1109,6 +1143,8 @@ void * Dispatcher::eventThread ()
         // so that the select() call below only checks the fds and does not sleep
         if( tv.tv_sec < 0 || (!tv.tv_sec && tv.tv_usec<0) )
           tv.tv_sec = tv.tv_usec = 0;
+        ts.tv_sec  = tv.tv_sec;
+        ts.tv_nsec = tv.tv_usec*1000;
       }
       else // no timeouts pending at all, so wait indefinitely on the fds
         ptv = 0;
@@ -1118,11 +1154,11 @@ void * Dispatcher::eventThread ()
         fds_active = fds_watched;
         lock.release();
         if( ptv )
-          { dprintf(5)("select(%d,%ld:%ld)\n",max_fd,ptv->tv_sec,ptv->tv_usec); }
+          { dprintf(5)("select(%d,%ld:%ld)\n",max_fd,ptv->tv_sec,ptv->tv_nsec/1000); }
         else
           { dprintf(5)("select(%d,null)\n",max_fd); }
         // NB: if timeouts change, should also deliver a signal
-        num_active_fds = select(max_fd,&fds_active.r,&fds_active.w,&fds_active.x,ptv);
+        num_active_fds = pselect(max_fd,&fds_active.r,&fds_active.w,&fds_active.x,ptv,&waitmask);
         // we don't expect any errors except perhaps EINTR (interrupted by signal)
         dprintf(1)("select()=%d, errno=%d (%s), running=%d\n",num_active_fds,num_active_fds<0?errno:0,num_active_fds<0?strerror(errno):"",(int)running);
 //        dprintf(5)("select()=%d, errno=%d (%s), running=%d\n",num_active_fds,num_active_fds<0?errno:0,num_active_fds<0?strerror(errno):"",(int)running);
@@ -1133,10 +1169,10 @@ void * Dispatcher::eventThread ()
       {
         lock.release();
         if( ptv )
-          { dprintf(5)("select(0,%ld:%ld)\n",ptv->tv_sec,ptv->tv_usec); }
+          { dprintf(5)("select(0,%ld:%ld)\n",ptv->tv_sec,ptv->tv_nsec/1000); }
         else
           { dprintf(5)("select(0,null)\n"); }
-        int res = select(0,NULL,NULL,NULL,ptv);
+        int res = pselect(0,NULL,NULL,NULL,ptv,&waitmask);
         dprintf(5)("select()=%d, errno=%d (%s), running=%d\n",res,res<0?errno:0,res<0?strerror(errno):"",(int)running);
       }
     }
-- 
2.43.0


From d228b039257ba7be2d77ec7922803953c4998546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 04/50] fix: dispatcher restores the original signal handlers

---
 OCTOPUSSY/src/Dispatcher.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OCTOPUSSY/src/Dispatcher.cc b/OCTOPUSSY/src/Dispatcher.cc
index 3d29441..622550b 100755
--- a/OCTOPUSSY/src/Dispatcher.cc
+++ b/OCTOPUSSY/src/Dispatcher.cc
@@ -872,7 +872,7 @@ void Dispatcher::rebuildSignals (WPInterface *remove)
     else if( !newsig && oldsig ) // stop handling?
     {
       Assert(orig_sigaction[sig]);
-      sigaction(sig,0,orig_sigaction[sig]); // reset old handler
+      sigaction(sig,orig_sigaction[sig],0); // reset old handler
       delete orig_sigaction[sig];
       orig_sigaction[sig] = 0;
     }
-- 
2.43.0


From 4fb4f02aaf23f261057337d67888893d6e8f624a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 05/50] fix: detaching a WP does not deadlock, and delayed
 detach/dynamic attach wake up the poll loop

---
 OCTOPUSSY/src/Dispatcher.cc | 77 +++++++++++++++++++++++++------------
 OCTOPUSSY/src/Dispatcher.h  |  6 +++
 2 files changed, 59 insertions(+), 24 deletions(-)

diff --git a/OCTOPUSSY/src/Dispatcher.cc b/OCTOPUSSY/src/Dispatcher.cc
index 622550b..0d46167 100755
--- a/OCTOPUSSY/src/Dispatcher.cc
+++ b/OCTOPUSSY/src/Dispatcher.cc
@@ -176,7 +176,7 @@ const MsgAddress & Dispatcher::attach (WPRef &wpref)
     {
       wp.do_init();
       if( wp.do_start() )
-        repoll = true;
+        raiseRepoll();
     }
   }
   return wp.address();
@@ -207,26 +207,38 @@ void Dispatcher::detach (const WPID &id, bool delay)
       "wpid '"+id.toString()+"' is not attached to this dispatcher");
   WPInterface *pwp = iter->second;
   // remove all events associated with this WP
-  for( TOILI iter = timeouts.begin(); iter != timeouts.end(); )
-    if( iter->pwp == pwp )
-      timeouts.erase(iter++);
-    else
-      iter++;
+  {
+    Thread::Mutex::Lock tolock(tomutex);
+    for( TOILI iter = timeouts.begin(); iter != timeouts.end(); )
+      if( iter->pwp == pwp )
+        timeouts.erase(iter++);
+      else
+        iter++;
+  }
   rebuildInputs(pwp);
   rebuildSignals(pwp);
+  GWI iter2 = gateways.find(id);
+  if( iter2 != gateways.end() )
+    gateways.erase(iter2);
+  // move WP off the map
+  WPRef ref = iter->second;
+  wps.erase(iter);
   // if asked to delay, then move WP ref to delay stack, it will be
   // detached later in poll() (together with the do_stop() call)
   if( delay )
-    detached_wps.push(iter->second);
+  {
+    detached_wps.push(ref);
+    lock.release();
+    raiseRepoll();
+  }
   else
   {
+    // release the mutex: do_stop() sends messages and joins the WP's worker
+    // threads, and these may need to re-enter the dispatcher
+    lock.release();
     pwp->do_stop();
     pwp->detach();
   }
-  wps.erase(iter);
-  GWI iter2 = gateways.find(id);
-  if( iter2 != gateways.end() )
-    gateways.erase(iter2);
 }
 
 //##ModelId=3C95C73F022A
@@ -444,6 +456,21 @@ int Dispatcher::send (Message::Ref &mref, const MsgAddress &to)
   return ndeliver;
 }
 
+void Dispatcher::stopDetachedWPs ()
+{
+  Thread::Mutex::Lock lock(wpmutex);
+  while( !detached_wps.empty() )
+  {
+    WPRef ref = detached_wps.top();
+    detached_wps.pop();
+    lock.release();
+    ref().do_stop();
+    ref().detach();
+    ref.detach(); // this destroys the WP, if last ref
+    lock.relock(wpmutex);
+  }
+}
+
 //##ModelId=3C7B888E01CF
 void Dispatcher::poll (int maxloops)
 {
@@ -461,19 +488,7 @@ void Dispatcher::poll (int maxloops)
   FailWhen(!running,"not running");
   // destroy all delay-detached WPs
   if( !++poll_depth )
-  {
-    Thread::Mutex::Lock lock(wpmutex);
-    while( !detached_wps.empty() )
-    {
-      WPRef ref = detached_wps.top();
-      detached_wps.pop();
-      lock.release();
-      ref().do_stop();
-      ref().detach();
-      ref.detach(); // this destroys the WP, if last ref
-      lock.relock(wpmutex);
-    }
-  }
+    stopDetachedWPs();
   // main polling loop
   int nloop = 0;
 #ifdef USE_THREADS
@@ -493,6 +508,9 @@ void Dispatcher::poll (int maxloops)
     WPInterface *maxwp = 0;
     int num_repoll = 0; // # of WPs needing a repoll
     repoll = false;
+    // destroy any WPs that have been delay-detached in the meantime
+    if( !poll_depth )
+      stopDetachedWPs();
     // Find WP with maximum polling priority
     // Count the number of WPs that required polling, too
     Thread::Mutex::Lock lock(wpmutex);
@@ -1055,6 +1073,17 @@ bool Dispatcher::checkEvents()
   return repoll;
 }
 
+void Dispatcher::raiseRepoll ()
+{
+#ifdef USE_THREADS
+  Thread::Mutex::Lock lock(repoll_cond);
+  repoll = true;
+  repoll_cond.signal();
+#else
+  repoll = true;
+#endif
+}
+
 //##ModelId=3DB936730142
 void Dispatcher::enqueue (WPInterface *pwp,const Message::Ref &ref)
 {
diff --git a/OCTOPUSSY/src/Dispatcher.h b/OCTOPUSSY/src/Dispatcher.h
index ec0a231..084ee30 100755
--- a/OCTOPUSSY/src/Dispatcher.h
+++ b/OCTOPUSSY/src/Dispatcher.h
@@ -443,6 +443,12 @@ class Dispatcher : public OctopussyDebugContext
       // for single-threaded and multi-threaded versions, hence a separate method)
     //##ModelId=3DB936730142
       void enqueue (WPInterface *pwp,const Message::Ref &ref);
+
+      // raises the repoll flag, and wakes up the polling thread
+      void raiseRepoll ();
+
+      // stops and releases all WPs that have been detached with a delay
+      void stopDetachedWPs ();
       
   private:
     //##ModelId=3DB9367500EB
-- 
2.43.0


From aefdd9098915cb8d4ea63d0207d29f3208489c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:34 +0000
Subject: [PATCH 06/50] fix: gateway sends messages to the peer in the order in
 which they were queued

---
 OCTOPUSSY/src/MTGatewayWP.cc | 40 ++++++++++++++++++++++++++++++++++++
 OCTOPUSSY/src/MTGatewayWP.h  |  5 +++++
 2 files changed, 45 insertions(+)

diff --git a/OCTOPUSSY/src/MTGatewayWP.cc b/OCTOPUSSY/src/MTGatewayWP.cc
index c79622f..4acfb49 100755
--- a/OCTOPUSSY/src/MTGatewayWP.cc
+++ b/OCTOPUSSY/src/MTGatewayWP.cc
@@ -58,6 +58,7 @@ MTGatewayWP::MTGatewayWP (Socket* sk)
   rprocess = rhost = 0;
   reading_socket = first_message_read = false;
   shutdown_done = shutting_down = false;
+  delivering_message = repoll_deferred = false;
   statmon.time_not_reading.reset();
   sock->setSigpipeCounter(&sigpipe_counter);
 }
@@ -635,6 +636,45 @@ bool MTGatewayWP::mtStart (Thread::ThrID)
   return true;
 }
 
+// Messages must go out to the peer in the order in which they were queued, so
+// only one worker at a time may take ordinary messages off the queue. The other
+// workers remain available for events (i.e. timeouts and the shutdown message),
+// even if the first one is blocked in a write() call.
+bool MTGatewayWP::mtWakeup (Thread::Mutex::Lock &lock)
+{
+  while( needRepoll() && isRunning() )
+  {
+    bool ordinary = false;
+    if( !queue().empty() )
+    {
+      const Message &msg = queue().front().mref.deref();
+      ordinary = msg.id()[0] != AidEvent && 
+                 !( msg.id() == AidBye && msg.from() == address() );
+    }
+    if( ordinary )
+    {
+      if( delivering_message ) // leave it to the other worker
+      {
+        setNeedRepoll(false);
+        repoll_deferred = true;
+        break;
+      }
+      delivering_message = true;
+    }
+    deliver(lock);
+    if( ordinary )
+    {
+      delivering_message = false;
+      if( repoll_deferred )
+      {
+        repoll_deferred = false;
+        setNeedRepoll(true);
+      }
+    }
+  }
+  return true;
+}
+
 void MTGatewayWP::stopWorkers ()
 {
   // send termination signals to interrupt the worker threads
diff --git a/OCTOPUSSY/src/MTGatewayWP.h b/OCTOPUSSY/src/MTGatewayWP.h
index 1be1031..0f397a8 100755
--- a/OCTOPUSSY/src/MTGatewayWP.h
+++ b/OCTOPUSSY/src/MTGatewayWP.h
@@ -180,6 +180,8 @@ class MTGatewayWP : public WorkProcess  //## Inherits: <unnamed>%3C90BF100390
       
     //##ModelId=3DB958F6012F
       bool mtStart     (Thread::ThrID);
+      // delivers messages to one worker at a time, to preserve their order
+      bool mtWakeup    (Thread::Mutex::Lock &lock);
     //##ModelId=3DB958F6017B
       void stopWorkers ();
   private:
@@ -226,6 +228,9 @@ class MTGatewayWP : public WorkProcess  //## Inherits: <unnamed>%3C90BF100390
     //##ModelId=3DB958F30264
       Thread::Mutex writer_mutex;
       Thread::Mutex pre_writer_mutex;
+      // true if a worker is delivering an ordinary message / if another worker
+      // has left the queue to it meanwhile. Protected by the queue mutex.
+      bool delivering_message,repoll_deferred;
     //##ModelId=3DB958F30280
       bool writing;
     //##ModelId=3DB958F302AA
-- 
2.43.0


From b3bd4985b79de6f207b3dfdf97d2b7a348624c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:34 +0000
Subject: [PATCH 07/50] fix: WP iterator locks the WP map before accessing it

---
 OCTOPUSSY/src/Dispatcher.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/OCTOPUSSY/src/Dispatcher.cc b/OCTOPUSSY/src/Dispatcher.cc
index 0d46167..7cc18da 100755
--- a/OCTOPUSSY/src/Dispatcher.cc
+++ b/OCTOPUSSY/src/Dispatcher.cc
@@ -785,6 +785,7 @@ bool Dispatcher::removeSignal (WPInterface* pwp, int signum)
 //##ModelId=3C98D4530076
 Dispatcher::WPIter Dispatcher::initWPIter ()
 {
+  Thread::Mutex::Lock lock(wpmutex); // lock before accessing the map
   return WPIter(wps.begin(),wpmutex);
 }
 
-- 
2.43.0


From a548d5edb42372b27e4b7ada64ada1f90445d8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:34 +0000
Subject: [PATCH 08/50] fix: dispatcher stop() copes with WPs that detach
 themselves, signal handlers stay until a WP is stopped

---
 OCTOPUSSY/src/Dispatcher.cc | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/OCTOPUSSY/src/Dispatcher.cc b/OCTOPUSSY/src/Dispatcher.cc
index 7cc18da..52073ef 100755
--- a/OCTOPUSSY/src/Dispatcher.cc
+++ b/OCTOPUSSY/src/Dispatcher.cc
@@ -216,7 +216,15 @@ void Dispatcher::detach (const WPID &id, bool delay)
         iter++;
   }
   rebuildInputs(pwp);
-  rebuildSignals(pwp);
+  // Stop delivering signals to this WP. The signal handlers stay in place until
+  // the WP has been stopped, since its threads may still depend on them (e.g. on 
+  // SIGPIPE being ignored).
+  {
+    Thread::Mutex::Lock siglock(sigmutex);
+    for( SMI iter = signal_map.begin(); iter != signal_map.end(); iter++ )
+      if( iter->second.pwp == pwp )
+        iter->second.flags |= EV_IGNORE;
+  }
   GWI iter2 = gateways.find(id);
   if( iter2 != gateways.end() )
     gateways.erase(iter2);
@@ -237,6 +245,7 @@ void Dispatcher::detach (const WPID &id, bool delay)
     // threads, and these may need to re-enter the dispatcher
     lock.release();
     pwp->do_stop();
+    rebuildSignals(pwp);
     pwp->detach();
   }
 }
@@ -371,13 +380,20 @@ void Dispatcher::stop ()
 #endif
   // tell all WPs that we are stopping. Do not hold a mutex since they
   // may re-enter the dispatcher
+  // (but do hold it while making a copy of the map, since threads of WPs
+  // are still running, and may be detaching them)
+  stopDetachedWPs();
+  Thread::Mutex::Lock lock(wpmutex);
   map<WPID,WPRef> wps1 = wps;
+  lock.release();
   for( WPI iter = wps1.begin(); iter != wps1.end(); iter++ )
   {
     iter->second().do_stop();
     iter->second().detach();
   }
-  Thread::Mutex::Lock lock(wpmutex);
+  // any WPs that have been detached by their own threads in the meantime
+  stopDetachedWPs();
+  lock.relock(wpmutex);
   // clear all event lists
   timeouts.clear();
   inputs.clear();
@@ -464,8 +480,12 @@ void Dispatcher::stopDetachedWPs ()
     WPRef ref = detached_wps.top();
     detached_wps.pop();
     lock.release();
-    ref().do_stop();
-    ref().detach();
+    if( ref->isAttached() )   // else already stopped by stop()
+    {
+      ref().do_stop();
+      ref().detach();
+    }
+    rebuildSignals(ref.dewr_p());
     ref.detach(); // this destroys the WP, if last ref
     lock.relock(wpmutex);
   }
-- 
2.43.0


From 12844dc52584ac7c7cb464c13c289f94c077851f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:02 +0000
Subject: [PATCH 09/50] fix: gateway reader skips junk, ping and unknown
 packets instead of looping forever, rejects illegal block sizes

---
 OCTOPUSSY/src/MTGatewayWP2.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/OCTOPUSSY/src/MTGatewayWP2.cc b/OCTOPUSSY/src/MTGatewayWP2.cc
index de1ab71..22e45bd 100644
--- a/OCTOPUSSY/src/MTGatewayWP2.cc
+++ b/OCTOPUSSY/src/MTGatewayWP2.cc
@@ -75,12 +75,12 @@ int MTGatewayWP::readyForTrailer ()
 //##ModelId=3DB958F502BF
 int MTGatewayWP::readyForData ( const PacketHeader &hdr,BlockSet &bset )
 {
-  read_buf_size = hdr.content;
-  if( read_buf_size > MaxBlockSize )
+  if( hdr.content < 0 || hdr.content > MaxBlockSize )
   {
-    lprintf(1,AidLogWarning,"incoming block too big (%d), skipping\n",read_buf_size);
+    lprintf(1,AidLogWarning,"illegal size of incoming block (%ld), skipping\n",hdr.content);
     return requestResync();
   }
+  read_buf_size = hdr.content;
   nread = 0;
   // if this is the first block of a message, get a timestamp
   if( bset.empty() )
@@ -183,8 +183,9 @@ void * MTGatewayWP::readerThread ()
             dprintf(2)("error: junk data before header\n");
             requestResync();  // request resync if this is first instance
           }
-          // look for first byte of signature in this header
-          void *pos = memchr(&header,PacketSignature[0],sizeof(header));
+          // look for first byte of signature in this header. Skip the first byte,
+          // as we already know that no header starts there
+          void *pos = memchr(reinterpret_cast<char*>(&header)+1,PacketSignature[0],sizeof(header)-1);
           if( !pos ) // not found? flush everything
           {
             dprintf(5)("no signature found, flushing everything\n");
@@ -213,6 +214,7 @@ void * MTGatewayWP::readerThread ()
           {
             case MT_PING: 
                 dprintf(5)("PING packet, ignoring\n");
+                readyForHeader();
                 break; // ignore ping message
 
             case MT_DATA:       // data block coming up
@@ -225,8 +227,10 @@ void * MTGatewayWP::readerThread ()
             case MT_RETRY:       // retry data message
                 dprintf(5)("RETRY packet, ignoring\n");
                 // to do later
+                readyForHeader();
                 break;
             default:
+                readyForHeader();
                 lprintf(2,AidLogWarning,"unknown packet type %d, ignoring\n",header.type);
           }
         } // end else header is valid
-- 
2.43.0


From 75384c49d48b077f5753ce2cae3b123fe0af1764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:02 +0000
Subject: [PATCH 10/50] fix: gateway validates the initialization message
 before it registers the peer

---
 OCTOPUSSY/src/MTGatewayWP.cc | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/OCTOPUSSY/src/MTGatewayWP.cc b/OCTOPUSSY/src/MTGatewayWP.cc
index 4acfb49..9fad03c 100755
--- a/OCTOPUSSY/src/MTGatewayWP.cc
+++ b/OCTOPUSSY/src/MTGatewayWP.cc
@@ -442,6 +442,9 @@ void MTGatewayWP::processIncoming (Message::Ref &ref)
         shutdownReaderThread();
         return;
       }
+      // process remote subscriptions data (this throws an exception on bad data, so
+      // do it before the peer is registered)
+      int nsubs = processInitMessage(msg.data(),msg.datasize());
       // add this connection to the local peerlist
       DMI::Record & rec = gatewayPeerList[peerid] <<= new DMI::Record;
       rec[AidTimestamp] = Timestamp::now();
@@ -449,8 +452,6 @@ void MTGatewayWP::processIncoming (Message::Ref &ref)
       rec[AidPort] = atoi(sock->port().c_str());
       peerlock.release();
       
-      // process remote subscriptions data
-      int nsubs = processInitMessage(msg.data(),msg.datasize());
       // set states
       setPeerState(CONNECTED);
       // we can now wake up & repoll a worker thread since they can
@@ -510,23 +511,23 @@ void MTGatewayWP::processIncoming (Message::Ref &ref)
 int MTGatewayWP::processInitMessage (const void *block,size_t blocksize)
 {
   FailWhen( !block,"no block" );
-  size_t hdrsize;
   const size_t *hdr = static_cast<const size_t *>(block);
-  int nwp;
   // big enough for header? 
-  FailWhen( blocksize < sizeof(size_t) || 
-            blocksize < ( hdrsize = (1 + 2*( nwp = *(hdr++) ))*sizeof(size_t) ),
-            "corrupt block");
+  FailWhen( blocksize < sizeof(size_t),"corrupt block" );
+  const size_t nwp = *(hdr++);
+  FailWhen( nwp > (blocksize/sizeof(size_t) - 1)/2,"corrupt block" );
+  const size_t hdrsize = (1 + 2*nwp)*sizeof(size_t);
   // scan addresses and subscription blocks
   const char *data = static_cast<const char *>(block) + hdrsize,
              *enddata = static_cast<const char *>(block) + blocksize;
   
-  Thread::Mutex::Lock(remote_subs_mutex);
-  for( int i=0; i<nwp; i++ )
+  Thread::Mutex::Lock lock(remote_subs_mutex);
+  for( size_t i=0; i<nwp; i++ )
   {
     size_t asz = *(hdr++), ssz = *(hdr++);
     // check block size again
-    FailWhen( data+asz+ssz > enddata,"corrupt block" ); 
+    FailWhen( asz > size_t(enddata-data) || ssz > size_t(enddata-data) - asz,
+              "corrupt block" ); 
     // unpack address 
     MsgAddress addr; 
     addr.unpack(data,asz); data += asz;
-- 
2.43.0


From dbfde896ba4e92f3cd88241d02edd7bf5f0f3510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:02 +0000
Subject: [PATCH 11/50] fix: stopWorkers() is called before worker threads are
 joined, gateway workers blocked in a write are interrupted

---
 OCTOPUSSY/src/MTGatewayWP.cc | 7 ++++---
 OCTOPUSSY/src/WPInterface.cc | 2 ++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/OCTOPUSSY/src/MTGatewayWP.cc b/OCTOPUSSY/src/MTGatewayWP.cc
index 9fad03c..fc77eff 100755
--- a/OCTOPUSSY/src/MTGatewayWP.cc
+++ b/OCTOPUSSY/src/MTGatewayWP.cc
@@ -678,10 +678,11 @@ bool MTGatewayWP::mtWakeup (Thread::Mutex::Lock &lock)
 
 void MTGatewayWP::stopWorkers ()
 {
-  // send termination signals to interrupt the worker threads
-  // (in case they're busy in a write() call)
+  // close the sending side of the socket, to interrupt the worker threads
+  // (in case they're busy in a write() call, and the peer does not read)
   dprintf(1)("stopWorkers: interrupting worker threads\n");
-  killWorkers(SIGPIPE);
+  if( sock )
+    sock->shutdown(false,true);
 }
 
 void * MTGatewayWP::start_readerThread (void *pinfo)
diff --git a/OCTOPUSSY/src/WPInterface.cc b/OCTOPUSSY/src/WPInterface.cc
index 519d660..a4e30ec 100755
--- a/OCTOPUSSY/src/WPInterface.cc
+++ b/OCTOPUSSY/src/WPInterface.cc
@@ -585,6 +585,8 @@ void WPInterface::do_stop ()
   {
     // wake them all up so that they all exit (they ought to check for isRunning()!)
     repollWorker(true);
+    // and interrupt the ones that may be busy elsewhere
+    stopWorkers();
     // join them
     for( int i=0; i<num_worker_threads; i++ )
     {
-- 
2.43.0


From f592d09c86a38ed74b1f2c659d50ca0bf47ebeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 12/50] fix: gateways forward Remote.Up messages and take part
 in forwarding before they announce themselves

---
 OCTOPUSSY/src/MTGatewayWP.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/OCTOPUSSY/src/MTGatewayWP.cc b/OCTOPUSSY/src/MTGatewayWP.cc
index fc77eff..ec5c6a5 100755
--- a/OCTOPUSSY/src/MTGatewayWP.cc
+++ b/OCTOPUSSY/src/MTGatewayWP.cc
@@ -225,6 +225,12 @@ bool MTGatewayWP::willForward (const Message &msg) const
     dprintf(3)("no, non-local origin, hopcount = %d\n",msg.hops() );
     return false;
   }
+  // our own Remote.Up message does not go to the peer it is about
+  if( msg.from() == address() )
+  {
+    dprintf(3)("no, published by ourselves\n");
+    return false;
+  }
   // Check that to-scope of message matches remote 
   if( !rprocess.matches( msg.to().process() ) ||
       !rhost.matches( msg.to().host() ) )
@@ -284,7 +290,7 @@ int MTGatewayWP::receive (Message::Ref& mref)
   }
   // ignore any messages from MTGatewayWPs, with the exception of Remote.Up
   if( mref->from().wpclass() == AidGatewayWP &&
-      !mref->id().matches(MsgGWRemoteUp) )
+      !mref->id().matches(MsgGWRemoteUp|AidWildcard) )
   {
     dprintf(3)("ignoring [%s]: from a gateway\n",mref->sdebug(1).c_str());
     return Message::ACCEPT;
@@ -461,6 +467,12 @@ void MTGatewayWP::processIncoming (Message::Ref &ref)
       lprintf(2,("connected to remote peer " + msg.from().toString() +
                 " and initialized routing for %d remote WPs\n").c_str(),nsubs);
       
+      // tell dispatcher that we can forward messages now. Do this before announcing
+      // the connection, so that whatever is published in response to the announcement
+      // reaches the peer. The Remote.Up message itself is only published to peers on 
+      // "this" side of the connection, see willForward().
+      dsp()->declareForwarder(this);
+      
       // re-publish the init message as Remote.Up 
       msg.setId(MsgGWRemoteUp|peerid);
       msg[AidHost] = sock->host();
@@ -487,10 +499,6 @@ void MTGatewayWP::processIncoming (Message::Ref &ref)
       msg->setFrom(iter->first);
     }
     subslock.release();
-    // tell dispatcher that we can forward messages now
-    // (note that doing it here ensures that the GWRemoteUp message is
-    // only published to peers on "this" side of the connection)
-    dsp()->declareForwarder(this);
     // send off the fake hello messages
     while( !hellos.empty() )
     {
-- 
2.43.0


From 936919caebf587a920ffe5b4258f2c4c94675fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 13/50] fix: GWClientWP does not use a connection it has given
 up and removed

---
 OCTOPUSSY/src/GWClientWP.cc | 27 ++++++++++++++++++---------
 OCTOPUSSY/src/GWClientWP.h  |  5 +++--
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/OCTOPUSSY/src/GWClientWP.cc b/OCTOPUSSY/src/GWClientWP.cc
index 64489c5..56f3cc5 100755
--- a/OCTOPUSSY/src/GWClientWP.cc
+++ b/OCTOPUSSY/src/GWClientWP.cc
@@ -148,8 +148,9 @@ int GWClientWP::timeout (const HIID &id)
   bool connecting = false;
   Timestamp::now(&now);
   // go thru connection list and figure out what to do
-  for( CLI iter = conns.begin(); iter != conns.end(); iter++ )
+  for( CLI next = conns.begin(); next != conns.end(); )
   {
+    CLI iter = next++;  // tryConnect() may remove this connection from the list
     switch( iter->state )
     {
       case CONNECTED:   // do nothing
@@ -167,8 +168,8 @@ int GWClientWP::timeout (const HIID &id)
         
       case STOPPED:
       case WAITING:    // not connecting - is it time for a retry?
-        if( now >= iter->retry )
-          tryConnect(*iter);
+        if( now >= iter->retry && !tryConnect(*iter) )
+          continue;
         break;
       
       default:
@@ -343,6 +344,8 @@ bool GWClientWP::removeConnection (const string &host,int port)
     if( iter->port == port &&
         ( iter->host == host || ( localhost && iter->host == "localhost" ) ) )
     {
+      if( iter->sock )
+        delete iter->sock;
       conns.erase(iter++);
       res = true;
     }
@@ -377,17 +380,20 @@ void GWClientWP::activate ()
   Timestamp::now(&now);
   setState(CONNECTING);
   // initiate connection on every socket
-  for( CLI iter = conns.begin(); iter != conns.end(); iter++ )
+  for( CLI next = conns.begin(); next != conns.end(); )
+  {
+    CLI iter = next++;  // tryConnect() may remove this connection from the list
     tryConnect(*iter);
+  }
   // add a re-open timeout
   addTimeout(ReopenTimeout,AidReopen);
 }
 
 //##ModelId=3DB9367C037D
-void GWClientWP::tryConnect (Connection &cx)
+bool GWClientWP::tryConnect (Connection &cx)
 {
   if( cx.state == CONNECTED ) // ignore if connected
-    return;
+    return true;
   if( cx.state != CONNECTING ) // try to reconnect completely
   {
     if( cx.sock )
@@ -401,7 +407,7 @@ void GWClientWP::tryConnect (Connection &cx)
     // fall thru to connection attempt, below
   }
   if( !cx.sock )  // sanity check
-    return;
+    return true;
   // [re]try connection attempt
   int res = cx.sock->connect(0);
   dprintf(3)("connect(%s:%d): %d (%s)\n",cx.host.c_str(),cx.port,
@@ -435,8 +441,10 @@ void GWClientWP::tryConnect (Connection &cx)
     {
       lprintf(2,"connect(%s:%d) error: %s; giving up",
           cx.host.c_str(),cx.port,cx.sock->errstr().c_str());
-      delete cx.sock;
-      removeConnection(cx.host,cx.port);
+      delete cx.sock; cx.sock = 0;
+      // NB: copy the host name, as cx itself is destroyed here
+      removeConnection(string(cx.host),cx.port);
+      return false;
     }
     else
     {
@@ -448,6 +456,7 @@ void GWClientWP::tryConnect (Connection &cx)
       cx.retry = now + ReopenTimeout;
     }
   }
+  return true;
 }
 
 
diff --git a/OCTOPUSSY/src/GWClientWP.h b/OCTOPUSSY/src/GWClientWP.h
index 033bc1d..858dfb5 100755
--- a/OCTOPUSSY/src/GWClientWP.h
+++ b/OCTOPUSSY/src/GWClientWP.h
@@ -104,9 +104,10 @@ class GWClientWP : public WorkProcess
       // begins connecting
     //##ModelId=3DB9367C0305
       void activate ();
-      // tries to open and connect the socket
+      // tries to open and connect the socket. Returns false if the connection has
+      // been given up (in which case it has been removed from the list)
     //##ModelId=3DB9367C037D
-      void tryConnect ( Connection &cx );
+      bool tryConnect ( Connection &cx );
       
     //##ModelId=3DB9367A0374
       Timestamp now;
-- 
2.43.0


From 690d6c11f0de97ebb475cb7bac713e75d3a1d392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 14/50] fix: two processes that connect to each other at the
 same time do not both drop their connections for good

---
 OCTOPUSSY/src/GWClientWP.cc | 31 +++++++++++++++++++++++++++----
 OCTOPUSSY/src/GWClientWP.h  |  4 +++-
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/OCTOPUSSY/src/GWClientWP.cc b/OCTOPUSSY/src/GWClientWP.cc
index 56f3cc5..7d97585 100755
--- a/OCTOPUSSY/src/GWClientWP.cc
+++ b/OCTOPUSSY/src/GWClientWP.cc
@@ -156,6 +156,24 @@ int GWClientWP::timeout (const HIID &id)
       case CONNECTED:   // do nothing
         break;
       
+      case DUPLICATE:   // another connection to the same peer exists. Once that is
+                        // gone, this one is needed again
+      {
+        Thread::Mutex::Lock peerlock(gatewayPeerList.mutex());
+        if( !gatewayPeerList[iter->peerid].exists() )
+        {
+          if( iter->give_up )
+            iter->give_up = now + GiveUpTimeout;
+          iter->state = WAITING;
+          // if both peers have lost their connections as duplicates of each other, 
+          // make sure that they don't retry simultaneously
+          iter->retry = now;
+          if( !(address().peerid() < iter->peerid) )
+            iter->retry += ReopenTimeout + ReopenTimeout;
+        }
+        break;
+      }
+      
       case CONNECTING:  // connecting?
         if( now >= iter->fail ) // check for timeout
         {
@@ -282,13 +300,18 @@ int GWClientWP::receive (Message::Ref& mref)
     else if( id.prefixedBy(MsgGWRemoteDuplicate) )
     {
       // message from child gateway advises us of a duplicate connection -- better
-      // remove this from the connection list
+      // not reopen this one as long as the other connection exists
       if( msg[AidHost].exists() )
       {
         const string &host = msg[AidHost];
         int port = msg[AidPort];
-        if( removeConnection(host,port) )
-          lprintf(2,AidLogNormal,"removed duplicate connection %s:%d",host.c_str(),port);
+        for( CLI iter = conns.begin(); iter != conns.end(); iter++ )
+          if( iter->gw == msg.from() )
+          {
+            iter->state = DUPLICATE;
+            iter->peerid = id.subId(MsgGWRemoteDuplicate.size());
+            lprintf(2,AidLogNormal,"suspended duplicate connection %s:%d",host.c_str(),port);
+          }
   //      else
   //        lprintf(2,AidLogWarning,"%s:%d not known, ignoring [%s]",
   //            host.c_str(),port,msg.sdebug(1).c_str());
@@ -296,7 +319,7 @@ int GWClientWP::receive (Message::Ref& mref)
     }
   }
   // bye message from child? Reopen its gateway then
-  // (unless the connection has been removed by MsgGWRemoteDuplicate, above)
+  // (unless the connection has been suspended by MsgGWRemoteDuplicate, above)
   if( id.prefixedBy(MsgBye|AidGatewayWP) )
   {
     Connection *cx = find(msg.from());
diff --git a/OCTOPUSSY/src/GWClientWP.h b/OCTOPUSSY/src/GWClientWP.h
index 858dfb5..b3caa8d 100755
--- a/OCTOPUSSY/src/GWClientWP.h
+++ b/OCTOPUSSY/src/GWClientWP.h
@@ -55,6 +55,8 @@ class GWClientWP : public WorkProcess
       // When we spawn a child gateway, we watch for its bye message
       // to know when to start connecting again. This holds its address.
                        MsgAddress gw;
+      // if this connection was found to be a duplicate, this holds the peer's ID
+                       HIID      peerid;
               } Connection;
 
   public:
@@ -88,7 +90,7 @@ class GWClientWP : public WorkProcess
 
     // Additional Public Declarations
     //##ModelId=3DB93650012B
-      typedef enum { STOPPED=0,WAITING=1,CONNECTING=2,CONNECTED=3 } States;
+      typedef enum { STOPPED=0,WAITING=1,CONNECTING=2,CONNECTED=3,DUPLICATE=4 } States;
   protected:
     // Additional Protected Declarations
       // maintain connection list
-- 
2.43.0


From c4264b1ff5630093e964b16c537a591de0f4e988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 15/50] fix: Remote.Up and Remote.Down are published in the
 order in which peers are registered and removed

---
 OCTOPUSSY/src/MTGatewayWP.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/OCTOPUSSY/src/MTGatewayWP.cc b/OCTOPUSSY/src/MTGatewayWP.cc
index ec5c6a5..f6f6e30 100755
--- a/OCTOPUSSY/src/MTGatewayWP.cc
+++ b/OCTOPUSSY/src/MTGatewayWP.cc
@@ -430,6 +430,9 @@ void MTGatewayWP::processIncoming (Message::Ref &ref)
       HIID peerid(rprocess|rhost);
       // lock the peerlist so only one gateway at a time can update it
       Thread::Mutex::Lock peerlock(gatewayPeerList.mutex());
+      // if shutdown() has been here already, then it's too late to register the peer
+      if( shutdown_done )
+        return;
       // paranoid case: if we already have a connection to the peer, shutdown
       // (this really ought not to happen)
       if( gatewayPeerList[peerid].exists() )
@@ -456,7 +459,6 @@ void MTGatewayWP::processIncoming (Message::Ref &ref)
       rec[AidTimestamp] = Timestamp::now();
       rec[AidHost] = sock->host();
       rec[AidPort] = atoi(sock->port().c_str());
-      peerlock.release();
       
       // set states
       setPeerState(CONNECTED);
@@ -477,6 +479,8 @@ void MTGatewayWP::processIncoming (Message::Ref &ref)
       msg.setId(MsgGWRemoteUp|peerid);
       msg[AidHost] = sock->host();
       msg[AidPort] = atoi(sock->port().c_str());
+      // the peerlist is still locked here: Remote.Up and Remote.Down are published in the 
+      // order in which peers are added to and removed from it
       publish(ref,Message::GLOBAL);
     }
     catch( std::exception &exc ) 
@@ -575,6 +579,8 @@ void MTGatewayWP::shutdown ()
   //// the reader threads have been interrupted
   // // release gwmutex now: now that the flag is set, only one thread
   // // will get this far
+  // processIncoming() registers the peer and publishes Remote.Up under this lock 
+  Thread::Mutex::Lock peerlock(gatewayPeerList.mutex());
   if( peerState() == CONNECTED )     // publish a Remote.Down message
   {
     HIID peerid = rprocess|rhost;
@@ -585,6 +591,7 @@ void MTGatewayWP::shutdown ()
   }
   else
     lprintf(1,"shutting down");
+  peerlock.release();
   
   dprintf(4)("shutdown: interrupting socket\n");
   sock->interrupt();
-- 
2.43.0


From d162105d6edfbaa943ee6c9e9a086c29dd77808d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 16/50] fix: a multithreaded poll fills only its own work
 orders and waits for all its children

A thread waiting for its children used to take any work order off the
queue, including orders that need the node it is executing, and would then
wait for itself. Only looking at the head of the queue could also leave
orders that may be executed waiting for ones that may not. Abandoned and
aborted polls did not wait for children already being executed, which would
then deliver their results into the next poll.
---
 MEQ/src/MTPool.cc      | 143 ++++++++++--------------
 MEQ/src/MTPool.h       |  40 +++++--
 MEQ/src/Node.cc        |   2 +-
 MEQ/src/NodeNursery.cc | 244 ++++++++++++++++++-----------------------
 MEQ/src/NodeNursery.h  |  10 +-
 5 files changed, 206 insertions(+), 233 deletions(-)

diff --git a/MEQ/src/MTPool.cc b/MEQ/src/MTPool.cc
index b8b874f..b4a4ee0 100644
--- a/MEQ/src/MTPool.cc
+++ b/MEQ/src/MTPool.cc
@@ -138,17 +138,12 @@ void * Brigade::startWorker (void *pwd)
 // we're expected to hold a lock on cond()
 void Brigade::awakenWorker ()
 {
-  if( wo_queue_.empty() )
+  // find an order that can be executed
+  WorkOrderQueue::iterator iter = findWorkOrder();
+  if( iter == wo_queue_.end() )
     return;
-  const AbstractWorkOrder &wo = *(wo_queue_.front());
+  const AbstractWorkOrder &wo = **iter;
   int depth = wo.depth();
-  // allow at most max_busy_ threads at any tree depth
-  if( nthr_[depth] >= max_busy_ )
-  {
-    dprintf(1)("awakenWorker(), queue %s, %d threads already running, no action\n",
-               wo.sdebug().c_str(),nthr_[depth]);
-    return;
-  }
   // if there are no idle threads, start a new worker
   if( !nidle_ )
   {
@@ -182,7 +177,7 @@ void * Brigade::workerLoop ()
     Thread::testCancel();
     // wait on the queue condition for a work order to show up
     lock.relock(cond());
-    AbstractWorkOrder *wo = getWorkOrder(true);
+    AbstractWorkOrder *wo = getWorkOrder();
     lock.release();
     // execute order if any
     if( wo )
@@ -198,89 +193,63 @@ void * Brigade::workerLoop ()
   }
   return 0;
 }
-// gets a AbstractWorkOrder from the brigade queue
-// assume we have a lock on cond()
-AbstractWorkOrder * Brigade::getWorkOrder (bool wait,int mindepth)
+
+Brigade::WorkOrderQueue::iterator Brigade::findWorkOrder ()
+{
+  // allow at most max_busy_ threads at any tree depth
+  WorkOrderQueue::iterator iter = wo_queue_.begin();
+  while( iter != wo_queue_.end() && nthr_[(*iter)->depth()] >= max_busy_ )
+    ++iter;
+  return iter;
+}
+
+AbstractWorkOrder * Brigade::takeWorkOrder (WorkOrderQueue::iterator iter)
+{
+  AbstractWorkOrder *pwo = *iter;
+  wo_queue_.erase(iter);
+  ++nthr_[pwo->depth()];
+  cdebug1(2)<<sdebug(1)+" got queued order\n";
+  // if there's more stuff on the queue, can we wake up another thread?
+  awakenWorker();
+  return pwo;
+}
+
+AbstractWorkOrder * Brigade::getWorkOrder ()
 {
   WorkerData &wd = workerData();
   while( true )
   {
-    // check the WO queue
-    if( wo_queue_.empty() )
+    WorkOrderQueue::iterator iter = findWorkOrder();
+    if( iter != wo_queue_.end() )
     {
-      if( !wait )
-        return 0;
-      // idle this thread if it wasn't idle
-      if( wd.state != IDLE )
-      {
-        wd.state = IDLE;
-        ++nidle_;
-        dprintf(1)("no WOs queued, %d threads now idle\n",nidle_);
-      }
-      // sleep until something happens to queue
-      cond().wait();
-    }
-    else  // else we have an order on the queue
-    {
-      AbstractWorkOrder *pwo = wo_queue_.front();
-      int depth = pwo->depth();
-      dprintf(2)("head of WO queue is %s\n",pwo->sdebug().c_str());
-      if( depth < mindepth )
-      {
-        dprintf(2)("mindepth is %d, so returning 0\n",mindepth);
-        return 0;
-      }
-      // first case is us waking up from idle
+      // unidle ourselves if needed
       if( wd.state == IDLE )
       {
-        // check that not too many threads are busy at this depth, go back to sleep if so
-        if( nthr_[depth] >= max_busy_ )
-        {
-          if( !wait )
-            return 0;
-          dprintf(2)("nthr_[%d]=%d, going back to sleep\n",depth,nthr_[depth]);
-          cond().wait();
-          continue;
-        }
-        // else unidle ourselves
-        if( nidle_ <=0 )
-        {
-          dprintf(0)("worker is going idle->busy, but nidle_=%d\n",nidle_);
-        }
-        else
-          --nidle_;
+        --nidle_;
         wd.state = BUSY;
       }
-      // second case: we're still counted as busy, so see if we should grab another WO
-      else if( wd.state == BUSY )
-      {
-        // if too many threads are busy, idle ourselves and go to sleep
-        if( nthr_[depth] > max_busy_ )
-        {
-          if( !wait )
-            return 0;
-          dprintf(2)("nthr_[%d]=%d, going to sleep\n",depth,nthr_[depth]);
-          wd.state = IDLE;
-          ++nidle_;
-          cond().wait();
-          continue;
-        }
-        // else go on to process the order
-      }
-      else
-      {
-        Throw("unexpected thread state in getWorkOrder()");
-      }
-      wo_queue_.pop_front();
-      ++nthr_[depth];
-      cdebug1(2)<<sdebug(1)+" got queued order\n";
-      // if there's more stuff on the queue, can we wake up another thread?
-      awakenWorker();
-      return pwo;
+      return takeWorkOrder(iter);
     }
+    // idle this thread if it wasn't idle
+    if( wd.state != IDLE )
+    {
+      wd.state = IDLE;
+      ++nidle_;
+      dprintf(1)("no suitable WOs queued, %d threads now idle\n",nidle_);
+    }
+    // sleep until something happens to queue
+    cond().wait();
   }
 }
 
+AbstractWorkOrder * Brigade::getWorkOrder (const NodeNursery &client)
+{
+  for( WorkOrderQueue::iterator iter = wo_queue_.begin(); iter != wo_queue_.end(); ++iter )
+    if( (*iter)->client() == &client )
+      return takeWorkOrder(iter);
+  return 0;
+}
+
 void Brigade::finishWithWorkOrder (AbstractWorkOrder *wo)
 {
   Thread::Mutex::Lock lock(cond());
@@ -292,22 +261,28 @@ void Brigade::finishWithWorkOrder (AbstractWorkOrder *wo)
   else
     --nthr_[depth];
   delete wo;
+  // an order at this depth may have been held back until now
+  awakenWorker();
 }
 
-void Brigade::clearQueue (const NodeNursery &client)
+int Brigade::clearQueue (const NodeNursery &client)
 {
+  int count = 0;
   Thread::Mutex::Lock lock(cond());
   for( WorkOrderQueue::iterator iter = wo_queue_.begin(); iter != wo_queue_.end(); )
   {
-    WorkOrder *wo = dynamic_cast<WorkOrder*>(*iter);
-    if( wo && &(wo->clientref) == &client )
+    if( (*iter)->client() == &client )
+    {
+      delete *iter;
       wo_queue_.erase(iter++);
+      count++;
+    }
     else
       ++iter;
   }
+  return count;
 }
 
-// marks thread as blocked or unblocked
 void Brigade::markAsBlocked (const string &where,WorkerData &)
 {
 /*  Thread::Mutex::Lock lock(cond());
diff --git a/MEQ/src/MTPool.h b/MEQ/src/MTPool.h
index 44f3dde..7292641 100644
--- a/MEQ/src/MTPool.h
+++ b/MEQ/src/MTPool.h
@@ -70,6 +70,10 @@ namespace Meq
         int depth () const
         { return depth_; }
 
+        // returns nursery that placed the order, or 0 if none
+        virtual const NodeNursery * client () const
+        { return 0; }
+
         virtual string sdebug (int=0) const
         { return ""; }
 
@@ -97,6 +101,9 @@ namespace Meq
 
         virtual void execute (Brigade &brig);      // runs the work order.
 
+        virtual const NodeNursery * client () const
+        { return &clientref; }
+
         virtual string sdebug (int detail=0) const;
 
         NodeNursery & clientref;  // who placed the order
@@ -150,21 +157,27 @@ namespace Meq
         }
 
         // Clears the brigade's work order queue of WorkOrders associated with the
-        // given NodeNursery
-        void clearQueue (const NodeNursery &client);
+        // given NodeNursery. Returns the number of orders removed.
+        int clearQueue (const NodeNursery &client);
 
-        // gets next work order from the queue.
+        // gets next work order from the queue. Called by worker threads.
         // !!! The caller must obtain a lock on cond() before calling this.
-        // If head of queue has a WO with a depth>=mindepth, returns the WO.
-        // If head of queue has a WO with a depth<mindepth, returns 0.
-        // If queue is empty OR too many threads are busy and wait=false, returns 0.
-        // If queue is empty and wait=true, marks thread as idle and
+        // Orders at a depth where too many threads are already busy are skipped.
+        // If there's nothing (else) on the queue, marks thread as idle and
         // waits for an order indefinitely.
-        // The work order will have its nodelock set, so WorkOrder::execute()
-        // may be called immediately.
         // Ownership of order object is transferred to caller.
-        // If returning a WO, marks thread as busy.
-        AbstractWorkOrder * getWorkOrder (bool wait=true,int mindepth=0);
+        // Marks thread as busy.
+        AbstractWorkOrder * getWorkOrder ();
+
+        // gets next work order placed by the given nursery, or 0 if its orders are 
+        // all being executed already. Called by threads that wait for the results of their 
+        // own orders.
+        // !!! The caller must obtain a lock on cond() before calling this.
+        // Note that such a thread is in the middle of a node's execute(). If it were to
+        // take on somebody else's orders, it could come across that very node, 
+        // and end up waiting for itself.
+        // Ownership of order object is transferred to caller.
+        AbstractWorkOrder * getWorkOrder (const NodeNursery &client);
         
         // finishes with work order, deallocates object
         void finishWithWorkOrder (AbstractWorkOrder *wo);
@@ -229,6 +242,11 @@ namespace Meq
         typedef std::list<AbstractWorkOrder *> WorkOrderQueue;
         WorkOrderQueue wo_queue_;
 
+        // finds first order on the queue that a worker thread may execute
+        WorkOrderQueue::iterator findWorkOrder ();
+        // takes order off the queue
+        AbstractWorkOrder * takeWorkOrder (WorkOrderQueue::iterator iter);
+
       // worker threads
         std::vector<WorkerData> workers_;
 
diff --git a/MEQ/src/Node.cc b/MEQ/src/Node.cc
index 6cf6de5..287c7ff 100644
--- a/MEQ/src/Node.cc
+++ b/MEQ/src/Node.cc
@@ -906,7 +906,7 @@ int Node::pollChildren (Result::Ref &resref,
   // if aborted, return without polling stepchildren
   if( retcode&RES_ABORT ||
       ( retcode&RES_FAIL && children().failPolicy() == AidAbandonPropagate ) ||
-      ( retcode&RES_MISSING && children().failPolicy() == AidAbandonPropagate ) )
+      ( retcode&RES_MISSING && children().missingDataPolicy() == AidAbandonPropagate ) )
   {
     timers().children.stop();
     return retcode;
diff --git a/MEQ/src/NodeNursery.cc b/MEQ/src/NodeNursery.cc
index 8448c56..642c4aa 100644
--- a/MEQ/src/NodeNursery.cc
+++ b/MEQ/src/NodeNursery.cc
@@ -193,6 +193,7 @@ int NodeNursery::startAsyncPoll (const Request &req,int depth)
   if( mt_checkBrigadeAvailability(lock,req) )
   {
     mt.polling_ = true;
+    mt.abandon_ = false;
     mt.child_retcount_ = 0;
     mt.child_retqueue_.reserve(numChildren());
     mt.child_retqueue_.resize(0);
@@ -233,17 +234,18 @@ int NodeNursery::startAsyncPoll (const Request &req,int depth)
 // when operating in async poll mode (i.e. Solver)
 void NodeNursery::mt_receiveAsyncChildResult (int ichild,MTPool::WorkOrder &res)
 {
-  // do nothing if poll is already finished (this may be possible if the
-  // main thread aborted execute())
-  if( !mt.polling_ )
-    return;
   Thread::Mutex::Lock lock(mt.child_poll_cond_);
-  // store result in child result queue
-  mt.child_retqueue_.push_back(MT_ChildResult());
-  MT_ChildResult &qres = mt.child_retqueue_.back();
-  qres.ichild = ichild;
-  qres.resref.xfer(res.resref);
-  qres.retcode = child_retcodes_[ichild] = res.retcode;
+  // store result in child result queue, unless poll is being abandoned (this may be
+  // possible if the main thread aborted execute())
+  if( !mt.abandon_ )
+  {
+    mt.child_retqueue_.push_back(MT_ChildResult());
+    MT_ChildResult &qres = mt.child_retqueue_.back();
+    qres.ichild = ichild;
+    qres.resref.xfer(res.resref);
+    qres.retcode = res.retcode;
+  }
+  child_retcodes_[ichild] = res.retcode;
   // add time to profiling timer
   timer().add(res.timer);
   // wake parent thread since it may be waiting for a child result
@@ -255,10 +257,6 @@ void NodeNursery::mt_receiveAsyncChildResult (int ichild,MTPool::WorkOrder &res)
 // when doing a background poll
 void NodeNursery::mt_receiveBackgroundResult (int ichild,MTPool::WorkOrder &res)
 {
-  // do nothing if poll is already finished (this may be possible if the
-  // main thread aborted execute())
-  if( !mt.polling_ )
-    return;
   Thread::Mutex::Lock lock(mt.child_poll_cond_);
   res.resref.detach(); // discard result straight off but do store the return code
   child_retcodes_[ichild] = res.retcode;
@@ -272,25 +270,52 @@ void NodeNursery::mt_receiveBackgroundResult (int ichild,MTPool::WorkOrder &res)
 
 void NodeNursery::mt_cleanupAfterPoll ()
 {
+   mt.polling_ = false;
    mt.child_retqueue_.clear();
    async_poll_in_progress_ = background_poll_in_progress_ = false;
 }
 
 // this is called when execute() aborts in the middle of an MT poll
 // (i.e. mt.cur_brigade_ != 0 on return from execute())
-// deactivates worker threads and cleans up
+// withdraws any orders not yet taken up by worker threads, waits for the rest,
+// and cleans up
 void NodeNursery::mt_abortPoll ()
 {
   if( !mt.cur_brigade_ )
     return;
-  Thread::Mutex::Lock lock(mt.cur_brigade_->cond());
+  Thread::Mutex::Lock lock(mt.child_poll_cond_);
   mt.abandon_ = true;
-  mt.polling_ = false;
+  lock.release();
   // clear out orders placed by us
-  mt.cur_brigade_->clearQueue(*this);
+  int ncleared = mt.cur_brigade_->clearQueue(*this);
+  lock.relock(mt.child_poll_cond_);
+  mt.numchildren_ -= ncleared;
   lock.release();
-  // clean up (leaving brigade if needed)
-  mt_cleanupAfterPoll();
+  // wait for children that are already being executed, and clean up
+  mt_waitForEndOfPoll();
+}
+
+// Fills an order placed by us in the current thread, if there's one still on the queue.
+// Returns false if there isn't, i.e. if they have all been taken up by other threads
+bool NodeNursery::mt_fillOwnWorkOrder ()
+{
+  Thread::Mutex::Lock lock(mt.cur_brigade_->cond());
+  MTPool::AbstractWorkOrder *wo = mt.cur_brigade_->getWorkOrder(*this);
+  lock.release();
+  if( !wo )
+    return false;
+  wo->execute(*mt.cur_brigade_);
+  mt.cur_brigade_->finishWithWorkOrder(wo);
+  return true;
+}
+
+// Sleeps until one of our children returns a result.
+// Caller must hold a lock on child_poll_cond_
+void NodeNursery::mt_sleepOnChildren ()
+{
+  MTPool::Brigade::markThreadAsBlocked(name());
+  mt.child_poll_cond_.wait();
+  MTPool::Brigade::markThreadAsUnblocked(name());
 }
 
 // this is called to wait for an mt poll to finish
@@ -299,38 +324,23 @@ void NodeNursery::mt_waitForEndOfPoll ()
   if( !mt.cur_brigade_ )
     return;
   Thread::Mutex::Lock lock(mt.child_poll_cond_);
-  // loop until all children have returned a result
-  while( mt.child_retcount_ < mt.numchildren_ && !mt.abandon_ )
+  if( mt.child_retcount_ < mt.numchildren_ )
   {
-    // else grab a work order for ourselves
-    Thread::Mutex::Lock lock2(mt.cur_brigade_->cond());
-    MTPool::AbstractWorkOrder *wo = mt.cur_brigade_->getWorkOrder(false,polling_depth_); // wait=false
-    // if there's nothing on the queue, then we have to wait for all worker
-    // threads to finish and deliver a result, so just go to sleep
-    if( !wo )
-    {
-      MTPool::Brigade::markThreadAsBlocked(name());
-      lock2.release();
-      becomeIdle();
-      mt.child_poll_cond_.wait();
-      MTPool::Brigade::markThreadAsUnblocked(name());
-      becomeBusy();
-      // once woken, go back to top of loop to see what we have received
-      continue;
-    }
-    lock2.release();
-    // ok, we have a work order -- release child results lock and go on to
-    // fill it
     lock.release();
     becomeIdle();
-    wo->execute(*mt.cur_brigade_);
-    mt.cur_brigade_->finishWithWorkOrder(wo);
-    becomeBusy();
-    // reacquire child results lock and go back up recheck
+    // fill our own orders while there are any left
+    while( mt_fillOwnWorkOrder() )
+      ;
+    // the rest are being filled by worker threads. Loop until all children have 
+    // returned a result
     lock.relock(mt.child_poll_cond_);
+    while( mt.child_retcount_ < mt.numchildren_ )
+      mt_sleepOnChildren();
+    lock.release();
+    becomeBusy();
   }
+  lock.release();
   // cleanup
-  async_poll_in_progress_ = background_poll_in_progress_ = false;
   mt_cleanupAfterPoll();
 }
 
@@ -368,39 +378,19 @@ int NodeNursery::awaitChildResult (int &rescode,Result::Ref &resref,const Reques
         mt.child_retqueue_.pop_back();
         return ichild;
       }
-      // no result on queue, so we can grab a work order from the brigade queue
+      // no result on queue, so we can fill one of our own orders. If they have all been
+      // taken up by worker threads, go to sleep until a result is delivered.
       lock.release();
-      Thread::Mutex::Lock lock2(mt.cur_brigade_->cond());
-      MTPool::AbstractWorkOrder *wo = mt.cur_brigade_->getWorkOrder(false,polling_depth_); // wait=false
-      // if there's nothing on the queue, then we have to wait for all worker
-      // threads to finish and deliver a result, so just go to sleep
-      if( !wo )
+      becomeIdle();
+      if( !mt_fillOwnWorkOrder() )
       {
         lock.relock(mt.child_poll_cond_);
-        if( mt.child_retcount_ < mt.numchildren_ && !mt.abandon_ )
-        {
-          MTPool::Brigade::markThreadAsBlocked(name());
-          becomeIdle();
-          lock2.release();
-          mt.child_poll_cond_.wait();
-          becomeBusy();
-          MTPool::Brigade::markThreadAsUnblocked(name());
-        }
-        else
-          lock2.release();
-        // once woken, go back to top of loop to see what we have received
-        continue;
+        while( mt.child_retqueue_.empty() && mt.child_retcount_ < mt.numchildren_ )
+          mt_sleepOnChildren();
+        lock.release();
       }
-      lock2.release();
-      // ok, we have a work order -- release child results lock and go on to
-      // fill it
-      lock.release();
-      becomeIdle();
-      wo->execute(*mt.cur_brigade_);
-      mt.cur_brigade_->finishWithWorkOrder(wo);
       becomeBusy();
-      // reacquire child results lock and go back up to check our result queue
-      lock.relock(mt.child_poll_cond_);
+      // go back to top of loop to see what we have received
     }
   }
   else // single-thread case
@@ -432,42 +422,46 @@ int NodeNursery::awaitChildResult (int &rescode,Result::Ref &resref,const Reques
 void NodeNursery::mt_receiveSyncChildResult (int ichild,MTPool::WorkOrder &res)
 {
   Thread::Mutex::Lock lock(mt.child_poll_cond_);
-  // do nothing if poll is already finished or is being abandoned
-  if( !mt.polling_ || mt.abandon_ )
-    return;
-  // store result in child result queue
-  (*mt.pchildres_)[ichild].xfer(res.resref);
-  child_cumul_retcode_ |= child_retcodes_[ichild] = res.retcode;
-  // register a fail if received
-  if( res.retcode&NodeFace::RES_FAIL )
-  {
-    const Result * pchildres = (*mt.pchildres_)[ichild].deref_p();
-    child_fails_.push_back(pchildres);
-    num_child_fails_ += pchildres->numFails();
-    if( failPolicy() == AidAbandonPropagate )
-      mt.abandon_ = true;
-  }
-  else if( res.retcode&NodeFace::RES_MISSING )
+  // add time to profiling timer
+  timer().add(res.timer);
+  // ignore result if poll is already being abandoned
+  if( !mt.abandon_ )
   {
-    if( missingDataPolicy() == AidAbandonPropagate )
+    // store result in child result queue
+    (*mt.pchildres_)[ichild].xfer(res.resref);
+    child_cumul_retcode_ |= child_retcodes_[ichild] = res.retcode;
+    // register a fail if received
+    if( res.retcode&NodeFace::RES_ABORT )
       mt.abandon_ = true;
+    else if( res.retcode&NodeFace::RES_FAIL )
+    {
+      const Result * pchildres = (*mt.pchildres_)[ichild].deref_p();
+      child_fails_.push_back(pchildres);
+      num_child_fails_ += pchildres->numFails();
+      if( failPolicy() == AidAbandonPropagate )
+        mt.abandon_ = true;
+    }
+    else if( res.retcode&NodeFace::RES_MISSING )
+    {
+      if( missingDataPolicy() == AidAbandonPropagate )
+        mt.abandon_ = true;
+    }
+    // if abandoning poll, clear out our orders from the queue. This will happen only once.
+    // The poll is not complete until we return, so the parent will wait for us 
+    if( mt.abandon_ )
+    {
+      lock.release();
+      int ncleared = mt.cur_brigade_->clearQueue(*this);
+      lock.relock(mt.child_poll_cond_);
+      mt.numchildren_ -= ncleared;
+    }
   }
-  else if( res.retcode&NodeFace::RES_ABORT )
-    mt.abandon_ = true;
-  // add time to profiling timer
-  timer().add(res.timer);
-  // wake parent thread since it may be waiting for a child result
+  // wake parent thread since it may be waiting for the last child result. Note that children
+  // which are already executing when a poll is abandoned must be waited for, as they will still be 
+  // delivering their results to us.
   mt.child_retcount_++;
   if( mt.child_retcount_ >= mt.numchildren_ )
     mt.child_poll_cond_.broadcast();
-  // if abandoning poll, clear work order queue. Due to the mutex lock
-  // above, this will happen only once
-  if( mt.abandon_ )
-  {
-    lock.release();
-    lock.relock(mt.cur_brigade_->cond());
-    mt.cur_brigade_->clearQueue(*this);
-  }
 }
 
 
@@ -508,37 +502,14 @@ int NodeNursery::syncPoll (Result::Ref &resref,std::vector<Result::Ref> &childre
         else
           child_retcodes_[ichild] = 0;
       }
+      lock.release();
+      // fill our own orders while there are any left on the queue
+      while( mt_fillOwnWorkOrder() )
+        ;
       // no more WOs -- sleep until all children have returned
-      while( true )
-      {
-        // at this point we hold a lock on the brigade queue
-        // get a WO back from the queue since we'll be executing it ourselves
-        MTPool::AbstractWorkOrder *wo = mt.cur_brigade_->getWorkOrder(false,polling_depth_); // wait=false
-        // release queue lock and go on to fill WO for first child
-        lock.release();
-        if( wo )
-        {
-          wo->execute(*mt.cur_brigade_);
-          mt.cur_brigade_->finishWithWorkOrder(wo);
-          lock.relock(mt.cur_brigade_->cond());
-          continue;
-        }
-        // null from queue means either no more work orders, or too many busy threads busy
-        // either way, sleep until a child has returned
-        Thread::Mutex::Lock lock2(mt.child_poll_cond_);
-        if( mt.child_retcount_ < mt.numchildren_ && !mt.abandon_ )
-        {
-          MTPool::Brigade::markThreadAsBlocked(name());
-          becomeIdle();
-          mt.child_poll_cond_.wait();
-          becomeBusy();
-          MTPool::Brigade::markThreadAsUnblocked(name());
-        }
-        else
-          break;
-        lock2.release();
-        lock.relock(mt.cur_brigade_->cond());
-      }
+      lock.relock(mt.child_poll_cond_);
+      while( mt.child_retcount_ < mt.numchildren_ )
+        mt_sleepOnChildren();
       lock.release();
       // finish up
       mt_cleanupAfterPoll();
@@ -628,6 +599,7 @@ void NodeNursery::backgroundPoll (const Request &req,int depth)
   {
     background_poll_in_progress_ = true;
     mt.polling_ = true;
+    mt.abandon_ = false;
     mt.child_retcount_ = 0;
     mt.child_retqueue_.reserve(numChildren());
     mt.child_retqueue_.resize(0);
@@ -642,7 +614,7 @@ void NodeNursery::backgroundPoll (const Request &req,int depth)
     for( int i=numChildren()-1; i>=0; i-- )
     {
       int ichild = child_poll_order_[i];
-      if( isChildEnabled(i) )
+      if( isChildEnabled(ichild) )
       {
         mt.cur_brigade_->placeWorkOrder(new MTPool::WorkOrder(
             *this,&NodeNursery::mt_receiveBackgroundResult,getChild(ichild),ichild,req,depth));
@@ -683,6 +655,8 @@ void NodeNursery::finishPoll ()
   // if an mt poll is in progress, wait for finish
   if( mt.cur_brigade_ )
     mt_waitForEndOfPoll();
+  else
+    async_poll_in_progress_ = background_poll_in_progress_ = false;
 }
 
 
diff --git a/MEQ/src/NodeNursery.h b/MEQ/src/NodeNursery.h
index 4b378e9..0008be5 100644
--- a/MEQ/src/NodeNursery.h
+++ b/MEQ/src/NodeNursery.h
@@ -362,10 +362,16 @@ class NodeNursery
     void mt_abortPoll ();
 
     //## this is called when an MT poll is in progress and we want to
-    //## wait for all worker threads to finish, but does not call
-    //## cleanupAfterPoll()
+    //## wait for all worker threads to finish, then calls cleanupAfterPoll()
     void mt_waitForEndOfPoll ();
 
+    //## this fills one of our own orders in the current thread, returns false
+    //## if there's none left on the queue
+    bool mt_fillOwnWorkOrder ();
+
+    //## this waits for a result from a child. Caller must hold child_poll_cond_
+    void mt_sleepOnChildren ();
+
 
     //## vector of refs to children
     std::vector<NodeFace::Ref> children_;
-- 
2.43.0


From c9ffbbd2d91ea6bf3fdc68647bdd52a83a5bb15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 17/50] fix: worker threads of the MT pool are asked to stop
 rather than cancelled

Asynchronous cancellation could leave a worker's locks held or let a thread
that was just starting up use the deleted brigade; threads whose startup was
slow were not joined at all. Growing the worker list invalidated the entry
every thread points to.
---
 MEQ/src/MTPool.cc | 35 ++++++++++++++++++-----------------
 MEQ/src/MTPool.h  | 11 ++++++++---
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/MEQ/src/MTPool.cc b/MEQ/src/MTPool.cc
index b4a4ee0..f4a1d2c 100644
--- a/MEQ/src/MTPool.cc
+++ b/MEQ/src/MTPool.cc
@@ -57,13 +57,13 @@ void stop  ()
   {
     main_brigade_->stop();
     delete main_brigade_;
+    main_brigade_ = 0;
   }
 }
 
 
 Brigade::Brigade (int nwork,int max_busy,Thread::Mutex::Lock *plock)
 {
-  workers_.reserve(128);
   Thread::Mutex::Lock lock;
   if( !plock )
     plock = &lock;
@@ -72,6 +72,8 @@ Brigade::Brigade (int nwork,int max_busy,Thread::Mutex::Lock *plock)
   max_busy_ = max_busy;
   nthr_.resize(100,0);
   nidle_ = nwork;
+  stopping_ = false;
+  pid_ = getpid();
   // spawn worker threads
   for( int i=0; i<nwork; i++ )
   {
@@ -79,9 +81,9 @@ Brigade::Brigade (int nwork,int max_busy,Thread::Mutex::Lock *plock)
     WorkerData &wd = workers_.back();
     wd.state = IDLE;
     wd.brigade = this;
+    wd.launched_by_us = true;
     wd.thread_id = Thread::create(startWorker,&wd);
   }
-  pid_ = getpid();
 }
 
 // adds thread to brigade
@@ -95,7 +97,7 @@ void Brigade::join (int state,int depth)
     nidle_++;
   else
   {
-    if( nthr_.size() >= uint(depth) )
+    if( nthr_.size() <= uint(depth) )
       nthr_.resize(depth+100,0);
     nthr_[depth]++;
   }
@@ -125,12 +127,8 @@ string Brigade::sdebug (int detail)
 void * Brigade::startWorker (void *pwd)
 {
   WorkerData & wd = *static_cast<WorkerData*>(pwd);
-  wd.launched_by_us = true;
   // store per-thread context
   context_pointer_.set(pwd);
-  // enable immediate cancellation
-  pthread_setcancelstate(PTHREAD_CANCEL_ENABLE,0);
-  pthread_setcanceltype(PTHREAD_CANCEL_ASYNCHRONOUS,0);
   return wd.brigade->workerLoop();
 }
 
@@ -144,9 +142,11 @@ void Brigade::awakenWorker ()
     return;
   const AbstractWorkOrder &wo = **iter;
   int depth = wo.depth();
-  // if there are no idle threads, start a new worker
+  // if there are no idle threads, start a new worker (but not while the others are being stopped)
   if( !nidle_ )
   {
+    if( stopping_ )
+      return;
     dprintf(1)("awakenWorker() queue %s, %d threads running but none idle, creating new worker\n",
                wo.sdebug().c_str(),nthr_[depth]);
     workers_.push_back(WorkerData());
@@ -154,6 +154,7 @@ void Brigade::awakenWorker ()
     nidle_++;
     wd.state = IDLE;
     wd.brigade = this;
+    wd.launched_by_us = true;
     wd.thread_id = Thread::create(startWorker,&wd);
   }
   // else simply awaken an idle worker
@@ -173,8 +174,6 @@ void * Brigade::workerLoop ()
   while( true )
   {
     Thread::Mutex::Lock lock;
-    // check for cancellation
-    Thread::testCancel();
     // wait on the queue condition for a work order to show up
     lock.relock(cond());
     AbstractWorkOrder *wo = getWorkOrder();
@@ -185,7 +184,7 @@ void * Brigade::workerLoop ()
       wo->execute(*this);
       finishWithWorkOrder(wo);
     }
-    else  // no WO despite wait=true causes exit
+    else  // no WO causes exit
     {
       cdebug1(0)<<sdebug(1)+" WO=0, exiting worker thread\n";
       return 0;
@@ -217,7 +216,7 @@ AbstractWorkOrder * Brigade::takeWorkOrder (WorkOrderQueue::iterator iter)
 AbstractWorkOrder * Brigade::getWorkOrder ()
 {
   WorkerData &wd = workerData();
-  while( true )
+  while( !stopping_ )
   {
     WorkOrderQueue::iterator iter = findWorkOrder();
     if( iter != wo_queue_.end() )
@@ -240,6 +239,7 @@ AbstractWorkOrder * Brigade::getWorkOrder ()
     // sleep until something happens to queue
     cond().wait();
   }
+  return 0;
 }
 
 AbstractWorkOrder * Brigade::getWorkOrder (const NodeNursery &client)
@@ -310,11 +310,12 @@ void Brigade::markAsUnblocked (const string &where,WorkerData &,bool)
 
 void Brigade::stop ()
 {
-  cdebug1(0)<<"cancelling all worker threads\n";
-  // send cancellation requests to all workers
-  for( uint i=0; i<workers_.size(); i++ )
-    if( workers_[i].launched_by_us )
-      workers_[i].thread_id.cancel();
+  cdebug1(0)<<"stopping all worker threads\n";
+  // tell workers to exit
+  Thread::Mutex::Lock lock(cond());
+  stopping_ = true;
+  cond().broadcast();
+  lock.release();
   // wait for them to rejoin
   for( uint i=0; i<workers_.size(); i++ )
     if( workers_[i].launched_by_us )
diff --git a/MEQ/src/MTPool.h b/MEQ/src/MTPool.h
index 7292641..1ed7c4c 100644
--- a/MEQ/src/MTPool.h
+++ b/MEQ/src/MTPool.h
@@ -28,6 +28,7 @@
 #include <TimBase/Thread/Condition.h>
 #include <TimBase/Timer.h>
 #include <MEQ/NodeNursery.h>
+#include <deque>
 #include <list>
 
 namespace Meq
@@ -164,7 +165,7 @@ namespace Meq
         // !!! The caller must obtain a lock on cond() before calling this.
         // Orders at a depth where too many threads are already busy are skipped.
         // If there's nothing (else) on the queue, marks thread as idle and
-        // waits for an order indefinitely.
+        // waits for an order indefinitely. Returns 0 if the brigade is being stopped.
         // Ownership of order object is transferred to caller.
         // Marks thread as busy.
         AbstractWorkOrder * getWorkOrder ();
@@ -214,7 +215,7 @@ namespace Meq
         static WorkerData & workerData ()
         { return *static_cast<WorkerData*>(context_pointer_.get()); }
 
-        // stops all workers
+        // stops all workers. A worker that is executing an order finishes with it first.
         void stop ();
 
         // returns short brigade label
@@ -248,7 +249,8 @@ namespace Meq
         AbstractWorkOrder * takeWorkOrder (WorkOrderQueue::iterator iter);
 
       // worker threads
-        std::vector<WorkerData> workers_;
+        // (a deque, since every thread keeps a pointer to its own entry)
+        std::deque<WorkerData> workers_;
 
         // number of busy threads per each tree depth
         std::vector<int> nthr_;
@@ -256,6 +258,9 @@ namespace Meq
         // number of idle threads
         int nidle_;
 
+        // set when the worker threads have been told to stop
+        bool stopping_;
+
           // thread key used to hold context structure for each thread
         static Thread::Key context_pointer_;
 
-- 
2.43.0


From 30254f1a4fc51fb3e42ba29d6fe4c20353510d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:01 +0000
Subject: [PATCH 18/50] fix: a fail due to an exception during polling is not
 cached for other requests

Such a fail was cached with no dependencies at all and was then returned
for every subsequent request.
---
 MEQ/src/Node.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MEQ/src/Node.cc b/MEQ/src/Node.cc
index 287c7ff..429a251 100644
--- a/MEQ/src/Node.cc
+++ b/MEQ/src/Node.cc
@@ -954,6 +954,7 @@ int Node::execute (Result::Ref &ref,const Request &req,int depth) throw()
   string stage;
   string local_error;              // non-empty if error is generated
   DMI::ExceptionList local_fails;  // this is non-empty if we detect a local fail
+  bool depmask_known = false;      // true once retcode contains all our dependencies
   try
   {
     // check for abort flag
@@ -1057,6 +1058,7 @@ int Node::execute (Result::Ref &ref,const Request &req,int depth) throw()
     }
     // add in default depend mask
     retcode |= getDependMask();
+    depmask_known = true;
     //if( forest().abortFlag() )
     //      return exitAbort(RES_ABORT);
     // does request have a Cells object? Compute our Result then
@@ -1168,6 +1170,10 @@ int Node::execute (Result::Ref &ref,const Request &req,int depth) throw()
     local_error = "unknown error while "+stage+" for request "+req.id().toString('.');
     MakeFailVellSet(res,"unknown exception in execute() while "+stage);
   }
+  // if failed before all dependencies are known, then the fail (which is cached below)
+  // must be taken to depend on everything
+  if( !depmask_known )
+    retcode |= (1<<RQIDM_NBITS)-1;
   // clean up and return the fail
   if( timers().getresult.isRunning() )
     timers().getresult.stop();
-- 
2.43.0


From 3faaf6d7c7c5e5d4a881661014db66158d7d7db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:06 +0000
Subject: [PATCH 19/50] fix: executing a node that is not initialised returns a
 fail rather than terminating the process

---
 MEQ/src/Node.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/Node.cc b/MEQ/src/Node.cc
index 429a251..6f2631b 100644
--- a/MEQ/src/Node.cc
+++ b/MEQ/src/Node.cc
@@ -948,7 +948,14 @@ int Node::execute (Result::Ref &ref,const Request &req,int depth) throw()
   pstate_lock_ = &state_lock;
 
   cdebug(3)<<"execute, request ID "<<req.id()<<": "<<req.sdebug(DebugLevel-1,"    ")<<endl;
-  FailWhen(internal_init_index_<0,"execute() called before init()");
+  // execute() may not throw, so return a fail if called before init()
+  if( internal_init_index_<0 )
+  {
+    ref <<= new Result(1);
+    VellSet & res = ref().setNewVellSet(0);
+    MakeFailVellSet(res,"execute() called before init()");
+    return exitExecute(RES_FAIL);
+  }
   int retcode = 0;
   // this indicates the current stage (for exception handler)
   string stage;
-- 
2.43.0


From 215c8718d8da705474e300929b2a768c1cc61ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:06 +0000
Subject: [PATCH 20/50] fix: the state of a node can be read while another
 thread clears its cache

---
 MEQ/src/Node.cc | 18 +++++++++++++++---
 MEQ/src/Node.h  |  2 ++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/MEQ/src/Node.cc b/MEQ/src/Node.cc
index 6f2631b..3ac8635 100644
--- a/MEQ/src/Node.cc
+++ b/MEQ/src/Node.cc
@@ -445,7 +445,8 @@ void Node::getSyncState (DMI::Record::Ref &ref)
   {
     if( has_state_dep_ )
       cache_.rescode |= symdeps().getMask(FState);
-    // Thread::Mutex::Lock lock(cache_.mutex);
+    // other threads may be clearing the cache, since this doesn't need the state mutex
+    Thread::Mutex::Lock cache_lock(cache_.mutex);
     st.replace(FCache,cache_.record());
     st.replace(FCacheStats,cache_stats_);
     if( cache_.valid() )
@@ -486,8 +487,19 @@ void Node::clearCache (bool recursive,long marker) throw()
     return;
   cache_.last_clear_cache_marker_ = marker;
   cache_.clear();
-  if( control_status_ & CS_CACHED )
-    setControlStatus(control_status_&~CS_CACHED,recursive); // sync if recursive
+  if( recursive )
+  {
+    // the state record can only be updated under the state mutex, and this
+    // may not be acquired while holding execCond
+    lock.release();
+    Thread::Mutex::Lock state_lock(stateMutex());
+    if( control_status_ & CS_CACHED )
+      setControlStatus(control_status_&~CS_CACHED,true);  // sync
+    state_lock.release();
+    lock.relock(execCond());
+  }
+  else if( control_status_ & CS_CACHED )
+    setControlStatus(control_status_&~CS_CACHED);
   if( recursive )
   {
     // in recursive mode, also clear stats
diff --git a/MEQ/src/Node.h b/MEQ/src/Node.h
index 3c7071f..f19e36d 100644
--- a/MEQ/src/Node.h
+++ b/MEQ/src/Node.h
@@ -933,6 +933,7 @@ class Node : public NodeFace
         //## sets the cache
         void set (const Result::Ref &resref,const Request &req,int code)
         {
+          Thread::Mutex::Lock lock(mutex);
           result  = resref;
           rqid    = req.id();
           rescode = code;
@@ -942,6 +943,7 @@ class Node : public NodeFace
         //## clears the cache
         void clear ()
         {
+          Thread::Mutex::Lock lock(mutex);
           if( !(rescode&RES_FAIL) ) //## fail results preserved
             result.detach();
           is_valid = false;
-- 
2.43.0


From 2c4aac85dc6ab9c7a02ac953c5f65d26955304ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:06 +0000
Subject: [PATCH 21/50] fix: node list and lookups are safe against other
 threads creating and deleting nodes

---
 MEQ/src/Forest.cc          | 63 ++++++++++++++++++++++++++++----------
 MEQ/src/Forest.h           | 17 ++++++++--
 MeqServer/src/MeqServer.cc | 33 ++++++++++++--------
 MeqServer/src/MeqServer.h  |  2 +-
 4 files changed, 83 insertions(+), 32 deletions(-)

diff --git a/MEQ/src/Forest.cc b/MEQ/src/Forest.cc
index 713888a..446ddc0 100644
--- a/MEQ/src/Forest.cc
+++ b/MEQ/src/Forest.cc
@@ -84,10 +84,16 @@ Forest::Forest ()
 //##ModelId=400E53050193
 void Forest::clear ()
 {
+  Repository old;
+  Thread::Mutex::Lock lock(forestMutex());
   wstate()[FNumInitErrors] = num_init_errors = 0;
-  nodes.resize(1);
+  old.resize(1);
+  old.swap(nodes);
   name_map.clear();
   num_valid_nodes = 0;
+  lock.release();
+  // release the nodes without holding the lock
+  old.clear();
   logger_.close();
   Axis::resetDefaultMap();
 }
@@ -105,6 +111,7 @@ NodeFace & Forest::create (int &node_index,DMI::Record::Ref &initrec,bool reinit
     classname = (*initrec)[FClass].as<string>("");
     nodename = (*initrec)[FName].as<string>("");
     node_index = (*initrec)[FNodeIndex].as<int>(-1);
+    Thread::Mutex::Lock lock(forestMutex());
     // check the node name for duplicates
     if( !nodename.empty() && name_map.find(nodename) != name_map.end() )
       Throw("node '"+nodename+"' already exists");
@@ -127,6 +134,7 @@ NodeFace & Forest::create (int &node_index,DMI::Record::Ref &initrec,bool reinit
     }
     else  // not set, allocate new node index
       node_index = nodes.size();
+    lock.release();
     // if this is an actual node and not some weird NodeFace variation, reattach its inti-record
     pnode->setNameAndIndex(nodename,node_index);
     Node *pnode1 = dynamic_cast<Meq::Node*>(pnode);
@@ -140,14 +148,15 @@ NodeFace & Forest::create (int &node_index,DMI::Record::Ref &initrec,bool reinit
   }
   catch( std::exception &exc )
   {
-    wstate()[FNumInitErrors] = ++num_init_errors;
+    countInitError();
     ThrowMore(exc,"failed to create node '"+nodename +"' of class "+classname);
   }
   catch(...)
   {
-    wstate()[FNumInitErrors] = ++num_init_errors;
+    countInitError();
     Throw("failed to create node '"+nodename +"' of class "+classname);
   }
+  Thread::Mutex::Lock lock(forestMutex());
   // resize repository as needed, and put node into it
   if( node_index >= int(nodes.capacity()) )
     nodes.reserve(node_index + RepositoryChunkSize);
@@ -161,6 +170,12 @@ NodeFace & Forest::create (int &node_index,DMI::Record::Ref &initrec,bool reinit
   return *pnode;
 }
 
+void Forest::countInitError ()
+{
+  Thread::Mutex::Lock lock(forestMutex());
+  wstate()[FNumInitErrors] = ++num_init_errors;
+}
+
 void Forest::initAll ()
 {
   // call init() on all nodes
@@ -173,7 +188,7 @@ void Forest::initAll ()
       }
       catch( std::exception &exc )
       {
-        wstate()[FNumInitErrors] = ++num_init_errors;
+        countInitError();
         postError(exc);
       }
     }
@@ -187,7 +202,7 @@ void Forest::initAll ()
       }
       catch( std::exception &exc )
       {
-        wstate()[FNumInitErrors] = ++num_init_errors;
+        countInitError();
         postError(exc);
       }
     }
@@ -196,13 +211,15 @@ void Forest::initAll ()
 //##ModelId=3F5F5CA300E0
 int Forest::remove (int node_index)
 {
-  FailWhen(node_index<=0 || node_index>int(nodes.size()),
+  NodeFace::Ref ref;
+  Thread::Mutex::Lock lock(forestMutex());
+  FailWhen(node_index<=0 || node_index>=int(nodes.size()),
           "invalid node index");
-  NodeFace::Ref &ref = nodes[node_index];
-  FailWhen(!ref.valid(),"invalid node index");
+  FailWhen(!nodes[node_index].valid(),"invalid node index");
+  // detach the node & shrink repository if needed. The node itself is
+  // released on return, after the lock
+  ref.xfer(nodes[node_index]);
   string name = ref->name();
-  // detach the node & shrink repository if needed
-  ref.detach();
   if( node_index == int(nodes.size())-1 )
     nodes.resize(node_index);
   num_valid_nodes--;
@@ -220,7 +237,8 @@ int Forest::remove (int node_index)
 //##ModelId=3F5F5B4F01BD
 NodeFace & Forest::get (int node_index)
 {
-  FailWhen(node_index<=0 || node_index>int(nodes.size()),
+  Thread::Mutex::Lock lock(forestMutex());
+  FailWhen(node_index<=0 || node_index>=int(nodes.size()),
           "invalid node index");
   NodeFace::Ref &ref = nodes[node_index];
   FailWhen(!ref.valid(),"invalid node index");
@@ -230,6 +248,7 @@ NodeFace & Forest::get (int node_index)
 //##ModelId=3F5F5B9D016A
 bool Forest::valid (int node_index) const
 {
+  Thread::Mutex::Lock lock(forestMutex());
   return node_index>0 && node_index<int(nodes.size())
          && nodes[node_index].valid();
 }
@@ -237,6 +256,7 @@ bool Forest::valid (int node_index) const
 //##ModelId=3F5F5BB2032C
 int Forest::findIndex (const string& name) const
 {
+  Thread::Mutex::Lock lock(forestMutex());
   NameMap::const_iterator iter = name_map.find(name);
   return iter == name_map.end() ? -1 : iter->second;
 }
@@ -244,23 +264,30 @@ int Forest::findIndex (const string& name) const
 //##ModelId=3F60549B02FE
 NodeFace & Forest::findNode (const string &name)
 {
+  Thread::Mutex::Lock lock(forestMutex());
   // lookup node index in map
   NameMap::const_iterator iter = name_map.find(name);
   FailWhen(iter == name_map.end(),"node '"+name+"' not found");
   int node_index = iter->second;
   // debug-fails here since name map should be consistent with repository
-  DbgFailWhen(node_index<=0 || node_index>int(nodes.size()),"invalid node index");
+  DbgFailWhen(node_index<=0 || node_index>=int(nodes.size()),"invalid node index");
   NodeFace::Ref &ref = nodes[node_index];
   DbgFailWhen(!ref.valid(),"invalid node index");
   return ref();
 }
 
 //##ModelId=3F7048570004
-const NodeFace::Ref & Forest::getRef (int node_index)
+NodeFace::Ref Forest::getRef (int node_index)
 {
-  FailWhen(node_index<=0 || node_index>int(nodes.size()),
-          "invalid node index");
-  return nodes[node_index];
+  Thread::Mutex::Lock lock(forestMutex());
+  return valid(node_index) ? nodes[node_index] : NodeFace::Ref();
+}
+
+NodeFace::Ref Forest::findNodeRef (const string &name)
+{
+  Thread::Mutex::Lock lock(forestMutex());
+  findNode(name);   // throws if not found
+  return nodes[name_map[name]];
 }
 
 void Forest::incrRequestId (RequestId &rqid,const HIID &symdep)
@@ -277,8 +304,12 @@ void Forest::incrRequestId (RequestId &rqid,const HIID &symdep)
 
 int Forest::getNodeList (DMI::Record &list,int content)
 {
+  // take a copy of the repository, since other threads can create and
+  // delete nodes, and the state mutex of a node may not be taken after ours
   Thread::Mutex::Lock lock(forestMutex());
+  Repository nodes(this->nodes);
   int num = num_valid_nodes;
+  lock.release();
   // create lists (arrays) for all known content
   DMI::Vec *lni=0,*lname=0,*lclass=0,*lstate=0,*lrqid=0,*lprof=0,*lcache=0;
   DMI::List *lchildren=0,*lstepchildren=0;
diff --git a/MEQ/src/Forest.h b/MEQ/src/Forest.h
index 4394619..02e7ee0 100644
--- a/MEQ/src/Forest.h
+++ b/MEQ/src/Forest.h
@@ -83,8 +83,10 @@ class Forest
 
     //##ModelId=3F7048570004
     //##Documentation
-    //## Returns ref to repository's countedref, specified by index
-    const NodeFace::Ref & getRef (int node_index);
+    //## Returns copy of repository's countedref, specified by index (this keeps
+    //## the node alive even if another thread removes it from the repository).
+    //## Invalid ref is returned if there is no such node.
+    NodeFace::Ref getRef (int node_index);
 
     //##ModelId=3F5F5B9D016A
     bool valid (int node_index) const;
@@ -100,9 +102,15 @@ class Forest
     //## found.
     NodeFace & findNode(const string &name);
 
+    //## Same, but returns copy of repository's ref to node (see getRef())
+    NodeFace::Ref findNodeRef (const string &name);
+
     //##ModelId=400E530501C2
     int maxNodeIndex () const
-    { return nodes.size()-1; }
+    { 
+      Thread::Mutex::Lock lock(forestMutex());
+      return nodes.size()-1; 
+    }
 
     // fills DMI::Record with list of valid nodes, including information
     // specified by content
@@ -294,6 +302,9 @@ class Forest
     DMI::Record & wstate ()
     { return staterec_(); }
 
+    // increments the number of init errors
+    void countInitError ();
+
     void initDefaultState ();
     void setStateImpl (DMI::Record::Ref &rec);
 
diff --git a/MeqServer/src/MeqServer.cc b/MeqServer/src/MeqServer.cc
index 1a37a1e..73d6b6f 100644
--- a/MeqServer/src/MeqServer.cc
+++ b/MeqServer/src/MeqServer.cc
@@ -217,21 +217,22 @@ static string makeNodeMessage (const string &msg1,const Meq::NodeFace &node,cons
 
 
 //##ModelId=3F6196800325
-NodeFace & MeqServer::resolveNode (bool &getstate,const DMI::Record &rec)
+NodeFace::Ref MeqServer::resolveNode (bool &getstate,const DMI::Record &rec)
 {
   int nodeindex = rec[AidNodeIndex].as<int>(-1);
   string name = rec[AidName].as<string>("");
   getstate = rec[FGetState].as<bool>(false);
   if( nodeindex>0 )
   {
-    NodeFace &node = forest.get(nodeindex);
-    FailWhen( name.length() && node.name() != name,"node specified by index is "+
-        node.name()+", which does not match specified name "+name);
+    NodeFace::Ref node = forest.getRef(nodeindex);
+    FailWhen( !node.valid(),"invalid node index");
+    FailWhen( name.length() && node->name() != name,"node specified by index is "+
+        node->name()+", which does not match specified name "+name);
     return node;
   }
   FailWhen( !name.length(),"either nodeindex or name must be specified");
   cdebug(3)<<"looking up node name "<<name<<endl;
-  return forest.findNode(name);
+  return forest.findNodeRef(name);
 }
 
 
@@ -485,7 +486,8 @@ void MeqServer::deleteNode (DMI::Record::Ref &out,DMI::Record::Ref &in)
 void MeqServer::nodeGetState (DMI::Record::Ref &out,DMI::Record::Ref &in)
 {
   bool getstate;
-  NodeFace & node = resolveNode(getstate,*in);
+  NodeFace::Ref noderef = resolveNode(getstate,*in);
+  NodeFace & node = noderef();
   cdebug(3)<<"getState for node "<<node.name()<<" ";
   cdebug(4)<<in->sdebug(3);
   cdebug(3)<<endl;
@@ -504,7 +506,8 @@ void MeqServer::nodeSetState (DMI::Record::Ref &out,DMI::Record::Ref &in)
 {
   DMI::Record::Ref rec = in;
   bool getstate;
-  NodeFace & node = resolveNode(getstate,*rec);
+  NodeFace::Ref noderef = resolveNode(getstate,*rec);
+  NodeFace & node = noderef();
   cdebug(3)<<"setState for node "<<node.name()<<endl;
   DMI::Record::Ref ref = rec[AidState].ref();
   node.setState(ref);
@@ -607,7 +610,8 @@ void MeqServer::nodeExecute (DMI::Record::Ref &out,DMI::Record::Ref &in)
     forest.clearAbortFlag();
     DMI::Record::Ref rec = in;
     bool getstate;
-    NodeFace & node = resolveNode(getstate,*rec);
+    NodeFace::Ref noderef = resolveNode(getstate,*rec);
+    NodeFace & node = noderef();
     cdebug(2)<<"nodeExecute for node "<<node.name()<<endl;
     // take request object out of record
     Request &req = rec[AidRequest].as_wr<Request>();
@@ -802,8 +806,11 @@ void MeqServer::disablePublishResults (DMI::Record::Ref &out,DMI::Record::Ref &i
 {
   cdebug(2)<<"disablePublishResults: disabling for all nodes"<<endl;
   for( int i=0; i<=forest.maxNodeIndex(); i++ )
-    if( forest.valid(i) )
-      forest.get(i).setPublishingLevel(0);
+  {
+    NodeFace::Ref noderef = forest.getRef(i);
+    if( noderef.valid() )
+      noderef().setPublishingLevel(0);
+  }
   out[AidMessage] = "snapshots disabled on all nodes";
   out[FDisabledAllPublishing] = true;
   fillForestStatus(out(),in[FGetForestStatus].as<int>(0));
@@ -895,7 +902,8 @@ void MeqServer::debugNextNode (DMI::Record::Ref &out,DMI::Record::Ref &in)
 void MeqServer::debugUntilNode (DMI::Record::Ref &out,DMI::Record::Ref &in)
 {
   bool getstate;
-  NodeFace & node = resolveNode(getstate,*in);
+  NodeFace::Ref noderef = resolveNode(getstate,*in);
+  NodeFace & node = noderef();
   // set one-shot breakpoint on anything in this node
   node.setBreakpoint(Node::CS_ALL,true);
   if( forest.isStopFlagRaised() )
@@ -1069,7 +1077,8 @@ bool MeqServer::execNodeCommand (DMI::Record::Ref &out,ExecQueueEntry &qe)
   // use argument record to resolve to a Node object, throw exception on failure
   bool getstate;
   int get_forest_status = (*qe.args)[FGetForestStatus].as<int>(0);
-  NodeFace &node = resolveNode(getstate,*qe.args);
+  NodeFace::Ref noderef = resolveNode(getstate,*qe.args);
+  NodeFace & node = noderef();
   // add node name to output event record
   out[AidNode] = node.name();
   // pass command to node. Exceptions will be caught by our caller's handler
diff --git a/MeqServer/src/MeqServer.h b/MeqServer/src/MeqServer.h
index b599e34..02b21b9 100644
--- a/MeqServer/src/MeqServer.h
+++ b/MeqServer/src/MeqServer.h
@@ -207,7 +207,7 @@ class MeqServer : public DMI::EventRecepient
     { return state_; }
       
     //##ModelId=3F6196800325
-    NodeFace & resolveNode (bool &getstate,const DMI::Record &rec);
+    NodeFace::Ref resolveNode (bool &getstate,const DMI::Record &rec);
 
     void reportNodeStatus  (Node &node,int oldstat,int newstat);
 
-- 
2.43.0


From c06f78460c8d5f2d79e0182a485fbe25b8e5f5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:48 +0000
Subject: [PATCH 22/50] fix: a node stopped at a breakpoint stops all threads,
 and does not hold its execution lock meanwhile P19: the wait for the stop
 flag was unreachable, and a parent's Get.State hung on execCond.

---
 MEQ/src/Node.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/MEQ/src/Node.cc b/MEQ/src/Node.cc
index 3ac8635..2958639 100644
--- a/MEQ/src/Node.cc
+++ b/MEQ/src/Node.cc
@@ -982,7 +982,11 @@ int Node::execute (Result::Ref &ref,const Request &req,int depth) throw()
     timers_.total.start();
     if( forest().debugLevel()>1 )
       wstate()[FNewRequest].replace() <<= req;
+    // execCond may not be held while changing the exec state, since we may
+    // stop at a breakpoint there, while our parents need it in holdCache()
+    lock.release();
     setExecState(CS_ES_REQUEST);
+    lock.relock(execCond());
     // do we have a new request? Empty request id treated as always new
     new_request_ = !current_request_.valid() ||
                    req.id().empty() ||
@@ -998,6 +1002,7 @@ int Node::execute (Result::Ref &ref,const Request &req,int depth) throw()
     {
         cdebug(3)<<"  cache hit, returning cached code "<<ssprintf("0x%x",retcode)<<" and result:"<<endl<<
                    "    "<<ref->sdebug(DebugLevel-1,"    ")<<endl;
+        lock.release();
         setExecState(CS_ES_IDLE,control_status_|CS_RETCACHE);
         return exitExecute(retcode);
     }
@@ -1062,6 +1067,7 @@ int Node::execute (Result::Ref &ref,const Request &req,int depth) throw()
     {
       lock.relock(execCond());
       int ret = cacheResult(ref,req,retcode) | RES_UPDATED;
+      lock.release();
       setExecState(CS_ES_IDLE,control_status_|CS_RES_FAIL);
       return exitExecute(ret);
     }
@@ -1072,6 +1078,7 @@ int Node::execute (Result::Ref &ref,const Request &req,int depth) throw()
       ref <<= new Result(1);
       ref().setVellSet(0,new VellSet);
       int ret = cacheResult(ref,req,retcode) | RES_UPDATED;
+      lock.release();
       setExecState(CS_ES_IDLE,control_status_|CS_RES_MISSING);
       return exitExecute(ret);
     }
@@ -1170,6 +1177,7 @@ int Node::execute (Result::Ref &ref,const Request &req,int depth) throw()
     // cache & return accumulated return code
     lock.relock(execCond());
     int ret = cacheResult(ref,req,retcode) | RES_UPDATED;
+    lock.release();
     setExecState(CS_ES_IDLE,control_status_|result_status);
     return exitExecute(ret);
   }
@@ -1210,12 +1218,14 @@ int Node::execute (Result::Ref &ref,const Request &req,int depth) throw()
   }
   catch( ... )
   {
+    lock.release();
     setExecState(CS_ES_IDLE,
           (control_status_&~(CS_RETCACHE|CS_RES_MASK))|CS_RES_FAIL);
     exitExecute(retcode|RES_FAIL);
     throw;
   }
   // no error, return
+  lock.release();
   setExecState(CS_ES_IDLE,
         (control_status_&~(CS_RETCACHE|CS_RES_MASK))|CS_RES_FAIL);
   return exitExecute(ret);
@@ -1305,10 +1315,8 @@ void Node::setExecState (int es,int newst,bool sync)
       pstate_lock_->relock(state_mutex_);
       // clear stop bit from control status
       setControlStatus(control_status_&~(CS_STOP_BREAKPOINT|CS_STOPPED),sync);
+      return;
     }
-    else
-      setControlStatus(newst,sync);
-    return;
   }
   // no breakpoints, simply update control status
   // But do check if forest is stopped at a breakpoint in another thread.
-- 
2.43.0


From 9da63a537f5e5646f0b6b8cf8c5ea111f0d6d362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:48 +0000
Subject: [PATCH 23/50] fix: debugger: an earlier Next.Node request does not
 swallow a later stop

---
 MeqServer/src/MeqServer.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MeqServer/src/MeqServer.cc b/MeqServer/src/MeqServer.cc
index 73d6b6f..c484bd9 100644
--- a/MeqServer/src/MeqServer.cc
+++ b/MeqServer/src/MeqServer.cc
@@ -608,6 +608,8 @@ void MeqServer::nodeExecute (DMI::Record::Ref &out,DMI::Record::Ref &in)
     ParmTableUtils::closeTables();
 #endif
     forest.clearAbortFlag();
+    // forget about any step-to-next-node left over from a previous execution
+    debug_next_node = 0;
     DMI::Record::Ref rec = in;
     bool getstate;
     NodeFace::Ref noderef = resolveNode(getstate,*rec);
@@ -859,8 +861,12 @@ void MeqServer::debugSetLevel (DMI::Record::Ref &out,DMI::Record::Ref &in)
 void MeqServer::debugInterrupt (DMI::Record::Ref &,DMI::Record::Ref &)
 {
   if( !forest.isStopFlagRaised() )
+  {
+    // any step-to-next-node still in progress may not ignore our breakpoint
+    debug_next_node = 0;
     // set a global one-shot breakpoint on everything
     forest.setBreakpoint(Node::CS_ALL,true);
+  }
 }
 
 void MeqServer::debugContinue (DMI::Record::Ref &out,DMI::Record::Ref &in)
-- 
2.43.0


From 77f94f780c95907d2c7da2fadc587f4cb9784643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:48 +0000
Subject: [PATCH 24/50] fix: the server can be halted while stopped at a
 breakpoint or while other threads post events P21

---
 AppAgent/AppAgent/src/OctoChannel.cc  | 11 +---------
 AppAgent/AppAgent/src/OctoEventMux.cc | 30 +++++++++++++++++++++++++--
 AppAgent/AppAgent/src/OctoEventMux.h  | 10 +++++++++
 MeqServer/src/MeqServer.cc            |  9 ++++++++
 4 files changed, 48 insertions(+), 12 deletions(-)

diff --git a/AppAgent/AppAgent/src/OctoChannel.cc b/AppAgent/AppAgent/src/OctoChannel.cc
index df42372..9fc92d8 100644
--- a/AppAgent/AppAgent/src/OctoChannel.cc
+++ b/AppAgent/AppAgent/src/OctoChannel.cc
@@ -221,16 +221,7 @@ void OctoChannel::postEvent (const HIID &id,const ObjRef &data,
   }
   // attach payload to message
   mref().payload() = data;
-  if( dest.size() )
-  {
-    cdebug(3)<<"sending "<<mref->sdebug(2)<<", to "<<dest<<endl;
-    multiplexer->send(mref,dest);
-  }
-  else
-  {
-    cdebug(3)<<"publishing as "<<mref->sdebug(2)<<", scope "<<scope<<endl;
-    multiplexer->publish(mref,scope);
-  }
+  multiplexer->post(mref,dest,scope);
 }
 
 //##ModelId=3E8C47930088
diff --git a/AppAgent/AppAgent/src/OctoEventMux.cc b/AppAgent/AppAgent/src/OctoEventMux.cc
index c2801f2..ed568e0 100644
--- a/AppAgent/AppAgent/src/OctoEventMux.cc
+++ b/AppAgent/AppAgent/src/OctoEventMux.cc
@@ -37,7 +37,7 @@ using namespace Octopussy;
 
 //##ModelId=3E26BE240137
 OctoEventMux::OctoEventMux (AtomicID wpid)
-    : WorkProcess(wpid)
+    : WorkProcess(wpid),stopped_(false)
 {
   pheadmsg = 0;
   eventFlag_ <<= new EventFlag;
@@ -63,8 +63,34 @@ void OctoEventMux::notify ()
 //##ModelId=3E47CFA70203
 void OctoEventMux::stop()
 {
-  // raise the event flag since we've stopped
+  // No more posting from now on, since we're about to be detached
+  Thread::Mutex::Lock postlock(post_mutex_);
+  stopped_ = true;
+  postlock.release();
+  // Raise the event flag since we've stopped. Hold a lock on the queue, as 
+  // checkQueue() clears the flag after having checked that we're running.
+  Thread::Mutex::Lock lock(queueCondition());
   eventFlag().raise(ef_channel_num);
+  queueCondition().broadcast();
+}
+
+void OctoEventMux::post (Message::Ref &mref,const HIID &dest,int scope)
+{
+  Thread::Mutex::Lock lock(post_mutex_);
+  if( stopped_ )
+  {
+    cdebug(3)<<"stopped, dropping "<<mref->sdebug(2)<<endl;
+  }
+  else if( dest.size() )
+  {
+    cdebug(3)<<"sending "<<mref->sdebug(2)<<", to "<<dest<<endl;
+    send(mref,dest);
+  }
+  else
+  {
+    cdebug(3)<<"publishing as "<<mref->sdebug(2)<<", scope "<<scope<<endl;
+    publish(mref,scope);
+  }
 }
 
 //##ModelId=3E535889025A
diff --git a/AppAgent/AppAgent/src/OctoEventMux.h b/AppAgent/AppAgent/src/OctoEventMux.h
index f261118..1fae7f5 100644
--- a/AppAgent/AppAgent/src/OctoEventMux.h
+++ b/AppAgent/AppAgent/src/OctoEventMux.h
@@ -92,6 +92,10 @@ class OctoEventMux : public Octopussy::WorkProcess
     //##ModelId=3E9BD63F0297
     DefineRefTypes(OctoEventMux,Ref);
     
+    // sends or publishes a message. Once the WP has been stopped, messages
+    // are dropped
+    void post (Octopussy::Message::Ref &mref,const HIID &dest,int scope);
+
   protected:
     //##ModelId=3E47C84502CD
     virtual void notify ();
@@ -124,6 +128,12 @@ class OctoEventMux : public Octopussy::WorkProcess
     const Octopussy::Message * pheadmsg;
     
     //##ModelId=3E47C785025B
+    // Set once we've been stopped. The channels post their events from threads
+    // that the dispatcher knows nothing of, so the mutex is held while posting:
+    // the WP is only detached once stop() is through.
+    Thread::Mutex post_mutex_;
+    bool stopped_;
+    
     EventFlag::Ref eventFlag_;
     //##ModelId=3E47BE2D0131
     int ef_channel_num;
diff --git a/MeqServer/src/MeqServer.cc b/MeqServer/src/MeqServer.cc
index c484bd9..890e991 100644
--- a/MeqServer/src/MeqServer.cc
+++ b/MeqServer/src/MeqServer.cc
@@ -1033,6 +1033,12 @@ void MeqServer::processBreakpoint (Node &node,int bpmask,bool global)
     return;
   }
   debug_next_node = 0;
+  // do not stop when halting, as there's nobody left to tell us to continue
+  if( !running_ )
+  {
+    forest.clearStopFlag();
+    return;
+  }
   // post event indicating we're stopped in the debugger
   DMI::Record::Ref ref;
   DMI::Record &rec = ref <<= new DMI::Record;
@@ -1334,6 +1340,9 @@ void MeqServer::run ()
   Thread::Mutex::Lock lock(exec_cond_);
   exec_cond_.signal();
   lock.release();
+  // if it is stopped at a breakpoint, let it go on, since we're not going to
+  // process any more debugging commands
+  forest.clearStopFlag();
   exec_thread_.join();
 
   // clear the forest
-- 
2.43.0


From 909db1b0cabf018f764f713d6453f9aa365bea07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:48 +0000
Subject: [PATCH 25/50] fix: OctoChannel publishes events with the scope of the
 event map

---
 AppAgent/AppAgent/src/OctoEventMux.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AppAgent/AppAgent/src/OctoEventMux.cc b/AppAgent/AppAgent/src/OctoEventMux.cc
index ed568e0..2c9c7bd 100644
--- a/AppAgent/AppAgent/src/OctoEventMux.cc
+++ b/AppAgent/AppAgent/src/OctoEventMux.cc
@@ -89,7 +89,7 @@ void OctoEventMux::post (Message::Ref &mref,const HIID &dest,int scope)
   else
   {
     cdebug(3)<<"publishing as "<<mref->sdebug(2)<<", scope "<<scope<<endl;
-    publish(mref,scope);
+    publish(mref,0,scope);
   }
 }
 
-- 
2.43.0


From c77e5087b86068bb40c07c7080d3ed5538b69583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:48 +0000
Subject: [PATCH 26/50] fix: BOIO: partial header is an error, rewind and seek
 forget the header read ahead

---
 DMI/src/BOIO.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/DMI/src/BOIO.cc b/DMI/src/BOIO.cc
index 1f010f1..88a6255 100644
--- a/DMI/src/BOIO.cc
+++ b/DMI/src/BOIO.cc
@@ -101,12 +101,15 @@ long BOIO::ftell ()
 void BOIO::fseek (long offset)
 {
   FailWhen(!fp,"boio file not open");
+  // forget the header that nextType() may have read ahead
+  have_header = false;
   ::fseek(fp,offset,SEEK_SET);
 }
 
 void BOIO::rewind ()
 {
   FailWhen(!fp,"boio file not open");
+  have_header = false;
   ::rewind(fp);
 }
 
@@ -161,17 +164,19 @@ TypeId BOIO::nextType ()
     return header.tid;
   //  else, read it in
   header.tid = 0;
-  have_header = true;
   if( feof(fp) )
     return 0;
-  else if( fread(&header,sizeof(header),1,fp) != 1 )
+  size_t nread = fread(&header,1,sizeof(header),fp);
+  if( nread != sizeof(header) )
   {
+    header.tid = 0;
     FailWhen(ferror(fp),"error reading boio file "+fname+": "+strerror(errno));
-    // check for EOF again
-    if( feof(fp) )
+    // clean EOF if we're at the end of the previous object
+    if( !nread && feof(fp) )
       return 0;
-    Throw("unknown error reading file "+fname);
+    Throw("error reading file "+fname+": unexpected EOF");
   }
+  have_header = true;
   return header.tid;
 }
 
-- 
2.43.0


From cfcf53c6b31f8f50984e2ae44d86eb2cb6426062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:48 +0000
Subject: [PATCH 27/50] fix: BOIO: report errors of flush and close, do not
 write behind a partially written object

---
 DMI/src/BOIO.cc   | 35 +++++++++++++++++++++++++++--------
 DMI/src/BOIO.h    |  5 +++++
 MEQ/src/Forest.cc | 10 +++++++++-
 3 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/DMI/src/BOIO.cc b/DMI/src/BOIO.cc
index 88a6255..73214b2 100644
--- a/DMI/src/BOIO.cc
+++ b/DMI/src/BOIO.cc
@@ -34,7 +34,7 @@ namespace DMI
 
 //##ModelId=3DB949AE024E
 BOIO::BOIO ()
-    : fp(0),fmode(CLOSED)
+    : fp(0),fmode(CLOSED),write_failed(false)
 {
 }
 
@@ -48,7 +48,7 @@ BOIO::~BOIO ()
 
 //##ModelId=3DB949AE024F
 BOIO::BOIO (const string &fname,int mode)
-    : fp(0),fmode(CLOSED)
+    : fp(0),fmode(CLOSED),write_failed(false)
 {
   open(fname,mode);
 }
@@ -75,6 +75,7 @@ int BOIO::open (const string &filename,int mode)
   fname = filename;
   fmode = mode;
   have_header = false;
+  write_failed = false;
   return 1;
 }
 
@@ -84,10 +85,16 @@ int BOIO::close ()
 {
   if( fp )
   {
-    fclose(fp);
+    string name = fname;
+    bool failed = write_failed;
+    bool res = fclose(fp);
     fp = 0;
     fmode = CLOSED;
     fname = "";
+    write_failed = false;
+    // fclose() may be where the last objects are actually written. If a write 
+    // has failed before, then this has already been reported.
+    FailWhen(res && !failed,"error closing boio file "+name+": "+strerror(errno));
   }
   return 1;
 }
@@ -115,8 +122,8 @@ void BOIO::rewind ()
 
 void BOIO::flush ()
 {
-  if( fp )
-    ::fflush(fp);
+  if( fp && ::fflush(fp) )
+    writeError();
 }
 
 // Reads object attaches to ref. Returns its TypeId, or
@@ -180,12 +187,21 @@ TypeId BOIO::nextType ()
   return header.tid;
 }
 
+// An object that has been written in part makes anything after it unreadable,
+// so once a write has failed, nothing else is written to this file.
+void BOIO::writeError ()
+{
+  write_failed = true;
+  Throw("error writing boio file "+fname+": "+strerror(errno));
+}
+
 // writes object to file
 // Returns number of bytes actually written
 //##ModelId=3DB949AE0266
 size_t BOIO::write (const DMI::BObj &obj)
 {
   FailWhen(fmode!=WRITE && fmode!=APPEND,"boio file "+fname+": not open for writing");
+  FailWhen(write_failed,"boio file "+fname+": not writing after an earlier error");
   // convert object to blockset
   BlockSet set;
   obj.toBlock(set);
@@ -193,7 +209,8 @@ size_t BOIO::write (const DMI::BObj &obj)
   ObjHeader hdr;
   hdr.tid = obj.objectType();
   hdr.nblocks = set.size();
-  FailWhen(fwrite(&hdr,sizeof(hdr),1,fp)!= 1,"error writing boio file "+fname+": "+strerror(errno));
+  if( fwrite(&hdr,sizeof(hdr),1,fp) != 1 )
+    writeError();
   size_t written = sizeof(hdr);
   // format and write size array
   size_t sizes[hdr.nblocks];
@@ -201,12 +218,14 @@ size_t BOIO::write (const DMI::BObj &obj)
   for( int i=0; i<set.size(); i++,iter++ )
     sizes[i] = (*iter)->size();
   DbgAssert(iter == set.end());
-  FailWhen( fwrite(&sizes,sizeof(sizes),1,fp) != 1,"error writing boio file "+fname+": "+strerror(errno));
+  if( fwrite(&sizes,sizeof(sizes),1,fp) != 1 )
+    writeError();
   // write out the blocks
   iter = set.begin();
   for( int i=0; i<set.size(); i++,iter++ )
   {
-    FailWhen( fwrite((*iter)->data(),sizes[i],1,fp) != 1,"error writing boio file "+fname+": "+strerror(errno));
+    if( fwrite((*iter)->data(),sizes[i],1,fp) != 1 )
+      writeError();
     written += sizes[i];
   }
   DbgAssert(iter == set.end());
diff --git a/DMI/src/BOIO.h b/DMI/src/BOIO.h
index aa8d916..fbdc830 100644
--- a/DMI/src/BOIO.h
+++ b/DMI/src/BOIO.h
@@ -133,6 +133,11 @@ class BOIO
       int  fmode;
     //##ModelId=3DB949AE0243
       bool have_header;
+      bool write_failed;
+
+      // marks the file as damaged and throws an exception
+      void writeError ();
+
     //##ModelId=3DB949AE0245
       ObjHeader header;
 };
diff --git a/MEQ/src/Forest.cc b/MEQ/src/Forest.cc
index 446ddc0..5dcf642 100644
--- a/MEQ/src/Forest.cc
+++ b/MEQ/src/Forest.cc
@@ -94,7 +94,15 @@ void Forest::clear ()
   lock.release();
   // release the nodes without holding the lock
   old.clear();
-  logger_.close();
+  // (failure to write the log should not keep us from clearing the forest)
+  try
+  {
+    closeLog();
+  }
+  catch( std::exception &exc )
+  {
+    postError(exc);
+  }
   Axis::resetDefaultMap();
 }
 
-- 
2.43.0


From a8ded7c0c529fe23380ed03661dd46e1be074998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:48 +0000
Subject: [PATCH 28/50] fix: file channels honour the event mask, recordings
 that failed are not put in place

---
 AppAgent/AppAgent/src/EventChannel.cc | 71 ++++++++++++++++++---------
 AppAgent/AppAgent/src/EventChannel.h  |  4 ++
 AppAgent/AppAgent/src/FileChannel.cc  | 12 +++--
 DMI/src/BOIO.cc                       |  2 +
 DMI/src/BOIO.h                        |  3 +-
 5 files changed, 62 insertions(+), 30 deletions(-)

diff --git a/AppAgent/AppAgent/src/EventChannel.cc b/AppAgent/AppAgent/src/EventChannel.cc
index aca2533..2584440 100644
--- a/AppAgent/AppAgent/src/EventChannel.cc
+++ b/AppAgent/AppAgent/src/EventChannel.cc
@@ -21,6 +21,7 @@
 //
 //  $Id$
 
+#include <DMI/Exception.h>
 #include "EventChannel.h"
 #include "AID-AppAgent.h"
 
@@ -101,41 +102,63 @@ void EventChannel::renameRecording (const string &from,const string &to)
   }
 }
 
-void EventChannel::close (const string &str)
+void EventChannel::closeRecording (BOIO &recording,const string &filename)
+{
+  if( !recording.isOpen() )
+    return;
+  string fname = recording.fileName();
+  // do not rename a file to which something could not be written (this either 
+  // throws an exception, or returns false if that has been reported before)
+  if( recording.close() && delete_on_abort_ ) // success, so rename tmp file to real file
+    renameRecording(fname,filename);
+}
+
+void EventChannel::abortRecording (BOIO &recording)
 {
-  if( record_input_.isOpen() )
+  if( !recording.isOpen() )
+    return;
+  string fname = recording.fileName();
+  try
   {
-    string fname = record_input_.fileName();
-    record_input_.close();
-    if( delete_on_abort_ ) // success, so rename tmp file to real file
-      renameRecording(fname,record_input_filename_);
+    recording.close();
   }
-  if( record_output_.isOpen() )
+  catch( std::exception &exc )
   {
-    string fname = record_output_.fileName();
-    record_output_.close();
-    if( delete_on_abort_ ) // success, so rename tmp file to real file
-      renameRecording(fname,record_output_filename_);
+    cdebug(1)<<"aborting recording: "<<exceptionToString(exc)<<endl;
   }
-  setState(CLOSED,str);
+  if( delete_on_abort_ )
+    unlink(fname.c_str());
 }
-    
-void EventChannel::abort (const string &str)
+
+void EventChannel::close (const string &str)
 {
-  if( record_input_.isOpen() )
+  // the channel is closed in any case, and any errors are reported afterwards
+  DMI::ExceptionList errors;
+  try
   {
-    string fname = record_input_.fileName();
-    record_input_.close();
-    if( delete_on_abort_ )
-      unlink(fname.c_str());
+    closeRecording(record_input_,record_input_filename_);
   }
-  if( record_output_.isOpen() )
+  catch( std::exception &exc )
   {
-    string fname = record_output_.fileName();
-    record_output_.close();
-    if( delete_on_abort_ )
-      unlink(fname.c_str());
+    errors.add(exc);
+  }
+  try
+  {
+    closeRecording(record_output_,record_output_filename_);
+  }
+  catch( std::exception &exc )
+  {
+    errors.add(exc);
   }
+  setState(CLOSED,str);
+  if( !errors.empty() )
+    throw errors;
+}
+    
+void EventChannel::abort (const string &str)
+{
+  abortRecording(record_input_);
+  abortRecording(record_output_);
   close(str);
 }
 
diff --git a/AppAgent/AppAgent/src/EventChannel.h b/AppAgent/AppAgent/src/EventChannel.h
index d4dcd2f..20ea06f 100644
--- a/AppAgent/AppAgent/src/EventChannel.h
+++ b/AppAgent/AppAgent/src/EventChannel.h
@@ -323,6 +323,10 @@ class EventChannel : public SingularRefTarget
     // helper function, records event on given BOIO object
     void recordEvent (BOIO &boio,const HIID &id, const ObjRef &ref,AtomicID category,const HIID &addr) const;
 
+    // helper functions for close() and abort()
+    void closeRecording (BOIO &recording,const string &filename);
+    void abortRecording (BOIO &recording);
+
     // helper function for close(), renames recording file or throws an exception
     void renameRecording (const string &from,const string &to);
     
diff --git a/AppAgent/AppAgent/src/FileChannel.cc b/AppAgent/AppAgent/src/FileChannel.cc
index 7995116..f568d9d 100644
--- a/AppAgent/AppAgent/src/FileChannel.cc
+++ b/AppAgent/AppAgent/src/FileChannel.cc
@@ -62,8 +62,7 @@ int FileChannel::getEvent (HIID &id,ObjRef &data,const HIID &mask,int wait,HIID
         // boo-boo, can't block here since we'd never get an event to unblock us...
       Throw("blocking on an event here would block indefinitely");
     }
-    else
-      return waitOnFlag(WAIT);
+    // else return: the pending event stays where it is, so no use waiting
   }
   else if( res == WAIT )
   {
@@ -87,10 +86,13 @@ int FileChannel::hasEvent (const HIID &mask, HIID &out)
       // to data members. This is easier than making everything mutable
     int res = const_cast<FileChannel*>(this)->refillStream();
     if( res != AppEvent::SUCCESS )
+    {
       clearEventFlag();   // empty stream = no more events from us
-    if( res == AppEvent::CLOSED )
-      close();
-    return res;
+      if( res == AppEvent::CLOSED )
+        close();
+      return res;
+    }
+    // else fall through to check the event that has been read against the mask
   }
   out = input_stream_.front().id;
   if( mask.empty() || mask.matches(out) )
diff --git a/DMI/src/BOIO.cc b/DMI/src/BOIO.cc
index 73214b2..3f033e4 100644
--- a/DMI/src/BOIO.cc
+++ b/DMI/src/BOIO.cc
@@ -95,6 +95,8 @@ int BOIO::close ()
     // fclose() may be where the last objects are actually written. If a write 
     // has failed before, then this has already been reported.
     FailWhen(res && !failed,"error closing boio file "+name+": "+strerror(errno));
+    if( failed )
+      return 0;
   }
   return 1;
 }
diff --git a/DMI/src/BOIO.h b/DMI/src/BOIO.h
index fbdc830..911ab4f 100644
--- a/DMI/src/BOIO.h
+++ b/DMI/src/BOIO.h
@@ -60,7 +60,8 @@ class BOIO
     //##ModelId=3DB949AE0255
       int open (const string &filename,int mode = READ);
 
-      // closes file
+      // Closes file. Returns 0 if a write to it has failed before (and thrown
+      // an exception then), else 1
     //##ModelId=3DB949AE025B
       int close ();
 
-- 
2.43.0


From 1ff950b36aeb6cefb60c9264becf79dcd1bf1b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:34 +0000
Subject: [PATCH 29/50] fix: hold a node's state mutex while (re)initialising
 it

A node can be found in the forest before init() is called, so its state can be
queried from another thread; the record is then freed while init() updates it.
---
 MEQ/src/Node_init.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MEQ/src/Node_init.cc b/MEQ/src/Node_init.cc
index 8595a51..8d44382 100644
--- a/MEQ/src/Node_init.cc
+++ b/MEQ/src/Node_init.cc
@@ -134,6 +134,8 @@ void Node::relinkParents ()
 
 void Node::init ()
 {
+  // the node can be found in the forest already: its state may be queried
+  Thread::Mutex::Lock lock(stateMutex());
   try
   {
     // set the parents
@@ -175,6 +177,7 @@ void Node::reinit ()
   // of children below
   if( internal_init_index_ >= 0 )
     return; 
+  Thread::Mutex::Lock lock(stateMutex());
   // setup children and parents
   setupNurseries();
   relinkParents();
@@ -184,6 +187,7 @@ void Node::reinit ()
   cdebug(2)<<"reinitializing node (setStateImpl)"<<endl;
   cdebug(3)<<"state is "<<staterec_().sdebug(10,"    ")<<endl;
   setStateImpl(staterec_,true);
+  lock.release();
   // recursively reinit() all children
   for( int i=0; i<children().numChildren(); i++ )
     if( children().isChildValid(i) )
-- 
2.43.0


From 4564e997870d6196a16b2ef92eb67559b68a1e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:34 +0000
Subject: [PATCH 30/50] fix: hold a node's state mutex while changing its
 publishing level

Disable.Publish.Results changes the state records of all nodes from the event
thread, while the execution thread may be using them.
---
 MEQ/src/Node.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MEQ/src/Node.cc b/MEQ/src/Node.cc
index 2958639..a341d3f 100644
--- a/MEQ/src/Node.cc
+++ b/MEQ/src/Node.cc
@@ -719,6 +719,7 @@ int Node::cacheResult (const Result::Ref &ref,const Request &req,int retcode)
 
 void Node::setPublishingLevel (int level)
 {
+  Thread::Mutex::Lock lock(stateMutex());
   wstate()[FPublishingLevel] = publishing_level_ = level;
   if( level )
     setControlStatus(control_status_ | CS_PUBLISHING);
-- 
2.43.0


From 9482d1f00d9fcca9af5ce7793d94dac0f2b06ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:58 +0000
Subject: [PATCH 31/50] fix: MTQueueChannel: blocking reads, event ids, close
 and errors of the remote channel

A blocking getEvent() returned WAIT, hasEvent() gave no id, aborted_ was not
initialised (closing one side aborted the other), close() discarded posts still
in the queue, exceptions of the remote's close() escaped from the worker, and
readers and writers hung or spun when the remote was closed or had failed.
---
 AppAgent/AppAgent/src/MTQueueChannel.cc | 163 ++++++++++++++++--------
 AppAgent/AppAgent/src/MTQueueChannel.h  |  10 ++
 2 files changed, 120 insertions(+), 53 deletions(-)

diff --git a/AppAgent/AppAgent/src/MTQueueChannel.cc b/AppAgent/AppAgent/src/MTQueueChannel.cc
index e56eb83..ac050f9 100644
--- a/AppAgent/AppAgent/src/MTQueueChannel.cc
+++ b/AppAgent/AppAgent/src/MTQueueChannel.cc
@@ -43,7 +43,7 @@ MTQueueChannel::MTQueueChannel (const EventChannel::Ref &channel)
   premote_ = remote_chanref_.dewr_p();
   setState(CLOSED);
   remote_thread_ = 0;
-  aborted_ = false;
+  remote_initialized_ = remote_closed_ = aborted_ = false;
 }
 
 MTQueueChannel::MTQueueChannel (EventChannel *pchannel)
@@ -51,12 +51,20 @@ MTQueueChannel::MTQueueChannel (EventChannel *pchannel)
   remote_chanref_ <<= premote_ = pchannel;
   setState(CLOSED);
   remote_thread_ = 0;
+  remote_initialized_ = remote_closed_ = aborted_ = false;
 }
 
 MTQueueChannel::~MTQueueChannel ()
 {
-  if( state() != CLOSED )
-    close("destroying queue channel");
+  try
+  {
+    if( state() != CLOSED )
+      close("destroying queue channel");
+  }
+  catch( std::exception &exc )
+  {
+    cdebug(0)<<"error closing channel: "<<exceptionToString(exc)<<endl;
+  }
 }
 
 void * MTQueueChannel::start_workerThread (void *args)
@@ -83,6 +91,8 @@ int MTQueueChannel::init (const DMI::Record &data)
   FailWhen(queue_size_<1,"illegal queue size");
   post_queue_.clear();
   get_queue_.clear();
+  err_queue_.clear();
+  aborted_ = remote_closed_ = false;
   // launch worker thread
   initrec_.attach(data);
   remote_initialized_ = false;
@@ -109,16 +119,16 @@ void * MTQueueChannel::runWorker ()
   remote_initialized_ = true;  // set initialized flag and wake main thread if waiting
   eventFlag().condVar().broadcast();
   initrec_.detach();
-  while( remote().state() != CLOSED || !get_queue_.empty() )
+  while( !remoteClosed() || !get_queue_.empty() )
   {
     // if any errors have accumulated, wait for exception queue to clear
     while( !err_queue_.empty() )
     {
       // has channel been closed? break out
       if( state() == CLOSED )
-        remote().close();
-      if( remote().state() == CLOSED )
-        continue;
+        closeRemote();
+      if( remoteClosed() )
+        break;
       eventFlag().condVar().wait();
     }
     // clear the post_queue of any accumulated events
@@ -126,10 +136,11 @@ void * MTQueueChannel::runWorker ()
     {
       // has remote channel been closed? close & discard queue then
       if( state() == CLOSED )
-        aborted_ ? remote().abort() : remote().close();
-      if( remote().state() == CLOSED )
+        closeRemote();
+      if( remoteClosed() )
       {
         post_queue_.clear();
+        raiseEventFlag(); // in case the main thread is waiting for space
         break;
       }
       // get next event and post it to remote
@@ -167,8 +178,8 @@ void * MTQueueChannel::runWorker ()
     clearEventFlag();
     // if remote channel is closed, wait for get_queue to clear up and exit
     if( state() == CLOSED )
-      aborted_ ? remote().abort() : remote().close();
-    if( remote().state() == CLOSED )
+      closeRemote();
+    if( remoteClosed() )
     {
       while( !get_queue_.empty() )
         eventFlag().condVar().wait(); // will relock mutex on exit
@@ -200,11 +211,11 @@ void * MTQueueChannel::runWorker ()
     }
     // check if channel has closed
     if( state() == CLOSED )
-      aborted_ ? remote().abort() : remote().close();
-    if( remote().state() == CLOSED )
+      closeRemote();
+    if( remoteClosed() )
       continue;   // back up to top, we break out only when queue is empty
     // now sleep on flag if we had no events
-    if( stat == AppEvent::WAIT ) 
+    if( stat != AppEvent::SUCCESS ) 
       eventFlag().condVar().wait();
    // go back to top of loop to check the post_queue
   }
@@ -212,23 +223,41 @@ void * MTQueueChannel::runWorker ()
   return 0;
 }
 
+void MTQueueChannel::closeRemote ()
+{
+  if( remoteClosed() )
+    return;
+  remote_closed_ = true;
+  try
+  {
+    if( aborted_ )
+      remote().abort();
+    else
+      remote().close();
+  }
+  catch( std::exception &exc )
+  {
+    err_queue_.add(exc);
+  }
+}
+
 void MTQueueChannel::postEvent (const HIID &id,const ObjRef &data,
                                 AtomicID category,const HIID &destination)
 {
   // obtain lock on event flag
   Thread::Mutex::Lock lock(eventFlag().condVar());
   assureRemoteInit();
-  if( remote().state() == CLOSED )
+  checkErrorQueue();
+  // as long as the post queue is full, wait on the flag
+  while( post_queue_.size() >= queue_size_ && err_queue_.empty() && !remoteClosed() )
+    eventFlag().condVar().wait();
+  checkErrorQueue();
+  if( remoteClosed() )
   {
     lock.release();
     close(remote().stateString());
     return;
   }
-  checkErrorQueue();
-  // as long as the post queue is full, wait on the flag
-  while( post_queue_.size() >= queue_size_ && err_queue_.empty() )
-    eventFlag().condVar().wait();
-  checkErrorQueue();
   post_queue_.push_back(QueueEntry());
   QueueEntry &qe = post_queue_.back();
   qe.id = id;
@@ -260,21 +289,21 @@ int MTQueueChannel::getEvent (HIID &id,ObjRef &data,
   // if get_queue is empty, return WAIT or block or close
   if( get_queue_.empty() )
   {
-    if( remote().state() == CLOSED )
+    if( wait != NOWAIT )
+    {
+      while( get_queue_.empty() && err_queue_.empty() && !remoteClosed() )
+        eventFlag().condVar().wait();
+      checkErrorQueue();
+    }
+    if( get_queue_.empty() )
     {
+      if( !remoteClosed() )
+        return WAIT;
       lock.release();
       close(remote().stateString());
       return CLOSED;
     }
-    if( wait == WAIT )
-    {
-      while( get_queue_.empty() && err_queue_.empty() )
-        eventFlag().condVar().wait();
-    }
-    else
-      return WAIT;
   }
-  checkErrorQueue();
   // ok, get_queue not empty, check head
   QueueEntry & qe = get_queue_.front();
   if( !mask.empty() && !mask.matches(qe.id) )
@@ -297,7 +326,7 @@ int MTQueueChannel::hasEvent (const HIID &mask,HIID &out)
   // if queue is empty, check if remote channel is closed
   if( get_queue_.empty() )
   {
-    if( remote().state() == CLOSED )
+    if( remoteClosed() )
     {
       lock.release();
       close(remote().stateString());
@@ -306,6 +335,7 @@ int MTQueueChannel::hasEvent (const HIID &mask,HIID &out)
     return WAIT;
   }
   // check head of queue
+  out = get_queue_.front().id;
   if( mask.empty() || mask.matches(get_queue_.front().id) )
     return SUCCESS;
   else
@@ -314,28 +344,54 @@ int MTQueueChannel::hasEvent (const HIID &mask,HIID &out)
 
 void MTQueueChannel::close (const string &str)
 {
-  EventChannel::close(str);
-  // do nothing if no remote is running
-  if( !remote_thread_ )
-    return;
-  // if closing normally (i.e. not from abort()), flush the output queue
-  if( !aborted_ )
-    flush();
-  // clear all queues and signal remote to close
-  Thread::Mutex::Lock lock(eventFlag().condVar());
-  assureRemoteInit();
-  get_queue_.clear();
-  post_queue_.clear();
-  // raise event flag to notify remote
-  raiseEventFlag();
-  while( remote().state() != CLOSED )
-    eventFlag().condVar().wait();
-  lock.release();
-  // now rejoin remote thread
-  remote_thread_.join();
-  remote_thread_ = 0;
-  // check for errors
-  checkErrorQueue();
+  DMI::ExceptionList errors;
+  // if closing normally (i.e. not from abort()), flush the output queue. This
+  // is done before our state changes, since the worker then discards the queue.
+  // It also waits for us to pick up the errors before it goes on.
+  bool flushed = !remote_thread_ || aborted_;
+  while( !flushed )
+  {
+    try
+    {
+      flush();
+      flushed = true;
+    }
+    catch( std::exception &exc )
+    {
+      errors.add(exc);
+    }
+  }
+  try
+  {
+    EventChannel::close(str);
+  }
+  catch( std::exception &exc )
+  {
+    errors.add(exc);
+  }
+  // nothing else to do if no remote is running
+  if( remote_thread_ )
+  {
+    // clear all queues and signal remote to close
+    Thread::Mutex::Lock lock(eventFlag().condVar());
+    assureRemoteInit();
+    get_queue_.clear();
+    post_queue_.clear();
+    // raise event flag to notify remote
+    raiseEventFlag();
+    lock.release();
+    // now rejoin remote thread
+    remote_thread_.join();
+    remote_thread_ = 0;
+    // check for errors
+    if( !err_queue_.empty() )
+    {
+      errors.add(static_cast<const std::exception &>(err_queue_));
+      err_queue_.clear();
+    }
+  }
+  if( !errors.empty() )
+    throw errors;
 }
 
 void MTQueueChannel::abort (const string &str)
@@ -363,8 +419,9 @@ void MTQueueChannel::flush ()
   // flush the post queue
   Thread::Mutex::Lock lock(eventFlag().condVar());
   assureRemoteInit();
-  while( !aborted_ && !post_queue_.empty() )
+  while( !aborted_ && !post_queue_.empty() && err_queue_.empty() && !remoteClosed() )
     eventFlag().condVar().wait();
+  checkErrorQueue();
 }
 
 
diff --git a/AppAgent/AppAgent/src/MTQueueChannel.h b/AppAgent/AppAgent/src/MTQueueChannel.h
index 48b35f4..f3b6895 100644
--- a/AppAgent/AppAgent/src/MTQueueChannel.h
+++ b/AppAgent/AppAgent/src/MTQueueChannel.h
@@ -157,6 +157,14 @@ class MTQueueChannel : public EventChannel
     // clears the list, wakes up remote thread, and throws list as exception
     void checkErrorQueue ();
       
+    //##Documentation
+    //## closes (or aborts) the remote channel. Called by worker thread, errors
+    //## are put on the error queue.
+    void closeRemote ();
+    
+    bool remoteClosed () const
+    { return remote_closed_ || remote().state() == CLOSED; }
+      
     EventChannel & remote ()
     { return *premote_; }
     
@@ -191,6 +199,8 @@ class MTQueueChannel : public EventChannel
     
     // flag: remote channel has completed its init
     bool remote_initialized_;
+    // set by the worker once it has told the remote channel to close
+    bool remote_closed_;
     // flag: main channel has been aborted rather than closed
     bool aborted_;
 };
-- 
2.43.0


From ca5e9d887ef15fba765c402c7a6e7877d09282db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:58 +0000
Subject: [PATCH 32/50] fix: OctoEventMux: hasEvent() keeps the event, wake-ups
 reach every waiting channel

hasEvent() popped an event and lost it; channels blocked in several threads lost
wake-ups; a blocking read with a cached event head returned OUTOFSEQ, and hung at
stop; events mapped to null counted as bound; scopes of empty ids were read past
the end.
---
 AppAgent/AppAgent/src/OctoChannel.cc  |  7 +++++
 AppAgent/AppAgent/src/OctoEventMux.cc | 39 +++++++++++++++++----------
 AppAgent/AppAgent/src/OctoEventMux.h  |  5 +++-
 3 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/AppAgent/AppAgent/src/OctoChannel.cc b/AppAgent/AppAgent/src/OctoChannel.cc
index 9fc92d8..632d0db 100644
--- a/AppAgent/AppAgent/src/OctoChannel.cc
+++ b/AppAgent/AppAgent/src/OctoChannel.cc
@@ -231,6 +231,9 @@ bool OctoChannel::isEventBound (const HIID &id,AtomicID cat)
   // event not mapped at all? Return false
   if( !mapPostEvent(out,id,cat) )
     return false;
+  // mapped to a null ID? It is disabled then
+  if( out.empty() )
+    return false;
   // else true
   // BUG! actually we need a haveSubscribers() call here
   return true;
@@ -267,6 +270,8 @@ int OctoChannel::getDefaultScope (const DMI::Record &map)
 //##ModelId=3E0A34E801D6
 int OctoChannel::resolveScope (HIID &id,int scope)
 {
+  if( id.empty() )
+    return scope;
   // determine scope by looking at first element of ID. Strip off the specifier
   // if it is valid; if not, return default scope value.
   AtomicID first = id.front();
@@ -288,6 +293,8 @@ int OctoChannel::resolveScope (HIID &id,int scope)
 //##ModelId=3E0A4C7D007A
 int OctoChannel::resolvePriority (HIID &id,int priority)
 {
+  if( id.empty() )
+    return priority;
   // determine scope by looking at first element of ID. Strip off the specifier
   // if it is valid; if not, return default scope value.
   AtomicID first = id.front();
diff --git a/AppAgent/AppAgent/src/OctoEventMux.cc b/AppAgent/AppAgent/src/OctoEventMux.cc
index 2c9c7bd..b283162 100644
--- a/AppAgent/AppAgent/src/OctoEventMux.cc
+++ b/AppAgent/AppAgent/src/OctoEventMux.cc
@@ -58,6 +58,9 @@ void OctoEventMux::notify ()
 {
   // notify signals on the event flag 
   eventFlag().raise(ef_channel_num);
+  // several channels may be blocked on the queue in different threads, wake
+  // them all
+  queueCondition().broadcast();
 }
 
 //##ModelId=3E47CFA70203
@@ -131,17 +134,16 @@ void OctoEventMux::init()
 //##ModelId=3E50E292002B
 void OctoEventMux::close()
 {
+  Thread::Mutex::Lock lock( queueCondition() );
   pheadmsg = 0;
   assigned_data.detach();
 }
 
 //##ModelId=3E3FC3A7000B
-int OctoEventMux::checkQueue (const HIID& mask,int wait,int channel_id)
+int OctoEventMux::checkQueue (Thread::Mutex::Lock &lock,const HIID& mask,int wait,int channel_id)
 {
   if( !isRunning() )
     return CLOSED;
-  // lock the queue first 
-  Thread::Mutex::Lock lock( queueCondition() );
   // do we have a cached event (at the head of the message queue) that hasn't
   // been picked up yet?
   if( pheadmsg )
@@ -161,20 +163,25 @@ int OctoEventMux::checkQueue (const HIID& mask,int wait,int channel_id)
       if( assigned_channel == channel_id && 
           ( mask.empty() || assigned_event.matches(mask) ) )
       {
-        // remove message from queue -- assigned_event 
-        // and assigned_data will contain the event
+        // assigned_event and assigned_data contain the event
         cdebug(4)<<"cached message assigned to this channel ("<<channel_id<<"): SUCCESS\n";
-        queue().pop_front();
         return SUCCESS;
       }
-      cdebug(4)<<"cached message not assigned to this channel ("<<channel_id<<"): OUTOFSEQ\n";
       // not assigned to us? Return out-of-sequence
-      return OUTOFSEQ;
+      if( wait != AppEvent::BLOCK )
+      {
+        cdebug(4)<<"cached message not assigned to this channel ("<<channel_id<<"): OUTOFSEQ\n";
+        return OUTOFSEQ;
+      }
+      // else blocking mode, fall through to wait for the queue to change
     }
   }
   // OK, no event cached.  
   for(;;) // will only break out of loop via return statement
   {
+    // in case we get shut down within this loop
+    if( !isRunning() )
+      return CLOSED;
     // First fart around until the queue's got something in it
     while( queue().empty() )
     {
@@ -244,10 +251,7 @@ int OctoEventMux::checkQueue (const HIID& mask,int wait,int channel_id)
         if( i == uint(channel_id) )
         {
           if( mask.empty() || assigned_event.matches(mask) )
-          {
-            queue().pop_front();
             return SUCCESS;
-          }
           else if( wait != AppEvent::BLOCK ) // message for this channel, doesn't match
             return OUTOFSEQ;
         }
@@ -274,8 +278,9 @@ int OctoEventMux::checkQueue (const HIID& mask,int wait,int channel_id)
 //##ModelId=3E26D2D6021D
 int OctoEventMux::getEvent (HIID& id,ObjRef& data,const HIID& mask,int wait,HIID &source,int channel_id)
 {
-  // check the queue
-  int res = checkQueue(mask,wait,channel_id);
+  // lock the queue and check it
+  Thread::Mutex::Lock lock( queueCondition() );
+  int res = checkQueue(lock,mask,wait,channel_id);
   if( res == SUCCESS )
   {
     // return cached event if successful
@@ -283,6 +288,11 @@ int OctoEventMux::getEvent (HIID& id,ObjRef& data,const HIID& mask,int wait,HIID
     data = assigned_data;
     source = assigned_source;
     pheadmsg = 0; // and clear the cache
+    assigned_data.detach();
+    // remove message from queue. The next one may be for a channel that
+    // is blocked in another thread, so wake it up.
+    queue().pop_front();
+    queueCondition().broadcast();
     return SUCCESS;
   }
   return res;
@@ -291,7 +301,8 @@ int OctoEventMux::getEvent (HIID& id,ObjRef& data,const HIID& mask,int wait,HIID
 //##ModelId=3E3FC3A601B0
 int OctoEventMux::hasEvent (const HIID& mask,HIID &out,int channel_id)
 {
-  int res = checkQueue(mask,NOWAIT,channel_id);
+  Thread::Mutex::Lock lock( queueCondition() );
+  int res = checkQueue(lock,mask,NOWAIT,channel_id);
   if( res == SUCCESS )
     out = assigned_event;
   return res;
diff --git a/AppAgent/AppAgent/src/OctoEventMux.h b/AppAgent/AppAgent/src/OctoEventMux.h
index 1fae7f5..7a73f27 100644
--- a/AppAgent/AppAgent/src/OctoEventMux.h
+++ b/AppAgent/AppAgent/src/OctoEventMux.h
@@ -112,7 +112,10 @@ class OctoEventMux : public Octopussy::WorkProcess
     OctoEventMux();
       
     //##ModelId=3E3FC3A7000B
-    int checkQueue (const HIID& mask,int wait,int channel_id);
+    // Checks the message queue for an event. If successful, this is left at
+    // the head of the queue, with a description in the members below.
+    // Lock is a lock on the queue condition, held by the caller.
+    int checkQueue (Thread::Mutex::Lock &lock,const HIID& mask,int wait,int channel_id);
 
     //##ModelId=3E428C4D0239
     std::vector<OctoChannel::Ref> channels;
-- 
2.43.0


From b70fa02df8c10cae3c383cae120b4202accc6432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:58 +0000
Subject: [PATCH 33/50] fix: FastParmTable: keep the domain list in step with
 the table of funklets, report errors

The list of domains was read before the table was locked, appended to with
buffered writes (lost or misaligned after a crash, duplicated between processes)
and used without range checks; read errors were taken for absent funklets; sizes
in stored blocks were not validated; errors of flush and close were lost.
---
 MEQ/src/FastParmTable.cc | 164 +++++++++++++++++++++++++--------------
 MEQ/src/FastParmTable.h  |   7 ++
 2 files changed, 111 insertions(+), 60 deletions(-)

diff --git a/MEQ/src/FastParmTable.cc b/MEQ/src/FastParmTable.cc
index 3a537fb..06c783f 100644
--- a/MEQ/src/FastParmTable.cc
+++ b/MEQ/src/FastParmTable.cc
@@ -51,13 +51,52 @@ FastParmTable::FastParmTable (const string& tablename,bool write,bool)
     // only try to create if error is "no such entry", else report error
     if( errno != ENOENT )
       throwErrno("can't open '%s'");
-    if( mkdir(tablename.c_str(),0777) < 0 )
+    if( mkdir(tablename.c_str(),0777) < 0 && errno != EEXIST )
       throwErrno("can't create '%s'");
   }
   domains_file_ = tablename + "/domains";
   funklets_file_ = tablename + "/funklets";
+  // create/open funklet database
+  // but check if it exists first
+  if( stat(funklets_file_.c_str(),&stat_buf) < 0 )
+  {
+    // only try to create if error is "no such entry", else report error
+    if( errno != ENOENT )
+      throwErrno("can't access '%s/funklets'");
+    // ok, if writing, create it, else defer
+    fdb_ = dpopen(const_cast<char*>(funklets_file_.c_str()),DP_OCREAT|DP_OWRITER,0);
+  }
+  else
+  {
+    fdb_ = dpopen(const_cast<char*>(funklets_file_.c_str()),write?DP_OWRITER|DP_OCREAT:DP_OREADER,0);
+    // "EBROKEN" indicates corruption from previous run, so flush it
+    if( !fdb_ && dpecode == DP_EBROKEN )
+    {
+      cerr<<"Warning: "<<funklets_file_<<" appears to be corrupt. This may be due to the system crashing or being killed during a previous run. Creating a new, empty table.\n";
+      fdb_ = dpopen(const_cast<char*>(funklets_file_.c_str()),DP_OTRUNC|DP_OWRITER,0);
+    }
+  }
+  // still an error? report as exception
+  if( !fdb_ )
+    throwDepot("can't open '%s/funklets'");
+  // now that we have a lock on the database, open the domain list
+  try
+  {
+    openDomains();
+  }
+  catch( ... )
+  {
+    dpclose(fdb_);
+    fdb_ = 0;
+    throw;
+  }
+}
+
+void FastParmTable::openDomains ()
+{
   // create/open domain list file
   // check if it exists first
+  struct stat stat_buf;
   if( stat(domains_file_.c_str(),&stat_buf) < 0 )
   {
     // only try to create if error is "no such entry", else report error
@@ -67,10 +106,12 @@ FastParmTable::FastParmTable (const string& tablename,bool write,bool)
     stat_buf.st_size = 0;
   }
   else
-    fdomains_ = fopen(domains_file_.c_str(),write?"a+b":"rb");
+    fdomains_ = fopen(domains_file_.c_str(),writing_?"r+b":"rb");
   if( !fdomains_ )
     throwErrno("can't open '%s/domains'");
-  // see how many domains we've got based on filesize
+  // see how many domains we've got based on filesize. There may be an 
+  // incomplete entry at the end, if a previous run has crashed: this gets 
+  // overwritten by the next one.
   int ndom = stat_buf.st_size/sizeof(DomainEntry);
   domain_list_.reserve((ndom/1024+1)*1024);
   domain_ref_list_.reserve((ndom/1024+1)*1024);
@@ -80,84 +121,64 @@ FastParmTable::FastParmTable (const string& tablename,bool write,bool)
   if( ndom )
   {
     if( fread(&(domain_list_[0]),sizeof(DomainEntry),ndom,fdomains_) != uint(ndom) )
-      Throw("error reading '%s/domains'");
-  }
-  dprintf(1)("read %d domains\n",ndom);
-  // just in case, seek to new domain position
-  fseek(fdomains_,ndom*sizeof(DomainEntry),SEEK_SET);
-  // create/open funklet database
-  // but check if it exists first
-  if( stat(funklets_file_.c_str(),&stat_buf) < 0 )
-  {
-    // only try to create if error is "no such entry", else report error
-    if( errno != ENOENT )
-      throwErrno("can't access '%s/funklets'");
-    // ok, if writing, create it, else defer
-    fdb_ = dpopen(const_cast<char*>(funklets_file_.c_str()),DP_OCREAT|DP_OWRITER,0);
-  }
-  else
-  {
-    fdb_ = dpopen(const_cast<char*>(funklets_file_.c_str()),write?DP_OWRITER|DP_OCREAT:DP_OREADER,0);
-    // "EBROKEN" indicates corruption from previous run, so flush it
-    if( !fdb_ && dpecode == DP_EBROKEN )
     {
-      cerr<<"Warning: "<<funklets_file_<<" appears to be corrupt. This may be due to the system crashing or being killed during a previous run. Creating a new, empty table.\n";
-      fdb_ = dpopen(const_cast<char*>(funklets_file_.c_str()),DP_OTRUNC|DP_OWRITER,0);
+      closeDomains();
+      Throw("error reading '"+table_name_+"/domains'");
     }
   }
-  // still an error? report as exception
-  if( !fdb_ )
-  {
-    fclose(fdomains_);
-    fdomains_ = 0;
-    throwDepot("can't open '%s/funklets'");
-  }
+  dprintf(1)("read %d domains\n",ndom);
 }
 
-FastParmTable::~FastParmTable()
+void FastParmTable::closeDomains ()
 {
   if( fdomains_ )
     fclose(fdomains_);
-  if( fdb_ )
-    dpclose(fdb_);
+  fdomains_ = 0;
+}
+
+void FastParmTable::checkOpen ()
+{
+  if( !fdomains_ || !fdb_ )
+    Throw("'"+table_name_+"' is not open");
+}
+
+FastParmTable::~FastParmTable()
+{
+  if( fdomains_ && fclose(fdomains_) )
+    cerr<<"Error writing to "<<domains_file_<<": "<<strerror(errno)<<endl;
+  if( fdb_ && !dpclose(fdb_) )
+    cerr<<"Error writing to "<<funklets_file_<<": "<<dperrmsg(dpecode)<<endl;
   if( prev_key.dptr )
     free(prev_key.dptr);
 }
 
 void FastParmTable::openForWriting ()
 {
+  checkOpen();
   if( writing_ )
     return;
-  if( !fdomains_ || !fdb_ )
-    Throw("can't reopen '%s' for writing, it is not open");
-  fclose(fdomains_);
-  // reopen the domains file
-  fdomains_ = fopen(domains_file_.c_str(),"a+b");
-  if( !fdomains_ )
-    throwErrno("can't reopen '%s/domains' for writing");
-  fseek(fdomains_,domain_list_.size()*sizeof(DomainEntry),SEEK_SET);
+  closeDomains();
   // reopen the funklet database
-  if( fdb_ )
-    dpclose(fdb_);
+  dpclose(fdb_);
   fdb_ = dpopen(const_cast<char*>(funklets_file_.c_str()),DP_OWRITER|DP_OCREAT,0);
   // still an error? report as exception
   if( !fdb_ )
-  {
-    fclose(fdomains_);
-    fdomains_ = 0;
     throwDepot("can't reopen '%s/funklets' for writing");
-  }
+  // reopen the domains file, and read it again, since somebody else may have 
+  // been writing to the table in the meantime
   writing_ = true;
+  openDomains();
 }
 
 void FastParmTable::flush ()
 {
   Thread::Mutex::Lock lock(mutex_);
   openForWriting();
-  if( fdomains_ )
-    fflush(fdomains_);
-  if( fdb_ )
-    dpsync(fdb_);
+  // domains go to disk first, since the funklets refer to them
+  if( fflush(fdomains_) || fsync(fileno(fdomains_)) )
+    throwErrno("error writing to '%s/domains'");
+  if( !dpsync(fdb_) )
+    throwDepot("error writing to '%s/funklets'");
 }
 
 void FastParmTable::throwErrno (const string &message)
@@ -214,6 +235,8 @@ int FastParmTable::getFunklet (Funklet::Ref &ref,const char *kbuf,int ksiz,int d
       Polc *polc = new Polc(c00,defaultPolcPerturbation,defaultPolcWeight,-1);
       ref <<= polc;
       const Domain *pdom;
+      if( domain_index < 0 || domain_index >= int(domain_list_.size()) )
+        Throw("unknown domain index in database");
       if( domain_ref_list_[domain_index].valid() )
         pdom = domain_ref_list_[domain_index].deref_p();
       else
@@ -229,16 +252,20 @@ int FastParmTable::getFunklet (Funklet::Ref &ref,const char *kbuf,int ksiz,int d
     {
       // make funklet from the data block
       size_t *dptr = reinterpret_cast<size_t*>(db_data.dptr);
+      size_t maxblocks = db_data.dsize/sizeof(size_t);
+      if( !maxblocks || dptr[0] >= maxblocks )
+        Throw("malformed funklet block in database");
       int nblocks = dptr[0];
       size_t *block_sizes = dptr+1;
-      // check for data size sanity
-      size_t totsize = sizeof(size_t)*(nblocks+1);
-      if( db_data.dsize < int(totsize) )
-        Throw("malformed funklet block in database");
       // check for exact size
+      size_t datasize = db_data.dsize - sizeof(size_t)*(nblocks+1);
       for( int i=0; i<nblocks; i++ )
-        totsize += block_sizes[i];
-      if( db_data.dsize != int(totsize) )
+      {
+        if( block_sizes[i] > datasize )
+          Throw("malformed funklet block in database");
+        datasize -= block_sizes[i];
+      }
+      if( datasize )
         Throw("malformed funklet block in database");
       // now allocate blocks and copy data to them
       char *dataptr = reinterpret_cast<char*>(block_sizes+nblocks);
@@ -270,6 +297,7 @@ int FastParmTable::getFunklet (Funklet::Ref &ref,const char *kbuf,int ksiz,int d
 int FastParmTable::getFunklet (Funklet::Ref &ref,const string& parmName,int domain_index)
 {
   Thread::Mutex::Lock lock(mutex_);
+  checkOpen();
   size_t keysize = keySize(parmName);
   char key[keysize];
   makeKey(key,parmName,domain_index);
@@ -281,6 +309,7 @@ int FastParmTable::getFunklets (vector<Funklet::Ref> &funklets,const string& par
   Thread::Mutex::Lock lock(mutex_);
   dprintf(2)("getFunklets() for '%s' domain %lf,%lf %lf,%lf\n",parmName.c_str(),
                 domain.start(0),domain.end(0),domain.start(1),domain.end(1));
+  checkOpen();
   if( domain_list_.empty() )
     return 0;
   // build up funklet database key
@@ -299,6 +328,8 @@ int FastParmTable::getFunklets (vector<Funklet::Ref> &funklets,const string& par
       domain_match_[i] = dpvsiz(fdb_,key,keysize) >= 0;
       if( domain_match_[i] )
         nfunk++;
+      else if( dpecode != DP_ENOITEM )
+        throwDepot("error reading '%s/funklets'");
     }
     else
       domain_match_[i] = false;
@@ -364,8 +395,15 @@ Funklet::DbId FastParmTable::putCoeff (const string& parmName, const Funklet& fu
     // make new domain entry and write it out first. If that succeeds,
     // add it to list 
     DomainEntry de(domain);
-    if( fwrite(&de,sizeof(DomainEntry),1,fdomains_) != 1 )
+    // (flush it too, since a funklet that refers to it goes to disk below. Seek
+    // to its position, in case there's something else after a failed write)
+    if( fseek(fdomains_,dom_id*sizeof(DomainEntry),SEEK_SET) ||
+        fwrite(&de,sizeof(DomainEntry),1,fdomains_) != 1 ||
+        fflush(fdomains_) )
+    {
+      clearerr(fdomains_);
       throwErrno("error writing to '%s/domains'");
+    }
     domain_list_.reserve((dom_id/1024+1)*1024); // keep sizing up in large chunks
     domain_list_.resize(dom_id+1);
     domain_list_[dom_id] = de;
@@ -461,6 +499,7 @@ static void decomposeKey (const FastParmTable::datum &key,string &name,int &doma
 bool FastParmTable::firstFunklet (string &name,int &domain_index)
 {
   Thread::Mutex::Lock lock(mutex_);
+  checkOpen();
   // get first DB key, return false if None
   if( !dpiterinit(fdb_) )
     throwDepot("error initializing key iterator");
@@ -475,12 +514,17 @@ bool FastParmTable::nextFunklet (string &name,int &domain_index)
 {
   Thread::Mutex::Lock lock(mutex_);
   FailWhen(!dpiter_initialized_,"must initiate iteration with firstFunklet() before calling nextFunklet()");
+  checkOpen();
   if( prev_key.dptr )
     free(prev_key.dptr);
   // get next key and deallocate previous
   prev_key.dptr = dpiternext(fdb_,&prev_key.dsize);
   if( !prev_key.dptr )
+  {
+    if( dpecode != DP_ENOITEM )
+      throwDepot("error reading '%s/funklets'");
     return false;
+  }
   // decompose key and return true
   decomposeKey(prev_key,name,domain_index);
   return true;
diff --git a/MEQ/src/FastParmTable.h b/MEQ/src/FastParmTable.h
index d1a2840..8c658bb 100644
--- a/MEQ/src/FastParmTable.h
+++ b/MEQ/src/FastParmTable.h
@@ -141,6 +141,13 @@ private:
   // reopens table for writing, if it's not open for writing yet
   void openForWriting ();
   
+  // opens the domains file and reads the list of domains from it, closes it
+  void openDomains ();
+  void closeDomains ();
+  
+  // throws exception if table is not open (i.e. if it couldn't be reopened)
+  void checkOpen ();
+  
   // internal function, gets funklet with given DB key
   int getFunklet (Funklet::Ref &ref,const char *kbuf,int ksiz,int domain_index);
   
-- 
2.43.0


From 2192da4b4714577102a8afc94509dc916c760c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:03 +0000
Subject: [PATCH 34/50] fix: OctoEventMux: a channel that was waiting for the
 queue notices the stop

A thread blocked on an empty queue that found both a message for another channel
and the multiplexer stopped went back to wait for ever.
---
 AppAgent/AppAgent/src/OctoEventMux.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/AppAgent/AppAgent/src/OctoEventMux.cc b/AppAgent/AppAgent/src/OctoEventMux.cc
index b283162..1e5f077 100644
--- a/AppAgent/AppAgent/src/OctoEventMux.cc
+++ b/AppAgent/AppAgent/src/OctoEventMux.cc
@@ -231,6 +231,9 @@ int OctoEventMux::checkQueue (Thread::Mutex::Lock &lock,const HIID& mask,int wai
         }
       }
     }
+    // we may have been shut down while waiting in the loop above
+    if( !isRunning() )
+      return CLOSED;
     // Ok, at this point our queue is no longer empty, and we have a lock on it
     // Get the lead message from the queue and figure out which agent to
     // assign it to
-- 
2.43.0


From d5a87181cf5cb969da9298b5f7125084967682d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:26 +0000
Subject: [PATCH 35/50] fix: VisDataMux: a data set with fewer stations does
 not drop the handlers of later ones

---
 MeqServer/src/VisDataMux.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/MeqServer/src/VisDataMux.cc b/MeqServer/src/VisDataMux.cc
index e4a51e4..26c95e4 100644
--- a/MeqServer/src/VisDataMux.cc
+++ b/MeqServer/src/VisDataMux.cc
@@ -270,10 +270,19 @@ int Meq::VisDataMux::deliverHeader (const DMI::Record &header)
   RqId::setSubId(next_rqid_,symdeps().getMask(FDomain),0);
   current_seqnr_ = -1;
   int maxdid = formDataId(nstations-1,nstations-1) + 1;
-  have_tile_.assign(maxdid,false);
   // forest().resetForNewDataSet();
-  handlers_.resize(maxdid);
-  child_indices_.resize(maxdid);
+  // make room for all data ids, but never drop handlers that have already been
+  // attached: a subsequent dataset may well have more stations than this one
+  if( maxdid > int(handlers_.size()) )
+    handlers_.resize(maxdid);
+  if( maxdid > int(child_indices_.size()) )
+    child_indices_.resize(maxdid);
+  // both are indexed by data id, so keep them in step
+  if( handlers_.size() < child_indices_.size() )
+    handlers_.resize(child_indices_.size());
+  else
+    child_indices_.resize(handlers_.size());
+  have_tile_.assign(handlers_.size(),false);
   // get sizes and steppings
   total_timeslots_ = header[FNumTimeslots].as<int>();
   total_channels_ = header[FNumChannels].as<int>();
@@ -348,7 +357,7 @@ int Meq::VisDataMux::deliverTile (VisCube::VTile::Ref &tileref)
   num_chunks_++;
   // get handler for this tile
   int did = formDataId(tileref->antenna1(),tileref->antenna2());
-  if( did > int(handlers_.size()) )
+  if( did < 0 || did >= int(handlers_.size()) )
   {
     cdebug(4)<<"no handlers for did "<<did<<", skipping tile "<<tileref->sdebug(DebugLevel-2)<<endl;
     return 0;
-- 
2.43.0


From 445e94a783a6648f5deb153aaa26703a8155d565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:27 +0000
Subject: [PATCH 36/50] fix: VisDataMux: report a failure to process the last
 tile when the number of tiles is limited

---
 MeqServer/src/VisDataMux.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/MeqServer/src/VisDataMux.cc b/MeqServer/src/VisDataMux.cc
index 26c95e4..e31ff25 100644
--- a/MeqServer/src/VisDataMux.cc
+++ b/MeqServer/src/VisDataMux.cc
@@ -375,7 +375,12 @@ int Meq::VisDataMux::deliverTile (VisCube::VTile::Ref &tileref)
     }
     num_tiles_++;
     if( max_tiles_ >= 0 && num_tiles_ > max_tiles_ )
-      return 0;
+    {
+      // (but do report a failure to process the last tile)
+      if( !errors.empty() )
+        throw errors;
+      return result_flag;
+    }
     current_seqnr_ = seqnr;
     // notify start of new snippet
     try { result_flag |= startSnippet(*tileref); }
-- 
2.43.0


From 181e6763883b389d6b2d0b03995377d31f9a3fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:27 +0000
Subject: [PATCH 37/50] fix: VisDataMux: post the end event even if aborting a
 channel reports an error

---
 MeqServer/src/VisDataMux.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/MeqServer/src/VisDataMux.cc b/MeqServer/src/VisDataMux.cc
index e31ff25..9c06e5f 100644
--- a/MeqServer/src/VisDataMux.cc
+++ b/MeqServer/src/VisDataMux.cc
@@ -806,12 +806,17 @@ int Meq::VisDataMux::pollChildren (Result::Ref &resref,
   }
   catch( std::exception &exc )  // catch-all for errors 
   {
-    // abort channels
-    input_channel_().abort();
-    if( output_channel_.valid() )
-      output_channel_().abort();
     // add to error list
     fail_list().addFail(exc);
+    // abort channels (these may have further errors to report)
+    try { input_channel_().abort(); }
+    catch( std::exception &exc1 ) { fail_list().addFail(exc1); }
+    try
+    {
+      if( output_channel_.valid() )
+        output_channel_().abort();
+    }
+    catch( std::exception &exc1 ) { fail_list().addFail(exc1); }
   }
   catch( ... )  // catch-all and cleanup for any errors not caught above
   {
-- 
2.43.0


From 5e7c11be93806427881ea857050bea15ba1cab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:27 +0000
Subject: [PATCH 38/50] fix: VisDataMux: wait for children working on the
 current tile when aborting

---
 MeqServer/src/VisDataMux.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MeqServer/src/VisDataMux.cc b/MeqServer/src/VisDataMux.cc
index 9c06e5f..b4a2226 100644
--- a/MeqServer/src/VisDataMux.cc
+++ b/MeqServer/src/VisDataMux.cc
@@ -563,6 +563,10 @@ int Meq::VisDataMux::endSnippet ()
     }
     CatchExceptions("error processing tile "+rqid_.toString('.'));
   }
+  // if aborting, wait for children that are still being executed by other threads,
+  // since they're working with the current tile
+  if( forest().abortFlag() )
+    children().abortPoll();
   if( errors.size() > nerr0 )
     errors.add(MakeNodeException("error processing tile "+rqid_.toString('.')));
   // poll post-processing child
-- 
2.43.0


From fabda9816988e9564bb1b96955cbb5436565becf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:27 +0000
Subject: [PATCH 39/50] fix: Sink: write the flags of tiles with invalid rows

---
 MeqServer/src/Sink.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MeqServer/src/Sink.cc b/MeqServer/src/Sink.cc
index 8a19a1c..a499a5e 100644
--- a/MeqServer/src/Sink.cc
+++ b/MeqServer/src/Sink.cc
@@ -177,7 +177,8 @@ int Sink::getResult (Result::Ref &resref,
         // set the basic 2D shape 
         colshape2.resize(2);
         colshape2[1] = colshape[colshape.size()-2];
-        colshape2[0] = colshape[colshape.size()-1];
+        // (only the valid rows of the tile have been processed)
+        colshape2[0] = cur_range.last(ptile->nrow()-1) - cur_range.first(0) + 1;
       }
       const VellSet * pvs = res_vs[ivs];
       // process null vellset -- store zeroes to output column
-- 
2.43.0


From ce51159663cde773e0493daa5d07c40418560eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:27 +0000
Subject: [PATCH 40/50] fix: Spigot: apply the row flags to all rows when there
 is no flag mask

---
 MeqServer/src/Spigot.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MeqServer/src/Spigot.cc b/MeqServer/src/Spigot.cc
index 708618b..377694e 100644
--- a/MeqServer/src/Spigot.cc
+++ b/MeqServer/src/Spigot.cc
@@ -393,8 +393,9 @@ int Spigot::deliverTile (const Request &req,VisCube::VTile::Ref &tileref,const L
             // shape of flag array is 1D (time only)
             flagref <<= new Vells(Axis::freqTimeMatrix(1,nrows),VellsFlagType(),true);
             pfl = &( flagref().getArray<VellsFlagType,2>() );
-            (*pfl)(0,LoRange::all()) |= (rowflag&row_flag_mask_) |
-                                        (rowflag == VisVocabulary::FlagMissing);
+            for( int j=0; j<nrows; j++ )
+              (*pfl)(j,0) = (rowflag(j)&row_flag_mask_) |
+                            (rowflag(j)==VisVocabulary::FlagMissing);
           }
           // only attach data flags if they're non-0
           if( pfl && blitz::any(*pfl) )
-- 
2.43.0


From b2bf26ec29d74e5c4e65b18c2f9d6efbc1da165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:27 +0000
Subject: [PATCH 41/50] fix: VTile: set up the column arrays again whenever the
 tile is copied on write

---
 VisCube/src/ColumnarTableTile.h | 2 +-
 VisCube/src/VTile.h             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/VisCube/src/ColumnarTableTile.h b/VisCube/src/ColumnarTableTile.h
index 6a5cb5f..c741907 100644
--- a/VisCube/src/ColumnarTableTile.h
+++ b/VisCube/src/ColumnarTableTile.h
@@ -89,7 +89,7 @@ class ColumnarTableTile : public DMI::BObj  //## Inherits: <unnamed>%3D919C2B03D
       // makes data block writable by ensuring COW and recomputing offsets
       // if needed; returns true if this was done, or false if nothing
       // was changed (i.e. already writable)
-      bool makeWritable ()
+      virtual bool makeWritable ()
       { 
         if( !datablock.valid() || datablock.isDirectlyWritable() )
           return false;
diff --git a/VisCube/src/VTile.h b/VisCube/src/VTile.h
index 48973e2..6938ae7 100644
--- a/VisCube/src/VTile.h
+++ b/VisCube/src/VTile.h
@@ -243,7 +243,7 @@ class VTile : public ColumnarTableTile  //## Inherits: <unnamed>%3D9978030166
       static const NameToIndexMap & getNameToIndexMap ();
 
     // ensures writability, re-inits arrays if COW was done
-      bool makeWritable ()
+      virtual bool makeWritable ()
       {
         if( ColumnarTableTile::makeWritable() && hasFormat() )
         {
-- 
2.43.0


From cfca83f9b84df2bca43fb7475d0ee6c96ff9bc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:27 +0000
Subject: [PATCH 42/50] fix: BOIO: do not read on in the middle of an object
 after an error

---
 DMI/src/BOIO.cc | 36 +++++++++++++++++++++++++-----------
 DMI/src/BOIO.h  |  3 +++
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/DMI/src/BOIO.cc b/DMI/src/BOIO.cc
index 3f033e4..80f9c96 100644
--- a/DMI/src/BOIO.cc
+++ b/DMI/src/BOIO.cc
@@ -34,7 +34,7 @@ namespace DMI
 
 //##ModelId=3DB949AE024E
 BOIO::BOIO ()
-    : fp(0),fmode(CLOSED),write_failed(false)
+    : fp(0),fmode(CLOSED),write_failed(false),read_failed(false)
 {
 }
 
@@ -48,7 +48,7 @@ BOIO::~BOIO ()
 
 //##ModelId=3DB949AE024F
 BOIO::BOIO (const string &fname,int mode)
-    : fp(0),fmode(CLOSED),write_failed(false)
+    : fp(0),fmode(CLOSED),write_failed(false),read_failed(false)
 {
   open(fname,mode);
 }
@@ -75,7 +75,7 @@ int BOIO::open (const string &filename,int mode)
   fname = filename;
   fmode = mode;
   have_header = false;
-  write_failed = false;
+  write_failed = read_failed = false;
   return 1;
 }
 
@@ -111,14 +111,14 @@ void BOIO::fseek (long offset)
 {
   FailWhen(!fp,"boio file not open");
   // forget the header that nextType() may have read ahead
-  have_header = false;
+  have_header = read_failed = false;
   ::fseek(fp,offset,SEEK_SET);
 }
 
 void BOIO::rewind ()
 {
   FailWhen(!fp,"boio file not open");
-  have_header = false;
+  have_header = read_failed = false;
   ::rewind(fp);
 }
 
@@ -138,15 +138,23 @@ TypeId BOIO::readAny (ObjRef &ref)
   if( !tid )
     return 0;
   have_header = false;
-  // read array of block sizes
-  size_t sizes[header.nblocks];
-  if( fread(&sizes,sizeof(sizes),1,fp) != 1 )
+  // read array of block sizes. Unless all of the object is read in, we no longer
+  // know where the next one starts
+  read_failed = true;
+  FailWhen(header.nblocks<0,"error reading file "+fname+": corrupt object header");
+  std::vector<size_t> sizes;
+  BlockSet set;
+  for( int i=0; i<header.nblocks; i++ )
   {
-    FailWhen(ferror(fp),"error reading boio file "+fname+": "+strerror(errno));
-    Throw("error reading file "+fname+": unexpected EOF");
+    size_t sz;
+    if( fread(&sz,sizeof(sz),1,fp) != 1 )
+    {
+      FailWhen(ferror(fp),"error reading boio file "+fname+": "+strerror(errno));
+      Throw("error reading file "+fname+": unexpected EOF");
+    }
+    sizes.push_back(sz);
   }
   // allocate and read in blocks
-  BlockSet set;
   for( int i=0; i<header.nblocks; i++ )
   {
     SmartBlock *block = new SmartBlock(sizes[i]);
@@ -157,6 +165,7 @@ TypeId BOIO::readAny (ObjRef &ref)
       Throw("error reading file "+fname+": unexpected EOF");
     }
   }
+  read_failed = false;
   // create object
   ref = DynamicTypeManager::construct(tid,set);
   FailWhen(!ref.valid(),"failed to construct "+tid.toString() );
@@ -171,6 +180,7 @@ TypeId BOIO::nextType ()
   // if header already read in, return type
   if( have_header )
     return header.tid;
+  FailWhen(read_failed,"boio file "+fname+": not reading after an earlier error");
   //  else, read it in
   header.tid = 0;
   if( feof(fp) )
@@ -179,10 +189,14 @@ TypeId BOIO::nextType ()
   if( nread != sizeof(header) )
   {
     header.tid = 0;
+    read_failed = true;
     FailWhen(ferror(fp),"error reading boio file "+fname+": "+strerror(errno));
     // clean EOF if we're at the end of the previous object
     if( !nread && feof(fp) )
+    {
+      read_failed = false;
       return 0;
+    }
     Throw("error reading file "+fname+": unexpected EOF");
   }
   have_header = true;
diff --git a/DMI/src/BOIO.h b/DMI/src/BOIO.h
index 911ab4f..54df601 100644
--- a/DMI/src/BOIO.h
+++ b/DMI/src/BOIO.h
@@ -135,6 +135,9 @@ class BOIO
     //##ModelId=3DB949AE0243
       bool have_header;
       bool write_failed;
+      
+    // set when an object could not be read in
+      bool read_failed;
 
       // marks the file as damaged and throws an exception
       void writeError ();
-- 
2.43.0


From e4ba0be673658a373224ed82117daac00f6a6781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:16 +0000
Subject: [PATCH 43/50] fix: gateway server went deaf after an accept error
 when the reopened socket got the same descriptor

---
 OCTOPUSSY/src/GWServerWP.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/OCTOPUSSY/src/GWServerWP.cc b/OCTOPUSSY/src/GWServerWP.cc
index a8e0f70..786e043 100755
--- a/OCTOPUSSY/src/GWServerWP.cc
+++ b/OCTOPUSSY/src/GWServerWP.cc
@@ -140,10 +140,9 @@ int GWServerWP::timeout (const HIID &)
   return Message::ACCEPT;
 }
 
-int GWServerWP::input (int , int )
+int GWServerWP::input (int fd, int )
 {
   // This is called when an incoming connection is requested
-  // (since we only have one active input, we don't need no arguments)
   if( !sock ) // sanity check
     return Message::CANCEL;
   // do an accept on the socket
@@ -173,8 +172,11 @@ int GWServerWP::input (int , int )
     else
       dsp()->localData(GWLocalServer)[0] = "";
     open_retries = 0;
+    // remove the input now: the new socket may well get the same fd, so returning 
+    // CANCEL afterwards would remove its input
+    removeInput(fd);
     tryOpen();
-    return Message::CANCEL;
+    return Message::ACCEPT;
   }
 }
 
-- 
2.43.0


From 8ed24b06a76b9db7f6b47b9e09c1aefda5ffacea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:16 +0000
Subject: [PATCH 44/50] fix: node list was handed out under a forest serial
 newer than its contents

---
 MeqServer/src/MeqServer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MeqServer/src/MeqServer.cc b/MeqServer/src/MeqServer.cc
index 890e991..83629b9 100644
--- a/MeqServer/src/MeqServer.cc
+++ b/MeqServer/src/MeqServer.cc
@@ -523,6 +523,9 @@ void MeqServer::getNodeList (DMI::Record::Ref &out,DMI::Record::Ref &in)
   int serial = in[FForestSerial].as<int>(0);
   if( !serial || serial != forest_serial )
   {
+    // get the serial number before building the list. Should the forest change
+    // meanwhile, then the list is returned under the older serial
+    int list_serial = forest_serial;
     int content =
       ( in[AidNodeIndex].as<bool>(true) ? Forest::NL_NODEINDEX : 0 ) |
       ( in[AidName].as<bool>(true) ? Forest::NL_NAME : 0 ) |
@@ -532,7 +535,7 @@ void MeqServer::getNodeList (DMI::Record::Ref &out,DMI::Record::Ref &in)
       ( in[FProfilingStats].as<bool>(false) ? Forest::NL_PROFILING_STATS : 0 );
     int count = forest.getNodeList(list,content);
     cdebug(2)<<"getNodeList: got list of "<<count<<" nodes"<<endl;
-    out[FForestSerial] = forest_serial;
+    out[FForestSerial] = list_serial;
   }
   fillForestStatus(out(),in[FGetForestStatus].as<int>(0));
 }
-- 
2.43.0


From be71b7d7d3430b6e21c1248380a1a8abf70b8726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:16 +0000
Subject: [PATCH 45/50] fix: publish() by message id ignored the requested
 scope

---
 OCTOPUSSY/src/WPInterface.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OCTOPUSSY/src/WPInterface.cc b/OCTOPUSSY/src/WPInterface.cc
index a4e30ec..2a275bf 100755
--- a/OCTOPUSSY/src/WPInterface.cc
+++ b/OCTOPUSSY/src/WPInterface.cc
@@ -1125,7 +1125,7 @@ int WPInterface::publish (Message::Ref &msg,int , int scope)
 int WPInterface::publish (const HIID &id,int,int scope, int priority)
 {
   Message::Ref msg( new Message(id,priority),DMI::ANON|DMI::WRITE );
-  return publish(msg,scope);
+  return publish(msg,0,scope);
 }
 
 //##ModelId=3CBED9EF0197
-- 
2.43.0


From 1445b99f0004c11768ef32a9e9e7730ee355e680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:01 +0000
Subject: [PATCH 46/50] fix: CountedRef: privatize() by the sole owner of a
 target deletes the target it replaces

---
 DMI/src/CountedRefBase.cc | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/DMI/src/CountedRefBase.cc b/DMI/src/CountedRefBase.cc
index 9baa38c..a4c5dc0 100644
--- a/DMI/src/CountedRefBase.cc
+++ b/DMI/src/CountedRefBase.cc
@@ -217,9 +217,10 @@ void CountedRefBase::xfer (CountedRefBase& other,int flags,int depth)
     // invalidate other ref (const violation here, but that's a consequence
     // of our destructive semantics)
     other.empty();
-    // deep copy? do a privatize now
+    // deep copy? do a privatize now (which may delete the old target and its mutex)
     if( flags&DMI::DEEP || depth>0 )
     {
+      other_target_lock.release();
       // clear all properties (privatize() will set them up according to flags)
       locked_ = false;
       privatize(flags,depth);
@@ -242,7 +243,10 @@ bool CountedRefBase::privatize (int flags, int depth)
   dprintf1(2)("  %s\n",target_->debug(2,"  "));
   // no cloning is done if the object is anon_ and writable_ and we are the only ref
   bool res = true;
-  if( !isAnonTarget() || !isOnlyRef() || !writable_ || depth>0 || flags&DMI::DEEP)
+  // if we're the sole owner, nobody will hold the old target once it is cloned
+  bool sole_owner = isAnonTarget() && isOnlyRef() && writable_;
+  CountedRefTarget *old_target = target_;
+  if( !sole_owner || depth>0 || flags&DMI::DEEP)
     cloneTarget(flags&~mask_local_flags,depth-1);
   else
     res = false;
@@ -256,6 +260,24 @@ bool CountedRefBase::privatize (int flags, int depth)
   else if( flags&DMI::COW )
     shared_ = false;
   writable_ = true;
+  // delete old target if we have orphaned it (see detach())
+  if( res && sole_owner )
+  {
+#ifdef COUNTEDREF_LINKED_LIST
+    target_lock.release();
+    delete old_target;
+#else
+  #ifdef USE_THREADS
+    Thread::Mutex *pmutex = &( old_target->crefMutex() );
+  #endif      
+    old_target->deleted_ = true;
+    delete old_target;
+  #ifdef USE_THREADS
+    target_lock.release();
+    CountedRefTarget::deleteMutex(pmutex);
+  #endif      
+#endif
+  }
   dprintf(2)("has been privatized\n");
   return res;
 }
-- 
2.43.0


From 31338c42ec402ad99d75d80bc98fe2a112a1f538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:01 +0000
Subject: [PATCH 47/50] fix: Mutex::Lock: a try-lock that failed is not held

---
 TimBase/src/Thread/Mutex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TimBase/src/Thread/Mutex.h b/TimBase/src/Thread/Mutex.h
index 5bc2583..5c417d4 100644
--- a/TimBase/src/Thread/Mutex.h
+++ b/TimBase/src/Thread/Mutex.h
@@ -223,7 +223,7 @@ namespace LOFAR
       if( options == TRY )
       {
         dprintf(3)("init: try-locking mutex %p\n",(void*)pmutex);
-        if( pthread_mutex_trylock(pmutex) < 0 )
+        if( pthread_mutex_trylock(pmutex) != 0 )
           pmutex = 0;
       }
       else
-- 
2.43.0


From 296b87fca87ec628385643cab16d0ca947597525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:02 +0000
Subject: [PATCH 48/50] fix: Condition: timed wait with a fraction of a second
 that carries over

---
 TimBase/src/Thread/Condition.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/TimBase/src/Thread/Condition.h b/TimBase/src/Thread/Condition.h
index efca9a8..5e782fc 100644
--- a/TimBase/src/Thread/Condition.h
+++ b/TimBase/src/Thread/Condition.h
@@ -137,8 +137,10 @@ namespace LOFAR
       struct timeval now;
       struct timespec ts;
       gettimeofday(&now,0);
-      ts.tv_sec = now.tv_sec + sec;
-      ts.tv_nsec = now.tv_usec*1000 + ns;
+      // tv_nsec must stay below one second, or the wait fails with EINVAL
+      long nsec = now.tv_usec*1000L + ns;
+      ts.tv_sec = now.tv_sec + sec + nsec/1000000000L;
+      ts.tv_nsec = nsec%1000000000L;
       return pthread_cond_timedwait(&cond,&mutex,&ts);
     }
 
-- 
2.43.0


From 587334d9ce4e6bb9b1c99a7298271be4808e4ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:02 +0000
Subject: [PATCH 49/50] fix: SmartLock: wake up every thread that may go on,
 and upgraders too

---
 TimBase/src/Thread/SmartLock.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/TimBase/src/Thread/SmartLock.cc b/TimBase/src/Thread/SmartLock.cc
index a035c9a..0ec9f48 100644
--- a/TimBase/src/Thread/SmartLock.cc
+++ b/TimBase/src/Thread/SmartLock.cc
@@ -141,8 +141,9 @@ namespace LOFAR
       Mutex::Lock lock(cond);
       if( !readers )
         return -1;
-      if( !--readers )
-        cond.signal();
+      // writers wait for readers==0, upgraders for readers==1
+      if( --readers <= 1 )
+        cond.broadcast();
       return 0;  
       //## end Thread::SmartLock::runlock%84F319FCFEED.body
     }
@@ -157,7 +158,7 @@ namespace LOFAR
       if( !--writers )
       {
         writer_id = 0;
-        cond.signal();
+        cond.broadcast();
       }
       return 0;  
       //## end Thread::SmartLock::wunlock%88437021FEED.body
@@ -191,7 +192,7 @@ namespace LOFAR
         readers++;
         writers--;
         writer_id = 0;
-        cond.signal();
+        cond.broadcast();
       }
       return 0;  
       //## end Thread::SmartLock::rlock_downgrade%3D1982B60364.body
-- 
2.43.0


From 863ce09119d3e16184da86dc3f9b90a6f49b7525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:02 +0000
Subject: [PATCH 50/50] fix: a WP attached to a running dispatcher gets no
 callbacks before start() is complete

---
 OCTOPUSSY/src/WPInterface.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/OCTOPUSSY/src/WPInterface.cc b/OCTOPUSSY/src/WPInterface.cc
index 2a275bf..05e6926 100755
--- a/OCTOPUSSY/src/WPInterface.cc
+++ b/OCTOPUSSY/src/WPInterface.cc
@@ -644,7 +644,9 @@ int WPInterface::getPollPriority (ulong tick)
   // (perhaps because the system is saturated with higher-priority messages)
   // will eventually get bumped up and become favoured.
   
-  if( needRepoll() && !queueLocked() )
+  // nothing is delivered until start() is complete (a WP may be attached by
+  // another thread while the dispatcher is running)
+  if( started && needRepoll() && !queueLocked() )
   {
     Thread::Mutex::Lock lock(queue_cond);
     if( !queue().empty() )
-- 
2.43.0

