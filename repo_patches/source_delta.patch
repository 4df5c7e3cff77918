From 642c0a3f89b08593da06084afcf74d482c3211f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:19 +0000
Subject: [PATCH 1/6] fix: poll: don't fail wait() when a notification is still
 on its way

notify() sets `notified` before it writes to the pipe. A wait() that starts
in between finds the flag set and the pipe empty, and returned WouldBlock.
As that error skips the reset of the flag in the outer Poller, all later
notifications were lost.
---
 src/poll.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/poll.rs b/src/poll.rs
index 45407c7..44fb523 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -221,8 +221,10 @@ impl Poller {
             loop {
                 if self.notified.swap(false, Ordering::SeqCst) {
                     // `notify` will have sent a notification in case we were polling. We weren't,
-                    // so remove it.
-                    return self.notify.pop_notification();
+                    // so remove it. It may not have arrived yet, in which case a later call to
+                    // `wait` removes it.
+                    let _ = self.notify.pop_notification();
+                    return Ok(());
                 } else if self.waiting_operations.load(Ordering::SeqCst) == 0 {
                     break;
                 }
-- 
2.43.0


From 1b58ba90472fc27c996df1d855ec6d47e77850a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:49 +0000
Subject: [PATCH 2/6] fix: poll: a modify() with an unsupported mode must not
 change anything

The key and the interest were replaced before the mode was rejected.
---
 src/poll.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/poll.rs b/src/poll.rs
index 44fb523..1478895 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -156,6 +156,7 @@ impl Poller {
                 .fd_data
                 .get_mut(&fd.as_raw_fd())
                 .ok_or(io::ErrorKind::NotFound)?;
+            let remove = cvt_mode_as_remove(mode)?;
             data.key = ev.key;
             let poll_fds_index = data.poll_fds_index;
 
@@ -165,7 +166,7 @@ impl Poller {
                 unsafe { BorrowedFd::borrow_raw(fd.as_raw_fd()) },
                 poll_events(ev),
             );
-            data.remove = cvt_mode_as_remove(mode)?;
+            data.remove = remove;
 
             Ok(())
         })
-- 
2.43.0


From b3da8ad4470f1b2292f1822af746346e9f432d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:49 +0000
Subject: [PATCH 3/6] fix: poll: request priority events when the interest asks
 for them

The extra flags of the interest were ignored, so that
`Event::none(key).with_priority()` never reported urgent data.
---
 src/poll.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/poll.rs b/src/poll.rs
index 1478895..ce6435e 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -352,6 +352,10 @@ fn poll_events(ev: Event) -> PollFlags {
         PollFlags::OUT | PollFlags::WRBAND
     } else {
         PollFlags::empty()
+    }) | (if ev.extra.is_pri() {
+        PollFlags::PRI
+    } else {
+        PollFlags::empty()
     })
 }
 
-- 
2.43.0


From 7db46d608acace7414194815f21bceac3f7f4c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:49 +0000
Subject: [PATCH 4/6] fix: poll: don't report a source in oneshot mode again
 after a hang-up

poll() reports POLLHUP and POLLERR even if no events are requested, so
clearing the requested events did not disarm the source.
---
 src/poll.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/poll.rs b/src/poll.rs
index ce6435e..7390f4d 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -191,11 +191,13 @@ impl Poller {
                 .remove(&fd.as_raw_fd())
                 .ok_or(io::ErrorKind::NotFound)?;
             fds.poll_fds.swap_remove(data.poll_fds_index);
-            if let Some(swapped_pollfd) = fds.poll_fds.get(data.poll_fds_index) {
-                fds.fd_data
-                    .get_mut(&swapped_pollfd.as_fd().as_raw_fd())
-                    .unwrap()
-                    .poll_fds_index = data.poll_fds_index;
+            let swapped_index = fds.poll_fds.len();
+            if let Some(swapped_data) = fds
+                .fd_data
+                .values_mut()
+                .find(|data| data.poll_fds_index == swapped_index)
+            {
+                swapped_data.poll_fds_index = data.poll_fds_index;
             }
 
             Ok(())
@@ -281,10 +283,12 @@ impl Poller {
                             writable: revents.intersects(write_events()),
                             extra: EventExtra { flags: revents },
                         });
-                        // Remove interest if necessary
+                        // Remove interest if necessary. As hang-ups and errors are reported
+                        // even without any interest, the file descriptor itself has to go. What
+                        // takes its place until `modify` is called is never ready.
                         if fd_data.remove {
                             *poll_fd = PollFd::from_borrowed_fd(
-                                unsafe { BorrowedFd::borrow_raw(poll_fd.as_fd().as_raw_fd()) },
+                                unsafe { BorrowedFd::borrow_raw(self.notify.fd().as_raw_fd()) },
                                 PollFlags::empty(),
                             );
                         }
-- 
2.43.0


From 7384db2ef717b0ccfb450d6e489ebcb0a5495c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:28 +0000
Subject: [PATCH 5/6] fix: kqueue: keep the set of sources in step with the
 kernel queue

An add() that failed left the source in the set, so that it could not be
added again, and possibly one of its two filters in the kernel queue. A
delete() between the two steps of an add() or a modify() of another thread
left the source in the kernel queue but not in the set.
---
 src/kqueue.rs    | 100 ++++++++++++++++++++++++++++-------------------
 src/os/kqueue.rs |  32 ++++++++-------
 2 files changed, 77 insertions(+), 55 deletions(-)

diff --git a/src/kqueue.rs b/src/kqueue.rs
index 860bc5a..53e7aaf 100644
--- a/src/kqueue.rs
+++ b/src/kqueue.rs
@@ -85,10 +85,19 @@ impl Poller {
     ///
     /// The file descriptor must be valid and it must last until it is deleted.
     pub unsafe fn add(&self, fd: RawFd, ev: Event, mode: PollMode) -> io::Result<()> {
-        self.add_source(SourceId::Fd(fd))?;
+        let fd = BorrowedFd::borrow_raw(fd);
 
-        // File descriptors don't need to be added explicitly, so just modify the interest.
-        self.modify(BorrowedFd::borrow_raw(fd), ev, mode)
+        self.add_source(SourceId::Fd(fd.as_raw_fd()), || {
+            // File descriptors don't need to be added explicitly, so just modify the interest.
+            let result = self.set_interest(fd, ev, mode);
+
+            if result.is_err() {
+                // One of the two filters may have been registered.
+                let _ = self.set_interest(fd, Event::none(0), mode);
+            }
+
+            result
+        })
     }
 
     /// Modifies an existing file descriptor.
@@ -106,8 +115,13 @@ impl Poller {
         };
         let _enter = span.as_ref().map(|s| s.enter());
 
-        self.has_source(SourceId::Fd(fd.as_raw_fd()))?;
+        self.has_source(SourceId::Fd(fd.as_raw_fd()), || {
+            self.set_interest(fd, ev, mode)
+        })
+    }
 
+    /// Sets the interest in a file descriptor in the kernel queue.
+    fn set_interest(&self, fd: BorrowedFd<'_>, ev: Event, mode: PollMode) -> io::Result<()> {
         let mode_flags = mode_to_flags(mode);
 
         let read_flags = if ev.readable {
@@ -172,57 +186,63 @@ impl Poller {
         Ok(())
     }
 
-    /// Add a source to the sources set.
+    /// Add a source to the sources set, if `register` succeeds.
+    ///
+    /// The set is locked meanwhile, so that it always agrees with the kernel queue.
     #[inline]
-    pub(crate) fn add_source(&self, source: SourceId) -> io::Result<()> {
-        if self
-            .sources
-            .write()
-            .unwrap_or_else(|e| e.into_inner())
-            .insert(source)
-        {
-            Ok(())
-        } else {
-            Err(io::Error::from(io::ErrorKind::AlreadyExists))
+    pub(crate) fn add_source(
+        &self,
+        source: SourceId,
+        register: impl FnOnce() -> io::Result<()>,
+    ) -> io::Result<()> {
+        let mut sources = self.sources.write().unwrap_or_else(|e| e.into_inner());
+        if sources.contains(&source) {
+            return Err(io::Error::from(io::ErrorKind::AlreadyExists));
         }
+
+        register()?;
+        sources.insert(source);
+        Ok(())
     }
 
-    /// Tell if a source is currently inside the set.
+    /// Run `modify` if a source is currently inside the set.
     #[inline]
-    pub(crate) fn has_source(&self, source: SourceId) -> io::Result<()> {
-        if self
-            .sources
-            .read()
-            .unwrap_or_else(|e| e.into_inner())
-            .contains(&source)
-        {
-            Ok(())
-        } else {
-            Err(io::Error::from(io::ErrorKind::NotFound))
+    pub(crate) fn has_source(
+        &self,
+        source: SourceId,
+        modify: impl FnOnce() -> io::Result<()>,
+    ) -> io::Result<()> {
+        let sources = self.sources.read().unwrap_or_else(|e| e.into_inner());
+        if !sources.contains(&source) {
+            return Err(io::Error::from(io::ErrorKind::NotFound));
         }
+
+        modify()
     }
 
-    /// Remove a source from the sources set.
+    /// Remove a source from the sources set, if `deregister` succeeds.
     #[inline]
-    pub(crate) fn remove_source(&self, source: SourceId) -> io::Result<()> {
-        if self
-            .sources
-            .write()
-            .unwrap_or_else(|e| e.into_inner())
-            .remove(&source)
-        {
-            Ok(())
-        } else {
-            Err(io::Error::from(io::ErrorKind::NotFound))
+    pub(crate) fn remove_source(
+        &self,
+        source: SourceId,
+        deregister: impl FnOnce() -> io::Result<()>,
+    ) -> io::Result<()> {
+        let mut sources = self.sources.write().unwrap_or_else(|e| e.into_inner());
+        if !sources.contains(&source) {
+            return Err(io::Error::from(io::ErrorKind::NotFound));
         }
+
+        deregister()?;
+        sources.remove(&source);
+        Ok(())
     }
 
     /// Deletes a file descriptor.
     pub fn delete(&self, fd: BorrowedFd<'_>) -> io::Result<()> {
         // Simply delete interest in the file descriptor.
-        self.modify(fd, Event::none(0), PollMode::Oneshot)?;
-
-        self.remove_source(SourceId::Fd(fd.as_raw_fd()))
+        self.remove_source(SourceId::Fd(fd.as_raw_fd()), || {
+            self.set_interest(fd, Event::none(0), PollMode::Oneshot)
+        })
     }
 
     /// Waits for I/O events with an optional timeout.
diff --git a/src/os/kqueue.rs b/src/os/kqueue.rs
index 5045cb4..3e4ea4e 100644
--- a/src/os/kqueue.rs
+++ b/src/os/kqueue.rs
@@ -98,29 +98,31 @@ pub trait PollerKqueueExt<F: Filter>: PollerSealed {
 impl<F: Filter> PollerKqueueExt<F> for Poller {
     #[inline(always)]
     fn add_filter(&self, filter: F, key: usize, mode: PollMode) -> io::Result<()> {
-        // No difference between adding and modifying in kqueue.
-        self.poller.add_source(filter.source_id())?;
-        self.modify_filter(filter, key, mode)
+        self.poller.add_source(filter.source_id(), || {
+            // No difference between adding and modifying in kqueue.
+            let event = filter.filter(kqueue::EventFlags::ADD | mode_to_flags(mode), key);
+            self.poller.submit_changes([event])
+        })
     }
 
     fn modify_filter(&self, filter: F, key: usize, mode: PollMode) -> io::Result<()> {
-        self.poller.has_source(filter.source_id())?;
+        self.poller.has_source(filter.source_id(), || {
+            // Convert the filter into a kevent.
+            let event = filter.filter(kqueue::EventFlags::ADD | mode_to_flags(mode), key);
 
-        // Convert the filter into a kevent.
-        let event = filter.filter(kqueue::EventFlags::ADD | mode_to_flags(mode), key);
-
-        // Modify the filter.
-        self.poller.submit_changes([event])
+            // Modify the filter.
+            self.poller.submit_changes([event])
+        })
     }
 
     fn delete_filter(&self, filter: F) -> io::Result<()> {
-        // Convert the filter into a kevent.
-        let event = filter.filter(kqueue::EventFlags::DELETE, 0);
-
-        // Delete the filter.
-        self.poller.submit_changes([event])?;
+        self.poller.remove_source(filter.source_id(), || {
+            // Convert the filter into a kevent.
+            let event = filter.filter(kqueue::EventFlags::DELETE, 0);
 
-        self.poller.remove_source(filter.source_id())
+            // Delete the filter.
+            self.poller.submit_changes([event])
+        })
     }
 }
 
-- 
2.43.0


From 9f2a8e870845a0cc1b6faa95a3e407010f0c3466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:16 +0000
Subject: [PATCH 6/6] fix: poll: do not block in pop_notification on Vita

When a thread is in wait(), it reads all notifications and lets the
operation that sent one proceed; a blocking read of that notification
then blocks forever, while fds is locked. A byte that arrives late is
harmless: the next poll() reports it and wait() removes it.
---
 src/poll.rs | 20 +-------------------
 1 file changed, 1 insertion(+), 19 deletions(-)

diff --git a/src/poll.rs b/src/poll.rs
index 7390f4d..cac9134 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -710,25 +710,7 @@ mod notify {
 
         /// Pops a notification (if any) from the pipe.
         pub(super) fn pop_notification(&self) -> Result<(), io::Error> {
-            // Pipes on Vita do not guarantee that after `write` call succeeds, the
-            // data becomes immediately available for reading on the other side of the pipe.
-            // To ensure that the notification is not lost, the read side of the pipe is temporarily
-            // switched to blocking for a single `read` call.
-            #[cfg(target_os = "vita")]
-            rustix::fs::fcntl_setfl(
-                &self.read_pipe,
-                rustix::fs::fcntl_getfl(&self.read_pipe)? & !rustix::fs::OFlags::NONBLOCK,
-            )?;
-
-            let result = read(&self.read_pipe, &mut [0; 1]);
-
-            #[cfg(target_os = "vita")]
-            rustix::fs::fcntl_setfl(
-                &self.read_pipe,
-                rustix::fs::fcntl_getfl(&self.read_pipe)? | rustix::fs::OFlags::NONBLOCK,
-            )?;
-
-            result?;
+            read(&self.read_pipe, &mut [0; 1])?;
 
             Ok(())
         }
-- 
2.43.0

