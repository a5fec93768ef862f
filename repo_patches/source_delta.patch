From 242439255780a8506c82f72b2770bf0a750e5225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:14 +0000
Subject: [PATCH 01/29] fix: serve ready connections round-robin

IoHub::recv fetched up to two epoll events, handled one and discarded the
rest. The kernel rotates the ready list by the number of events it returned,
so with an even number of busy connections every other one was never served,
and joins could be starved for as long as the traffic lasted.
---
 ipmb/src/platform/linux.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 77cce29..65e8150 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -270,7 +270,7 @@ impl IoHub {
             bus_rx: Some(bus_rx),
             local_list: vec![],
             listener: Some(listener),
-            in_buffer: Vec::with_capacity(2),
+            in_buffer: Vec::with_capacity(1),
             im,
         }
     }
@@ -282,7 +282,7 @@ impl IoHub {
             bus_rx: None,
             local_list: vec![local],
             listener: None,
-            in_buffer: Vec::with_capacity(2),
+            in_buffer: Vec::with_capacity(1),
             im,
         }
     }
-- 
2.43.0


From d5e4ff5fb25a41467f17fba92492bf028fc653b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:14 +0000
Subject: [PATCH 02/29] fix: do not deliver a buffered message after its ttl
 has expired

Expired messages were only purged after the flush triggered by a new
endpoint, so on an idle bus an endpoint joining long after the ttl still
received them.
---
 ipmb/src/bus_controller.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ipmb/src/bus_controller.rs b/ipmb/src/bus_controller.rs
index e5eb1db..fb10c1a 100644
--- a/ipmb/src/bus_controller.rs
+++ b/ipmb/src/bus_controller.rs
@@ -78,11 +78,12 @@ impl BusController {
                     let mut message_buffer = mem::take(&mut self.message_buffer);
 
                     for (expire, msg) in message_buffer.drain(..) {
+                        if expire <= now {
+                            continue;
+                        }
                         let (remain, _) = self.handle_message(msg);
                         if let Some(remain) = remain {
-                            if expire > now {
-                                self.message_buffer_swap.push((expire, remain));
-                            }
+                            self.message_buffer_swap.push((expire, remain));
                         }
                     }
 
-- 
2.43.0


From 19d6667bfcc18772162a96ab96588652a17905eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:15 +0000
Subject: [PATCH 03/29] fix: a huge ttl must not panic the bus controller

now + Duration::MAX overflows and panicked the controller thread, taking the
whole bus down.
---
 ipmb/src/bus_controller.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/bus_controller.rs b/ipmb/src/bus_controller.rs
index fb10c1a..5590245 100644
--- a/ipmb/src/bus_controller.rs
+++ b/ipmb/src/bus_controller.rs
@@ -13,6 +13,9 @@ use std::{
 };
 use type_uuid::TypeUuid;
 
+// Roughly 30 years, used when the ttl of a message is out of range of `Instant`
+const MAXIMUM_TTL: Duration = Duration::from_secs(30 * 365 * 24 * 60 * 60);
+
 pub struct BusController {
     label: Label,
     token: String,
@@ -71,8 +74,10 @@ impl BusController {
 
                 if let Some(remain) = remain {
                     if !remain.selector.ttl.is_zero() {
-                        self.message_buffer
-                            .push((now + remain.selector.ttl, remain));
+                        let expire = now
+                            .checked_add(remain.selector.ttl)
+                            .unwrap_or_else(|| now + MAXIMUM_TTL);
+                        self.message_buffer.push((expire, remain));
                     }
                 } else if endpoint_connected && !self.message_buffer.is_empty() {
                     let mut message_buffer = mem::take(&mut self.message_buffer);
-- 
2.43.0


From e2b65dc3ce41d511675daaad50baffbc144699ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:16 +0000
Subject: [PATCH 04/29] fix: linux: tell an endpoint of an incompatible version
 that it is refused

The controller replies ErrVersion to the remote of a VersionMismatch, but
from_local never provided one, so joining with an incompatible version got no
reply and retried forever instead of failing with JoinError::VersionMismatch.
---
 ipmb/src/platform/linux/encoded_message.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 18c45ab..b7420be 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -106,7 +106,9 @@ impl EncodedMessage {
             let remote_version = Version((major, minor, patch));
 
             if !version().compatible(remote_version) {
-                return Err(Error::VersionMismatch(remote_version, None));
+                // A connect message carries the reply channel of the joining endpoint
+                let remote = objects.pop().map(Remote::new);
+                return Err(Error::VersionMismatch(remote_version, remote));
             }
 
             let selector_size_ptr = version_ptr.offset(1);
-- 
2.43.0


From c6c5b215fe0c7dd47a7e215df94da0177c7fbfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:16 +0000
Subject: [PATCH 05/29] fix: linux: sending to a closed peer must not raise
 SIGPIPE

Rust binaries ignore SIGPIPE, but users of ipmb-ffi do not: a C/C++ program
was killed by its first send after the bus controller went away instead of
rejoining the bus.
---
 ipmb/src/platform/linux/encoded_message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index b7420be..b1e5020 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -166,7 +166,7 @@ impl EncodedMessage {
         }
 
         let remote_guard = remote.lock();
-        let r = unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, 0) };
+        let r = unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, libc::MSG_NOSIGNAL) };
         if r == -1 {
             for r in self.memory_regions.iter() {
                 r.ref_count_inner(-1);
-- 
2.43.0


From 525ff3fe422c93011e0170fb47b16a019e57540e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:17 +0000
Subject: [PATCH 06/29] fix: linux: retry sendmsg when it is interrupted by a
 signal

EINTR was taken for a disconnect: the controller evicted a healthy endpoint,
and a client abandoned its connection together with its unread messages.
---
 ipmb/src/platform/linux/encoded_message.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index b1e5020..ad9cf93 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -166,7 +166,13 @@ impl EncodedMessage {
         }
 
         let remote_guard = remote.lock();
-        let r = unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, libc::MSG_NOSIGNAL) };
+        let r = loop {
+            let r = unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, libc::MSG_NOSIGNAL) };
+            if r == -1 && io::Error::last_os_error().kind() == io::ErrorKind::Interrupted {
+                continue;
+            }
+            break r;
+        };
         if r == -1 {
             for r in self.memory_regions.iter() {
                 r.ref_count_inner(-1);
-- 
2.43.0


From fbf0cf53e1f28118c6e6412083a2df4696a631af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 07/29] fix: linux: open all descriptors with close-on-exec

Accepted connections and descriptors received with a message leaked into the
child processes of the controller, and kept the connections of the bus open
after the controller died, so the endpoints never noticed and never rejoined.
---
 ipmb/src/platform/linux.rs                 | 8 ++++++--
 ipmb/src/platform/linux/encoded_message.rs | 2 +-
 ipmb/src/platform/linux/io_mul.rs          | 4 ++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 65e8150..a6d6bc5 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -321,8 +321,12 @@ impl IoHub {
                 if let Some(ref listener) = self.listener {
                     if ev.u64 == listener.as_raw() as u64 {
                         unsafe {
-                            let fd =
-                                libc::accept(listener.as_raw(), ptr::null_mut(), ptr::null_mut());
+                            let fd = libc::accept4(
+                                listener.as_raw(),
+                                ptr::null_mut(),
+                                ptr::null_mut(),
+                                libc::SOCK_CLOEXEC,
+                            );
                             if fd != -1 {
                                 let local = Local(Fd::from_raw(fd));
                                 let _ = libc::setsockopt(
diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index ad9cf93..0fa72ed 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -72,7 +72,7 @@ impl EncodedMessage {
 
             hdr.msg_flags = 0;
 
-            r = libc::recvmsg(local.0.as_raw(), &mut hdr, 0);
+            r = libc::recvmsg(local.0.as_raw(), &mut hdr, libc::MSG_CMSG_CLOEXEC);
             // When remote disconnected, recvmsg returns 0
             if r <= 0
                 || (hdr.msg_flags & libc::MSG_TRUNC == libc::MSG_TRUNC)
diff --git a/ipmb/src/platform/linux/io_mul.rs b/ipmb/src/platform/linux/io_mul.rs
index df3d8ca..f9eb9f8 100644
--- a/ipmb/src/platform/linux/io_mul.rs
+++ b/ipmb/src/platform/linux/io_mul.rs
@@ -9,13 +9,13 @@ pub struct IoMultiplexing {
 impl IoMultiplexing {
     pub fn new() -> Self {
         let fd = unsafe {
-            let fd = libc::epoll_create1(0);
+            let fd = libc::epoll_create1(libc::EPOLL_CLOEXEC);
             assert_ne!(fd, -1);
             Fd::from_raw(fd)
         };
 
         let waker_fd = unsafe {
-            let efd = libc::eventfd(0, 0);
+            let efd = libc::eventfd(0, libc::EFD_CLOEXEC);
             assert_ne!(efd, -1);
             Fd::from_raw(efd)
         };
-- 
2.43.0


From a414fc7b3192b9a7e2d8fc35f3ed2fcd28da5dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 08/29] fix: linux: receive messages with more than four
 attachments

The control buffer had room for four descriptors. A message with more was
lost, and its sender was disconnected together with everything it had queued.
---
 ipmb/src/platform/linux/encoded_message.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 0fa72ed..06e0fae 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -5,6 +5,9 @@ use crate::{
 use std::{io, mem, os::fd::RawFd, ptr, slice};
 use type_uuid::TypeUuid;
 
+// The maximum number of descriptors the kernel accepts in one message
+const SCM_MAX_FD: u32 = 253;
+
 /// Message layout
 /// | version (magic__major__minor__patch)
 /// | selector_size (u32)
@@ -58,7 +61,8 @@ impl EncodedMessage {
 
             let meta = Meta {
                 iov_len: r as _,
-                control_len: 32, // TODO: How to peek this?
+                // The control length cannot be peeked, reserve for the maximum
+                control_len: libc::CMSG_SPACE(SCM_MAX_FD * mem::size_of::<RawFd>() as u32),
             };
 
             // recv payload
-- 
2.43.0


From 48d752c69d0ff95f1d0df2227d3c6b288bf75886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:34 +0000
Subject: [PATCH 09/29] fix: linux: a signal must not make recv report a
 timeout

epoll_wait is never restarted, so any handled signal made recv(None) return
RecvError::Timeout. The millisecond conversion also truncated: timeouts of
49 days wrapped around, and shorter ones expired up to 1 ms early.
---
 ipmb/src/platform/linux/io_mul.rs | 34 +++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/ipmb/src/platform/linux/io_mul.rs b/ipmb/src/platform/linux/io_mul.rs
index f9eb9f8..33dc37e 100644
--- a/ipmb/src/platform/linux/io_mul.rs
+++ b/ipmb/src/platform/linux/io_mul.rs
@@ -1,5 +1,8 @@
 use super::Fd;
-use std::{ffi, mem, time::Duration};
+use std::{
+    ffi, io, mem,
+    time::{Duration, Instant},
+};
 
 pub struct IoMultiplexing {
     fd: Fd,
@@ -39,15 +42,28 @@ impl IoMultiplexing {
     }
 
     pub(crate) fn wait(&self, events: &mut Vec<libc::epoll_event>, timeout: Option<Duration>) {
+        let end = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
+
         unsafe {
-            let n = libc::epoll_wait(
-                self.fd.as_raw(),
-                events.as_mut_ptr(),
-                events.capacity() as _,
-                timeout
-                    .map(|tot| tot.as_millis() as ffi::c_int)
-                    .unwrap_or(-1),
-            );
+            let n = loop {
+                // Round up, otherwise wait will return before the timeout expires
+                let remain = end
+                    .map(|end| {
+                        let remain = end.saturating_duration_since(Instant::now());
+                        ((remain.as_micros() + 999) / 1000).min(ffi::c_int::MAX as _) as ffi::c_int
+                    })
+                    .unwrap_or(-1);
+                let n = libc::epoll_wait(
+                    self.fd.as_raw(),
+                    events.as_mut_ptr(),
+                    events.capacity() as _,
+                    remain,
+                );
+                if n == -1 && io::Error::last_os_error().kind() == io::ErrorKind::Interrupted {
+                    continue;
+                }
+                break n;
+            };
             if n < 1 {
                 events.clear();
             } else {
-- 
2.43.0


From 96cff2a9d1ed494ddd963276911e6001b0a14c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:02 +0000
Subject: [PATCH 10/29] fix: the timeout of recv covers skipped messages and
 rejoining

Every message of a type the endpoint does not understand restarted the whole
timeout, so recv(Some(timeout)) never returned while such messages kept
arriving.
---
 ipmb/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 4f17f2b..ac04b83 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -203,7 +203,10 @@ pub struct EndpointReceiver<R> {
 
 impl<'de, R: MessageBox> EndpointReceiver<R> {
     pub fn recv(&mut self, timeout: Option<Duration>) -> Result<Message<R>, RecvError> {
+        let end = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
+
         loop {
+            let timeout = end.map(|end| end.saturating_duration_since(Instant::now()));
             let rule = self.rule.read().unwrap();
             match &*rule {
                 Rule::Client {
-- 
2.43.0


From 911f00ea5ed190f3350f6c2b26afac70daada8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:03 +0000
Subject: [PATCH 11/29] fix: MemoryRegion::map must not map beyond the region

A range beyond the end of the region was mapped without error and accessing
the returned slice was fatal (SIGBUS); an offset beyond the end overflowed.
---
 ipmb/src/platform/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ipmb/src/platform/mod.rs b/ipmb/src/platform/mod.rs
index 6a8d8b6..077c14c 100644
--- a/ipmb/src/platform/mod.rs
+++ b/ipmb/src/platform/mod.rs
@@ -117,9 +117,15 @@ impl MemoryRegion {
 
     pub fn map(&mut self, range: impl RangeBounds<usize>) -> Result<&mut [u8], Error> {
         let (offset, size) = util::range_to_offset_size(range);
-        let size = size.unwrap_or_else(|| {
-            usize::try_from(self.buffer_size() - offset as u64).unwrap_or(usize::MAX)
-        });
+        let remain = self
+            .buffer_size()
+            .checked_sub(offset as u64)
+            .map(|remain| usize::try_from(remain).unwrap_or(usize::MAX))
+            .ok_or(Error::MemoryRegionMapping)?;
+        let size = size.unwrap_or(remain);
+        if size > remain {
+            return Err(Error::MemoryRegionMapping);
+        }
         let real_offset = Self::header_length() + offset;
 
         let need_remap = self
-- 
2.43.0


From 144e795145e82e2c2570836581159b65dda86b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:03 +0000
Subject: [PATCH 12/29] fix: allocating a huge memory region must fail, not
 overflow

---
 ipmb/src/memory_registry.rs | 2 +-
 ipmb/src/platform/mod.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/memory_registry.rs b/ipmb/src/memory_registry.rs
index 6a17adb..92517be 100644
--- a/ipmb/src/memory_registry.rs
+++ b/ipmb/src/memory_registry.rs
@@ -34,7 +34,7 @@ impl MemoryRegistry {
     ) -> Option<MemoryRegion> {
         let now = Instant::now();
 
-        for (_, rs) in self.inner.range_mut(min_size..min_size * 2) {
+        for (_, rs) in self.inner.range_mut(min_size..min_size.saturating_mul(2)) {
             for r in rs {
                 if r.region.ref_count_inner(0) == 1 && tag == r.tag.as_deref() {
                     r.last_alloc = now;
diff --git a/ipmb/src/platform/mod.rs b/ipmb/src/platform/mod.rs
index 077c14c..6f56654 100644
--- a/ipmb/src/platform/mod.rs
+++ b/ipmb/src/platform/mod.rs
@@ -61,7 +61,7 @@ impl MemoryRegion {
     }
 
     pub fn new(size: usize) -> Option<Self> {
-        let real_size = Self::header_length() + size;
+        let real_size = Self::header_length().checked_add(size)?;
         let obj = Self::obj_new(real_size)?;
 
         unsafe {
-- 
2.43.0


From 096a3b96e4d01d8afb9a2e0f7f16e2aa5cccd2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:04 +0000
Subject: [PATCH 13/29] fix: linux: detect endpoints that are gone

SO_ERROR stays 0 when the peer of a unix socket closes cleanly, so the
controller kept endpoints that left (and their descriptors) until a message
happened to be routed to them, forever if none matched their label.
---
 ipmb/src/platform/linux/fd.rs | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/ipmb/src/platform/linux/fd.rs b/ipmb/src/platform/linux/fd.rs
index a3ffe26..9f2d06e 100644
--- a/ipmb/src/platform/linux/fd.rs
+++ b/ipmb/src/platform/linux/fd.rs
@@ -1,6 +1,6 @@
 use std::{
     fmt::Debug,
-    io, mem,
+    io,
     os::fd::{self, AsRawFd, FromRawFd, IntoRawFd},
     sync::{Mutex, MutexGuard},
 };
@@ -45,23 +45,14 @@ impl Remote {
     }
 
     pub fn is_dead(&self) -> bool {
-        let mut err: i32 = 0;
-        let mut len: u32 = mem::size_of_val(&err) as _;
-        let r = unsafe {
-            libc::getsockopt(
-                self.v,
-                libc::SOL_SOCKET,
-                libc::SO_ERROR,
-                &mut err as *mut _ as *mut _,
-                &mut len,
-            )
+        let mut pfd = libc::pollfd {
+            fd: self.v,
+            events: 0,
+            revents: 0,
         };
+        let r = unsafe { libc::poll(&mut pfd, 1, 0) };
 
-        if r == -1 || err != 0 {
-            true
-        } else {
-            false
-        }
+        r > 0 && pfd.revents & (libc::POLLERR | libc::POLLHUP | libc::POLLNVAL) != 0
     }
 }
 
-- 
2.43.0


From ce374d0a48d6146115524571602a3191c176a2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:05 +0000
Subject: [PATCH 14/29] fix: join must observe its timeout

It retried forever while the identifier was bound by a socket that does not
listen, and panicked when the timeout was out of range of Instant.
---
 ipmb/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index ac04b83..13d5823 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -416,7 +416,7 @@ impl Rule {
         im: Arc<IoMultiplexing>,
         timeout: Option<Duration>,
     ) -> Result<Self, JoinError> {
-        let end = timeout.map(|timeout| Instant::now() + timeout);
+        let end = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
 
         macro_rules! wait {
             () => {
@@ -489,7 +489,11 @@ impl Rule {
                             };
                             break rule;
                         }
-                        Err(Error::IdentifierInUse) => {}
+                        Err(Error::IdentifierInUse) => {
+                            if end.map_or(false, |end| Instant::now() >= end) {
+                                return Err(JoinError::Timeout);
+                            }
+                        }
                         Err(Error::PermissionDenied) => {
                             permission_denied_count += 1;
                             if permission_denied_count > 5 {
-- 
2.43.0


From 62e97ec65697e09264c0016a9b2d6e786acfbb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:05 +0000
Subject: [PATCH 15/29] fix: ffi: accept a null pointer for an empty message

---
 ipmb-ffi/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipmb-ffi/src/lib.rs b/ipmb-ffi/src/lib.rs
index c950e0a..5835f3f 100644
--- a/ipmb-ffi/src/lib.rs
+++ b/ipmb-ffi/src/lib.rs
@@ -282,7 +282,11 @@ pub unsafe extern "C" fn ipmb_message(
     ptr: *const u8,
     size: u32,
 ) -> Message {
-    let data = slice::from_raw_parts(ptr, size as _).to_owned();
+    let data = if size == 0 {
+        vec![]
+    } else {
+        slice::from_raw_parts(ptr, size as _).to_owned()
+    };
 
     ipmb::Message::<ipmb::BytesMessage>::new(selector.into(), ipmb::BytesMessage { format, data })
         .into()
-- 
2.43.0


From dc42bb5b061a1f1ab5e12f82b82092ce069861b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:53 +0000
Subject: [PATCH 16/29] verif hook: version override under cfg(ipmb_verif)

---
 ipmb/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 13d5823..7b54704 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -590,7 +590,15 @@ impl Display for Version {
     }
 }
 
+#[allow(unexpected_cfgs)]
 static VERSION: Lazy<Version> = Lazy::new(|| {
+    // Verification only: lets a test process pose as another version, e.g. `0.9.0`
+    #[cfg(ipmb_verif)]
+    if let Ok(v) = std::env::var("IPMB_VERIF_VERSION") {
+        let v: Vec<u8> = v.split('.').map(|n| n.parse().unwrap()).collect();
+        return Version((v[0], v[1], v[2]));
+    }
+
     let v_major = env!("CARGO_PKG_VERSION_MAJOR");
     let v_minor = env!("CARGO_PKG_VERSION_MINOR");
     let v_patch = env!("CARGO_PKG_VERSION_PATCH");
-- 
2.43.0


From 666234b32cb97f6b0f9f607174dc4949e8f5444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:10 +0000
Subject: [PATCH 17/29] fix: linux: messages of the bus host must not starve
 the connections

---
 ipmb/src/platform/linux.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index a6d6bc5..3905599 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -256,6 +256,8 @@ pub(crate) struct IoHub {
     listener: Option<Fd>,
     in_buffer: Vec<libc::epoll_event>,
     im: Arc<IoMultiplexing>,
+    // The previous message came from `bus_rx`, it's the turn of the others
+    poll_first: bool,
 }
 
 impl IoHub {
@@ -272,6 +274,7 @@ impl IoHub {
             listener: Some(listener),
             in_buffer: Vec::with_capacity(1),
             im,
+            poll_first: false,
         }
     }
 
@@ -284,6 +287,7 @@ impl IoHub {
             listener: None,
             in_buffer: Vec::with_capacity(1),
             im,
+            poll_first: false,
         }
     }
 
@@ -295,9 +299,12 @@ impl IoHub {
         let _ = remote;
 
         'ret: loop {
-            if let Some(ref rx) = self.bus_rx {
+            let poll_first = mem::take(&mut self.poll_first);
+
+            if let Some(rx) = self.bus_rx.as_ref().filter(|_| !poll_first) {
                 match rx.try_recv() {
                     Ok(message) => {
+                        self.poll_first = true;
                         break Ok(message);
                     }
                     Err(mpsc::TryRecvError::Empty) => {}
@@ -307,9 +314,17 @@ impl IoHub {
                 }
             }
 
-            self.im.wait(&mut self.in_buffer, timeout);
+            let wait_timeout = if poll_first {
+                Some(Duration::ZERO)
+            } else {
+                timeout
+            };
+            self.im.wait(&mut self.in_buffer, wait_timeout);
 
             if self.in_buffer.is_empty() {
+                if poll_first {
+                    continue;
+                }
                 break Err(Error::Timeout);
             }
 
-- 
2.43.0


From 973059a1b8680459599359cdbcced103afd4f820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:09 +0000
Subject: [PATCH 18/29] fix: linux: forward only the control data that was
 received

---
 ipmb/src/platform/linux/encoded_message.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 06e0fae..5074d62 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -85,6 +85,9 @@ impl EncodedMessage {
                 return Err(Error::Disconnect);
             }
 
+            // The remainder is uninitialized, and must not be sent when the message is forwarded
+            control_data.truncate(hdr.msg_controllen as _);
+
             // parse
             let mut objects = vec![];
 
-- 
2.43.0


From a13c5f425dad086a8cd57fe3f5d2e7a5e557f5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:36 +0000
Subject: [PATCH 19/29] fix: linux: release the memory regions of unread
 messages when a receiver is closed

---
 ipmb/src/platform/linux.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 3905599..fe2065d 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -379,6 +379,16 @@ impl IoHub {
     }
 }
 
+impl Drop for IoHub {
+    fn drop(&mut self) {
+        // Nobody will receive what is left, but the memory regions in it are still counted
+        for local in self.local_list.iter_mut() {
+            unsafe { libc::shutdown(local.0.as_raw(), libc::SHUT_RD) };
+            while !matches!(EncodedMessage::from_local(local), Err(Error::Disconnect)) {}
+        }
+    }
+}
+
 impl<T: MessageBox> message::Message<T> {
     fn encode_inner(&self) -> (&'static [u8], Vec<u8>, Vec<u8>) {
         // iov data
-- 
2.43.0


From e805b84d711cd0abbc2b613015a31a634914ce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:00 +0000
Subject: [PATCH 20/29] fix: MemoryRegion::map must refuse inverted and
 overflowing ranges

---
 ipmb/src/platform/mod.rs |  3 ++-
 ipmb/src/util/mod.rs     | 11 ++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/ipmb/src/platform/mod.rs b/ipmb/src/platform/mod.rs
index 6f56654..97e8bdd 100644
--- a/ipmb/src/platform/mod.rs
+++ b/ipmb/src/platform/mod.rs
@@ -116,7 +116,8 @@ impl MemoryRegion {
     }
 
     pub fn map(&mut self, range: impl RangeBounds<usize>) -> Result<&mut [u8], Error> {
-        let (offset, size) = util::range_to_offset_size(range);
+        let (offset, size) =
+            util::range_to_offset_size(range).ok_or(Error::MemoryRegionMapping)?;
         let remain = self
             .buffer_size()
             .checked_sub(offset as u64)
diff --git a/ipmb/src/util/mod.rs b/ipmb/src/util/mod.rs
index 326e85b..fcc9158 100644
--- a/ipmb/src/util/mod.rs
+++ b/ipmb/src/util/mod.rs
@@ -58,17 +58,18 @@ pub fn rand_string(length: usize) -> String {
         .collect()
 }
 
-pub fn range_to_offset_size<S: RangeBounds<usize>>(bounds: S) -> (usize, Option<usize>) {
+/// Returns `None` if the range is inverted or overflows
+pub fn range_to_offset_size<S: RangeBounds<usize>>(bounds: S) -> Option<(usize, Option<usize>)> {
     let offset = match bounds.start_bound() {
         Bound::Included(&bound) => bound,
-        Bound::Excluded(&bound) => bound + 1,
+        Bound::Excluded(&bound) => bound.checked_add(1)?,
         Bound::Unbounded => 0,
     };
     let size = match bounds.end_bound() {
-        Bound::Included(&bound) => Some(bound + 1 - offset),
-        Bound::Excluded(&bound) => Some(bound - offset),
+        Bound::Included(&bound) => Some(bound.checked_add(1)?.checked_sub(offset)?),
+        Bound::Excluded(&bound) => Some(bound.checked_sub(offset)?),
         Bound::Unbounded => None,
     };
 
-    (offset, size)
+    Some((offset, size))
 }
-- 
2.43.0


From 0a17433774f26c4b203268d0aceb93fa3718d734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:02 +0000
Subject: [PATCH 21/29] fix: an empty window of a memory region at a page
 boundary can be mapped

---
 ipmb/src/platform/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/platform/mod.rs b/ipmb/src/platform/mod.rs
index 97e8bdd..e8b1011 100644
--- a/ipmb/src/platform/mod.rs
+++ b/ipmb/src/platform/mod.rs
@@ -176,7 +176,7 @@ impl Drop for MappedRegion {
             let adjustment_for_alignment = self.offset - aligned_offset;
             Self::unmap(
                 self.buffer.as_mut_ptr().sub(adjustment_for_alignment) as _,
-                adjustment_for_alignment + self.buffer.len(),
+                (adjustment_for_alignment + self.buffer.len()).max(1),
             );
         }
     }
@@ -190,7 +190,9 @@ impl MappedRegion {
     ) -> Result<Self, Error> {
         let aligned_offset = trunc_page(offset);
         let adjustment_for_alignment = offset - aligned_offset;
-        let addr = Self::map(obj, aligned_offset, adjustment_for_alignment + size)?;
+        // An empty mapping is not possible
+        let aligned_size = (adjustment_for_alignment + size).max(1);
+        let addr = Self::map(obj, aligned_offset, aligned_size)?;
 
         Ok(Self {
             offset,
-- 
2.43.0


From e8fdf64fed6c7cae1da6848bbfa2a882bdb34666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 22/29] fix: threads sharing an endpoint deadlock while joining
 again or dropping the receiver

A thread that sends held the lock that joining again and dropping the
receiver need, so it blocked them while it waited for the receiver, and a
thread that noticed the loss of the connection late waited for the receiver
of the connection that was established meanwhile.
---
 ipmb/src/lib.rs | 231 +++++++++++++++++++++++-------------------------
 1 file changed, 110 insertions(+), 121 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 7b54704..bb03b95 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -15,7 +15,7 @@ use std::{
     sync::{
         mpsc,
         mpsc::{Receiver, RecvTimeoutError, Sender},
-        Arc, Mutex, RwLock,
+        Arc, Condvar, Mutex, RwLock,
     },
     thread,
     time::{Duration, Instant},
@@ -89,20 +89,24 @@ pub fn join<'de, T: MessageBox, R: MessageBox>(
     options: Options,
     timeout: Option<Duration>,
 ) -> Result<(EndpointSender<T>, EndpointReceiver<R>), JoinError> {
-    let rule = Arc::new(RwLock::new(Rule::join(
-        options,
-        0,
-        Arc::new(IoMultiplexing::new()),
-        timeout,
-    )?));
+    let shared = Arc::new(Shared {
+        rule: RwLock::new(Rule::join(
+            options,
+            0,
+            Arc::new(IoMultiplexing::new()),
+            timeout,
+        )?),
+        rejoining: Mutex::new(false),
+        rejoined: Condvar::new(),
+    });
 
     Ok((
         EndpointSender {
-            rule: rule.clone(),
+            shared: shared.clone(),
             _marker: PhantomData,
         },
         EndpointReceiver {
-            rule,
+            shared,
             _maker: PhantomData,
         },
     ))
@@ -110,14 +114,14 @@ pub fn join<'de, T: MessageBox, R: MessageBox>(
 
 /// The sending half of endpoint, messages can be sent with [`send`](EndpointSender::send).
 pub struct EndpointSender<T> {
-    rule: Arc<RwLock<Rule>>,
+    shared: Arc<Shared>,
     _marker: PhantomData<T>,
 }
 
 impl<T> Clone for EndpointSender<T> {
     fn clone(&self) -> Self {
         Self {
-            rule: self.rule.clone(),
+            shared: self.shared.clone(),
             _marker: PhantomData,
         }
     }
@@ -129,7 +133,7 @@ impl<T: MessageBox> EndpointSender<T> {
         let mut msg = msg.into_encoded();
 
         loop {
-            let rule = self.rule.read().unwrap();
+            let rule = self.shared.rule.read().unwrap();
             match &*rule {
                 Rule::Client {
                     endpoint_id: _,
@@ -139,46 +143,18 @@ impl<T: MessageBox> EndpointSender<T> {
                     reader_closed: _,
                     im: _,
                     epoch,
-                } => match msg.send(remote) {
-                    Err(Error::Disconnect) => {
-                        let epoch = *epoch;
-                        drop(rule);
+                } => {
+                    let remote = remote.clone();
+                    let epoch = *epoch;
+                    // Sending may wait for the receiver, which may need the lock
+                    drop(rule);
 
-                        let mut rule = self.rule.write().unwrap();
-                        match &mut *rule {
-                            Rule::Client {
-                                endpoint_id: _,
-                                options,
-                                remote: _,
-                                io_hub,
-                                reader_closed,
-                                im,
-                                epoch: epoch1,
-                            } => {
-                                if epoch == *epoch1 {
-                                    let reader_closed = *reader_closed;
-
-                                    // Close reader
-                                    drop(io_hub.take());
-
-                                    *rule = Rule::join(
-                                        options.clone(),
-                                        epoch.overflowing_add(1).0,
-                                        im.clone(),
-                                        None,
-                                    )?;
-
-                                    if reader_closed {
-                                        rule.reader_close();
-                                    }
-                                }
-                            }
-                            Rule::Server { .. } => {}
-                        }
+                    match msg.send(&remote) {
+                        Err(Error::Disconnect) => self.shared.rejoin(epoch, None)?,
+                        Err(_) => unreachable!(),
+                        Ok(_) => break Ok(()),
                     }
-                    Err(_) => unreachable!(),
-                    Ok(_) => break Ok(()),
-                },
+                }
                 Rule::Server {
                     endpoint_id: _,
                     bus_sender,
@@ -197,7 +173,7 @@ impl<T: MessageBox> EndpointSender<T> {
 /// The receiving half of endpoint, messages sent to the endpoint can be retrieved using [`recv`](EndpointReceiver::recv), dropping receiver will close underly receving kernel buffer.
 // Don't impl Clone
 pub struct EndpointReceiver<R> {
-    rule: Arc<RwLock<Rule>>,
+    shared: Arc<Shared>,
     _maker: PhantomData<R>,
 }
 
@@ -207,7 +183,7 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
 
         loop {
             let timeout = end.map(|end| end.saturating_duration_since(Instant::now()));
-            let rule = self.rule.read().unwrap();
+            let rule = self.shared.rule.read().unwrap();
             match &*rule {
                 Rule::Client {
                     endpoint_id: _,
@@ -222,39 +198,8 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                         let epoch = *epoch;
                         drop(rule);
 
-                        let mut rule = self.rule.write().unwrap();
-                        match &mut *rule {
-                            Rule::Client {
-                                endpoint_id: _,
-                                options,
-                                remote: _,
-                                io_hub,
-                                reader_closed,
-                                im,
-                                epoch: epoch1,
-                            } => {
-                                if epoch == *epoch1 {
-                                    let reader_closed = *reader_closed;
-
-                                    // Close reader
-                                    drop(io_hub.take());
-
-                                    *rule = Rule::join(
-                                        options.clone(),
-                                        epoch.overflowing_add(1).0,
-                                        im.clone(),
-                                        timeout,
-                                    )?;
-
-                                    if reader_closed {
-                                        rule.reader_close();
-                                    }
-                                }
-
-                                continue;
-                            }
-                            Rule::Server { .. } => continue,
-                        }
+                        self.shared.rejoin(epoch, timeout)?;
+                        continue;
                     }
 
                     let mut io_hub_guard = io_hub.as_ref().expect("reader closed").lock().unwrap();
@@ -291,39 +236,8 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                             drop(io_hub_guard);
                             drop(rule);
 
-                            let mut rule = self.rule.write().unwrap();
-                            match &mut *rule {
-                                Rule::Client {
-                                    endpoint_id: _,
-                                    options,
-                                    remote: _,
-                                    io_hub,
-                                    reader_closed,
-                                    im,
-                                    epoch: epoch1,
-                                } => {
-                                    if epoch == *epoch1 {
-                                        let reader_closed = *reader_closed;
-
-                                        // Close reader
-                                        drop(io_hub.take());
-
-                                        *rule = Rule::join(
-                                            options.clone(),
-                                            epoch.overflowing_add(1).0,
-                                            im.clone(),
-                                            timeout,
-                                        )?;
-
-                                        if reader_closed {
-                                            rule.reader_close();
-                                        }
-                                    }
-
-                                    continue;
-                                }
-                                Rule::Server { .. } => continue,
-                            }
+                            self.shared.rejoin(epoch, timeout)?;
+                            continue;
                         }
                         Err(Error::Timeout) => {
                             break Err(RecvError::Timeout);
@@ -384,17 +298,85 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
 
 impl<R> Drop for EndpointReceiver<R> {
     fn drop(&mut self) {
-        let mut rule = self.rule.write().unwrap();
+        let mut rule = self.shared.rule.write().unwrap();
         rule.reader_close();
     }
 }
 
+struct Shared {
+    rule: RwLock<Rule>,
+    rejoining: Mutex<bool>,
+    rejoined: Condvar,
+}
+
+impl Shared {
+    /// Join again if the connection is still the one of `epoch`. One thread does, without
+    /// holding `rule`, the others wait for it.
+    fn rejoin(&self, epoch: u32, timeout: Option<Duration>) -> Result<(), JoinError> {
+        let end = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
+
+        let mut rejoining = self.rejoining.lock().unwrap();
+        while *rejoining {
+            rejoining = match end {
+                Some(end) => {
+                    let remain = end.saturating_duration_since(Instant::now());
+                    if remain.is_zero() {
+                        return Err(JoinError::Timeout);
+                    }
+                    self.rejoined.wait_timeout(rejoining, remain).unwrap().0
+                }
+                None => self.rejoined.wait(rejoining).unwrap(),
+            };
+        }
+
+        // The receiver holds the lock as long as its connection is alive, so look before
+        // waiting for it
+        match &*self.rule.read().unwrap() {
+            Rule::Client { epoch: epoch1, .. } if epoch == *epoch1 => {}
+            _ => return Ok(()),
+        }
+
+        let (options, im) = match &mut *self.rule.write().unwrap() {
+            Rule::Client {
+                options,
+                io_hub,
+                im,
+                ..
+            } => {
+                // Close reader
+                drop(io_hub.take());
+                (options.clone(), im.clone())
+            }
+            Rule::Server { .. } => unreachable!(),
+        };
+
+        *rejoining = true;
+        drop(rejoining);
+
+        let timeout = end.map(|end| end.saturating_duration_since(Instant::now()));
+        let r = Rule::join(options, epoch.overflowing_add(1).0, im, timeout);
+
+        let r = r.map(|mut new_rule| {
+            let mut rule = self.rule.write().unwrap();
+            if rule.is_reader_closed() {
+                new_rule.reader_close();
+            }
+            *rule = new_rule;
+        });
+
+        *self.rejoining.lock().unwrap() = false;
+        self.rejoined.notify_all();
+
+        r
+    }
+}
+
 enum Rule {
     Client {
         #[allow(dead_code)]
         endpoint_id: EndpointID,
         options: Options,
-        remote: Remote,
+        remote: Arc<Remote>,
         io_hub: Option<Mutex<IoHub>>,
         reader_closed: bool,
         im: Arc<IoMultiplexing>,
@@ -449,7 +431,7 @@ impl Rule {
                     let rule = Rule::Client {
                         endpoint_id,
                         options,
-                        remote,
+                        remote: Arc::new(remote),
                         io_hub: Some(Mutex::new(io_hub)),
                         reader_closed: false,
                         im,
@@ -541,6 +523,13 @@ impl Rule {
 }
 
 impl Rule {
+    fn is_reader_closed(&self) -> bool {
+        match self {
+            Rule::Client { reader_closed, .. } => *reader_closed,
+            Rule::Server { receiver, .. } => receiver.is_none(),
+        }
+    }
+
     fn reader_close(&mut self) {
         match self {
             Rule::Client {
-- 
2.43.0


From 62096ee2cde1e5989ba7e3c0284672939a4e27b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 23/29] fix: linux: connecting to a listener that does not
 accept must not block forever

---
 ipmb/src/platform/linux.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index fe2065d..5dbb790 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -95,6 +95,22 @@ fn identifier_to_socket_addr(identifier: &str) -> libc::sockaddr_un {
     addr
 }
 
+fn set_send_timeout(fd: &Fd, secs: libc::time_t) {
+    let timeout = libc::timeval {
+        tv_sec: secs,
+        tv_usec: 0,
+    };
+    let _ = unsafe {
+        libc::setsockopt(
+            fd.as_raw(),
+            libc::SOL_SOCKET,
+            libc::SO_SNDTIMEO,
+            &timeout as *const _ as _,
+            mem::size_of_val(&timeout) as _,
+        )
+    };
+}
+
 pub(crate) fn look_up(
     identifier: &str,
     label: Label,
@@ -108,6 +124,9 @@ pub(crate) fn look_up(
         }
         let fd = Fd::from_raw(fd);
 
+        // Connecting must not block forever if nobody accepts
+        set_send_timeout(&fd, 2);
+
         let addr = identifier_to_socket_addr(identifier);
 
         let mut r = libc::connect(
@@ -126,6 +145,7 @@ pub(crate) fn look_up(
                 _ => Error::IoError(err),
             });
         }
+        set_send_timeout(&fd, 0);
         let _ = libc::setsockopt(
             fd.as_raw(),
             libc::SOL_SOCKET,
-- 
2.43.0


From 4c27bef424f258e5607e6c825a46fd85ee250c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 24/29] fix: linux: recv with a very long timeout returned too
 early

---
 ipmb/src/platform/linux/io_mul.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipmb/src/platform/linux/io_mul.rs b/ipmb/src/platform/linux/io_mul.rs
index 33dc37e..311cd06 100644
--- a/ipmb/src/platform/linux/io_mul.rs
+++ b/ipmb/src/platform/linux/io_mul.rs
@@ -62,6 +62,10 @@ impl IoMultiplexing {
                 if n == -1 && io::Error::last_os_error().kind() == io::ErrorKind::Interrupted {
                     continue;
                 }
+                // A very long timeout takes several rounds
+                if n == 0 && end.map_or(true, |end| Instant::now() < end) {
+                    continue;
+                }
                 break n;
             };
             if n < 1 {
-- 
2.43.0


From d28ecd06ce1905bf9c5dee9ea6e648756672e09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:03 +0000
Subject: [PATCH 25/29] fix: recv with a timeout waited up to twice as long
 when the bus host died

---
 ipmb/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index bb03b95..ba7ff9a 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -236,6 +236,8 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                             drop(io_hub_guard);
                             drop(rule);
 
+                            let timeout =
+                                end.map(|end| end.saturating_duration_since(Instant::now()));
                             self.shared.rejoin(epoch, timeout)?;
                             continue;
                         }
-- 
2.43.0


From dae8141ed7fb0f5d4d8577c92d35f6f7dc205cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 26/29] fix: linux: joining a host that dies must not wait two
 seconds for its answer

---
 ipmb/src/platform/linux.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 5dbb790..4a14d35 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -211,6 +211,8 @@ pub(crate) fn look_up(
 
         let mut encoded_msg = msg.into_encoded();
         encoded_msg.send(&remote)?;
+        // Only the bus keeps the write end, so that its death is noticed
+        drop(encoded_msg);
 
         let mut io_hub: IoHub = IoHub::for_endpoint(Local(read_fd), im);
         // Wait ack
-- 
2.43.0


From cedf1945a334344b853335a95f7a64299d24bba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:41 +0000
Subject: [PATCH 27/29] fix: ffi: mapping a window beyond the address space
 must fail, not overflow

---
 ipmb-ffi/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipmb-ffi/src/lib.rs b/ipmb-ffi/src/lib.rs
index 5835f3f..74d730b 100644
--- a/ipmb-ffi/src/lib.rs
+++ b/ipmb-ffi/src/lib.rs
@@ -410,7 +410,10 @@ pub unsafe extern "C" fn ipmb_memory_region_map(
     if size < 0 {
         region.map(offset..)
     } else {
-        region.map(offset..offset + size as usize)
+        let Some(end) = offset.checked_add(size as usize) else {
+            return ptr::null_mut();
+        };
+        region.map(offset..end)
     }
     .map(|v| {
         if !real_size.is_null() {
-- 
2.43.0


From 41e4f7dfd8114da46a6c1f76fd68bde09b9639dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 28/29] fix: js: close must not block for as long as messages
 keep coming

---
 ipmb-js/src/lib.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/ipmb-js/src/lib.rs b/ipmb-js/src/lib.rs
index c83f50a..ba4d2ed 100644
--- a/ipmb-js/src/lib.rs
+++ b/ipmb-js/src/lib.rs
@@ -282,19 +282,22 @@ pub fn join(options: Options, timeout: Option<u32>, mut env: Env) -> Result<napi
     thread::spawn(move || loop {
         let r = receiver.recv(Some(Duration::from_millis(200)));
 
+        // Whatever has been received: messages that keep coming must not hold up the close
+        match guard_receiver.try_recv() {
+            Ok(_) => {
+                tsfn.destroy();
+                break;
+            }
+            Err(mpsc::TryRecvError::Disconnected) => {
+                break;
+            }
+            Err(mpsc::TryRecvError::Empty) => {}
+        }
+
         match r {
-            Err(ipmb::RecvError::Timeout) => match guard_receiver.try_recv() {
-                Ok(_) => {
-                    tsfn.destroy();
-                    break;
-                }
-                Err(mpsc::TryRecvError::Disconnected) => {
-                    break;
-                }
-                Err(mpsc::TryRecvError::Empty) => {
-                    tsfn.call(DelegateAction::CleanTimeout);
-                }
-            },
+            Err(ipmb::RecvError::Timeout) => {
+                tsfn.call(DelegateAction::CleanTimeout);
+            }
             Err(
                 ipmb::RecvError::VersionMismatch(_)
                 | ipmb::RecvError::TokenMismatch
-- 
2.43.0


From ccf130c2e02bf32be0d45d8078889b327faed355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 29/29] fix: js: messages nobody can ask for any more were kept
 until the environment ends

---
 ipmb-js/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipmb-js/src/lib.rs b/ipmb-js/src/lib.rs
index ba4d2ed..b14dc93 100644
--- a/ipmb-js/src/lib.rs
+++ b/ipmb-js/src/lib.rs
@@ -415,6 +415,8 @@ impl LocalBuffer {
 
     fn close(&mut self, env: Env, tsfn: ThreadsafeFunction) {
         self.closed = true;
+        // Nobody can ask for them any more, and the environment keeps this buffer until it ends
+        self.messages.clear();
         let deferred_list = mem::take(&mut self.deferred_list);
 
         if let Ok(err) = env.create_error(Error::new(Status::GenericFailure, "closed")) {
-- 
2.43.0

