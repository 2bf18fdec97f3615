From b5eab0529335cce51514fcc90bd3c302d69c95df Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:51:38 +0000
Subject: [PATCH 01/56] fix: import AsiRequestQueueFullError so a full queue
 raises it instead of NameError

---
 src/infi/asi/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index 452c196..069333c 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -3,7 +3,7 @@ __import__("pkg_resources").declare_namespace(__name__)
 import os
 from infi.instruct import *
 from infi.pyutils.decorators import wraps
-from .errors import AsiException, AsiCheckConditionError, AsiInternalError
+from .errors import AsiException, AsiCheckConditionError, AsiInternalError, AsiRequestQueueFullError
 from .sense import *
 
 try:
-- 
2.43.0


From 14880b83c8987cc2d344b03b385e239916eb873a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:52:46 +0000
Subject: [PATCH 02/56] fix: never reuse the packet index of a request that is
 still pending

---
 src/infi/asi/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index 069333c..dffe739 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -116,6 +116,8 @@ class CommandExecuterBase(CommandExecuter):
     def _next_packet_index(self):
         if len(self.pending_packets) >= self.max_queue_size:
             raise AsiRequestQueueFullError()
+        while self.packet_index in self.pending_packets:
+            self.packet_index = (self.packet_index + 1) % self.max_queue_size
         result = self.packet_index
         self.packet_index = (self.packet_index + 1) % self.max_queue_size
         return result
-- 
2.43.0


From 8e71de7e04b1e003c9b9ed47ad1cfde74ed3e1a8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:52:50 +0000
Subject: [PATCH 03/56] fix: do not wait for a response when no request is
 pending

---
 src/infi/asi/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index dffe739..0564abf 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -125,6 +125,7 @@ class CommandExecuterBase(CommandExecuter):
     def _process_pending_response(self):
         if self.is_queue_empty():
             yield False
+            return
 
         result, packet_id = yield self._os_receive()
 
-- 
2.43.0


From 7c2c33bb671f586ff4c1bd4c7ac84a9d0c24f3f0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:52:53 +0000
Subject: [PATCH 04/56] fix: the callback of send() is optional when its
 response is processed

---
 src/infi/asi/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index 0564abf..2b83baa 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -133,10 +133,11 @@ class CommandExecuterBase(CommandExecuter):
         if request is None:
             raise AsiInternalError("SCSI response doesn't appear in the pending I/O list.")
 
-        if isinstance(result, Exception):
-            callback(None, result)
-        else:
-            callback(result, None)
+        if callback is not None:
+            if isinstance(result, Exception):
+                callback(None, result)
+            else:
+                callback(result, None)
 
         yield True
 
-- 
2.43.0


From 83e75c6b965caf35898f1aeabff0daec0eaacd58 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:52:57 +0000
Subject: [PATCH 05/56] fix: CommandExecuterAdapter.is_queue_full returns the
 executer's answer, which is not a coroutine

---
 src/infi/asi/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index 2b83baa..c797658 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -176,7 +176,7 @@ class CommandExecuterAdapter(CommandExecuter):
         return self.call_wrapper(self.executer.send, command, callback)
 
     def is_queue_full(self):
-        return self.call_wrapper(self.executer.is_queue_full)
+        return self.executer.is_queue_full()
 
     def wait(self):
         return self.call_wrapper(self.executer.wait)
-- 
2.43.0


From e2237fa55fc871faaf03f5bc6a59d2786d620486 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:53:02 +0000
Subject: [PATCH 06/56] fix: sync_call invokes the function once

---
 src/infi/asi/coroutines/sync_adapter.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/infi/asi/coroutines/sync_adapter.py b/src/infi/asi/coroutines/sync_adapter.py
index 689b105..91daa8f 100755
--- a/src/infi/asi/coroutines/sync_adapter.py
+++ b/src/infi/asi/coroutines/sync_adapter.py
@@ -68,7 +68,6 @@ class SyncCoroutine(Coroutine):
         return True
 
 def sync_call(func, *init_args, **init_kwargs):
-    stack = [ func(*init_args, **init_kwargs) ]
     return sync_wait(func(*init_args, **init_kwargs))
 
 def sync_wait(generator):
-- 
2.43.0


From 23bc685527ecac4ccade0a51d11291b794729b18 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:53:06 +0000
Subject: [PATCH 07/56] fix: an exception a coroutine handled is not raised
 again in its caller

---
 src/infi/asi/coroutines/sync_adapter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/coroutines/sync_adapter.py b/src/infi/asi/coroutines/sync_adapter.py
index 91daa8f..7488d48 100755
--- a/src/infi/asi/coroutines/sync_adapter.py
+++ b/src/infi/asi/coroutines/sync_adapter.py
@@ -19,7 +19,8 @@ class Coroutine(object):
         """ invokes next generator in stack. returns False if execution should stop """
         try:
             if isinstance(self.args, BaseException):
-                self.result = self.stack[-1].throw(self.args, None, self.tb)
+                exception, self.args = self.args, None
+                self.result = self.stack[-1].throw(exception, None, self.tb)
             else:
                 self.result = self.stack[-1].send(self.args)
             self.args = None
-- 
2.43.0


From b67ead51f722094f33984278a04141d3924c3c0d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:53:09 +0000
Subject: [PATCH 08/56] fix: a finished coroutine's result is a value, not a
 leftover generator or async IO token

---
 src/infi/asi/coroutines/sync_adapter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/infi/asi/coroutines/sync_adapter.py b/src/infi/asi/coroutines/sync_adapter.py
index 7488d48..8790cae 100755
--- a/src/infi/asi/coroutines/sync_adapter.py
+++ b/src/infi/asi/coroutines/sync_adapter.py
@@ -45,6 +45,7 @@ class Coroutine(object):
             if not self._next_step():
                 return self.result
         self.done = True
+        self.result = self.args
         return self.result
 
     def is_done(self):
-- 
2.43.0


From 9ad855940ad8ef45f3b946d22dc8b55381293252 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:53:13 +0000
Subject: [PATCH 09/56] fix: a failed async IO raises in the coroutine that
 waits for it

---
 src/infi/asi/coroutines/sync_adapter.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/coroutines/sync_adapter.py b/src/infi/asi/coroutines/sync_adapter.py
index 8790cae..aace36d 100755
--- a/src/infi/asi/coroutines/sync_adapter.py
+++ b/src/infi/asi/coroutines/sync_adapter.py
@@ -15,6 +15,14 @@ class Coroutine(object):
     def _handle_async_io_token(self):
         raise NotImplementedError()
 
+    def _complete_async_io_token(self, **kwargs):
+        """ makes the outcome of the current token the next input of the coroutine that is waiting for it """
+        try:
+            self.args = self.result.get_result(**kwargs)
+        except BaseException as e:
+            self.tb = sys.exc_info()[2]
+            self.args = e
+
     def _next_step(self):
         """ invokes next generator in stack. returns False if execution should stop """
         try:
@@ -61,12 +69,12 @@ class AsyncCoroutine(Coroutine):
     def async_io_complete(self):
         """ Callback for reactor to signal that a blocking async IO has been completed """
         # current self.result is an Async IO Token, we can ask for its result now and continue with the stack
-        self.args = self.result.get_result()
+        self._complete_async_io_token()
 
 class SyncCoroutine(Coroutine):
     def _handle_async_io_token(self):
         # we just ask for a synhronous result from self.result which is the Async IO Token, and then continue
-        self.args = self.result.get_result(block=True)
+        self._complete_async_io_token(block=True)
         return True
 
 def sync_call(func, *init_args, **init_kwargs):
-- 
2.43.0


From bfe8c28c6ce93573dde55cadc33ae0e089e49fa3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 10/56] fix: linux: a reservation conflict is a SCSI status,
 not a host status

---
 src/infi/asi/linux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index bb5b4f0..11a6e4a 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -240,7 +240,7 @@ class LinuxCommandExecuter(CommandExecuterBase):
         if response_sgio.status != 0:
             if response_sgio.host_status == 0x07:
                 return (AsiRequestQueueFullError(), packet_id)
-            if response_sgio.host_status == SCSI_STATUS_CODES['SCSI_STATUS_RESERVATION_CONFLICT']:
+            if response_sgio.status == SCSI_STATUS_CODES['SCSI_STATUS_RESERVATION_CONFLICT']:
                 return (AsiReservationConflictError(), packet_id)
             error = AsiSCSIError(("SCSI response status is not zero: %s" +
                                   "(driver status: %s, host status: %s)") %
-- 
2.43.0


From 2f3649f1c7d1ab581b1fbcb54e7fcc6d0a605459 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:53:58 +0000
Subject: [PATCH 11/56] fix: linux: a response to an unknown request raises
 AsiInternalError, not AttributeError

---
 src/infi/asi/linux.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index 11a6e4a..7299d6d 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -264,7 +264,8 @@ class LinuxCommandExecuter(CommandExecuterBase):
             return (error, packet_id)
 
         data = None
-        if request_sgio.dxfer_direction == SG_DXFER_FROM_DEV and request_sgio.dxfer_len != 0:
+        if request_sgio is not None and \
+                request_sgio.dxfer_direction == SG_DXFER_FROM_DEV and request_sgio.dxfer_len != 0:
             data = request_sgio.data_buffer.raw
 
         return (data, packet_id)
-- 
2.43.0


From e792e102606f0c2003a1fcf672a80224627cc625 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:54:01 +0000
Subject: [PATCH 12/56] fix: linux: read the status the SG_IO ioctl returns
 instead of the request's own zeros

---
 src/infi/asi/linux.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index 7299d6d..eddfedf 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -285,8 +285,10 @@ class LinuxIoctlCommandExecuter(LinuxCommandExecuter):
 
     def _os_send(self, os_data):
         from fcntl import ioctl
-        self.buffer = os_data.to_raw()
-        gevent_friendly(ioctl)(self.io.fd, SG_IO, self.buffer)
+        # the buffer must be mutable, otherwise the ioctl can't return the status fields in it
+        buffer = create_string_buffer(os_data.to_raw(), SGIO.sizeof())
+        gevent_friendly(ioctl)(self.io.fd, SG_IO, buffer)
+        self.buffer = buffer.raw
         yield len(self.buffer)
 
     def _os_receive(self):
-- 
2.43.0


From e16d30bca1e44977833ef75e19ee2affe578cb8f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:54:05 +0000
Subject: [PATCH 13/56] fix: ioctl executers answer every queued request, not
 only the last one sent

---
 src/infi/asi/aix.py     | 14 ++++++++------
 src/infi/asi/linux.py   |  7 ++++---
 src/infi/asi/solaris.py | 17 +++++++++--------
 3 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/infi/asi/aix.py b/src/infi/asi/aix.py
index e0d105b..8236eb6 100644
--- a/src/infi/asi/aix.py
+++ b/src/infi/asi/aix.py
@@ -312,6 +312,7 @@ class sc_passthru(Structure):
         memset(buf, 0, sizeof(sc_passthru))
         scsicmd = sc_passthru.from_buffer(buf)
         scsicmd.source_buffer = buf
+        scsicmd.packet_id = pack_id
         scsicmd.version = SCSI_VERSION_2
         scsicmd.init_sense_buffer()
         scsicmd.init_command_buffer(command.command)
@@ -365,6 +366,7 @@ class AixCommandExecuter(CommandExecuterBase):
         super(AixCommandExecuter, self).__init__(max_queue_size)
         self.io = io
         self.timeout = timeout
+        self.buffers = []
 
     def _os_prepare_to_send(self, command, packet_index):
         return sc_passthru.create(packet_index, self.io, command, self.timeout)
@@ -380,13 +382,13 @@ class AixCommandExecuter(CommandExecuterBase):
             elif os_data.status_validity == 0:
                 # no valid status to parse in _handle_raw_response
                 raise AsiOSError("ioctl failed, no valid status")
-        self.buffer = os_data.to_raw()
-        yield len(self.buffer)
+        buffer = os_data.to_raw()
+        self.buffers.append((os_data.packet_id, buffer))
+        yield len(buffer)
 
-    def _handle_raw_response(self, raw):
+    def _handle_raw_response(self, packet_id, raw):
         response_cmd = sc_passthru.from_string(raw)
 
-        packet_id = 0
         request_cmd = self._get_os_data(packet_id)
 
         if response_cmd.status_validity != 0:
@@ -407,5 +409,5 @@ class AixCommandExecuter(CommandExecuterBase):
         return (data, packet_id)
 
     def _os_receive(self):
-        raw = yield self.buffer
-        yield self._handle_raw_response(raw)
+        packet_id, raw = yield self.buffers.pop(0)
+        yield self._handle_raw_response(packet_id, raw)
diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index eddfedf..82a4c96 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -282,15 +282,16 @@ class LinuxIoctlCommandExecuter(LinuxCommandExecuter):
         super(LinuxIoctlCommandExecuter, self).__init__(io, max_queue_size, timeout)
         self.io = io
         self.timeout = timeout
+        self.buffers = []
 
     def _os_send(self, os_data):
         from fcntl import ioctl
         # the buffer must be mutable, otherwise the ioctl can't return the status fields in it
         buffer = create_string_buffer(os_data.to_raw(), SGIO.sizeof())
         gevent_friendly(ioctl)(self.io.fd, SG_IO, buffer)
-        self.buffer = buffer.raw
-        yield len(self.buffer)
+        self.buffers.append(buffer.raw)
+        yield len(buffer)
 
     def _os_receive(self):
-        raw = yield self.buffer
+        raw = yield self.buffers.pop(0)
         yield self._handle_raw_response(raw)
diff --git a/src/infi/asi/solaris.py b/src/infi/asi/solaris.py
index b24f09d..11530be 100644
--- a/src/infi/asi/solaris.py
+++ b/src/infi/asi/solaris.py
@@ -155,6 +155,7 @@ class SCSICMD(Structure):
         memset(buf, 0, sizeof(SCSICMD))
         scsicmd = SCSICMD.from_buffer(buf)
         scsicmd.source_buffer = buf
+        scsicmd.packet_id = pack_id
         scsicmd.init_sense_buffer()
         scsicmd.init_command_buffer(command.command)
         scsicmd.uscsi_timeout = timeout
@@ -189,25 +190,25 @@ class SolarisCommandExecuter(CommandExecuterBase):
         super(SolarisCommandExecuter, self).__init__(max_queue_size)
         self.io = io
         self.timeout = timeout
+        self.buffers = []
 
     def _os_prepare_to_send(self, command, packet_index):
         return SCSICMD.create(packet_index, command, self.timeout)
 
     def _os_send(self, os_data):
         from fcntl import ioctl
-        self.buffer = os_data.to_raw()
+        buffer = os_data.to_raw()
         # IMPORTANT: we must pass a ctypes string for the ioctl, and not just a
         # string, otherwise the ioctl won't be able to modify relevant status
         # values in the buffer (e.g. uscsi_status):
-        buffer_ctypes_string = create_string_buffer(self.buffer)
+        buffer_ctypes_string = create_string_buffer(buffer)
         gevent_friendly(ioctl)(self.io.fd, USCSICMD, buffer_ctypes_string)
-        self.buffer = buffer_ctypes_string.raw
-        yield len(self.buffer)
+        self.buffers.append((os_data.packet_id, buffer_ctypes_string.raw))
+        yield len(buffer_ctypes_string)
 
-    def _handle_raw_response(self, raw):
+    def _handle_raw_response(self, packet_id, raw):
         response_cmd = SCSICMD.from_string(raw)
 
-        packet_id = 0
         request_cmd = self._get_os_data(packet_id)
         response_status_code = response_cmd.uscsi_status & 0xFF
         response_reason_code = (response_cmd.uscsi_status << 8) & 0xFF
@@ -232,5 +233,5 @@ class SolarisCommandExecuter(CommandExecuterBase):
         return (data, packet_id)
 
     def _os_receive(self):
-        raw = yield self.buffer
-        yield self._handle_raw_response(raw)
+        packet_id, raw = yield self.buffers.pop(0)
+        yield self._handle_raw_response(packet_id, raw)
-- 
2.43.0


From a66b98fea607525678d54a8ad8132729e55209b3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:54:08 +0000
Subject: [PATCH 14/56] fix: solaris: report the uscsi reason code, the high
 byte of the status word

---
 src/infi/asi/solaris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/solaris.py b/src/infi/asi/solaris.py
index 11530be..311835c 100644
--- a/src/infi/asi/solaris.py
+++ b/src/infi/asi/solaris.py
@@ -211,7 +211,7 @@ class SolarisCommandExecuter(CommandExecuterBase):
 
         request_cmd = self._get_os_data(packet_id)
         response_status_code = response_cmd.uscsi_status & 0xFF
-        response_reason_code = (response_cmd.uscsi_status << 8) & 0xFF
+        response_reason_code = (response_cmd.uscsi_status >> 8) & 0xFF
 
         if response_status_code & SCSI_STATUS_CODES['SCSI_STATUS_CHECK_CONDITION']:
             logger.debug("response_cmd.status = 0x{:x}".format(response_cmd.uscsi_status))
-- 
2.43.0


From a352cc84e0099b4d130a9528d2c567b223209b24 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:54:12 +0000
Subject: [PATCH 15/56] fix: aix: notice that the libc ioctl failed

---
 src/infi/asi/aix.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/aix.py b/src/infi/asi/aix.py
index 8236eb6..90dfab5 100644
--- a/src/infi/asi/aix.py
+++ b/src/infi/asi/aix.py
@@ -374,7 +374,9 @@ class AixCommandExecuter(CommandExecuterBase):
     def _os_send(self, os_data):
         try:
             ioctl = gevent_friendly(get_ioctl_function())
-            ioctl(self.io.fd, DK_PASSTHRU, addressof(os_data))
+            # unlike fcntl.ioctl, the libc function returns -1 instead of raising
+            if ioctl(self.io.fd, DK_PASSTHRU, addressof(os_data)) == -1:
+                raise IOError("ioctl failed")
         except IOError:
             if os_data.einval_arg != 0:
                 msg = "ioctl failed, invalid argument: {}"
-- 
2.43.0


From 0dce8c0d9fb91c0d2baf89edb1c865ba47ee0fe9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:54:16 +0000
Subject: [PATCH 16/56] fix: win32: a failed overlapped I/O is an error

---
 src/infi/asi/win32.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/win32.py b/src/infi/asi/win32.py
index 2b3ce44..16b7b32 100755
--- a/src/infi/asi/win32.py
+++ b/src/infi/asi/win32.py
@@ -146,7 +146,8 @@ class WinAsyncIOToken(OSAsyncIOToken):
     def get_result(self, block=False):
         result = c_ulong()
         overlapped_struct = overlapped_struct_from_event(self.event)
-        err = kernel32.GetOverlappedResult(self.handle, byref(self.overlapped), byref(result), block)
+        if not kernel32.GetOverlappedResult(self.handle, byref(self.overlapped), byref(result), block):
+            raise AsiWin32OSError(GetLastError(), "GetOverlappedResult failed")
         return result
 
 class Win32AsyncFile(OSAsyncFile, Win32File):
-- 
2.43.0


From 39d38b6957fd36b359f3a382b3a28a96663ba04c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:54:19 +0000
Subject: [PATCH 17/56] fix: win32: an overlapped I/O that completes
 immediately is not an error

---
 src/infi/asi/win32.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/win32.py b/src/infi/asi/win32.py
index 16b7b32..292347e 100755
--- a/src/infi/asi/win32.py
+++ b/src/infi/asi/win32.py
@@ -165,7 +165,7 @@ class Win32AsyncFile(OSAsyncFile, Win32File):
         api_result = DeviceIoControl(self.handle, control_code, input, input_size, output, output_size,
                                      None, byref(self._overlapped_struct))
         last_error = GetLastError()
-        if not api_result and last_error == ERROR_IO_PENDING:
+        if api_result or last_error == ERROR_IO_PENDING:
             token = WinAsyncIOToken(self.handle, self._overlapped_struct, self._windows_event_handle)
             yield token
         else:
-- 
2.43.0


From 90827f202ec0a9d648054180f02de2a3b6e653d6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 18/56] fix: descriptor format sense data keeps its length in
 byte 7

---
 src/infi/asi/sense/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/sense/__init__.py b/src/infi/asi/sense/__init__.py
index 4c6f796..5fa61e7 100644
--- a/src/infi/asi/sense/__init__.py
+++ b/src/infi/asi/sense/__init__.py
@@ -59,7 +59,7 @@ class SCSISenseDataDescriptorBased(Struct):
             BitPadding(4)
             ),
         Field("additional_sense_code", AdditionalSenseCode),
-        BytePadding(2),
+        BytePadding(3),
         SumSizeArray("descriptors", UBInt8,
                      StructSelector(UBInt8, SENSE_DESCIPTOR_TYPES, default=SCSISenseDataGenericDescriptor))
     ]
-- 
2.43.0


From 859f34372aa35e3baf2922ae59334ad0dffbf27e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:55:14 +0000
Subject: [PATCH 19/56] fix: a check condition with malformed sense data is
 still a check condition

---
 src/infi/asi/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index c797658..4aeb94a 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -157,7 +157,10 @@ class CommandExecuterBase(CommandExecuter):
         raise NotImplementedError()
 
     def _check_condition(self, buf):
-        sense = get_sense_object_from_buffer(buf)
+        try:
+            sense = get_sense_object_from_buffer(buf)
+        except (InstructError, AssertionError):  # malformed sense data, the raw buffer is all there is
+            sense = None
         return AsiCheckConditionError(buf, sense)
 
 # TODO: maybe add a ReactorCommandExecuter that also adds a "register_response_listener()" that automatically reads
-- 
2.43.0


From eefa9b20c198ff7eae092e1bdb54f7fd3949a075 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 20/56] fix: the NNh ranges of additional sense codes include
 FFh

---
 src/infi/asi/sense/asc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/sense/asc.py b/src/infi/asi/sense/asc.py
index 052f25f..1be2678 100644
--- a/src/infi/asi/sense/asc.py
+++ b/src/infi/asi/sense/asc.py
@@ -668,10 +668,10 @@ ASC_CODES = {
     struct.pack(">BB", 0x7F, 0x00): "VENDOR SPECIFIC",
 }
 
-for i in range(0x80, 0xFF):
+for i in range(0x80, 0x100):
     ASC_CODES[struct.pack(">BB", 0x40, i)] = "DIAGNOSTIC FAILURE ON COMPONENT %2X" % (i,)
 
-for i in range(0, 0xFF):
+for i in range(0, 0x100):
     ASC_CODES[struct.pack(">BB", 0x4D, i)] = "TAGGED OVERLAPPED COMMANDS (%2X = TASK TAG)" % (i,)
     ASC_CODES[struct.pack(">BB", 0x70, i)] = "DECOMPRESSION EXCEPTION SHORT ALGORITHM ID OF %2X" % (i,)
 
-- 
2.43.0


From b46098bfb32e6f5fa1700f928f4cfbb7c84baa34 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:55:22 +0000
Subject: [PATCH 21/56] fix: READ(6) of 256 blocks honours the block size

---
 src/infi/asi/cdb/read.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/read.py b/src/infi/asi/cdb/read.py
index e59524d..c3bb325 100644
--- a/src/infi/asi/cdb/read.py
+++ b/src/infi/asi/cdb/read.py
@@ -39,8 +39,7 @@ class Read6Command(CDB):
         datagram = self.create_datagram()
         read_length = self.block_size * self.transfer_length
         if read_length == 0: # This is only in READ 6
-            # read_length = 256 * self.block_size
-            read_length = 256 * 512
+            read_length = 256 * self.block_size
         result_datagram = yield executer.call(SCSIReadCommand(datagram, read_length))
         yield result_datagram
 
-- 
2.43.0


From d98e2beb854c12a2e746442dc432db6d27c24d8d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:55:26 +0000
Subject: [PATCH 22/56] fix: WRITE SAME honours the block size

---
 src/infi/asi/cdb/write_same.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/write_same.py b/src/infi/asi/cdb/write_same.py
index d3ada25..455dce7 100644
--- a/src/infi/asi/cdb/write_same.py
+++ b/src/infi/asi/cdb/write_same.py
@@ -33,7 +33,7 @@ class WriteSame10Command(CDB):
 
     def __init__(self, logical_block_address, buffer, number_of_blocks=1 ,block_size=DEFAULT_BLOCK_SIZE):
         super(WriteSame10Command, self).__init__()
-        assert (len(buffer) %  DEFAULT_BLOCK_SIZE)==0, "buffer length {0} is not a multiple of {1}".format(len(buffer), DEFAULT_BLOCK_SIZE)
+        assert (len(buffer) %  block_size)==0, "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)
         self.logical_block_address = logical_block_address
         self.buffer = buffer
         self.number_of_blocks = number_of_blocks
@@ -66,7 +66,7 @@ class WriteSame16Command(CDB):
                 ]
     def __init__(self, logical_block_address, buffer, number_of_blocks=1 ,block_size=DEFAULT_BLOCK_SIZE):
         super(WriteSame16Command, self).__init__()
-        assert (len(buffer) %  DEFAULT_BLOCK_SIZE)==0, "buffer length {0} is not a multiple of {1}".format(len(buffer), DEFAULT_BLOCK_SIZE)
+        assert (len(buffer) %  block_size)==0, "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)
         self.logical_block_address = logical_block_address
         self.buffer = buffer
         self.number_of_blocks = number_of_blocks
-- 
2.43.0


From b1ae67bc55d9d9740f382cf629f909955c835fc9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 23/56] fix: UNMAP DATA LENGTH counts the 6 header bytes after
 it

---
 src/infi/asi/cdb/unmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/unmap.py b/src/infi/asi/cdb/unmap.py
index 7ca710f..5ea7b2e 100644
--- a/src/infi/asi/cdb/unmap.py
+++ b/src/infi/asi/cdb/unmap.py
@@ -49,7 +49,7 @@ class UnmapParameterListHeader(CDB):
 
     def __init__(self, data_length):
         super(UnmapParameterListHeader, self).__init__()
-        self.unmap_data_length=data_length+7
+        self.unmap_data_length=data_length+6
         self.unmap_block_descriptor_data_length=data_length
         self.datagram = self.create_datagram()
 
-- 
2.43.0


From 85c18bf1697fd09368bb6f3505d08c26718d7c54 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 24/56] fix: extended RTPG descriptors start after the 8 byte
 header

---
 src/infi/asi/cdb/rtpg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/rtpg.py b/src/infi/asi/cdb/rtpg.py
index 5aee687..9c25fb8 100755
--- a/src/infi/asi/cdb/rtpg.py
+++ b/src/infi/asi/cdb/rtpg.py
@@ -83,5 +83,5 @@ class TargetPortGroupLengthOnlyResponse(Buffer):
 class TargetPortGroupExtendedResponse(Buffer):
     data_length = be_int_field(where=bytes_ref[0:4])
     format_type = be_int_field(where=bytes_ref[4].bits[4:7])
-    descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[7:7 + data_length])
+    descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[8:4 + data_length])
     # ...
-- 
2.43.0


From 2e51b6e353c416fc5fc60a906e97a89d22ac2542 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:55:41 +0000
Subject: [PATCH 25/56] fix: RTPG counts and lengths are unsigned

---
 src/infi/asi/cdb/rtpg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/infi/asi/cdb/rtpg.py b/src/infi/asi/cdb/rtpg.py
index 9c25fb8..b643fd1 100755
--- a/src/infi/asi/cdb/rtpg.py
+++ b/src/infi/asi/cdb/rtpg.py
@@ -71,17 +71,17 @@ class TargetPortGroupDescriptor(Buffer):
     t_sup = be_int_field(where=bytes_ref[1].bits[7])
 
     target_port_group = be_uint_field(where=bytes_ref[2:4])
-    status_code = be_int_field(where=bytes_ref[5])
+    status_code = be_uint_field(where=bytes_ref[5])
 
-    target_port_count = be_int_field(where=bytes_ref[7])
+    target_port_count = be_uint_field(where=bytes_ref[7])
     target_port_list = list_field(type=TargetPortDescriptor, where=bytes_ref[8:], n=target_port_count)
 
 class TargetPortGroupLengthOnlyResponse(Buffer):
-    data_length = be_int_field(where=bytes_ref[0:4])
+    data_length = be_uint_field(where=bytes_ref[0:4])
     descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[4:4 + data_length])
 
 class TargetPortGroupExtendedResponse(Buffer):
-    data_length = be_int_field(where=bytes_ref[0:4])
+    data_length = be_uint_field(where=bytes_ref[0:4])
     format_type = be_int_field(where=bytes_ref[4].bits[4:7])
     descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[8:4 + data_length])
     # ...
-- 
2.43.0


From 5e482465422dd931e7790a857740ae6c8d83d78c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:55:45 +0000
Subject: [PATCH 26/56] fix: READ FULL STATUS required_allocation_length raised
 NameError

---
 src/infi/asi/cdb/persist/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/persist/input.py b/src/infi/asi/cdb/persist/input.py
index 9fe81e7..0ca00d8 100644
--- a/src/infi/asi/cdb/persist/input.py
+++ b/src/infi/asi/cdb/persist/input.py
@@ -117,7 +117,7 @@ class PersistentReserveInReadFullStatusResponse(CDBBuffer):
         unpack_if=additional_length > 0)
 
     def required_allocation_length(self):
-        return additional_length + 8
+        return self.additional_length + 8
 
 
 class PersistentReserveInCommand(CDBBuffer):
-- 
2.43.0


From 26825957c72ca291d799b95fdc5b18e2ec1e5961 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 27/56] fix: READ RESERVATION scope and type need 22 bytes

---
 src/infi/asi/cdb/persist/input.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/persist/input.py b/src/infi/asi/cdb/persist/input.py
index 0ca00d8..36d3e6c 100644
--- a/src/infi/asi/cdb/persist/input.py
+++ b/src/infi/asi/cdb/persist/input.py
@@ -47,8 +47,8 @@ class PersistentReserveInReadReservationResponse(CDBBuffer):
     reservation_key = be_uint_field(where=bytes_ref[8:16], unpack_if=input_buffer_length >= 16)
     obsolete_1 = be_uint_field(where=bytes_ref[16:20], unpack_if=input_buffer_length >= 20)
     reserved_1 = be_uint_field(where=bytes_ref[20:21], unpack_if=input_buffer_length >= 21)
-    pr_type = be_uint_field(where=bytes_ref[21].bits[0:4], unpack_if=input_buffer_length >= 21)
-    scope = be_uint_field(where=bytes_ref[21].bits[4:8], unpack_if=input_buffer_length >= 21)
+    pr_type = be_uint_field(where=bytes_ref[21].bits[0:4], unpack_if=input_buffer_length >= 22)
+    scope = be_uint_field(where=bytes_ref[21].bits[4:8], unpack_if=input_buffer_length >= 22)
     obsolete_2 = be_uint_field(where=bytes_ref[22:24], unpack_if=input_buffer_length >= 24)
 
     def required_allocation_length(self):
-- 
2.43.0


From 178650a581a5c15727553fcf9ea1f11cf5cee74b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 28/56] fix: PERSISTENT RESERVE OUT honours APTPL

---
 src/infi/asi/cdb/persist/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/persist/output.py b/src/infi/asi/cdb/persist/output.py
index a86a2fa..c41d16c 100644
--- a/src/infi/asi/cdb/persist/output.py
+++ b/src/infi/asi/cdb/persist/output.py
@@ -42,7 +42,7 @@ class PersistentReserveOutCommandBasicParameterList(CDBBuffer):
     """
     reservation_key = be_uint_field(where=bytes_ref[0:8])
     service_action_reservation_key = be_uint_field(where=bytes_ref[8:16])
-    activate_persist_through_power_loss = be_uint_field(where=bytes_ref[20].bits[0], set_before_pack=0, default=0)
+    activate_persist_through_power_loss = be_uint_field(where=bytes_ref[20].bits[0], default=0)
     obsolete_1 = be_uint_field(where=bytes_ref[16:20], set_before_pack=0, default=0)
     all_target_ports = be_uint_field(where=bytes_ref[20].bits[2], default=0)
     specify_initiator_ports = be_uint_field(where=bytes_ref[20].bits[3], default=0)  
-- 
2.43.0


From 61501783ee4443ce9341fb01f0ab5f8e14e3efe8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:58:27 +0000
Subject: [PATCH 29/56] fix: 3 and 5 byte designator fields are big endian

---
 src/infi/asi/cdb/inquiry/vpd_pages/designators.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
index 8e85618..4b39c7b 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
@@ -24,8 +24,9 @@ class Reserved_Designator(DesignatorDescriptor):
 
 # spc4r30, section 7.8.5.5.2, page 617
 class EUI64_Designator(DesignatorDescriptor):
-    ieee_company = be_uint_field(where=bytes_ref[4:7])
-    vendor_specific_extension_identifer = be_uint_field(where=bytes_ref[7:12])
+    ieee_company = be_uint_field(where=(bytes_ref[6] + bytes_ref[5] + bytes_ref[4]))
+    vendor_specific_extension_identifer = be_uint_field(where=(bytes_ref[11] + bytes_ref[10] + bytes_ref[9] +
+                                                               bytes_ref[8] + bytes_ref[7]))
 
 
 # spc4r30, section 7.8.5.5.3, page 617
@@ -36,8 +37,9 @@ class EUI64_12Byte_Designator(EUI64_Designator):
 # spc4r30, section 7.8.5.5.4, page 618
 class EUI64_16Byte_Designator(DesignatorDescriptor):
     identifier_extension = be_uint_field(where=bytes_ref[4:12])
-    ieee_company = be_uint_field(where=bytes_ref[12:15])
-    vendor_specific_extension_identifer = be_uint_field(where=bytes_ref[15:20])
+    ieee_company = be_uint_field(where=(bytes_ref[14] + bytes_ref[13] + bytes_ref[12]))
+    vendor_specific_extension_identifer = be_uint_field(where=(bytes_ref[19] + bytes_ref[18] + bytes_ref[17] +
+                                                               bytes_ref[16] + bytes_ref[15]))
 
 
 # spc4r30, section 7.8.5.6.1, page 618
@@ -48,8 +50,8 @@ class NAA_Descriptor(DesignatorDescriptor):
 # spc4r30, section 7.8.5.6.2, page 619
 class NAA_IEEE_Extended_Designator(NAA_Descriptor):
     vendor_specific_identifier_a = be_uint_field(where=(bytes_ref[5] + bytes_ref[4].bits[0:4]))
-    ieee_company = be_uint_field(where=bytes_ref[6:9])
-    vendor_specific_identifier_b = be_uint_field(where=bytes_ref[9:12])
+    ieee_company = be_uint_field(where=(bytes_ref[8] + bytes_ref[7] + bytes_ref[6]))
+    vendor_specific_identifier_b = be_uint_field(where=(bytes_ref[11] + bytes_ref[10] + bytes_ref[9]))
 
 
 # spc4r30, section 7.8.5.6.2, page 619
-- 
2.43.0


From 36bf6200956e429830cd97cb2c543446ebf78efd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:58:46 +0000
Subject: [PATCH 30/56] fix: reserved designators keep their bytes in
 'designator'

---
 src/infi/asi/cdb/inquiry/vpd_pages/designators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
index 4b39c7b..8c77898 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
@@ -19,7 +19,7 @@ class DesignatorDescriptor(Buffer):
 # Designator types 09-0F are reserved
 class Reserved_Designator(DesignatorDescriptor):
     designator_length = be_uint_field(where=bytes_ref[3], set_before_pack=len_ref(self_ref.designator))
-    desginator = str_field(where=bytes_ref[4:4+designator_length])
+    designator = bytearray_field(where=bytes_ref[4:4+designator_length])
 
 
 # spc4r30, section 7.8.5.5.2, page 617
-- 
2.43.0


From 8a2c2a9d07f1f29a160f44fffa0d59027b20bffd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 31/56] fix: a packed T10 vendor id designator counts the 8
 bytes of the vendor

---
 src/infi/asi/cdb/inquiry/vpd_pages/designators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
index 8c77898..ceefc9e 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
@@ -108,7 +108,7 @@ class VendorSpecificDesignator(DesignatorDescriptor):
 
 
 class T10VendorIDDesignator(DesignatorDescriptor):
-    designator_length = be_uint_field(where=bytes_ref[3], set_before_pack=len_ref(self_ref.vendor_specific_identifier))
+    designator_length = be_uint_field(where=bytes_ref[3], set_before_pack=len_ref(self_ref.vendor_specific_identifier) + 8)
     t10_vendor_identification = str_field(where=bytes_ref[4:12])
     vendor_specific_identifier = bytearray_field(where=bytes_ref[12:4+designator_length])
 
-- 
2.43.0


From 554d4346dced03dee43ad72b7d578ca6327a9f24 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 32/56] fix: SES counts, lengths, codes and sizes are unsigned

---
 .../cdb/diagnostic/ses_pages/configuration.py | 20 +++++++-------
 .../ses_pages/element_descriptor.py           | 10 +++----
 .../diagnostic/ses_pages/enclosure_status.py  | 26 +++++++++----------
 .../diagnostic/ses_pages/supported_pages.py   |  6 ++---
 .../cdb/diagnostic/ses_pages/vendor_0x80.py   |  6 ++---
 5 files changed, 34 insertions(+), 34 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py b/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
index d7b7b3e..be139ed 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
@@ -65,8 +65,8 @@ ELEMENT_TYPE_CODES = {ELEMENT_TYPE_UNSPECIFIED: 'Unspecified',
 class EnclosureDescriptor(Buffer):
     enclosure_services_processes_num = be_int_field(where=bytes_ref[0].bits[0:3])
     relative_enclosure_services_process_identifier = be_int_field(where=bytes_ref[0].bits[4:7])
-    subenclosure_identifier = be_int_field(where=bytes_ref[1])
-    type_descriptor_headers_num = be_int_field(where=bytes_ref[2])
+    subenclosure_identifier = be_uint_field(where=bytes_ref[1])
+    type_descriptor_headers_num = be_uint_field(where=bytes_ref[2])
     enclosure_descriptor_length = be_uint_field(where=bytes_ref[3])
     enclosure_logical_identifier = bytearray_field(where=bytes_ref[4:12])
     enclosure_vendor_identification = str_field(where=bytes_ref[12:20])
@@ -77,10 +77,10 @@ class EnclosureDescriptor(Buffer):
 
 
 class TypeDescriptorHeader(Buffer):
-    element_type = be_int_field(where=bytes_ref[0], sign='unsigned')
-    possible_elements_num = be_int_field(where=bytes_ref[1])
-    subenclosure_identifier = be_int_field(where=bytes_ref[2])
-    type_descriptor_text_length = be_int_field(where=bytes_ref[3])
+    element_type = be_uint_field(where=bytes_ref[0])
+    possible_elements_num = be_uint_field(where=bytes_ref[1])
+    subenclosure_identifier = be_uint_field(where=bytes_ref[2])
+    type_descriptor_text_length = be_uint_field(where=bytes_ref[3])
 
 
 class ConfigurationDiagnosticPagesData(DiagnosticDataBuffer):
@@ -91,10 +91,10 @@ class ConfigurationDiagnosticPagesData(DiagnosticDataBuffer):
         l = self.type_descriptor_header_list[index].type_descriptor_text_length
         return buffer[0:l].to_bytes(), l
 
-    page_code = be_int_field(where=bytes_ref[0])
-    secondary_subenclosures_num = be_int_field(where=bytes_ref[1])
-    page_length = be_int_field(where=bytes_ref[2:4], set_before_pack=total_size - 4)
-    generation_code = be_int_field(where=bytes_ref[4:8])
+    page_code = be_uint_field(where=bytes_ref[0])
+    secondary_subenclosures_num = be_uint_field(where=bytes_ref[1])
+    page_length = be_uint_field(where=bytes_ref[2:4], set_before_pack=total_size - 4)
+    generation_code = be_uint_field(where=bytes_ref[4:8])
     enclosure_descriptor_list = list_field(type=EnclosureDescriptor,
                                            where=bytes_ref[8:],
                                            n=secondary_subenclosures_num + 1)
diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/element_descriptor.py b/src/infi/asi/cdb/diagnostic/ses_pages/element_descriptor.py
index 816ae12..85f63cc 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/element_descriptor.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/element_descriptor.py
@@ -1,9 +1,9 @@
-from infi.instruct.buffer import Buffer, bytes_ref, be_int_field, list_field, buffer_field, after_ref, member_func_ref, bytearray_field
+from infi.instruct.buffer import Buffer, bytes_ref, be_uint_field, list_field, buffer_field, after_ref, member_func_ref, bytearray_field
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
 class Descriptor(Buffer):
-    descriptor_length = be_int_field(where=bytes_ref[2:4])
+    descriptor_length = be_uint_field(where=bytes_ref[2:4])
     descriptor = bytearray_field(where_when_pack=bytes_ref[4:], where_when_unpack=bytes_ref[4:descriptor_length + 4])
 
 
@@ -30,9 +30,9 @@ class ElementDescriptorDiagnosticPagesData(DiagnosticDataBuffer):
     def _possible_elements_num(self):
         return len(self.conf_page.type_descriptor_header_list)
 
-    page_code = be_int_field(where=bytes_ref[0])
-    page_length = be_int_field(where=bytes_ref[2:4])
-    generation_code = be_int_field(where=bytes_ref[4:8])
+    page_code = be_uint_field(where=bytes_ref[0])
+    page_length = be_uint_field(where=bytes_ref[2:4])
+    generation_code = be_uint_field(where=bytes_ref[4:8])
     element_descriptors = list_field(where=bytes_ref[8:], type=ElementDescriptor,
                                      unpack_selector=_unpack_status_descriptor,
                                      n=member_func_ref(_possible_elements_num))
diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
index eb8d7b1..a95e8a4 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
@@ -1,4 +1,4 @@
-from infi.instruct.buffer import Buffer, bytes_ref, be_int_field, list_field, buffer_field, int8, member_func_ref
+from infi.instruct.buffer import Buffer, bytes_ref, be_int_field, be_uint_field, list_field, buffer_field, int8, member_func_ref
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
@@ -10,7 +10,7 @@ class GeneralElementInfo(Buffer):
 # ses3r05: 7.3.2
 class DeviceSlotElementInfo(Buffer):
     byte_size = 3
-    slot_address = be_int_field(where=bytes_ref[0])
+    slot_address = be_uint_field(where=bytes_ref[0])
     report = be_int_field(where=bytes_ref[1].bits[0])
     ident = be_int_field(where=bytes_ref[1].bits[1])
     rmv = be_int_field(where=bytes_ref[1].bits[2])
@@ -103,7 +103,7 @@ class TempSensorElementInfo(Buffer):
     byte_size = 3
     fail = be_int_field(where=bytes_ref[0].bits[6])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    temperature = be_int_field(where=bytes_ref[1])
+    temperature = be_uint_field(where=bytes_ref[1])
     ut_warn = be_int_field(where=bytes_ref[2].bits[0])
     ut_fail = be_int_field(where=bytes_ref[2].bits[1])
     ot_warn = be_int_field(where=bytes_ref[2].bits[2])
@@ -156,20 +156,20 @@ class NonVolotileCacheElementInfo(Buffer):
     size_mult = be_int_field(where=bytes_ref[0].bits[0:2])
     fail = be_int_field(where=bytes_ref[0].bits[6])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    cache_size = be_int_field(where=bytes_ref[1:])
+    cache_size = be_uint_field(where=bytes_ref[1:])
 
 
 # ses3r05: 7.3.12
 class InvalidOpReasonElementInfo(Buffer):
     byte_size = 3
     invop_type = be_int_field(where=bytes_ref[0].bits[6:8])
-    invop_bytes = be_int_field(where=bytes_ref[1:])
+    invop_bytes = be_uint_field(where=bytes_ref[1:])
 
 
 # ses3r05: 7.3.13
 class UninterruptiblePowerSupplyElementInfo(Buffer):
     byte_size = 3
-    battery_status = be_int_field(where=bytes_ref[0])
+    battery_status = be_uint_field(where=bytes_ref[0])
     intf_fail = be_int_field(where=bytes_ref[1].bits[0])
     warn = be_int_field(where=bytes_ref[1].bits[1])
     ups_fail = be_int_field(where=bytes_ref[1].bits[2])
@@ -190,7 +190,7 @@ class DisplayElementInfo(Buffer):
     display_mode_status = be_int_field(where=bytes_ref[0].bits[0:2])
     fail = be_int_field(where=bytes_ref[0].bits[6])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    display_char_status = be_int_field(where=bytes_ref[1:])
+    display_char_status = be_uint_field(where=bytes_ref[1:])
 
 
 # ses3r05: 7.3.15
@@ -227,7 +227,7 @@ class ScsiPortTransceiverElementInfo(Buffer):
 class LanguageElementInfo(Buffer):
     byte_size = 3
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    language_code = be_int_field(where=bytes_ref[1:])
+    language_code = be_uint_field(where=bytes_ref[1:])
 
 
 # ses3r05: 7.3.19
@@ -283,7 +283,7 @@ class SimpleSubenclosureElementInfo(Buffer):
     byte_size = 3
     fail = be_int_field(where=bytes_ref[0].bits[6])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    short_enclosure_status = be_int_field(where=bytes_ref[2])
+    short_enclosure_status = be_uint_field(where=bytes_ref[2])
 
 
 # ses3r05: 7.3.25
@@ -298,7 +298,7 @@ class SasConnectorElementInfo(Buffer):
     byte_size = 3
     connector_type = be_int_field(where=bytes_ref[0].bits[0:7])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    connector_phys_link = be_int_field(where=bytes_ref[1])
+    connector_phys_link = be_uint_field(where=bytes_ref[1])
     fail = be_int_field(where=bytes_ref[2].bits[6])
 
 
@@ -488,14 +488,14 @@ class EnclosureStatusDiagnosticPagesData(DiagnosticDataBuffer):
     def _possible_elements_num(self):
         return len(self.conf_page.type_descriptor_header_list)
 
-    page_code = be_int_field(where=bytes_ref[0])
+    page_code = be_uint_field(where=bytes_ref[0])
     unrecov = be_int_field(where=bytes_ref[1].bits[0])
     crit = be_int_field(where=bytes_ref[1].bits[1])
     non_crit = be_int_field(where=bytes_ref[1].bits[2])
     info = be_int_field(where=bytes_ref[1].bits[3])
     invop = be_int_field(where=bytes_ref[1].bits[4])
-    page_length = be_int_field(where=bytes_ref[2:4])
-    generation_code = be_int_field(where=bytes_ref[4:8])
+    page_length = be_uint_field(where=bytes_ref[2:4])
+    generation_code = be_uint_field(where=bytes_ref[4:8])
     status_descriptors = list_field(where=bytes_ref[8:], type=StatusDescriptor,
                                     unpack_selector=_unpack_status_descriptor,
                                     n=member_func_ref(_possible_elements_num))
diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py b/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
index bffbb72..489171b 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
@@ -1,11 +1,11 @@
-from infi.instruct.buffer import bytes_ref, be_int_field, uint8, list_field
+from infi.instruct.buffer import bytes_ref, be_uint_field, uint8, list_field
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
 # spc4r36f: 7.2.4
 class SupportedDiagnosticPagesData(DiagnosticDataBuffer):
-    page_code = be_int_field(where=bytes_ref[0:1])
-    page_length = be_int_field(where=bytes_ref[2:4])
+    page_code = be_uint_field(where=bytes_ref[0:1])
+    page_length = be_uint_field(where=bytes_ref[2:4])
     supported_pages = list_field(type=uint8, where=bytes_ref[4:])
 
 
diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py b/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
index eeed147..c08fe87 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
@@ -1,10 +1,10 @@
-from infi.instruct.buffer import bytes_ref, be_int_field, uint8, list_field
+from infi.instruct.buffer import bytes_ref, be_uint_field, uint8, list_field
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
 class Vendor0x80DiagnosticPagesData(DiagnosticDataBuffer):
-    page_code = be_int_field(where=bytes_ref[0:1])
-    page_length = be_int_field(where=bytes_ref[2:4])
+    page_code = be_uint_field(where=bytes_ref[0:1])
+    page_length = be_uint_field(where=bytes_ref[2:4])
     vendor_specific = list_field(type=uint8, where=bytes_ref[4:])
 
 
-- 
2.43.0


From e141e311dbecf7be18faaa918415e7c890b38f6c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 33/56] fix: SES element bytes of an unknown element type are
 unsigned

---
 src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
index a95e8a4..11ff467 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
@@ -1,10 +1,10 @@
-from infi.instruct.buffer import Buffer, bytes_ref, be_int_field, be_uint_field, list_field, buffer_field, int8, member_func_ref
+from infi.instruct.buffer import Buffer, bytes_ref, be_int_field, be_uint_field, list_field, buffer_field, uint8, member_func_ref
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
 class GeneralElementInfo(Buffer):
     byte_size = 3
-    general = list_field(type=int8, where=bytes_ref[0:])
+    general = list_field(type=uint8, where=bytes_ref[0:])
 
 
 # ses3r05: 7.3.2
-- 
2.43.0


From 930e23c789c520ba22c8a8305f3d5252ef4025e0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:59:22 +0000
Subject: [PATCH 34/56] fix: the high bits of a fan speed are in the first byte

---
 src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
index 11ff467..9c15f99 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
@@ -89,7 +89,7 @@ FAN_SPEED_CODE = {0: 'Cooling mechanism is stopped',
 class CoolingElementInfo(Buffer):
     byte_size = 3
     # for real fan speed the fan speed value should be multiplied by a factor of 10
-    fan_speed = be_int_field(where=(bytes_ref[0].bits[0:3] + bytes_ref[1]))
+    fan_speed = be_int_field(where=(bytes_ref[1] + bytes_ref[0].bits[0:3]))
     ident = be_int_field(where=bytes_ref[0].bits[7])
     speed_code = be_int_field(where=bytes_ref[2].bits[0:3])
     off = be_int_field(where=bytes_ref[2].bits[4])
-- 
2.43.0


From c27739c30598e61d7f60d14922c6eff7d9cac736 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 35/56] fix: the requests of an enclosure status element are in
 its last byte

---
 src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
index 9c15f99..d531b03 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
@@ -207,9 +207,9 @@ class EnclosureElementInfo(Buffer):
     warn_indication = be_int_field(where=bytes_ref[1].bits[0])
     failure_indication = be_int_field(where=bytes_ref[1].bits[1])
     time_until_power_cycle = be_int_field(where=bytes_ref[1].bits[2:8])
-    warn_requested = be_int_field(where=bytes_ref[1].bits[0])
-    failure_requested = be_int_field(where=bytes_ref[1].bits[1])
-    requested_power_off_duration = be_int_field(where=bytes_ref[1].bits[2:8])
+    warn_requested = be_int_field(where=bytes_ref[2].bits[0])
+    failure_requested = be_int_field(where=bytes_ref[2].bits[1])
+    requested_power_off_duration = be_int_field(where=bytes_ref[2].bits[2:8])
 
 
 # ses3r05: 7.3.17
-- 
2.43.0


From 7df5c45c55a2f8a522a982119290c55a8feae2bc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 36/56] fix: the vendor 80h diagnostic page ends at its page
 length

---
 src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py b/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
index c08fe87..ea08692 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
@@ -5,7 +5,7 @@ from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 class Vendor0x80DiagnosticPagesData(DiagnosticDataBuffer):
     page_code = be_uint_field(where=bytes_ref[0:1])
     page_length = be_uint_field(where=bytes_ref[2:4])
-    vendor_specific = list_field(type=uint8, where=bytes_ref[4:])
+    vendor_specific = list_field(type=uint8, where=bytes_ref[4:4+page_length])
 
 
 class Vendor0x80DiagnosticPagesCommand(PCVReceiveDiagnosticResultCommand):
-- 
2.43.0


From dfa0aaa5998073d130810e3fe97724a767e6c46d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 37/56] fix: the command for an unknown diagnostic page returns
 the page

---
 src/infi/asi/cdb/diagnostic/ses_pages/unknown.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py b/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py
index f9d0049..86524ac 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py
@@ -1,10 +1,11 @@
-from infi.instruct.buffer import Buffer, bytes_ref, be_int_field
-from . import PCVReceiveDiagnosticResultCommand
+from infi.instruct.buffer import bytes_ref, be_uint_field, uint8, list_field
+from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
-class UnknownDiagnosticPageData(Buffer):
-    page_code = be_int_field(where=bytes_ref[0:1])
-    page_data = be_int_field(where=bytes_ref[1:])
+class UnknownDiagnosticPageData(DiagnosticDataBuffer):
+    page_code = be_uint_field(where=bytes_ref[0:1])
+    page_length = be_uint_field(where=bytes_ref[2:4])
+    page_data = list_field(type=uint8, where=bytes_ref[4:4+page_length])
 
 
 def UnknownDiagnosticPageCommand(page_code):
-- 
2.43.0


From 0a0c66d49f9991fb3d9df13fd0018066432e5dd7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 38/56] fix: the supported diagnostic pages end at the page
 length

---
 src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py b/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
index 489171b..64a3874 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
@@ -1,12 +1,16 @@
-from infi.instruct.buffer import bytes_ref, be_uint_field, uint8, list_field
+from infi.instruct.buffer import bytes_ref, be_uint_field, uint8, list_field, member_func_ref
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
 # spc4r36f: 7.2.4
 class SupportedDiagnosticPagesData(DiagnosticDataBuffer):
+    def _supported_pages_num(self):
+        # page 00h itself is always supported: a device that reports no page length means the whole buffer
+        return self.page_length or None
+
     page_code = be_uint_field(where=bytes_ref[0:1])
     page_length = be_uint_field(where=bytes_ref[2:4])
-    supported_pages = list_field(type=uint8, where=bytes_ref[4:])
+    supported_pages = list_field(type=uint8, where=bytes_ref[4:], n=member_func_ref(_supported_pages_num))
 
 
 # spc4r36f: 7.2.4
-- 
2.43.0


From ef4ef5d3d43d9a854a5359c5a9295b993aa12e47 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 39/56] fix: the page length of VPD pages 00h and 80h is two
 bytes

---
 src/infi/asi/cdb/inquiry/vpd_pages/supported_pages.py    | 2 +-
 src/infi/asi/cdb/inquiry/vpd_pages/unit_serial_number.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/supported_pages.py b/src/infi/asi/cdb/inquiry/vpd_pages/supported_pages.py
index 0fe5279..7885686 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/supported_pages.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/supported_pages.py
@@ -7,7 +7,7 @@ from infi.instruct.buffer.macros import b_uint8
 class SupportedVPDPagesBuffer(Buffer):
     peripheral_device = buffer_field(where=bytes_ref[0:], type=PeripheralDeviceDataBuffer)
     page_code = be_uint_field(where=bytes_ref[1])
-    page_length = be_uint_field(where=bytes_ref[3])
+    page_length = be_uint_field(where=bytes_ref[2:4])
 
     vpd_parameters = list_field(where=bytes_ref[4:], type=b_uint8, n=page_length)
 
diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/unit_serial_number.py b/src/infi/asi/cdb/inquiry/vpd_pages/unit_serial_number.py
index 9035cf0..a3bbd22 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/unit_serial_number.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/unit_serial_number.py
@@ -7,7 +7,7 @@ from infi.instruct.buffer.macros import b_uint8
 class UnitSerialNumberVPDPageBuffer(Buffer):
     peripheral_device = buffer_field(where=bytes_ref[0:], type=PeripheralDeviceDataBuffer)
     page_code = be_uint_field(where=bytes_ref[1])
-    page_length = be_uint_field(where=bytes_ref[3], set_before_pack=len_ref(self_ref.product_serial_number))
+    page_length = be_uint_field(where=bytes_ref[2:4], set_before_pack=len_ref(self_ref.product_serial_number))
     product_serial_number = str_field(where=bytes_ref[4:4+page_length])
 
 
-- 
2.43.0


From f9ccd7732538c94bee725fee82120f97afd032d5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 40/56] fix: ATA information numbers are unsigned

---
 .../cdb/inquiry/vpd_pages/ata_information.py  | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
index a726537..bd60656 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
@@ -1,6 +1,6 @@
 from .. import PeripheralDeviceDataBuffer
 from . import EVPDInquiryCommand
-from infi.instruct.buffer import Buffer, str_field, bytes_ref, buffer_field, be_int_field
+from infi.instruct.buffer import Buffer, str_field, bytes_ref, buffer_field, be_uint_field
 
 
 # sat3r04: 12.4.2
@@ -23,27 +23,27 @@ class AtaIdentifyDevice(Buffer):
 
 class DeviceSignature(Buffer):
     byte_size = 20
-    transport_id = be_int_field(where=bytes_ref[0])
-    pm_port = be_int_field(where=bytes_ref[1].bits[0:4])
-    interrupt = be_int_field(where=bytes_ref[1].bits[6])
-    status = be_int_field(where=bytes_ref[2])
-    error = be_int_field(where=bytes_ref[3])
+    transport_id = be_uint_field(where=bytes_ref[0])
+    pm_port = be_uint_field(where=bytes_ref[1].bits[0:4])
+    interrupt = be_uint_field(where=bytes_ref[1].bits[6])
+    status = be_uint_field(where=bytes_ref[2])
+    error = be_uint_field(where=bytes_ref[3])
     lba = str_field(where=(bytes_ref[4] + bytes_ref[5] + bytes_ref[6] +
                            bytes_ref[8] + bytes_ref[9] + bytes_ref[10]))
-    device = be_int_field(where=bytes_ref[7])
-    sector_count = be_int_field(where=bytes_ref[12:14])
+    device = be_uint_field(where=bytes_ref[7])
+    sector_count = be_uint_field(where=bytes_ref[12:14])
 
 
 class AtaInformationVPDPageBuffer(Buffer):
     byte_size = 572
     peripheral_device = buffer_field(where=bytes_ref[0:], type=PeripheralDeviceDataBuffer)
-    page_code = be_int_field(where=bytes_ref[1:2])
-    page_length = be_int_field(where=bytes_ref[2:4])
+    page_code = be_uint_field(where=bytes_ref[1:2])
+    page_length = be_uint_field(where=bytes_ref[2:4])
     sat_vendor_identification = str_field(where=bytes_ref[8:16])  # bytes 8-15
     sat_product_identification = str_field(where=bytes_ref[16:32])  # bytes 16-31
     sat_product_revision_level = str_field(where=bytes_ref[32:36])  # bytes 32-35
     device_signature = buffer_field(where=bytes_ref[36:56], type=DeviceSignature)  # bytes 36-55
-    command_code = be_int_field(where=bytes_ref[56:57])
+    command_code = be_uint_field(where=bytes_ref[56:57])
     # ATA IDENTIFY DEVICE: bytes 60-571
     identify_device = buffer_field(where=bytes_ref[60:572], type=AtaIdentifyDevice)
 
-- 
2.43.0


From d710ea3d64b86ab5b2f09ead5391a15734037363 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:01:06 +0000
Subject: [PATCH 41/56] fix: a truncated READ FULL STATUS yields no partial
 descriptor

---
 src/infi/asi/cdb/persist/input.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/persist/input.py b/src/infi/asi/cdb/persist/input.py
index 36d3e6c..e4f12a0 100644
--- a/src/infi/asi/cdb/persist/input.py
+++ b/src/infi/asi/cdb/persist/input.py
@@ -114,7 +114,8 @@ class PersistentReserveInReadFullStatusResponse(CDBBuffer):
     full_status_descriptors = list_field(
         where=bytes_ref[8:8 + additional_length],
         type=PersistentReserveInReadFullStatusDescriptor,
-        unpack_if=additional_length > 0)
+        # like the key list, only when all of it was returned (see required_allocation_length)
+        unpack_if=min_ref(additional_length, input_buffer_length - additional_length - 7) > 0)
 
     def required_allocation_length(self):
         return self.additional_length + 8
-- 
2.43.0


From 2f75fb1480553e0bc03ec75ff89bacca55434d91 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 42/56] fix: an ioctl's answer is recorded before other
 greenlets run

---
 src/infi/asi/aix.py     | 5 +++--
 src/infi/asi/linux.py   | 5 +++--
 src/infi/asi/solaris.py | 5 +++--
 src/infi/asi/win32.py   | 9 +++++----
 4 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/infi/asi/aix.py b/src/infi/asi/aix.py
index 90dfab5..b9c910b 100644
--- a/src/infi/asi/aix.py
+++ b/src/infi/asi/aix.py
@@ -373,7 +373,7 @@ class AixCommandExecuter(CommandExecuterBase):
 
     def _os_send(self, os_data):
         try:
-            ioctl = gevent_friendly(get_ioctl_function())
+            ioctl = get_ioctl_function()
             # unlike fcntl.ioctl, the libc function returns -1 instead of raising
             if ioctl(self.io.fd, DK_PASSTHRU, addressof(os_data)) == -1:
                 raise IOError("ioctl failed")
@@ -385,7 +385,8 @@ class AixCommandExecuter(CommandExecuterBase):
                 # no valid status to parse in _handle_raw_response
                 raise AsiOSError("ioctl failed, no valid status")
         buffer = os_data.to_raw()
-        self.buffers.append((os_data.packet_id, buffer))
+        # the answer must be there before other greenlets run, they may wait for it
+        gevent_friendly(self.buffers.append)((os_data.packet_id, buffer))
         yield len(buffer)
 
     def _handle_raw_response(self, packet_id, raw):
diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index 82a4c96..3994312 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -288,8 +288,9 @@ class LinuxIoctlCommandExecuter(LinuxCommandExecuter):
         from fcntl import ioctl
         # the buffer must be mutable, otherwise the ioctl can't return the status fields in it
         buffer = create_string_buffer(os_data.to_raw(), SGIO.sizeof())
-        gevent_friendly(ioctl)(self.io.fd, SG_IO, buffer)
-        self.buffers.append(buffer.raw)
+        ioctl(self.io.fd, SG_IO, buffer)
+        # the answer must be there before other greenlets run, they may wait for it
+        gevent_friendly(self.buffers.append)(buffer.raw)
         yield len(buffer)
 
     def _os_receive(self):
diff --git a/src/infi/asi/solaris.py b/src/infi/asi/solaris.py
index 311835c..7acd1dd 100644
--- a/src/infi/asi/solaris.py
+++ b/src/infi/asi/solaris.py
@@ -202,8 +202,9 @@ class SolarisCommandExecuter(CommandExecuterBase):
         # string, otherwise the ioctl won't be able to modify relevant status
         # values in the buffer (e.g. uscsi_status):
         buffer_ctypes_string = create_string_buffer(buffer)
-        gevent_friendly(ioctl)(self.io.fd, USCSICMD, buffer_ctypes_string)
-        self.buffers.append((os_data.packet_id, buffer_ctypes_string.raw))
+        ioctl(self.io.fd, USCSICMD, buffer_ctypes_string)
+        # the answer must be there before other greenlets run, they may wait for it
+        gevent_friendly(self.buffers.append)((os_data.packet_id, buffer_ctypes_string.raw))
         yield len(buffer_ctypes_string)
 
     def _handle_raw_response(self, packet_id, raw):
diff --git a/src/infi/asi/win32.py b/src/infi/asi/win32.py
index 292347e..7d5b7a1 100755
--- a/src/infi/asi/win32.py
+++ b/src/infi/asi/win32.py
@@ -368,10 +368,11 @@ class Win32CommandExecuter(CommandExecuterBase):
         return SCSIPassThroughDirect.create(packet_id, command)
 
     def _os_send(self, os_data):
-        yield gevent_friendly(self.io.ioctl)(IOCTL_SCSI_PASS_THROUGH_DIRECT,
-                                            byref(os_data.source_buffer), sizeof(SCSIPassThroughDirect),
-                                            byref(os_data.source_buffer), sizeof(SCSIPassThroughDirect))
-        self.incoming_packets.append(os_data)
+        yield self.io.ioctl(IOCTL_SCSI_PASS_THROUGH_DIRECT,
+                            byref(os_data.source_buffer), sizeof(SCSIPassThroughDirect),
+                            byref(os_data.source_buffer), sizeof(SCSIPassThroughDirect))
+        # the answer must be there before other greenlets run, they may wait for it
+        gevent_friendly(self.incoming_packets.append)(os_data)
 
     def _os_receive(self):
         spt = self.incoming_packets.pop()
-- 
2.43.0


From eda3324b6842b86b512675a993d1b57ea0b310f7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 43/56] fix: solaris: a transport failure is not a success

---
 src/infi/asi/solaris.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/infi/asi/solaris.py b/src/infi/asi/solaris.py
index 7acd1dd..03815c1 100644
--- a/src/infi/asi/solaris.py
+++ b/src/infi/asi/solaris.py
@@ -223,6 +223,9 @@ class SolarisCommandExecuter(CommandExecuterBase):
                                  "(SCSI reason: 0x%02x)") %
                                 (response_status_code, response_reason_code)), packet_id)
 
+        if response_reason_code != 0:
+            return (AsiSCSIError("SCSI reason is not zero: 0x%02x" % (response_reason_code,)), packet_id)
+
         if response_cmd.uscsi_rqstatus != 0:
             return (AsiSCSIError("SCSI request commmand status is not zero: 0x%02x" %
                                 (response_cmd.uscsi_rqstatus)), packet_id)
-- 
2.43.0


From 542ae689b428b55ec7a28b88680c773bc38dc83f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 44/56] fix: READ(6) and WRITE(6) refuse a negative address

---
 src/infi/asi/cdb/read.py  | 2 +-
 src/infi/asi/cdb/write.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/read.py b/src/infi/asi/cdb/read.py
index c3bb325..dfd2b48 100644
--- a/src/infi/asi/cdb/read.py
+++ b/src/infi/asi/cdb/read.py
@@ -30,7 +30,7 @@ class Read6Command(CDB):
         self.logical_block_address = logical_block_address
         self.block_size = block_size
         self.transfer_length = transfer_length
-        assert self.logical_block_address < 2 ** 21
+        assert 0 <= self.logical_block_address < 2 ** 21
         assert self.transfer_length < 2 ** 8, "transfer_length should be in range [0,256), instead got: {}".format(self.transfer_length)
         self.logical_block_address__msb = self.logical_block_address >> 16
         self.logical_block_address__lsb = self.logical_block_address & 0xffff
diff --git a/src/infi/asi/cdb/write.py b/src/infi/asi/cdb/write.py
index abf3763..5745e1b 100644
--- a/src/infi/asi/cdb/write.py
+++ b/src/infi/asi/cdb/write.py
@@ -32,7 +32,7 @@ class Write6Command(CDB):
         self.buffer = buffer
         self.block_size = block_size
 
-        assert self.logical_block_address < 2 ** 21, "lba > 2**21"
+        assert 0 <= self.logical_block_address < 2 ** 21, "lba should be in range [0, 2**21)"
         assert len(buffer) % block_size == 0, "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)
 
         num_blocks = len(buffer) // block_size
-- 
2.43.0


From e13f8e40fce322b88472d94598b0a4585ffd69af Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 45/56] fix: RESERVE(10) and RELEASE(10) refuse a negative
 third party id

---
 src/infi/asi/cdb/release.py | 1 +
 src/infi/asi/cdb/reserve.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/infi/asi/cdb/release.py b/src/infi/asi/cdb/release.py
index 9cd6bc2..7317763 100644
--- a/src/infi/asi/cdb/release.py
+++ b/src/infi/asi/cdb/release.py
@@ -48,6 +48,7 @@ class Release10Command(CDBBuffer):
 
     def __init__(self, third_party_device_id=0, **kwargs):
         super(Release10Command, self).__init__(**kwargs)
+        assert third_party_device_id >= 0, "third_party_device_id < 0"
         self.third_party = 0
         self.parameter_list_datagram = None
         if third_party_device_id > 0:
diff --git a/src/infi/asi/cdb/reserve.py b/src/infi/asi/cdb/reserve.py
index 1515d0a..72cae26 100644
--- a/src/infi/asi/cdb/reserve.py
+++ b/src/infi/asi/cdb/reserve.py
@@ -50,6 +50,7 @@ class Reserve10Command(CDBBuffer):
 
     def __init__(self, third_party_device_id=0, **kwargs):
         super(Reserve10Command, self).__init__(**kwargs)
+        assert third_party_device_id >= 0, "third_party_device_id < 0"
         self.third_party = 0
         self.parameter_list_datagram = None
         if third_party_device_id > 0:
-- 
2.43.0


From 622e275dc405594c45b5ca9d5d652c87c15e6944 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:57:53 +0000
Subject: [PATCH 46/56] fix: PERSISTENT RESERVE IN and OUT refuse a negative
 action or type

---
 src/infi/asi/cdb/persist/input.py  | 1 +
 src/infi/asi/cdb/persist/output.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/infi/asi/cdb/persist/input.py b/src/infi/asi/cdb/persist/input.py
index e4f12a0..f90f0bf 100644
--- a/src/infi/asi/cdb/persist/input.py
+++ b/src/infi/asi/cdb/persist/input.py
@@ -138,6 +138,7 @@ class PersistentReserveInCommand(CDBBuffer):
             **kwargs)
         assert allocation_length >= 8, \
             "A minimum of 8 bytes must be allocated."
+        assert 0 <= service_action < 2 ** 5, "service_action should be in range [0, 2**5)"
 
     def execute(self, executer):
         command_datagram = bytes(self.create_datagram())
diff --git a/src/infi/asi/cdb/persist/output.py b/src/infi/asi/cdb/persist/output.py
index c41d16c..320c101 100644
--- a/src/infi/asi/cdb/persist/output.py
+++ b/src/infi/asi/cdb/persist/output.py
@@ -87,6 +87,7 @@ class PersistentReserveOutCommand(CDBBuffer):
         super(PersistentReserveOutCommand, self).__init__()
         self.service_action = service_action
         self.pr_type = pr_type
+        assert 0 <= self.pr_type < 2 ** 4, "pr_type should be in range [0, 2**4)"
         assert self.service_action in SERVICE_ACTION_TO_PARAMETER_LIST_CLASS, \
             "No parameter list class defined for service action %r." % \
             service_action
-- 
2.43.0


From 3db9d81d78c7bcc307e7711a7b54a86a2bba83c3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:58:17 +0000
Subject: [PATCH 47/56] fix: setting one command's control byte changes no
 other command's

---
 src/infi/asi/cdb/__init__.py            | 6 ++++++
 src/infi/asi/cdb/control.py             | 6 ++++++
 src/infi/asi/cdb/diagnostic/__init__.py | 2 +-
 src/infi/asi/cdb/log_sense.py           | 2 +-
 src/infi/asi/cdb/persist/input.py       | 2 +-
 src/infi/asi/cdb/persist/output.py      | 2 +-
 6 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/infi/asi/cdb/__init__.py b/src/infi/asi/cdb/__init__.py
index aff5064..0958c6d 100644
--- a/src/infi/asi/cdb/__init__.py
+++ b/src/infi/asi/cdb/__init__.py
@@ -13,6 +13,12 @@ class CDB(Struct):
 
 
 class CDBBuffer(Buffer):
+    def __init__(self, **kwargs):
+        super(CDBBuffer, self).__init__(**kwargs)
+        # each command gets its own copy of the default control
+        if 'control' not in kwargs and getattr(self, 'control', None) is not None:
+            self.control = self.control.copy()
+
     def create_datagram(self):
         return self.pack()
 
diff --git a/src/infi/asi/cdb/control.py b/src/infi/asi/cdb/control.py
index 96b3667..78accc4 100644
--- a/src/infi/asi/cdb/control.py
+++ b/src/infi/asi/cdb/control.py
@@ -11,6 +11,9 @@ class Control(Struct):
         BitField("vendor_specific", 2),  # 6-7: vendor specific
     )
 
+    def copy(self):  # used by infi.instruct: each command gets its own copy of the default
+        return type(self)(vendor_specific=self.vendor_specific, naca=self.naca)
+
 DEFAULT_CONTROL = Control(vendor_specific=0, naca=0)
 
 
@@ -18,4 +21,7 @@ class ControlBuffer(Buffer):
     naca = be_int_field(where=bytes_ref[0].bits[2:3])
     vendor_specific = be_int_field(where=bytes_ref[0].bits[6:8])
 
+    def copy(self):
+        return type(self)(vendor_specific=self.vendor_specific, naca=self.naca)
+
 DEFAULT_CONTROL_BUFFER = ControlBuffer(vendor_specific=0, naca=0)
diff --git a/src/infi/asi/cdb/diagnostic/__init__.py b/src/infi/asi/cdb/diagnostic/__init__.py
index c9f59ec..b0f5be9 100644
--- a/src/infi/asi/cdb/diagnostic/__init__.py
+++ b/src/infi/asi/cdb/diagnostic/__init__.py
@@ -11,7 +11,7 @@ class ReceiveDiagnosticResultCommand(CDBBuffer):
     pcv = be_int_field(where=bytes_ref[1].bits[0])
     page_code = be_uint_field(where=bytes_ref[2])
     allocation_length = be_int_field(where=bytes_ref[3:5], sign='unsigned')
-    control = buffer_field(type=ControlBuffer, where=bytes_ref[5], set_before_pack=DEFAULT_CONTROL_BUFFER)
+    control = buffer_field(type=ControlBuffer, where=bytes_ref[5], default=DEFAULT_CONTROL_BUFFER)
 
     def __init__(self, result_class, conf_page, *args, **kwargs):
         super(ReceiveDiagnosticResultCommand, self).__init__(*args, **kwargs)
diff --git a/src/infi/asi/cdb/log_sense.py b/src/infi/asi/cdb/log_sense.py
index de3ca01..0870e2c 100644
--- a/src/infi/asi/cdb/log_sense.py
+++ b/src/infi/asi/cdb/log_sense.py
@@ -13,7 +13,7 @@ class LogSenseCommand(CDBBuffer):
     subpage_code = be_uint_field(where=bytes_ref[3])
     parameter_pointer = be_uint_field(where=bytes_ref[5:7])
     allocation_length = be_uint_field(where=bytes_ref[7:9])
-    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], set_before_pack=DEFAULT_CONTROL_BUFFER)
+    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], default=DEFAULT_CONTROL_BUFFER)
 
     def __init__(self, page_code, subpage_code=0, allocation_length=396):
         super(LogSenseCommand, self).__init__()
diff --git a/src/infi/asi/cdb/persist/input.py b/src/infi/asi/cdb/persist/input.py
index f90f0bf..f6c0562 100644
--- a/src/infi/asi/cdb/persist/input.py
+++ b/src/infi/asi/cdb/persist/input.py
@@ -129,7 +129,7 @@ class PersistentReserveInCommand(CDBBuffer):
     operation_code = be_uint_field(where=bytes_ref[0], set_before_pack=CDB_OPCODE_PERSISTENT_RESERVE_IN)
     service_action = be_uint_field(where=bytes_ref[1].bits[0:5])
     allocation_length = be_uint_field(where=bytes_ref[7:9])
-    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], set_before_pack=DEFAULT_CONTROL_BUFFER)
+    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], default=DEFAULT_CONTROL_BUFFER)
 
     def __init__(self, service_action, allocation_length=520, **kwargs):
         super(PersistentReserveInCommand, self).__init__(
diff --git a/src/infi/asi/cdb/persist/output.py b/src/infi/asi/cdb/persist/output.py
index 320c101..c77a0c5 100644
--- a/src/infi/asi/cdb/persist/output.py
+++ b/src/infi/asi/cdb/persist/output.py
@@ -80,7 +80,7 @@ class PersistentReserveOutCommand(CDBBuffer):
     pr_type = be_uint_field(where=bytes_ref[2].bits[0:4])
     scope = be_uint_field(where=bytes_ref[3].bits[4:8], set_before_pack=0)
     parameter_list_length = be_uint_field(where=bytes_ref[5:9])
-    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], set_before_pack=DEFAULT_CONTROL_BUFFER)
+    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], default=DEFAULT_CONTROL_BUFFER)
 
     def __init__(self, service_action, reservation_key=0, service_action_reservation_key=0,
                  pr_type=PERSISTENT_RESERVE_OUT_TYPES.WRITE_EXCLUSIVE, **kwargs):
-- 
2.43.0


From 77e8260a756b2b3a4872ef131648ef0f2a5d7f3d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:18:54 +0000
Subject: [PATCH 48/56] fix: the ATA model number is decoded to its last word

---
 src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
index bd60656..1317e7c 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
@@ -18,7 +18,7 @@ class AtaIdentifyDevice(Buffer):
                                                   52])  # word 23-26 in ATA IDENTIFY DEVICE range
     model_number = str_field(where=bytes_ref[55, 54, 57, 56, 59, 58, 61, 60, 63, 62, 65, 64, 67, 66, 69, 68,
                                              71, 70, 73, 72, 75, 74, 77, 76, 79, 78, 81, 80, 83, 82, 85, 84,
-                                             87, 86, 89, 88, 91, 90])  # word 27-46 in ATA IDENTIFY DEVICE range
+                                             87, 86, 89, 88, 91, 90, 93, 92])  # word 27-46 in ATA IDENTIFY DEVICE range
 
 
 class DeviceSignature(Buffer):
-- 
2.43.0


From 0428ba398721db5a60e32a753ea955f9657c3b55 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:19:00 +0000
Subject: [PATCH 49/56] fix: an ATA device signature with bytes that are not
 ASCII is decoded

---
 src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
index 1317e7c..6760d92 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
@@ -29,7 +29,8 @@ class DeviceSignature(Buffer):
     status = be_uint_field(where=bytes_ref[2])
     error = be_uint_field(where=bytes_ref[3])
     lba = str_field(where=(bytes_ref[4] + bytes_ref[5] + bytes_ref[6] +
-                           bytes_ref[8] + bytes_ref[9] + bytes_ref[10]))
+                           bytes_ref[8] + bytes_ref[9] + bytes_ref[10]),
+                    encoding='latin-1')  # any byte value, not only text (an ATAPI signature has 14h EBh here)
     device = be_uint_field(where=bytes_ref[7])
     sector_count = be_uint_field(where=bytes_ref[12:14])
 
-- 
2.43.0


From 51eb7286ef756a016ecc60d0747c6c38e52b1fb7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:03:52 +0000
Subject: [PATCH 50/56] fix: UnixFile.read timed out although the device had
 become readable during its last sleep

---
 src/infi/asi/unix.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/unix.py b/src/infi/asi/unix.py
index 819cd25..388bec0 100644
--- a/src/infi/asi/unix.py
+++ b/src/infi/asi/unix.py
@@ -14,12 +14,15 @@ class UnixFile(OSFile):
 
     def read(self, size):
         start_time = time.time()
+        timed_out = False
 
         # A time-out value of zero specifies a poll and never blocks:
         while not select.select([self.fd], [], [], 0)[0]:
-            time.sleep(0.01)
-            if time.time() > start_time + self._read_timeout:
+            # the device is looked at once more after the time has passed, it may have answered meanwhile
+            if timed_out:
                 raise IOError("Timeout while waiting for file descriptor to become readable")
+            time.sleep(0.01)
+            timed_out = time.time() > start_time + self._read_timeout
 
         return os.read(self.fd, size)
 
-- 
2.43.0


From db458ba42e524392c0588cfd647e37a313427f1a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:04:28 +0000
Subject: [PATCH 51/56] fix: a request that is interrupted while other
 greenlets run neither loses its answer nor gives it to another request

---
 src/infi/asi/__init__.py | 14 +++++++++++++-
 src/infi/asi/aix.py      |  5 ++---
 src/infi/asi/linux.py    | 25 +++++++++++++++++++++----
 src/infi/asi/solaris.py  |  4 +---
 src/infi/asi/win32.py    |  5 ++---
 5 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index 4aeb94a..05498c7 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -106,7 +106,9 @@ class CommandExecuterBase(CommandExecuter):
         try:
             yield self._os_send(os_data)
         except:
-            del self.pending_packets[packet_index]
+            # it may have been answered already, and another request may be using its packet index
+            if self._get_os_data(packet_index) is os_data:
+                del self.pending_packets[packet_index]
             raise
 
     def wait(self):
@@ -141,6 +143,16 @@ class CommandExecuterBase(CommandExecuter):
 
         yield True
 
+    def _response_received(self, responses, response):
+        """Stores a response for _os_receive before other greenlets run, they may wait for it"""
+        try:
+            gevent_friendly(responses.append)(response)
+        except:
+            # interrupted (e.g. gevent.Timeout): the request is forgotten, its response must not be taken for another's
+            if response in responses:
+                responses.remove(response)
+            raise
+
     def _get_os_data(self, packet_index):
         return self.pending_packets.get(packet_index, (None, None))[0]
 
diff --git a/src/infi/asi/aix.py b/src/infi/asi/aix.py
index b9c910b..057f772 100644
--- a/src/infi/asi/aix.py
+++ b/src/infi/asi/aix.py
@@ -1,5 +1,5 @@
 from . import CommandExecuterBase, DEFAULT_TIMEOUT_IN_SEC, SCSIReadCommand, SCSIWriteCommand
-from . import SCSI_STATUS_CODES, gevent_friendly
+from . import SCSI_STATUS_CODES
 from .linux import prettify_status, SENSE_SIZE
 from .errors import AsiSCSIError, AsiOSError
 from ctypes import *
@@ -385,8 +385,7 @@ class AixCommandExecuter(CommandExecuterBase):
                 # no valid status to parse in _handle_raw_response
                 raise AsiOSError("ioctl failed, no valid status")
         buffer = os_data.to_raw()
-        # the answer must be there before other greenlets run, they may wait for it
-        gevent_friendly(self.buffers.append)((os_data.packet_id, buffer))
+        self._response_received(self.buffers, (os_data.packet_id, buffer))
         yield len(buffer)
 
     def _handle_raw_response(self, packet_id, raw):
diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index 3994312..a58dc3e 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -222,8 +222,23 @@ class LinuxCommandExecuter(CommandExecuterBase):
     def _os_prepare_to_send(self, command, packet_index):
         return SGIO.create(packet_index, command, self.timeout)
 
+    def send(self, command, callback=None):
+        yield super(LinuxCommandExecuter, self).send(command, callback)
+        self._let_others_run()
+
+    def _process_pending_response(self):
+        processed = yield super(LinuxCommandExecuter, self)._process_pending_response()
+        if processed:
+            self._let_others_run()
+        yield processed
+
+    @gevent_friendly
+    def _let_others_run(self):
+        """If this is interrupted (e.g. by gevent.Timeout), nothing may be lost: a request that was sent stays pending,
+        and a response that was read has reached its callback"""
+
     def _os_send(self, os_data):
-        yield gevent_friendly(self.io.write)(os_data.to_raw())
+        yield self.io.write(os_data.to_raw())
 
     def _handle_raw_response(self, raw):
         response_sgio = SGIO.from_string(raw)
@@ -271,7 +286,7 @@ class LinuxCommandExecuter(CommandExecuterBase):
         return (data, packet_id)
 
     def _os_receive(self):
-        raw = yield gevent_friendly(self.io.read)(SGIO.sizeof())
+        raw = yield self.io.read(SGIO.sizeof())
         yield self._handle_raw_response(raw)
 
 SG_IO = 0x2285
@@ -284,13 +299,15 @@ class LinuxIoctlCommandExecuter(LinuxCommandExecuter):
         self.timeout = timeout
         self.buffers = []
 
+    def _let_others_run(self):
+        pass    # they run once the ioctl has returned, see _os_send
+
     def _os_send(self, os_data):
         from fcntl import ioctl
         # the buffer must be mutable, otherwise the ioctl can't return the status fields in it
         buffer = create_string_buffer(os_data.to_raw(), SGIO.sizeof())
         ioctl(self.io.fd, SG_IO, buffer)
-        # the answer must be there before other greenlets run, they may wait for it
-        gevent_friendly(self.buffers.append)(buffer.raw)
+        self._response_received(self.buffers, buffer.raw)
         yield len(buffer)
 
     def _os_receive(self):
diff --git a/src/infi/asi/solaris.py b/src/infi/asi/solaris.py
index 03815c1..05b16ff 100644
--- a/src/infi/asi/solaris.py
+++ b/src/infi/asi/solaris.py
@@ -1,6 +1,5 @@
 from . import CommandExecuterBase, DEFAULT_TIMEOUT_IN_SEC, SCSIReadCommand, SCSIWriteCommand
 from . import SCSI_STATUS_CODES
-from . import gevent_friendly
 from .errors import AsiSCSIError, AsiRequestQueueFullError
 from ctypes import *
 from logging import getLogger
@@ -203,8 +202,7 @@ class SolarisCommandExecuter(CommandExecuterBase):
         # values in the buffer (e.g. uscsi_status):
         buffer_ctypes_string = create_string_buffer(buffer)
         ioctl(self.io.fd, USCSICMD, buffer_ctypes_string)
-        # the answer must be there before other greenlets run, they may wait for it
-        gevent_friendly(self.buffers.append)((os_data.packet_id, buffer_ctypes_string.raw))
+        self._response_received(self.buffers, (os_data.packet_id, buffer_ctypes_string.raw))
         yield len(buffer_ctypes_string)
 
     def _handle_raw_response(self, packet_id, raw):
diff --git a/src/infi/asi/win32.py b/src/infi/asi/win32.py
index 7d5b7a1..f5d0c50 100755
--- a/src/infi/asi/win32.py
+++ b/src/infi/asi/win32.py
@@ -1,7 +1,7 @@
 from ctypes import *
 from . import CommandExecuterBase, DEFAULT_MAX_QUEUE_SIZE, SCSIReadCommand, SCSIWriteCommand
 from .errors import AsiOSError, AsiSCSIError
-from . import OSAsyncIOToken, OSFile, OSAsyncFile, OSAsyncReactor, DEFAULT_TIMEOUT, gevent_friendly
+from . import OSAsyncIOToken, OSFile, OSAsyncFile, OSAsyncReactor, DEFAULT_TIMEOUT
 from .coroutines.sync_adapter import AsyncCoroutine
 import six
 
@@ -371,8 +371,7 @@ class Win32CommandExecuter(CommandExecuterBase):
         yield self.io.ioctl(IOCTL_SCSI_PASS_THROUGH_DIRECT,
                             byref(os_data.source_buffer), sizeof(SCSIPassThroughDirect),
                             byref(os_data.source_buffer), sizeof(SCSIPassThroughDirect))
-        # the answer must be there before other greenlets run, they may wait for it
-        gevent_friendly(self.incoming_packets.append)(os_data)
+        self._response_received(self.incoming_packets, os_data)
 
     def _os_receive(self):
         spt = self.incoming_packets.pop()
-- 
2.43.0


From 427b244b130a3aa46066a8bfa2a91fc335f79c2e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:34:33 +0000
Subject: [PATCH 52/56] fix: errors about the driver's or the host's status
 tell that status

The texts gave the SCSI status, which is good in these cases, under the name of
the driver's or host's status, and the driver's status as the host's.
---
 src/infi/asi/linux.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index a58dc3e..5ee6cd3 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -266,16 +266,14 @@ class LinuxCommandExecuter(CommandExecuterBase):
 
         if (response_sgio.driver_status & 0x0F) != 0:
             error = AsiSCSIError("SCSI driver response status is not zero: %s (host status: %s)" %
-                                (prettify_status(response_sgio.status, SCSI_STATUS_CODES),
-                                 prettify_status(response_sgio.driver_status & 0x0f, DRIVER_STATUS_CODES)))
+                                (prettify_status(response_sgio.driver_status & 0x0f, DRIVER_STATUS_CODES),
+                                 prettify_status(response_sgio.host_status, HOST_STATUS_CODES)))
             return (error, packet_id)
 
         if response_sgio.host_status != 0:
-            error = AsiSCSIError(("SCSI host status is not zero: %s" +
-                                  "(driver status: %s, host status: %s)") %
-                                 (prettify_status(response_sgio.status, SCSI_STATUS_CODES),
-                                  prettify_status(response_sgio.driver_status & 0x0f, DRIVER_STATUS_CODES),
-                                  prettify_status(response_sgio.host_status, HOST_STATUS_CODES)))
+            error = AsiSCSIError("SCSI host status is not zero: %s (driver status: %s)" %
+                                 (prettify_status(response_sgio.host_status, HOST_STATUS_CODES),
+                                  prettify_status(response_sgio.driver_status & 0x0f, DRIVER_STATUS_CODES)))
             return (error, packet_id)
 
         data = None
-- 
2.43.0


From 050c2e887d616ec8498bda59b49ef4a2ecb27820 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:34:38 +0000
Subject: [PATCH 53/56] fix: AIX errors tell the SCSI status that the device
 gave

The text gave a masked copy of it, TASK ABORTED looked like GOOD.
---
 src/infi/asi/aix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/aix.py b/src/infi/asi/aix.py
index 057f772..107568b 100644
--- a/src/infi/asi/aix.py
+++ b/src/infi/asi/aix.py
@@ -237,7 +237,7 @@ EINVAL_CODES = dict(
 class AixAsiSCSIError(AsiSCSIError):
     def __init__(self, msg, os_data):
         validity = prettify_status(os_data.status_validity, STATUS_VALIDITY_CODES)
-        scsi_bus_status = prettify_status(os_data.scsi_bus_status & SCSI_STATUS_MASK, SCSI_STATUS_CODES)
+        scsi_bus_status = prettify_status(os_data.scsi_bus_status, SCSI_STATUS_CODES)
         adapter_status = prettify_status(os_data.adapter_status, ADAPTER_STATUS_CODES)
         status_string = "{}, validity={}, scsi_bus_status={}, adapter_status={}"
         super(AixAsiSCSIError, self).__init__(status_string.format(msg, validity, scsi_bus_status, adapter_status))
-- 
2.43.0


From de95012f19c0fc201e1c5b69ea5243c23672c50a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:42:32 +0000
Subject: [PATCH 54/56] fix: the Windows reactor waits for at most 64 events at
 a time, more than WaitForMultipleObjects takes made it fail

---
 src/infi/asi/win32.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/win32.py b/src/infi/asi/win32.py
index f5d0c50..abe057f 100755
--- a/src/infi/asi/win32.py
+++ b/src/infi/asi/win32.py
@@ -39,6 +39,7 @@ DWORD WINAPI GetLastError(void);
 GetLastError = kernel32.GetLastError
 
 ERROR_IO_PENDING = 997
+MAXIMUM_WAIT_OBJECTS = 64
 
 """
 DWORD WINAPI FormatMessage(
@@ -182,8 +183,9 @@ def WaitForMultipleObjects(events):
 class Win32AsyncReactor(OSAsyncReactor):
     def _wait_for_events(self, coroutines):
         events = {coroutine.get_result().event: (command, coroutine) for (command, coroutine) in coroutines.items()}
-        returned_event_index = WaitForMultipleObjects(list(events.keys()))
-        returned_event = list(events.keys())[returned_event_index]
+        waitable_events = list(events.keys())[:MAXIMUM_WAIT_OBJECTS]
+        returned_event_index = WaitForMultipleObjects(waitable_events)
+        returned_event = waitable_events[returned_event_index]
         command, coroutine = events[returned_event]
         coroutine.async_io_complete()
         return [command]
-- 
2.43.0


From ca994fdf35589b4d25fbfbf773442198d211698d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:44:16 +0000
Subject: [PATCH 55/56] fix: the event of an overlapped request on Windows is
 closed when the request is over

---
 src/infi/asi/win32.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/infi/asi/win32.py b/src/infi/asi/win32.py
index abe057f..10b2775 100755
--- a/src/infi/asi/win32.py
+++ b/src/infi/asi/win32.py
@@ -163,14 +163,18 @@ class Win32AsyncFile(OSAsyncFile, Win32File):
 
     def ioctl(self, control_code, input, input_size, output=None, output_size=0):
         self._create_overlapped_struct()
-        api_result = DeviceIoControl(self.handle, control_code, input, input_size, output, output_size,
-                                     None, byref(self._overlapped_struct))
-        last_error = GetLastError()
-        if api_result or last_error == ERROR_IO_PENDING:
-            token = WinAsyncIOToken(self.handle, self._overlapped_struct, self._windows_event_handle)
-            yield token
-        else:
-            raise AsiWin32OSError(GetLastError(), "DeviceIoControl %d for path %s failed" % (control_code, self.path))
+        windows_event_handle = self._windows_event_handle
+        try:
+            api_result = DeviceIoControl(self.handle, control_code, input, input_size, output, output_size,
+                                         None, byref(self._overlapped_struct))
+            last_error = GetLastError()
+            if api_result or last_error == ERROR_IO_PENDING:
+                token = WinAsyncIOToken(self.handle, self._overlapped_struct, windows_event_handle)
+                yield token
+            else:
+                raise AsiWin32OSError(GetLastError(), "DeviceIoControl %d for path %s failed" % (control_code, self.path))
+        finally:
+            CloseHandle(c_void_p(windows_event_handle))
 
 def WaitForMultipleObjects(events):
     from struct import pack
-- 
2.43.0


From 31113bbcb21402a183478b0c289afe516078d51a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:58:21 +0000
Subject: [PATCH 56/56] fix: a device whose file descriptor is above FD_SETSIZE
 can be read

---
 src/infi/asi/unix.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/unix.py b/src/infi/asi/unix.py
index 388bec0..ab9de96 100644
--- a/src/infi/asi/unix.py
+++ b/src/infi/asi/unix.py
@@ -16,8 +16,7 @@ class UnixFile(OSFile):
         start_time = time.time()
         timed_out = False
 
-        # A time-out value of zero specifies a poll and never blocks:
-        while not select.select([self.fd], [], [], 0)[0]:
+        while not self._is_readable():
             # the device is looked at once more after the time has passed, it may have answered meanwhile
             if timed_out:
                 raise IOError("Timeout while waiting for file descriptor to become readable")
@@ -26,6 +25,13 @@ class UnixFile(OSFile):
 
         return os.read(self.fd, size)
 
+    def _is_readable(self):
+        # unlike select.select, this works for any file descriptor, also above FD_SETSIZE:
+        poll = select.poll()
+        poll.register(self.fd, select.POLLIN)
+        # A time-out value of zero never blocks:
+        return len(poll.poll(0)) > 0
+
     def write(self, buffer):
         return os.write(self.fd, buffer)
 
-- 
2.43.0

