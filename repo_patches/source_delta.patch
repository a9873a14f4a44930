From c02c9b313e1d48597d678e3d0d38a542dbb79781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 01/62] fix: split TCP writes longer than the per-request limit

The slice bounds were only computed for the last piece, so a write of more
than max_count registers died with UnboundLocalError.
---
 sunspec/core/modbus/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 7509187..11b4d8e 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -943,8 +943,8 @@ class ModbusClientDeviceTCP(object):
                     write_count = self.max_count
                 else:
                     write_count = count
-                    start = (write_offset * 2)
-                    end = int((write_offset + write_count) * 2)
+                start = int(write_offset * 2)
+                end = int((write_offset + write_count) * 2)
                 self._write(addr + write_offset, data[start:end])
                 count -= write_count
                 write_offset += write_count
-- 
2.43.0


From 4196b684c16fcd4ef7d5bb674295656786cefe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 02/62] fix: release the TCP socket when a connection attempt
 fails

A failed (or interrupted) connect left the unconnected socket on the device,
so it leaked and every later request failed on it without reconnecting.
---
 sunspec/core/modbus/client.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 11b4d8e..af91f51 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -727,7 +727,11 @@ class ModbusClientDeviceTCP(object):
 
             self.socket.connect((self.ipaddr, self.ipport))
         except Exception as e:
+            self.disconnect()
             raise ModbusClientError('Connection error: %s' % str(e))
+        except BaseException:
+            self.disconnect()
+            raise
 
     def disconnect(self):
         """Disconnect from TCP destination.
@@ -736,9 +740,10 @@ class ModbusClientDeviceTCP(object):
         try:
             if self.socket:
                 self.socket.close()
-            self.socket = None
         except Exception:
             pass
+        finally:
+            self.socket = None
 
     def _read(self, addr, count, op=FUNC_READ_HOLDING):
 
-- 
2.43.0


From 27bdf415b932a5e583b263df615c12291eb47b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 03/62] fix: report TCP receive timeouts and errors as Modbus
 client errors

socket.timeout and OSError from recv() escaped to the caller instead of the
documented ModbusClientTimeout / ModbusClientError.
---
 sunspec/core/modbus/client.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index af91f51..881adb2 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -745,6 +745,15 @@ class ModbusClientDeviceTCP(object):
         finally:
             self.socket = None
 
+    def _recv(self, size):
+
+        try:
+            return self.socket.recv(size)
+        except socket.timeout:
+            raise ModbusClientTimeout('Response timeout')
+        except Exception as e:
+            raise ModbusClientError('Socket read error: %s' % str(e))
+
     def _read(self, addr, count, op=FUNC_READ_HOLDING):
 
         resp = b''
@@ -766,7 +775,7 @@ class ModbusClientDeviceTCP(object):
             raise ModbusClientError('Socket write error: %s' % str(e))
 
         while len_remaining > 0:
-            c = self.socket.recv(len_remaining)
+            c = self._recv(len_remaining)
             # print('c = {0}'.format(c))
             len_read = len(c);
             if len_read > 0:
@@ -881,7 +890,7 @@ class ModbusClientDeviceTCP(object):
             raise ModbusClientError('Socket write error: %s' % str(e))
 
         while len_remaining > 0:
-            c = self.socket.recv(len_remaining)
+            c = self._recv(len_remaining)
             # print('c = {0}'.format(c))
             len_read = len(c);
             if len_read > 0:
-- 
2.43.0


From c9f17bb2ddb32c698df7b25c55b6078d5a666e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:01 +0000
Subject: [PATCH 04/62] fix: drop the TCP connection after a failed request

On a persistent connection a request that timed out, failed or was
interrupted left its response in flight; the next request then took that
stale response as its own.
---
 sunspec/core/modbus/client.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 881adb2..5e51fb0 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -853,6 +853,13 @@ class ModbusClientDeviceTCP(object):
                     read_offset += read_count
                 else:
                     break
+        except ModbusClientException:
+            # complete response received, the connection is still in sync
+            raise
+        except BaseException:
+            # a late response must not be taken for the response to a later request
+            self.disconnect()
+            raise
         finally:
             if local_connect:
                 self.disconnect()
@@ -962,6 +969,13 @@ class ModbusClientDeviceTCP(object):
                 self._write(addr + write_offset, data[start:end])
                 count -= write_count
                 write_offset += write_count
+        except ModbusClientException:
+            # complete response received, the connection is still in sync
+            raise
+        except BaseException:
+            # a late response must not be taken for the response to a later request
+            self.disconnect()
+            raise
         finally:
             if local_connect:
                 self.disconnect()
-- 
2.43.0


From 11a27d2bd18870895a3edbbfeb575a8f4afe2086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 05/62] fix: check Modbus responses against the request they
 answer

A response from another unit, for another function, or with another length
was returned as register data, and a short payload made a read return None
or misaligned bytes.  A TCP write accepted any response at all.  Exception
code 0 was taken for a normal response.
---
 sunspec/core/modbus/client.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 5e51fb0..6e9711b 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -273,9 +273,15 @@ class ModbusClientRTU(object):
         if not checkCRC(resp[:-2], crc):
             raise ModbusClientError('CRC error')
 
-        if except_code:
+        if ord(resp[0]) != int(slave_id) or (ord(resp[1]) & 0x7f) != op:
+            raise ModbusClientError('Modbus response format error')
+
+        if except_code is not None:
             raise ModbusClientException('Modbus exception %d' % (except_code))
 
+        if ord(resp[2]) != int(count) * 2:
+            raise ModbusClientError('Modbus response format error')
+
         return resp[3:-2]
 
     def read(self, slave_id, addr, count, op=FUNC_READ_HOLDING, trace_func=None, max_count=REQ_COUNT_MAX):
@@ -398,7 +404,9 @@ class ModbusClientRTU(object):
         if not checkCRC(resp[:-2], crc):
             raise ModbusClientError('CRC error')
 
-        if except_code:
+        if except_code is not None:
+            if ord(resp[0]) != int(slave_id) or (ord(resp[1]) & 0x7f) != func:
+                raise ModbusClientError('Modbus response format error')
             raise ModbusClientException('Modbus exception: %d' % (except_code))
         else:
             if sys.version_info > (3,):
@@ -805,9 +813,15 @@ class ModbusClientDeviceTCP(object):
                 s += '%02X' % (ord(c))
             self.trace_func(s)
 
-        if except_code:
+        if ord(resp[TCP_HDR_LEN]) != int(self.slave_id) or (ord(resp[TCP_HDR_LEN + 1]) & 0x7f) != op:
+            raise ModbusClientError('Modbus response format error')
+
+        if except_code is not None:
             raise ModbusClientException('Modbus exception %d' % (except_code))
 
+        if ord(resp[TCP_HDR_LEN + 2]) != int(count) * 2 or len(resp) != TCP_HDR_LEN + 3 + int(count) * 2:
+            raise ModbusClientError('Modbus response format error')
+
         return resp[(TCP_HDR_LEN + 3):]
 
     def read(self, addr, count, op=FUNC_READ_HOLDING):
@@ -933,9 +947,16 @@ class ModbusClientDeviceTCP(object):
                 s += '%02X' % (ord(c))
             self.trace_func(s)
 
-        if except_code:
+        if ord(resp[TCP_HDR_LEN]) != int(self.slave_id) or (ord(resp[TCP_HDR_LEN + 1]) & 0x7f) != func:
+            raise ModbusClientError('Modbus response format error')
+
+        if except_code is not None:
             raise ModbusClientException('Modbus exception: %d' % (except_code))
 
+        # address and register count are echoed in the response
+        if bytes(bytearray([ord(c) for c in resp[TCP_HDR_LEN + 2:]])) != struct.pack('>HH', int(addr), write_count):
+            raise ModbusClientError('Modbus response format error')
+
     def write(self, addr, data):
         """ Write Modbus device registers. If no connection exists to the
         destination, one is created and disconnected at the end of the request.
-- 
2.43.0


From 1aa5addcaa156f6ee8d7d4649219c2ab13ed3ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:04 +0000
Subject: [PATCH 06/62] fix: report serial port errors as Modbus client errors

Errors raised by the port while flushing or reading escaped as raw
SerialException.
---
 sunspec/core/modbus/client.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 6e9711b..9d93b81 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -221,6 +221,13 @@ class ModbusClientRTU(object):
             self.close()
             modbus_rtu_client_remove(self.name)
 
+    def _recv(self, size):
+
+        try:
+            return self.serial.read(size)
+        except Exception as e:
+            raise ModbusClientError('Serial read error: %s' % str(e))
+
     def _read(self, slave_id, addr, count, op=FUNC_READ_HOLDING, trace_func=None):
         resp = ''
         len_remaining = 5
@@ -236,14 +243,14 @@ class ModbusClientRTU(object):
                 s += '%02X' % (ord(c))
             trace_func(s)
 
-        self.serial.flushInput()
         try:
+            self.serial.flushInput()
             self.serial.write(req)
         except Exception as e:
             raise ModbusClientError('Serial write error: %s' % str(e))
 
         while len_remaining > 0:
-            c = self.serial.read(len_remaining)
+            c = self._recv(len_remaining)
             if type(c) == bytes and sys.version_info > (3,):
                 temp = ""
                 for i in c:
@@ -365,8 +372,8 @@ class ModbusClientRTU(object):
                 s += '%02X' % (ord(c))
             trace_func(s)
 
-        self.serial.flushInput()
         try:
+            self.serial.flushInput()
             if sys.version_info > (3,):
                 req = bytes(req, "latin-1")
             self.serial.write(req)
@@ -374,7 +381,7 @@ class ModbusClientRTU(object):
             raise ModbusClientError('Serial write error: %s' % str(e))
 
         while len_remaining > 0:
-            c = self.serial.read(len_remaining)
+            c = self._recv(len_remaining)
             if type(c) == bytes and sys.version_info > (3,):
                 temp = ""
                 for i in c:
-- 
2.43.0


From 0aa5600e36135bf42c997d7900863074234d6828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 07/62] fix: keep requests within what Modbus can express

Writes were sent with up to 125 registers although the protocol allows 123,
odd-length data went out as a malformed frame, and a range past register
65535 escaped as struct.error, possibly after part of a write was applied.
---
 sunspec/core/modbus/client.py | 36 +++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 9d93b81..b11f732 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -39,6 +39,8 @@ PARITY_NONE = 'N'
 PARITY_EVEN = 'E'
 
 REQ_COUNT_MAX = 125
+WRITE_REQ_COUNT_MAX = 123
+REG_ADDR_COUNT = 0x10000
 
 FUNC_READ_HOLDING = 3
 FUNC_READ_INPUT = 4
@@ -57,6 +59,10 @@ class ModbusClientTimeout(ModbusClientError):
 class ModbusClientException(ModbusClientError):
     pass
 
+def check_request_range(addr, count):
+    if addr < 0 or addr + count > REG_ADDR_COUNT:
+        raise ModbusClientError('Address range not valid: addr = %s count = %s' % (str(addr), str(count)))
+
 def modbus_rtu_client(name=None, baudrate=None, parity=None):
 
     global modbus_rtu_clients
@@ -323,6 +329,9 @@ class ModbusClientRTU(object):
         resp = ''
         read_count = 0
         read_offset = 0
+        max_count = min(max_count, REQ_COUNT_MAX)
+
+        check_request_range(addr, count)
 
         if self.serial is not None:
             while (count > 0):
@@ -445,7 +454,13 @@ class ModbusClientRTU(object):
 
         write_count = 0
         write_offset = 0
-        count = len(data)/2
+        max_count = min(max_count, WRITE_REQ_COUNT_MAX)
+
+        if len(data) % 2 != 0:
+            raise ModbusClientError('Data length not even number of bytes: %d' % (len(data)))
+        count = int(len(data)/2)
+
+        check_request_range(addr, count)
 
         if self.serial is not None:
             while (count > 0):
@@ -855,6 +870,9 @@ class ModbusClientDeviceTCP(object):
         read_count = 0
         read_offset = 0
         local_connect = False
+        max_count = min(self.max_count, REQ_COUNT_MAX)
+
+        check_request_range(addr, count)
 
         if self.socket is None:
             local_connect = True
@@ -862,8 +880,8 @@ class ModbusClientDeviceTCP(object):
 
         try:
             while (count > 0):
-                if count > self.max_count:
-                    read_count = self.max_count
+                if count > max_count:
+                    read_count = max_count
                 else:
                     read_count = count
                 data = self._read(addr + read_offset, read_count, op=op)
@@ -980,7 +998,13 @@ class ModbusClientDeviceTCP(object):
         write_count = 0
         write_offset = 0
         local_connect = False
-        count = len(data)/2
+        max_count = min(self.max_count, WRITE_REQ_COUNT_MAX)
+
+        if len(data) % 2 != 0:
+            raise ModbusClientError('Data length not even number of bytes: %d' % (len(data)))
+        count = int(len(data)/2)
+
+        check_request_range(addr, count)
 
         if self.socket is None:
             local_connect = True
@@ -988,8 +1012,8 @@ class ModbusClientDeviceTCP(object):
 
         try:
             while (count > 0):
-                if count > self.max_count:
-                    write_count = self.max_count
+                if count > max_count:
+                    write_count = max_count
                 else:
                     write_count = count
                 start = int(write_offset * 2)
-- 
2.43.0


From b7bf0082b1d90ec77618d9264bc01cfe1b25317b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 08/62] fix: make low level tracing work on Python 3

Formatting a traced request or response called ord() on bytes elements and
failed every traced operation, and the trace=True switch of the device
classes was itself called as if it were the trace function.
---
 sunspec/core/client.py        |  8 ++++++++
 sunspec/core/modbus/client.py | 33 +++++++++++++++++----------------
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 4962a9a..09419a0 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -41,6 +41,9 @@ PARITY_EVEN = modbus.PARITY_EVEN
 class SunSpecClientError(SunSpecError):
     pass
 
+def trace_print(s):
+    print(s)
+
 class ClientDevice(device.Device):
 
     """ClientDevice
@@ -153,6 +156,11 @@ class ClientDevice(device.Device):
         self.retry_count = 2
         self.base_addr_list = [40000, 0, 50000]
 
+        if not trace:
+            trace = None
+        elif not callable(trace):
+            trace = trace_print
+
         try:
             if device_type == RTU:
                 self.modbus_device = modbus.ModbusClientDeviceRTU(slave_id, name, baudrate, parity, timeout, self, trace)
diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index b11f732..b1cca70 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -59,6 +59,15 @@ class ModbusClientTimeout(ModbusClientError):
 class ModbusClientException(ModbusClientError):
     pass
 
+def trace_hex(data):
+    s = ''
+    for c in data:
+        # python 3 bytes elements are integers
+        if type(c) is not int:
+            c = ord(c)
+        s += '%02X' % (c)
+    return s
+
 def check_request_range(addr, count):
     if addr < 0 or addr + count > REG_ADDR_COUNT:
         raise ModbusClientError('Address range not valid: addr = %s count = %s' % (str(addr), str(count)))
@@ -245,8 +254,7 @@ class ModbusClientRTU(object):
 
         if trace_func:
             s = '{}:{}[addr={}] ->'.format(self.name, str(slave_id), addr)
-            for c in req:
-                s += '%02X' % (ord(c))
+            s += trace_hex(req)
             trace_func(s)
 
         try:
@@ -278,8 +286,7 @@ class ModbusClientRTU(object):
 
         if trace_func:
             s = '{}:{}[addr={}] <--'.format(self.name, str(slave_id), addr)
-            for c in resp:
-                s += '%02X' % (ord(c))
+            s += trace_hex(resp)
             trace_func(s)
 
         crc = (ord(resp[-2]) << 8) | ord(resp[-1])
@@ -377,8 +384,7 @@ class ModbusClientRTU(object):
 
         if trace_func:
             s = '{}:{}[addr={}] ->'.format(self.name, str(slave_id), addr)
-            for c in req:
-                s += '%02X' % (ord(c))
+            s += trace_hex(req)
             trace_func(s)
 
         try:
@@ -411,8 +417,7 @@ class ModbusClientRTU(object):
 
         if trace_func:
             s = '{}:{}[addr={}] <--'.format(self.name, str(slave_id), addr)
-            for c in resp:
-                s += '%02X' % (ord(c))
+            s += trace_hex(resp)
             trace_func(s)
 
 
@@ -795,8 +800,7 @@ class ModbusClientDeviceTCP(object):
 
         if self.trace_func:
             s = '{}:{}:{}[addr={}] ->'.format(self.ipaddr, str(self.ipport), str(self.slave_id), addr)
-            for c in req:
-                s += '%02X' % (ord(c))
+            s += trace_hex(req)
             self.trace_func(s)
 
         try:
@@ -831,8 +835,7 @@ class ModbusClientDeviceTCP(object):
 
         if self.trace_func:
             s = '{}:{}:{}[addr={}] <--'.format(self.ipaddr, str(self.ipport), str(self.slave_id), addr)
-            for c in resp:
-                s += '%02X' % (ord(c))
+            s += trace_hex(resp)
             self.trace_func(s)
 
         if ord(resp[TCP_HDR_LEN]) != int(self.slave_id) or (ord(resp[TCP_HDR_LEN + 1]) & 0x7f) != op:
@@ -926,8 +929,7 @@ class ModbusClientDeviceTCP(object):
 
         if self.trace_func:
             s = '{}:{}:{}[addr={}] ->'.format(self.ipaddr, str(self.ipport), str(self.slave_id), addr)
-            for c in req:
-                s += '%02X' % (ord(c))
+            s += trace_hex(req)
             self.trace_func(s)
 
         try:
@@ -968,8 +970,7 @@ class ModbusClientDeviceTCP(object):
 
         if self.trace_func:
             s = '{}:{}:{}[addr={}] <--'.format(self.ipaddr, str(self.ipport), str(self.slave_id), addr)
-            for c in resp:
-                s += '%02X' % (ord(c))
+            s += trace_hex(resp)
             self.trace_func(s)
 
         if ord(resp[TCP_HDR_LEN]) != int(self.slave_id) or (ord(resp[TCP_HDR_LEN + 1]) & 0x7f) != func:
-- 
2.43.0


From 6296fb23b2b6af397c2ff8d99ed933aebed2cee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 09/62] fix: keep points modified until the device has accepted
 them

write_points() cleared the modified flag before the write was sent, so a
failed write was silently forgotten by the next write.
---
 sunspec/core/client.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 09419a0..611117e 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -426,6 +426,7 @@ class ClientModel(device.Model):
         addr = None
         next_addr = None
         data = b''
+        points = []
 
         for block in self.blocks:
             for point in block.points_list:
@@ -438,15 +439,24 @@ class ClientModel(device.Model):
                         data = b''
                     else:
                         if point_addr != next_addr:
-                            block.model.device.write(addr, data)
+                            self._write_run(addr, data, points)
                             addr = point_addr
                             data = b''
+                            points = []
                     next_addr = point_addr + point_len
                     data += point_data
-                    point.dirty = False
+                    points.append(point)
             if addr is not None:
-                block.model.device.write(addr, data)
+                self._write_run(addr, data, points)
                 addr = None
+                points = []
+
+    def _write_run(self, addr, data, points):
+
+        self.device.write(addr, data)
+        # points are only up to date in the device once the write has succeeded
+        for point in points:
+            point.dirty = False
 
 class ClientBlock(device.Block):
     """A derived class based on :const:`sunspec.core.device.Block`. It adds
-- 
2.43.0


From a192a4492edeef6b5e6d7fa6e3ea10bf0642f450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 10/62] fix: do not split a point between two write requests

A run of adjacent modified points longer than one request was cut at the
register limit, so the device could be left with half of a point.
---
 sunspec/core/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 611117e..b2c014c 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -438,7 +438,8 @@ class ClientModel(device.Model):
                         addr = point_addr
                         data = b''
                     else:
-                        if point_addr != next_addr:
+                        # a point must not be divided between two requests
+                        if point_addr != next_addr or point_addr + point_len - addr > modbus.WRITE_REQ_COUNT_MAX:
                             self._write_run(addr, data, points)
                             addr = point_addr
                             data = b''
-- 
2.43.0


From 77ffd5caae2008d9b254504cf0efd0dfb95d1f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:59 +0000
Subject: [PATCH 11/62] fix: a point read from the device is no longer modified

Reading replaced a modified value but left the point marked modified, so the
next write sent the device's own (possibly outdated) value back to it.
---
 sunspec/core/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index b2c014c..3a821eb 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -408,6 +408,8 @@ class ClientModel(device.Model):
                                 else:
                                     point.value_base = None
                                     point.value_sf = None
+                                # value now is the device value
+                                point.dirty = False
                             else:
                                 raise SunSpecClientError('No data_to function set for {} : {}'.format(pname, point.point_type))
 
-- 
2.43.0


From b4badd5e27d512855571c529ef3f9faf69a0af47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 12/62] fix: allow eui48 points to be written

eui48_to_data() did not take the length argument that every point encoder is
called with.
---
 sunspec/core/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index 2c59734..0475d42 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -150,7 +150,7 @@ def str_to_data(s, slen=None):
         slen += 1
     return struct.pack(str(slen) + 's', s)
 
-def eui48_to_data(eui48):
+def eui48_to_data(eui48, len=None):
     return (b'\x00\x00' + base64.b16decode(eui48.replace(':', '')))
 
 
-- 
2.43.0


From 024772a19bc4baa97f64dd86a6a939d230f95e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 13/62] fix: treat uint64 and acc64 points as unsigned

Values of 2**63 and above were read as negative and could not be written,
and an unimplemented uint64 point read as -1.
---
 sunspec/core/suns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/suns.py b/sunspec/core/suns.py
index 3204939..063be93 100644
--- a/sunspec/core/suns.py
+++ b/sunspec/core/suns.py
@@ -182,8 +182,8 @@ suns_point_type_info = {
     SUNS_TYPE_BITFIELD32: (2, suns_is_impl_bitfield32, util.data_to_u32, util.u32_to_data, suns_to_long, 0),
     SUNS_TYPE_IPADDR: (2, suns_is_impl_ipaddr, util.data_to_u32, util.u32_to_data, suns_to_long, 0),
     SUNS_TYPE_INT64: (4, suns_is_impl_int64, util.data_to_s64, util.s64_to_data, suns_to_long, 0),
-    SUNS_TYPE_UINT64: (4, suns_is_impl_uint64, util.data_to_s64, util.s64_to_data, suns_to_long, 0),
-    SUNS_TYPE_ACC64: (4, suns_is_impl_acc64, util.data_to_s64, util.s64_to_data, suns_to_long, 0),
+    SUNS_TYPE_UINT64: (4, suns_is_impl_uint64, util.data_to_u64, util.u64_to_data, suns_to_long, 0),
+    SUNS_TYPE_ACC64: (4, suns_is_impl_acc64, util.data_to_u64, util.u64_to_data, suns_to_long, 0),
     SUNS_TYPE_IPV6ADDR: (8, suns_is_impl_ipv6addr, util.data_to_ipv6addr, util.ipv6addr_to_data, suns_to_str, 0),
     SUNS_TYPE_FLOAT32: (2, suns_is_impl_float32, util.data_to_float, util.float_to_data32, suns_to_float, 0),
     SUNS_TYPE_STRING: (None, suns_is_impl_string, util.data_to_str, util.str_to_data, suns_to_str, ''),
-- 
2.43.0


From 42712f8d6602593dafacaa59f851ea73bb03be7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 14/62] fix: encode short string points in their own length

A string point of less than 8 registers was encoded with one byte too many,
giving an odd length request and shifting the points written after it.
---
 sunspec/core/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index 0475d42..d641e92 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -141,11 +141,12 @@ def float_to_data(f, len=None):
     return struct.pack('>d', f)
 
 def str_to_data(s, slen=None):
+    pad = slen is None
     if slen is None:
         slen = len(s)
     if sys.version_info > (3,):
         s = bytes(s, 'latin-1')
-    if slen < 16:
+    if pad and slen < 16:
         s += b'\x00'
         slen += 1
     return struct.pack(str(slen) + 's', s)
-- 
2.43.0


From b181e6c5d441fe7e47ba38de9915f7b23c2a5053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 15/62] fix: report a value a point cannot hold as
 SunSpecClientError

Writing an out of range value escaped as struct.error.
---
 sunspec/core/client.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 3a821eb..521d8f0 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -435,7 +435,7 @@ class ClientModel(device.Model):
                 if point.dirty:
                     point_addr = int(point.addr)
                     point_len = int(point.point_type.len)
-                    point_data = point.point_type.to_data(point.value_base, (point_len * 2))
+                    point_data = point.to_data()
                     if addr is None:
                         addr = point_addr
                         data = b''
@@ -518,11 +518,18 @@ class ClientPoint(device.Point):
 
         device.Point.__init__(self, block, point_type, addr, sf_point, value)
 
+    def to_data(self):
+
+        try:
+            return self.point_type.to_data(self.value_base, (int(self.point_type.len) * 2))
+        except Exception as e:
+            raise SunSpecClientError('Error encoding point %s: %s' % (self.point_type.id, str(e)))
+
     def write(self):
         """Write the point to the physical device.
         """
 
-        data = self.point_type.to_data(self.value_base, (int(self.point_type.len) * 2))
+        data = self.to_data()
         self.block.model.device.write(int(self.addr), data)
         self.dirty = False
 
-- 
2.43.0


From 29f65b72fa9bde8b0e26ad721183680ce266308b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 16/62] fix: scale the value set on a point last read as not
 implemented

The scale factor was dropped when the point read as not implemented, so a
value then set on it was written unscaled.
---
 sunspec/core/device.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index cafc223..27294a1 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -517,6 +517,10 @@ class Point(object):
 
     def value_setter(self, v):
 
+        # scale factor is not set in a point last read as not implemented
+        if self.value_sf is None and self.sf_point is not None:
+            self.value_sf = self.sf_point.value_base
+
         if self.value_sf:
             self.value_base = int(round(float(v) / math.pow(10, self.value_sf)))
         else:
-- 
2.43.0


From 45ac2933ffb3385b302bea14677af168b568c744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 17/62] fix: make a failed or repeated scan leave the device
 usable

A scan of an already scanned device died with UnboundLocalError or listed
every model twice, a failed scan left its TCP connection open, and a
connection error was not reported as SunSpecClientError.
---
 sunspec/core/client.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 521d8f0..fea8631 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -240,13 +240,29 @@ class ClientDevice(device.Device):
         SunSpec model definitions.
         """
 
-        error = ''
-
         connect = False
         if self.modbus_device and type(self.modbus_device) == modbus.ModbusClientDeviceTCP:
-            self.modbus_device.connect()
+            try:
+                self.modbus_device.connect()
+            except modbus.ModbusClientError as e:
+                raise SunSpecClientError('Modbus error: %s' % str(e))
             connect = True
 
+        try:
+            self._scan_models(connect, progress, delay)
+        finally:
+            if connect:
+                self.modbus_device.disconnect()
+
+    def _scan_models(self, connect, progress, delay):
+
+        error = ''
+
+        # start over, models found by an earlier scan are found again
+        self.models_list = []
+        self.models = {}
+
+        if connect:
             if delay is not None:
                 time.sleep(delay)
 
@@ -268,6 +284,11 @@ class ClientDevice(device.Device):
                 if delay is not None:
                     time.sleep(delay)
 
+        else:
+            data = self.read(self.base_addr, 3)
+            if data[:4] != b'SunS':
+                raise SunSpecClientError('Device responded - not SunSpec register map')
+
         if self.base_addr is not None:
             # print('base address = %s' % (self.base_addr))
             model_id = util.data_to_u16(data[4:6])
@@ -311,9 +332,6 @@ class ClientDevice(device.Device):
                 error = 'Unknown error'
             raise SunSpecClientError(error)
 
-        if connect:
-            self.modbus_device.disconnect()
-
 class ClientModel(device.Model):
     """A derived class based on :const:`sunspec.core.device.Model`. It adds
     Modbus device access capability to the model base class.
-- 
2.43.0


From 88a9c904d51ba9877c802f3ab6622ff2a8e8f0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 18/62] fix: report modbus map errors as Modbus client errors

ModbusMapError is not a ModbusClientError, so it escaped from the device
classes; a map based at 0 or 50000 could not be scanned because the probe of
an absent base address raised it.
---
 sunspec/core/modbus/client.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index b1cca70..ffce14e 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -1086,10 +1086,14 @@ class ModbusClientDeviceMapped(object):
         self.modbus_map = None
 
         if name is not None:
-            self.modbus_map = mbmap.ModbusMap(slave_id)
-            self.modbus_map.from_xml(name, pathlist)
+            try:
+                modbus_map = mbmap.ModbusMap(slave_id)
+                modbus_map.from_xml(name, pathlist)
+                self.modbus_map = modbus_map
+            except mbmap.ModbusMapError as e:
+                raise ModbusClientError(str(e))
         else:
-            raise mbmap.ModbusMapError('No modbus map file provided during initialization')
+            raise ModbusClientError('No modbus map file provided during initialization')
 
     def close(self):
         """Close the device. Called when device is not longer in use.
@@ -1118,7 +1122,10 @@ class ModbusClientDeviceMapped(object):
         """
 
         if self.modbus_map is not None:
-            return self.modbus_map.read(addr, count, op)
+            try:
+                return self.modbus_map.read(addr, count, op)
+            except mbmap.ModbusMapError as e:
+                raise ModbusClientError(str(e))
         else:
             raise ModbusClientError('No modbus map set for device')
 
@@ -1136,7 +1143,10 @@ class ModbusClientDeviceMapped(object):
         """
 
         if self.modbus_map is not None:
-            return self.modbus_map.write(addr, data)
+            try:
+                return self.modbus_map.write(addr, data)
+            except mbmap.ModbusMapError as e:
+                raise ModbusClientError(str(e))
         else:
             raise ModbusClientError('No modbus map set for device')
 
-- 
2.43.0


From 031895ee37604b72e2f6defdeb3df8dd766a68b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 19/62] fix: load and write modbus maps on Python 3

Register counts worked out with / are floats on Python 3: hex and hexstr
content without a len could not be read, a string without a len failed to
load.  A write to more than one register block resumed at the wrong byte,
and a string without a len kept only half of its text.
---
 sunspec/core/modbus/mbmap.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index 0a010d3..b44982e 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -140,7 +140,7 @@ class ModbusMap(object):
                             else:
                                 data += c
 
-            mmr = ModbusMapRegs(offset, len(data)/2, data, MBMAP_REGS_ACCESS_RW)
+            mmr = ModbusMapRegs(offset, len(data)//2, data, MBMAP_REGS_ACCESS_RW)
             self.regs.append(mmr)
             f.close()
         except Exception as e:
@@ -248,7 +248,7 @@ class ModbusMap(object):
                     rlen = 4
                 elif rtype == MBMAP_REGS_TYPE_STRING:
                     if rlen == 0:
-                        rlen = (len(text) + 3)/4
+                        rlen = (len(text) + 1)//2
 
                     # Python 3 compatibility for byte strings
                     if sys.version_info > (3,):
@@ -263,7 +263,7 @@ class ModbusMap(object):
                     if text_len % 4 != 0:
                         raise ModbusMapError('Hex string content length must be a multiple of 4 bytes')
                     if rlen == 0:
-                        rlen = text_len/4
+                        rlen = text_len//4
                     text_index = 0
                     while text_index < text_len:
                         c = struct.pack('B', int(text[text_index:text_index + 2], 16))
@@ -416,7 +416,7 @@ class ModbusMap(object):
         """
 
         data_len = len(data)
-        count_remaining = data_len/2
+        count_remaining = data_len//2
 
         if data_len % 2 != 0:
             raise ModbusMapError('Data length not even number of bytes - addr: %d  data len: %d' % (addr, data_len))
@@ -436,7 +436,7 @@ class ModbusMap(object):
                     end = int(data_offset + (write_count * 2))
                     regs.write(offset, data[start:end])
                     offset += write_count
-                    data_offset += write_count
+                    data_offset += int(write_count * 2)
                     count_remaining -= write_count
                 else:
                     continue
-- 
2.43.0


From 55c73703e14f4a23d43191b0322a22c405c27058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 20/62] fix: reject a modbus map write as a whole

A write running past a register block changed the registers up to there and
then failed; a device rejects such a request without changing anything.
---
 sunspec/core/modbus/mbmap.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index b44982e..89aa37d 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -422,6 +422,7 @@ class ModbusMap(object):
             raise ModbusMapError('Data length not even number of bytes - addr: %d  data len: %d' % (addr, data_len))
 
         data_offset = 0
+        writes = []
         offset = addr - int(self.base_addr)
         for regs in self.regs:
             if count_remaining > 0:
@@ -434,7 +435,7 @@ class ModbusMap(object):
                     # data += regs.read(offset, read_count)
                     start = data_offset
                     end = int(data_offset + (write_count * 2))
-                    regs.write(offset, data[start:end])
+                    writes.append((regs, offset, data[start:end]))
                     offset += write_count
                     data_offset += int(write_count * 2)
                     count_remaining -= write_count
@@ -447,6 +448,9 @@ class ModbusMap(object):
         if count_remaining > 0:
            raise ModbusMapError('Data write error')
 
+        for regs, offset, data in writes:
+            regs.write(offset, data)
+
     def not_equal(self, mbmap):
         """ Determines if the specified modbus map instance is not equal based
         on the content of the map.  If not equal, returns a string indicating
-- 
2.43.0


From e0894dd69426dd0d77075961b9e6c7794921dec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 21/62] fix: keep the serial port registry consistent when
 closing devices

Closing a device twice removed the registration of whichever client had
opened the port since, so the port was opened a second time, and an error
while closing the port left the dead client registered for good.
---
 sunspec/core/modbus/client.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index ffce14e..d9d5a17 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -93,10 +93,14 @@ def modbus_rtu_client(name=None, baudrate=None, parity=None):
 
     return client
 
-def modbus_rtu_client_remove(name=None):
+def modbus_rtu_client_remove(name=None, client=None):
 
     global modbus_rtu_clients
 
+    # a closed client must not remove the client that is now using the port
+    if client is not None and modbus_rtu_clients.get(name) is not client:
+        return
+
     if modbus_rtu_clients.get(name):
         del modbus_rtu_clients[name]
 
@@ -233,8 +237,10 @@ class ModbusClientRTU(object):
 
         # if no more devices using the client interface, close and remove the client
         if len(self.devices) == 0:
-            self.close()
-            modbus_rtu_client_remove(self.name)
+            try:
+                self.close()
+            finally:
+                modbus_rtu_client_remove(self.name, self)
 
     def _recv(self, size):
 
-- 
2.43.0


From d6d87ef42f73cbf3420f726d6c866e871828a240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 22/62] fix: keep the serial port open while another device
 object uses it

Two device objects with the same slave id shared one registration, so
closing either of them closed the port under the other.
---
 sunspec/core/modbus/client.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index d9d5a17..63dba11 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -221,19 +221,27 @@ class ModbusClientRTU(object):
                 Device to add to the client.
         """
 
-        self.devices[slave_id] = device
+        # more than one device object may be using the same slave id
+        self.devices.setdefault(slave_id, []).append(device)
 
-    def remove_device(self, slave_id):
+    def remove_device(self, slave_id, device=None):
         """Remove a device from the RTU client.
 
         Parameters:
 
             slave_id :
                 Modbus slave id.
+
+            device :
+                Device to remove from the client. All the devices with the
+                slave id if not supplied.
         """
 
         if self.devices.get(slave_id):
-            del self.devices[slave_id]
+            if device is not None:
+                self.devices[slave_id] = [d for d in self.devices[slave_id] if d is not device]
+            if device is None or not self.devices[slave_id]:
+                del self.devices[slave_id]
 
         # if no more devices using the client interface, close and remove the client
         if len(self.devices) == 0:
@@ -555,7 +563,7 @@ class ModbusClientDeviceRTU(object):
         """
 
         if self.client:
-            self.client.remove_device(self.slave_id)
+            self.client.remove_device(self.slave_id, self)
 
     def read(self, addr, count, op=FUNC_READ_HOLDING):
         """Read Modbus device registers.
-- 
2.43.0


From 1806e0c29722322f6e76f5573893e0a4d2bca256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 23/62] fix: use each RTU device's own timeout on a shared port

The timeout of the device created last replaced the timeout of every device
on the port.
---
 sunspec/core/modbus/client.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 63dba11..b6c5362 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -554,9 +554,7 @@ class ModbusClientDeviceRTU(object):
             raise ModbusClientError('No modbus rtu client set for device')
         self.client.add_device(self.slave_id, self)
 
-        if timeout is not None and self.client.serial is not None:
-            self.client.serial.timeout = timeout
-            self.client.serial.writeTimeout = timeout
+        self.timeout = timeout
 
     def close(self):
         """Close the device. Called when device is not longer in use.
@@ -565,6 +563,23 @@ class ModbusClientDeviceRTU(object):
         if self.client:
             self.client.remove_device(self.slave_id, self)
 
+    def _set_timeout(self):
+
+        # the port is shared, use the timeout of the device making the request
+        timeout = self.client.timeout
+        write_timeout = self.client.write_timeout
+        if self.timeout is not None:
+            timeout = self.timeout
+            write_timeout = self.timeout
+        try:
+            if self.client.serial is not None:
+                if self.client.serial.timeout != timeout:
+                    self.client.serial.timeout = timeout
+                if self.client.serial.writeTimeout != write_timeout:
+                    self.client.serial.writeTimeout = write_timeout
+        except Exception as e:
+            raise ModbusClientError('Serial timeout error: %s' % str(e))
+
     def read(self, addr, count, op=FUNC_READ_HOLDING):
         """Read Modbus device registers.
 
@@ -584,6 +599,7 @@ class ModbusClientDeviceRTU(object):
             Byte string containing register contents.
         """
 
+        self._set_timeout()
         return self.client.read(self.slave_id, addr, count, op=op, trace_func=self.trace_func, max_count=self.max_count)
 
     def write(self, addr, data):
@@ -598,6 +614,7 @@ class ModbusClientDeviceRTU(object):
                 Byte string containing register contents.
         """
 
+        self._set_timeout()
         return self.client.write(self.slave_id, addr, data, trace_func=self.trace_func, max_count=self.max_count)
 
 TCP_HDR_LEN = 6
-- 
2.43.0


From 5cd4cadf9cdbbed1cb793fec9f18292a9ba0422a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 24/62] fix: search the paths that follow a zip file in a path
 list

Once a zip file had been searched, every later path was looked up inside
that zip file as well.
---
 sunspec/core/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index d641e92..2361a5d 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -211,6 +211,7 @@ class PathList(object):
         # traverse path list until first instance of file found
         for p in self.path:
             file_path = ''
+            zip_file_path = ''
             element_list = p.split(os.sep)
             sep = os.sep
 
-- 
2.43.0


From 13355f1fd6ec4d2c0e0d29936d95c4e1cb95f2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 25/62] fix: report read errors and unknown models in the suns
 script

A failed read or a model without a definition ended the script with a
traceback.
---
 scripts/suns.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scripts/suns.py b/scripts/suns.py
index 146e403..35edae3 100644
--- a/scripts/suns.py
+++ b/scripts/suns.py
@@ -85,10 +85,14 @@ if __name__ == "__main__":
         print( '\nTimestamp: %s' % (time.strftime('%Y-%m-%dT%H:%M:%SZ', time.gmtime())))
 
         # read all models in the device
-        sd.read()
+        try:
+            sd.read()
+        except client.SunSpecClientError as e:
+            print('Error: %s' % (e))
+            sys.exit(1)
 
         for model in sd.device.models_list:
-            if model.model_type.label:
+            if model.model_type is not None and model.model_type.label:
                 label = '%s (%s)' % (model.model_type.label, str(model.id))
             else:
                 label = '(%s)' % (str(model.id))
-- 
2.43.0


From 0a3aaf3502a86c74979e0e544883f6ce88e6324c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 26/62] fix: do not alter the model class of a device already
 in use

The generated model classes were shared by model id and emptied and rebuilt
for every new device, so another device (in another thread, or with another
definition, or after a definition failed to load) lost its points.
---
 sunspec/core/client.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index fea8631..1caa138 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -597,15 +597,12 @@ class SunSpecClientModelBase(object):
         self.repeating_name = 'repeating'
 
         if len(model.blocks) > 1:
-            block_class_name = self.__class__.__name__ + 'Repeating'
             for block in model.blocks[1:]:
                 # set repeating block name and attribute if present
                 if block.block_type.name != self.repeating_name:
                     self.repeating_name = block.block_type.name
                     setattr(self, self.repeating_name, self.repeating)
-                # block_class_ = globals().get(block_class_name)
-                block_class = globals().get(block_class_name)
-                c = block_class(block, self.repeating_name)
+                c = self.block_class(block, self.repeating_name)
                 self.repeating.append(c)
 
     def _get_property(self, name):
@@ -711,7 +708,7 @@ class SunSpecClientBlockBase(object):
 
         return s
 
-def model_class_get(model_id):
+def model_class_get(model_id, model_type=None):
 
     def add_property(self, name, value):
         fget = lambda self: self._get_property(name)
@@ -724,18 +721,16 @@ def model_class_get(model_id):
     def block_class_init(self, block, name):
         SunSpecClientBlockBase.__init__(self, block, name)
 
+    # the class is complete before it is shared and belongs to one definition, other devices may be in use
     class_name = 'Model' + str(model_id)
-    class_ = globals().get(class_name)
-    if class_ is None:
-        class_ = type(class_name, (SunSpecClientModelBase,), {'__init__' : class_init})
-        globals()[class_name] = class_
+    class_ = type(class_name, (SunSpecClientModelBase,), {'__init__' : class_init})
 
     setattr(class_, 'points', [])
-    model_type = None
-    try:
-        model_type = device.model_type_get(model_id)
-    except Exception as e:
-        setattr(class_, 'load_error', str(e))
+    if model_type is None:
+        try:
+            model_type = device.model_type_get(model_id)
+        except Exception as e:
+            setattr(class_, 'load_error', str(e))
     if model_type is not None:
         for point_type in model_type.fixed_block.points_list:
             if point_type.type != suns.SUNS_TYPE_SUNSSF and point_type.type != suns.SUNS_TYPE_PAD:
@@ -747,13 +742,16 @@ def model_class_get(model_id):
         if block_type is not None:
             block_class_name = class_name + 'Repeating'
             block_class = type(block_class_name, (SunSpecClientBlockBase,), {'__init__' : block_class_init})
-            globals()[block_class_name] = block_class
+            setattr(class_, 'block_class', block_class)
 
             setattr(block_class, 'points', [])
             for point_type in block_type.points_list:
                 if point_type.type != suns.SUNS_TYPE_SUNSSF and point_type.type != suns.SUNS_TYPE_PAD:
                     add_property(block_class, point_type.id, None)
                     block_class.points.append(point_type.id)
+            globals()[block_class_name] = block_class
+
+    globals()[class_name] = class_
 
     return class_
 
@@ -865,7 +863,7 @@ class SunSpecClientDevice(object):
             # create named attributes for each model
             for model in self.device.models_list:
                 model_id = str(model.id)
-                c = model_class_get(model_id)
+                c = model_class_get(model_id, model.model_type)
                 if model.model_type is not None:
                     name = model.model_type.name
                 else:
-- 
2.43.0


From 522a7627ead3205d6ab2fc05299208a719b3f516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:23 +0000
Subject: [PATCH 27/62] fix: make insecure_skip_tls_verify skip certificate
 verification

Only the host name check was skipped, a device with a self-signed
certificate could still not be reached.
---
 sunspec/core/modbus/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index b6c5362..9676d48 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -788,6 +788,8 @@ class ModbusClientDeviceTCP(object):
                 context = ssl.create_default_context(ssl.Purpose.SERVER_AUTH, cafile=self.cafile)
                 context.load_cert_chain(certfile=self.certfile, keyfile=self.keyfile)
                 context.check_hostname = self.tls_verify
+                if not self.tls_verify:
+                    context.verify_mode = ssl.CERT_NONE
 
                 self.socket = context.wrap_socket(self.socket, server_side=False, server_hostname=self.ipaddr)
 
-- 
2.43.0


From 605638cb199f5f456b6d5d2c75dcf840530cdb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 28/62] fix: keep the device timestamp and model index of data
 records

A parsed record lost its device timestamp when written again, the model
index and namespace were swapped, and a model index above 1 could not be
serialised.
---
 sunspec/core/data.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/sunspec/core/data.py b/sunspec/core/data.py
index f1d6260..3a55eb0 100644
--- a/sunspec/core/data.py
+++ b/sunspec/core/data.py
@@ -138,7 +138,7 @@ class DeviceData(object):
 
     def model_add(self, model_id=None, index=None, namespace=None):
 
-    	m = ModelData(model_id, namespace, index)
+    	m = ModelData(model_id, index, namespace)
     	self.model_data.append(m)
     	return m
 
@@ -158,6 +158,7 @@ class DeviceData(object):
         self.mod = element.attrib.get(SDX_DEVICE_MOD)
         self.sn = element.attrib.get(SDX_DEVICE_SN)
         self.time = element.attrib.get(SDX_DEVICE_TIME)
+        self.timestamp = self.time
         self.cid = element.attrib.get(SDX_DEVICE_CORRELATION_ID)
 
         for m in element.findall('*'):
@@ -244,12 +245,8 @@ class ModelData(object):
 
         attr = {SDX_MODEL_ID: str(self.model_id)}
 
-        if self.index is None and sys.version_info > (3,):
-            self.index = -233
-        if self.index > 1:
-            attr[SDX_MODEL_INDEX] = self.index
-        if self.index is -233 and sys.version_info > (3,):
-            self.index = None
+        if self.index is not None and int(self.index) > 1:
+            attr[SDX_MODEL_INDEX] = str(self.index)
         if self.namespace:
             attr[SDX_MODEL_NAMESPACE] = self.namespace
 
-- 
2.43.0


From b1d1a2b93b42b051289b4cef33064426479fbc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 29/62] fix: release the device when its construction is
 interrupted

An interrupt during the initial scan left the serial port open with nothing
to close it by.
---
 sunspec/core/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 1caa138..0390039 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -883,7 +883,7 @@ class SunSpecClientDevice(object):
                 else:
                     setattr(self, name, model_class)
                     self.models.append(name)
-        except Exception as e:
+        except BaseException:
             if self.device is not None:
                 self.device.close()
             raise
-- 
2.43.0


From 078f08068b77b7a0c875875ac21505bb2bb085ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 30/62] fix: report an error closing a device as
 SunSpecClientError

---
 sunspec/core/client.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 0390039..8ae9893 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -180,8 +180,11 @@ class ClientDevice(device.Device):
 
     def close(self):
 
-        if self.modbus_device is not None:
-            self.modbus_device.close()
+        try:
+            if self.modbus_device is not None:
+                self.modbus_device.close()
+        except modbus.ModbusClientError as e:
+            raise SunSpecClientError('Modbus close error: %s' % str(e))
 
     def read(self, addr, count):
         """Read Modbus device registers.
-- 
2.43.0


From 6dd089bc08fd147cb791c7897497f0b83f080144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 31/62] fix: do not report a connection closed during a write
 as a timeout

---
 sunspec/core/modbus/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 9676d48..b0c8fc6 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -993,7 +993,7 @@ class ModbusClientDeviceTCP(object):
                         temp += chr(i)
                     resp = temp
             else:
-                raise ModbusClientTimeout('Response timeout')
+                raise ModbusClientError('Connection closed')
 
         if not (ord(resp[TCP_HDR_LEN + 1]) & 0x80):
             len_remaining = (ord(resp[TCP_HDR_LEN + 2]) + TCP_HDR_LEN) - len(resp)
-- 
2.43.0


From 85a0a3e17c4a505aa9f8839d7ded7b3e8d29516e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:18 +0000
Subject: [PATCH 32/62] fix: reject a repeating block without length instead of
 looping forever

---
 sunspec/core/device.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 27294a1..33810d3 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -780,6 +780,8 @@ class Model(object):
                 block_len = int(block_type.len)
                 if end_addr == block_end:
                     break
+                if block_len <= 0:
+                    raise SunSpecError('Invalid repeating block length {} in model {}'.format(block_len, self.id))
         else:
             raise SunSpecError('Unknown model type - id: %s' % str(self.id))
 
-- 
2.43.0


From 7b5730347e05147126543defcfe8528a31b3fdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:21 +0000
Subject: [PATCH 33/62] fix: reject a model definition file that defines
 another or no model

---
 sunspec/core/device.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 33810d3..76f53a2 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -930,6 +930,8 @@ def model_type_get(model_id):
             try:
                 model_type = ModelType()
                 model_type.from_smdx(root)
+                if model_type.id != int(model_id):
+                    raise SunSpecError('Definition is for model {}'.format(model_type.id))
                 model_types[model_type.id] = model_type
             except Exception as e:
                 raise SunSpecError('Error loading model {} at {}: {}'.format(model_id, filename, str(e)))
-- 
2.43.0


From 9a642d98893bade5a49fe137b0ba71e714df2b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:02 +0000
Subject: [PATCH 34/62] fix: keep a block with an unresolvable scale factor out
 of the model

---
 sunspec/core/device.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 76f53a2..19a9c48 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -735,7 +735,6 @@ class Model(object):
                     )
 
                 block = block_class(self, block_addr, block_len, block_type, index)
-                self.blocks.append(block)
 
                 for point_type in block_type.points_list:
                     if point_type.type != suns.SUNS_TYPE_PAD:
@@ -767,9 +766,11 @@ class Model(object):
                             if index > 0:
                                 point.sf_point = self.blocks[0].points_sf.get(point.point_type.sf)
                         if point.sf_point is None:
-                            # ### what state should model be left in on exception
                             raise SunSpecError('Unable to resolve scale factor point %s for point %s in model %s' %
-                                point.point_type.sf, point.point_type.pid, self.id)
+                                (point.point_type.sf, point.point_type.id, self.id))
+
+                # only complete blocks become part of the model
+                self.blocks.append(block)
 
                 block_addr += block_len
                 block_type = self.model_type.repeating_block
-- 
2.43.0


From 30c3bb827ce67944e69555fb9f40688df4641ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 35/62] fix: reject a model definition whose points cannot be
 decoded

---
 sunspec/core/device.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 19a9c48..4a55dd3 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -739,6 +739,8 @@ class Model(object):
                 for point_type in block_type.points_list:
                     if point_type.type != suns.SUNS_TYPE_PAD:
                         point_addr = int(block_addr) + int(point_type.offset)
+                        if point_addr + point_type.len > end_addr:
+                            raise SunSpecError('Point {} would exceed end of model {}'.format(point_type.id, self.id))
                         point = point_class(block=block, point_type=point_type, addr=str(point_addr))
                         if point_addr + point.point_type.len - last_read_addr > MAX_READ_COUNT:
                             last_read_addr = point_addr
@@ -1389,6 +1391,8 @@ class PointType(object):
             if info is not None:
                 self.len, self.is_impl, self.data_to, self.to_data, self.to_value, self.value_default = info
                 if plen is not None:
+                    if self.len is not None and int(plen) != self.len and self.type != suns.SUNS_TYPE_PAD:
+                        raise SunSpecError('Invalid len attribute for point: %s' % self.id)
                     self.len = int(plen)
 
         for e in element.findall('*'):
-- 
2.43.0


From cd008241a8b8c3270c412063da91d70de33a5c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:22 +0000
Subject: [PATCH 36/62] fix: reject a slave id that does not fit in a request

---
 sunspec/core/modbus/client.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index b0c8fc6..cb99619 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -72,6 +72,10 @@ def check_request_range(addr, count):
     if addr < 0 or addr + count > REG_ADDR_COUNT:
         raise ModbusClientError('Address range not valid: addr = %s count = %s' % (str(addr), str(count)))
 
+def check_slave_id(slave_id):
+    if int(slave_id) < 0 or int(slave_id) > 255:
+        raise ModbusClientError('Slave id not valid: %s' % str(slave_id))
+
 def modbus_rtu_client(name=None, baudrate=None, parity=None):
 
     global modbus_rtu_clients
@@ -352,6 +356,7 @@ class ModbusClientRTU(object):
         read_offset = 0
         max_count = min(max_count, REQ_COUNT_MAX)
 
+        check_slave_id(slave_id)
         check_request_range(addr, count)
 
         if self.serial is not None:
@@ -479,6 +484,7 @@ class ModbusClientRTU(object):
             raise ModbusClientError('Data length not even number of bytes: %d' % (len(data)))
         count = int(len(data)/2)
 
+        check_slave_id(slave_id)
         check_request_range(addr, count)
 
         if self.serial is not None:
@@ -908,6 +914,7 @@ class ModbusClientDeviceTCP(object):
         local_connect = False
         max_count = min(self.max_count, REQ_COUNT_MAX)
 
+        check_slave_id(self.slave_id)
         check_request_range(addr, count)
 
         if self.socket is None:
@@ -1038,6 +1045,7 @@ class ModbusClientDeviceTCP(object):
             raise ModbusClientError('Data length not even number of bytes: %d' % (len(data)))
         count = int(len(data)/2)
 
+        check_slave_id(self.slave_id)
         check_request_range(addr, count)
 
         if self.socket is None:
-- 
2.43.0


From c6027bcb576441dc2ae97fd98df093c1f4a5dbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 37/62] fix: reject a register map whose base address is not a
 number

The base address of a map document stayed a string, so that a map with
an unusable address loaded and failed at the first read with ValueError,
and did not compare equal to the same map built in memory.
---
 sunspec/core/modbus/mbmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index 89aa37d..665380a 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -186,7 +186,7 @@ class ModbusMap(object):
             if value is None:
                 raise ModbusMapError('Unsupported function: %s' % (func))
             self.func = value
-            self.base_addr = root.attrib.get(MBMAP_ADDR, 40000)
+            self.base_addr = int(root.attrib.get(MBMAP_ADDR, MBMAP_BASE_ADDR_DEFAULT))
             self.ns = root.attrib.get(MBMAP_NS)
             self.lid = root.attrib.get(MBMAP_LID)
             self.mapid = root.attrib.get(MBMAP_MAPID)
-- 
2.43.0


From 2436bafec68cef4322f1c0e7fac7d62efa53c08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 38/62] fix: reject map contents longer than their register
 count

Contents longer than the declared number of registers moved every
following register of the map.
---
 sunspec/core/modbus/mbmap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index 665380a..afc599c 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -264,6 +264,8 @@ class ModbusMap(object):
                         raise ModbusMapError('Hex string content length must be a multiple of 4 bytes')
                     if rlen == 0:
                         rlen = text_len//4
+                    if rlen < text_len//4:
+                        raise ModbusMapError('Hex string content does not fit in %d registers' % (rlen))
                     text_index = 0
                     while text_index < text_len:
                         c = struct.pack('B', int(text[text_index:text_index + 2], 16))
-- 
2.43.0


From 4aa9d9b20f389fa3e0b451ed72eca2be37cdbde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 39/62] fix: write the access of registers to the map document

---
 sunspec/core/modbus/mbmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index afc599c..ddf29d3 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -316,7 +316,8 @@ class ModbusMap(object):
             element = ET.SubElement(parent, MBMAP_ROOT, attrib=attr)
 
         for regs in self.regs:
-            e = ET.SubElement(element, MBMAP_REGS, attrib={MBMAP_REGS_OFFSET: str(regs.offset), MBMAP_REGS_LEN: str(regs.count)})
+            e = ET.SubElement(element, MBMAP_REGS, attrib={MBMAP_REGS_OFFSET: str(regs.offset), MBMAP_REGS_LEN: str(regs.count),
+                                                          MBMAP_REGS_ACCESS: str(regs.access)})
 
             if no_data is False:
                 s = ''
-- 
2.43.0


From 018fe67e7878b19845d67b3e751fc7154931155d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 40/62] fix: a point a PICS document says is not implemented
 has no value

---
 sunspec/core/device.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 4a55dd3..20a1abb 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -550,11 +550,12 @@ class Point(object):
         if impl:
             if element.text:
                 value = self.point_type.to_value(element.text)
-                self.impl = self.point_type.is_impl(value)
-        else:
-            self.impl = False
+                impl = self.point_type.is_impl(value)
 
-        if self.impl and value is not None:
+        self.impl = impl
+        if not impl:
+            self.value_base = None
+        elif value is not None:
             self.value_base = value
 
     def to_pics(self, parent):
-- 
2.43.0


From b521b29316ac5234bb87f46cfcf6f6eb88661336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 41/62] fix: no scale factor for a point without value in a
 PICS document

---
 sunspec/core/device.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 20a1abb..035f49e 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -350,7 +350,10 @@ class Block(object):
         # resolve scale factor values in points, must be done after all points in block are read
         for point in self.points_list:
             if point.sf_point is not None:
-                point.value_sf = point.sf_point.value_base
+                if point.value_base is not None:
+                    point.value_sf = point.sf_point.value_base
+                else:
+                    point.value_sf = None
 
     def to_pics(self, parent):
         """Adds the block and all elements within the block to the parent
-- 
2.43.0


From 62712f0f8fa7ac5ebc2b9937a6cf483faf332426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 42/62] fix: the base address in a PICS document is a number

---
 sunspec/core/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 035f49e..ef1b8fc 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -165,7 +165,7 @@ class Device(object):
                 d = element
             if d.tag != pics.PICS_DEVICE:
                 raise SunSpecError("Unexpected device tag: '%s'" % (d.tag))
-            self.base_addr = d.attrib.get(pics.PICS_ATTR_BASE_ADDR, pics.PICS_BASE_ADDR_DEFAULT)
+            self.base_addr = int(d.attrib.get(pics.PICS_ATTR_BASE_ADDR, pics.PICS_BASE_ADDR_DEFAULT))
             addr = self.base_addr + 2
 
             for m in d.findall('*'):
-- 
2.43.0


From 0259c3540a0d73cdf601894f9ee2b11220b8b0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 43/62] fix: load a PICS document that does not give the length
 of a model

---
 sunspec/core/device.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index ef1b8fc..e4d954b 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -177,10 +177,8 @@ class Device(object):
                 model_id = m.attrib.get(pics.PICS_ATTR_ID)
                 if model_id is None:
                     raise SunSpecError('Module id error')
-                model_len = m.attrib.get(pics.PICS_ATTR_LEN)
-                if model_len is not None:
-                    # raise SunSpecError('Module len error in model %d' % (model_id))
-                    model_len = int(model_len)
+                # length of the model definition is used if not present
+                model_len = int(m.attrib.get(pics.PICS_ATTR_LEN, 0))
 
                 # move address past model id and length (even though address is not real in the case)
                 model = Model(self, model_id, addr + 2, model_len)
-- 
2.43.0


From 7f286f915b44f298cbccb76f88871fcd9710fd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 44/62] fix: check the index of a repeating block in a PICS
 document

---
 sunspec/core/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index e4d954b..cce61d2 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -829,7 +829,7 @@ class Model(object):
                             block.from_pics(b)
                 else:
                     block_index = int(block_index)
-                    if len(self.blocks) < block_index:
+                    if block_index < 1 or block_index >= len(self.blocks):
                         raise SunSpecError('Block index out of range: %s' % (str(block_index)))
                     self.blocks[block_index].from_pics(b)
             else:
-- 
2.43.0


From 2a566330729f6c0bb1d47c4f17e7cf8fff21e775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 45/62] fix: the index of a model in a PICS document is a
 number

---
 sunspec/core/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index cce61d2..11dec3c 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -809,7 +809,7 @@ class Model(object):
         """
 
         # update index if present
-        self.index = element.attrib.get(pics.PICS_ATTR_INDEX, self.index)
+        self.index = int(element.attrib.get(pics.PICS_ATTR_INDEX, self.index))
 
         for b in element.findall('*'):
             if b.tag != pics.PICS_BLOCK:
-- 
2.43.0


From 0780dbc9007fca3e06afbd4c8257a64752959203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 46/62] fix: compare models that have no definition

---
 sunspec/core/device.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 11dec3c..14cf400 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -873,8 +873,15 @@ class Model(object):
                 Model to compare.
         """
 
+        if self.id != model.id:
+            return 'model {} not equal - model id not equal: {}'.format(self.id, model.id)
         if len(self.blocks) != len(model.blocks):
-            return 'model %s not equal - block counts: %d  %d' % (self.model_type.id, len(self.blocks), len(model.blocks))
+            return 'model %s not equal - block counts: %d  %d' % (self.id, len(self.blocks), len(model.blocks))
+        if self.model_type is None:
+            # no definition for the model
+            if model.model_type is not None:
+                return 'model {} not equal - no model type'.format(self.id)
+            return False
         s = self.model_type.not_equal(model.model_type)
         if s:
             return 'model {} not equal - model id not equal: {}'.format(self.model_type.id, s)
-- 
2.43.0


From 167b752b421bc71ab0ddf49e8344e6846ac4c40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 47/62] fix: compare the symbols of point types by contents

---
 sunspec/core/device.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 14cf400..1738c62 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -1456,7 +1456,10 @@ class PointType(object):
             if k != 'block_type':
                 value = point_type.__dict__.get(k)
                 if v is not None and value is not None:
-                    if value is None or v != value:
+                    if k == 'symbols':
+                        v = [vars(s) for s in v]
+                        value = [vars(s) for s in value]
+                    if v != value:
                         return "PointType '{}' attribute '{}' not equal: {}  {}".format(str(self.id), str(k), str(v), str(value))
 
         return False
-- 
2.43.0


From 498c45f590867aa1de4df3d46f7f04de37d6c885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 48/62] fix: raise ModbusMapError for a register offset that is
 not a number

---
 sunspec/core/modbus/mbmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index ddf29d3..f2b7349 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -294,7 +294,7 @@ class ModbusMap(object):
                     last_regs.append(offset, rlen, data, access)
 
         except Exception as e:
-            raise ModbusMapError('Error loading %s (%s) at offset %d - %s' % (filename, pathlist, offset, str(e)))
+            raise ModbusMapError('Error loading %s (%s) at offset %s - %s' % (filename, pathlist, offset, str(e)))
 
     def to_xml(self, parent=None, no_data=False):
 
-- 
2.43.0


From 864d46c86baa7c32a9ac87a42cebd6ef4d4564d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 49/62] fix: write the base address of a device to its PICS
 document

---
 sunspec/core/device.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 1738c62..2bc2486 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -228,6 +228,9 @@ class Device(object):
 
         attr = {pics.PICS_ATTR_VERSION: str(pics.PICS_VERSION)}
 
+        if self.base_addr is not None and self.base_addr != pics.PICS_BASE_ADDR_DEFAULT:
+            attr[pics.PICS_ATTR_BASE_ADDR] = str(self.base_addr)
+
         e = ET.SubElement(parent, pics.PICS_DEVICE, attrib=attr)
 
         for model in self.models_list:
-- 
2.43.0


From a070c43bf021b0b42ae6ed3d6395e11272fd6386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:34 +0000
Subject: [PATCH 50/62] fix: points of equal id in fixed and repeating blocks
 keep their own symbols

---
 sunspec/core/device.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 2bc2486..86f473d 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -1416,19 +1416,15 @@ class PointType(object):
                 self.notes = e.text
             elif e.tag == smdx.SMDX_SYMBOL:
                 sid = e.attrib.get(smdx.SMDX_ATTR_ID)
-                symbol = self.block_type.model_type.symbol_get(
-                    sid=sid,
-                    point_id=self.id,
-                )
+                symbol = self.symbol_get(sid)
                 if symbol is None:
                     symbol = Symbol()
                     symbol.from_smdx(e, strings)
+                    self.symbols.append(symbol)
                     self.block_type.model_type.symbol_add(
                         symbol=symbol,
                         point_id=self.id,
                     )
-                if self.symbol_get(sid) is None:
-                    self.symbols.append(symbol)
                 symbol.from_smdx(e, strings)
 
     def symbol_get(self, sid):
-- 
2.43.0


From b30ab3a3049399eb7f1b710dfbbfbc67670a40ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 51/62] fix: XML files are decoded as they declare, wherever
 they are found

---
 sunspec/core/device.py       | 4 ++--
 sunspec/core/modbus/mbmap.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 86f473d..c7709bf 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -150,7 +150,7 @@ class Device(object):
 
                 # try local directory
                 if not pics_data:
-                    f = open(filename, 'r')
+                    f = open(filename, 'rb')
                     pics_data = f.read()
                     f.close()
 
@@ -932,7 +932,7 @@ def model_type_get(model_id):
 
             if os.path.exists(filename):
                 try:
-                    f = open(filename, 'r')
+                    f = open(filename, 'rb')
                     smdx_data = f.read()
                     f.close()
                 except Exception as e:
diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index f2b7349..6b899a7 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -171,7 +171,7 @@ class ModbusMap(object):
                 if pathlist is not None:
                     map_data = pathlist.read(filename)
                 else:
-                    f = open(filename, 'r')
+                    f = open(filename, 'rb')
                     map_data = f.read()
                     f.close()
 
-- 
2.43.0


From 2cfffef8d646bdbb1a13bbecd147fa1f76b85034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:34 +0000
Subject: [PATCH 52/62] fix: TLS without a client certificate no longer fails
 to connect

---
 sunspec/core/modbus/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index cb99619..05de92f 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -792,7 +792,8 @@ class ModbusClientDeviceTCP(object):
 
             if self.tls:
                 context = ssl.create_default_context(ssl.Purpose.SERVER_AUTH, cafile=self.cafile)
-                context.load_cert_chain(certfile=self.certfile, keyfile=self.keyfile)
+                if self.certfile is not None:
+                    context.load_cert_chain(certfile=self.certfile, keyfile=self.keyfile)
                 context.check_hostname = self.tls_verify
                 if not self.tls_verify:
                     context.verify_mode = ssl.CERT_NONE
-- 
2.43.0


From fc135054e675573b3673c7022762ea8e12c97f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:27 +0000
Subject: [PATCH 53/62] fix: a point type attribute only one of the two has
 makes them differ

---
 sunspec/core/device.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index c7709bf..3531801 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -1454,12 +1454,11 @@ class PointType(object):
         for k, v in self.__dict__.items():
             if k != 'block_type':
                 value = point_type.__dict__.get(k)
-                if v is not None and value is not None:
-                    if k == 'symbols':
-                        v = [vars(s) for s in v]
-                        value = [vars(s) for s in value]
-                    if v != value:
-                        return "PointType '{}' attribute '{}' not equal: {}  {}".format(str(self.id), str(k), str(v), str(value))
+                if k == 'symbols':
+                    v = [vars(s) for s in v]
+                    value = [vars(s) for s in value]
+                if v != value:
+                    return "PointType '{}' attribute '{}' not equal: {}  {}".format(str(self.id), str(k), str(v), str(value))
 
         return False
 
-- 
2.43.0


From ca794192f10305575423dc646c7af5d34e0a5a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:30 +0000
Subject: [PATCH 54/62] fix: blocks whose scale factors differ are not equal

---
 sunspec/core/device.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 3531801..24c4977 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -404,6 +404,10 @@ class Block(object):
             s = point.not_equal(block.points.get(point.point_type.id))
             if s:
                 return 'block %d not equal - %s' % (self.index, s)
+        for pid, point in self.points_sf.items():
+            s = point.not_equal(block.points_sf.get(pid))
+            if s:
+                return 'block %d not equal - %s' % (self.index, s)
         return False
 
     def __str__(self):
-- 
2.43.0


From ee62492575a3ef34c44736b87dee679a59b367a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:33 +0000
Subject: [PATCH 55/62] fix: show every instance of a model in the text of a
 device

---
 sunspec/core/client.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 8ae9893..ddce8a7 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -914,8 +914,14 @@ class SunSpecClientDevice(object):
     def __str__(self):
 
         s = ''
-        for model in self.models:
-            s += str(self[model])
+        for name in self.models:
+            model = self[name]
+            if type(model) is list:
+                # instances of the same model, the first list element is None
+                for instance in model[1:]:
+                    s += str(instance)
+            else:
+                s += str(model)
 
         return s
 
-- 
2.43.0


From 53083808ce41f5294e0a92f2a5db6d84b479ebaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:58 +0000
Subject: [PATCH 56/62] fix: responses to other requests are not accepted over
 TCP

Each request gets its own transaction id and responses with another one
(such as a response repeated by a gateway) are discarded, instead of being
taken for the response to the current request.
---
 sunspec/core/modbus/client.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 05de92f..681ee77 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -757,6 +757,7 @@ class ModbusClientDeviceTCP(object):
         self.keyfile = keyfile
         self.tls_verify = not insecure_skip_tls_verify
         self.max_count = max_count
+        self.trans_id = -1              # incremented for each request
 
         if ipport is None:
             self.ipport = TCP_DEFAULT_PORT
@@ -836,7 +837,8 @@ class ModbusClientDeviceTCP(object):
         len_found = False
         except_code = None
 
-        req = struct.pack('>HHHBBHH', 0, 0, TCP_READ_REQ_LEN, int(self.slave_id), op, int(addr), int(count))
+        self.trans_id = (self.trans_id + 1) & 0xffff
+        req = struct.pack('>HHHBBHH', self.trans_id, 0, TCP_READ_REQ_LEN, int(self.slave_id), op, int(addr), int(count))
 
         if self.trace_func:
             s = '{}:{}:{}[addr={}] ->'.format(self.ipaddr, str(self.ipport), str(self.slave_id), addr)
@@ -858,6 +860,10 @@ class ModbusClientDeviceTCP(object):
                 if len_found is False and len(resp) >= TCP_HDR_LEN + TCP_RESP_MIN_LEN:
                     data_len = struct.unpack('>H', resp[TCP_HDR_O_LEN:TCP_HDR_O_LEN + 2])
                     len_remaining = data_len[0] - (len(resp) - TCP_HDR_LEN)
+                    if len_remaining == 0 and resp[:2] != req[:2]:
+                        # response to another request (such as a repeated response)
+                        resp = b''
+                        len_remaining = TCP_HDR_LEN + TCP_RESP_MIN_LEN
             else:
                 raise ModbusClientError('Response timeout')
 
@@ -878,6 +884,9 @@ class ModbusClientDeviceTCP(object):
             s += trace_hex(resp)
             self.trace_func(s)
 
+        if (ord(resp[0]) << 8) | ord(resp[1]) != self.trans_id:
+            raise ModbusClientError('Modbus response format error')
+
         if ord(resp[TCP_HDR_LEN]) != int(self.slave_id) or (ord(resp[TCP_HDR_LEN + 1]) & 0x7f) != op:
             raise ModbusClientError('Modbus response format error')
 
@@ -962,7 +971,8 @@ class ModbusClientDeviceTCP(object):
 
         write_len = len(data)
         write_count = int(write_len/2)
-        req = struct.pack('>HHHBBHHB', 0, 0, TCP_WRITE_MULT_REQ_LEN + write_len, int(self.slave_id), func, int(addr), write_count, write_len)
+        self.trans_id = (self.trans_id + 1) & 0xffff
+        req = struct.pack('>HHHBBHHB', self.trans_id, 0, TCP_WRITE_MULT_REQ_LEN + write_len, int(self.slave_id), func, int(addr), write_count, write_len)
         if sys.version_info > (3,):
             if type(data) is not bytes:
                 data = bytes(data, "latin-1")
@@ -995,6 +1005,10 @@ class ModbusClientDeviceTCP(object):
                         resp = bytes(resp, "latin-1")
                     data_len = struct.unpack('>H', resp[TCP_HDR_O_LEN:TCP_HDR_O_LEN + 2])
                     len_remaining = data_len[0] - (len(resp) - TCP_HDR_LEN)
+                    if len_remaining == 0 and resp[:2] != req[:2]:
+                        # response to another request (such as a repeated response)
+                        resp = ''
+                        len_remaining = TCP_HDR_LEN + TCP_RESP_MIN_LEN
                 if type(resp) == bytes and sys.version_info > (3,):
                     temp = ""
                     for i in resp:
@@ -1014,6 +1028,9 @@ class ModbusClientDeviceTCP(object):
             s += trace_hex(resp)
             self.trace_func(s)
 
+        if (ord(resp[0]) << 8) | ord(resp[1]) != self.trans_id:
+            raise ModbusClientError('Modbus response format error')
+
         if ord(resp[TCP_HDR_LEN]) != int(self.slave_id) or (ord(resp[TCP_HDR_LEN + 1]) & 0x7f) != func:
             raise ModbusClientError('Modbus response format error')
 
-- 
2.43.0


From 8c89704c4820a2ba4ccce9c15f28d8ae5da990c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:28 +0000
Subject: [PATCH 57/62] fix: scale factors of a PICS document apply whatever
 the order of its blocks

---
 sunspec/core/device.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 24c4977..0fd73a6 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -349,6 +349,13 @@ class Block(object):
                 point.from_pics(p)
 
         # resolve scale factor values in points, must be done after all points in block are read
+        self.resolve_sf()
+
+    def resolve_sf(self):
+        """Sets the scale factor value of the points in the block based on the
+        current value of the associated scale factor points.
+        """
+
         for point in self.points_list:
             if point.sf_point is not None:
                 if point.value_base is not None:
@@ -842,6 +849,10 @@ class Model(object):
             else:
                 raise SunSpecError('Internal block type error')
 
+        # the blocks can be in any order, a scale factor can follow the block that uses it
+        for block in self.blocks:
+            block.resolve_sf()
+
     def to_pics(self, parent, single_repeating=True):
         """ Adds the model and all elements within the model to the parent
         element. If *single_repeating* is True, only the first repeating block
-- 
2.43.0


From 504d863b920921d4b9fe1e3e138ee7801b6317ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:32 +0000
Subject: [PATCH 58/62] fix: an empty PICS document is not taken for a missing
 one

---
 sunspec/core/device.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 0fd73a6..dd4d923 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -130,7 +130,7 @@ class Device(object):
 
         global file_pathlist
 
-        pics_data = ''
+        pics_data = None
 
         try:
             if element is None:
@@ -142,14 +142,14 @@ class Device(object):
                         pass
 
                 # try device file path list
-                if not pics_data and file_pathlist is not None:
+                if pics_data is None and file_pathlist is not None:
                     try:
                         pics_data = file_pathlist.read(filename)
                     except NameError:
                         pass
 
                 # try local directory
-                if not pics_data:
+                if pics_data is None:
                     f = open(filename, 'rb')
                     pics_data = f.read()
                     f.close()
-- 
2.43.0


From 939ffd443cfb866cfc3564b7c2b23e0764bfefc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:31 +0000
Subject: [PATCH 59/62] fix: a TCP request ends although the server keeps
 sending responses to other requests

Responses with another transaction id were skipped without limit, so a server
that never stops sending them kept read and write waiting forever.
---
 sunspec/core/modbus/client.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 681ee77..50671a3 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -628,6 +628,7 @@ TCP_RESP_MIN_LEN = 3
 TCP_HDR_O_LEN = 4
 TCP_READ_REQ_LEN = 6
 TCP_WRITE_MULT_REQ_LEN = 7
+TCP_DISCARD_MAX = 16               # responses to other requests skipped in one request
 
 TCP_DEFAULT_PORT = 502
 TCP_DEFAULT_TIMEOUT = 2
@@ -836,6 +837,7 @@ class ModbusClientDeviceTCP(object):
         len_remaining = TCP_HDR_LEN + TCP_RESP_MIN_LEN
         len_found = False
         except_code = None
+        discard_count = 0
 
         self.trans_id = (self.trans_id + 1) & 0xffff
         req = struct.pack('>HHHBBHH', self.trans_id, 0, TCP_READ_REQ_LEN, int(self.slave_id), op, int(addr), int(count))
@@ -860,8 +862,9 @@ class ModbusClientDeviceTCP(object):
                 if len_found is False and len(resp) >= TCP_HDR_LEN + TCP_RESP_MIN_LEN:
                     data_len = struct.unpack('>H', resp[TCP_HDR_O_LEN:TCP_HDR_O_LEN + 2])
                     len_remaining = data_len[0] - (len(resp) - TCP_HDR_LEN)
-                    if len_remaining == 0 and resp[:2] != req[:2]:
+                    if len_remaining == 0 and resp[:2] != req[:2] and discard_count < TCP_DISCARD_MAX:
                         # response to another request (such as a repeated response)
+                        discard_count += 1
                         resp = b''
                         len_remaining = TCP_HDR_LEN + TCP_RESP_MIN_LEN
             else:
@@ -967,6 +970,7 @@ class ModbusClientDeviceTCP(object):
         len_remaining = TCP_HDR_LEN + TCP_RESP_MIN_LEN
         len_found = False
         except_code = None
+        discard_count = 0
         func = FUNC_WRITE_MULTIPLE
 
         write_len = len(data)
@@ -1005,8 +1009,9 @@ class ModbusClientDeviceTCP(object):
                         resp = bytes(resp, "latin-1")
                     data_len = struct.unpack('>H', resp[TCP_HDR_O_LEN:TCP_HDR_O_LEN + 2])
                     len_remaining = data_len[0] - (len(resp) - TCP_HDR_LEN)
-                    if len_remaining == 0 and resp[:2] != req[:2]:
+                    if len_remaining == 0 and resp[:2] != req[:2] and discard_count < TCP_DISCARD_MAX:
                         # response to another request (such as a repeated response)
+                        discard_count += 1
                         resp = ''
                         len_remaining = TCP_HDR_LEN + TCP_RESP_MIN_LEN
                 if type(resp) == bytes and sys.version_info > (3,):
-- 
2.43.0


From 18a6841637e060b1ddbd3934f76c391b9542c0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:51 +0000
Subject: [PATCH 60/62] fix: a serial write succeeds when the slave id was
 given as text

---
 sunspec/core/modbus/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 50671a3..c5e419b 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -452,7 +452,7 @@ class ModbusClientRTU(object):
             if sys.version_info > (3,):
                 resp = bytes(resp, 'latin-1')
             resp_slave_id, resp_func, resp_addr, resp_count, resp_crc = struct.unpack('>BBHHH', resp)
-            if resp_slave_id != slave_id or resp_func != func or resp_addr != addr or resp_count != count:
+            if resp_slave_id != int(slave_id) or resp_func != func or resp_addr != addr or resp_count != count:
                 raise ModbusClientError('Mobus response format error')
 
     def write(self, slave_id, addr, data, trace_func=None, max_count=REQ_COUNT_MAX):
-- 
2.43.0


From f93a694adab023fcaaeb2c7fb1e63dd1fbbcfc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:18 +0000
Subject: [PATCH 61/62] fix: a register map takes the text form of a byte
 string as the other devices do

---
 sunspec/core/modbus/mbmap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index 6b899a7..f6ca9fb 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -418,6 +418,10 @@ class ModbusMap(object):
                 Byte string containing register contents.
         """
 
+        if sys.version_info > (3,):
+            if type(data) is str:
+                data = bytes(data, "latin-1")
+
         data_len = len(data)
         count_remaining = data_len//2
 
-- 
2.43.0


From ae49c0c9ca62e8b21e683c0e52fe471eac187449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:07 +0000
Subject: [PATCH 62/62] fix: hardware and IPv6 addresses are accepted in lower
 case too

---
 sunspec/core/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index 2361a5d..ebb135f 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -125,7 +125,7 @@ def u64_to_data(u64, len=None):
     return struct.pack('>Q', u64)
 
 def ipv6addr_to_data(addr, slen=None):
-    s = base64.b16decode(addr.replace(':', ''))
+    s = base64.b16decode(addr.replace(':', ''), True)
     if slen is None:
         slen = len(s)
     return struct.pack(str(slen) + 's', s)
@@ -152,7 +152,7 @@ def str_to_data(s, slen=None):
     return struct.pack(str(slen) + 's', s)
 
 def eui48_to_data(eui48, len=None):
-    return (b'\x00\x00' + base64.b16decode(eui48.replace(':', '')))
+    return (b'\x00\x00' + base64.b16decode(eui48.replace(':', ''), True))
 
 
 """ Simple XML pretty print support function
-- 
2.43.0

