From f16309e5741e7bfa2f94d3ced0e579138a7c2be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 01/20] fix: deliver frames without payload as soon as they are
 complete

---
 zigpy_cc/uart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy_cc/uart.py b/zigpy_cc/uart.py
index da15a3a..fbb3711 100644
--- a/zigpy_cc/uart.py
+++ b/zigpy_cc/uart.py
@@ -37,7 +37,7 @@ class Parser:
     def write(self, b: int):
         self.buffer += bytes([b])
         if SOF == self.buffer[0]:
-            if len(self.buffer) > MinMessageLength:
+            if len(self.buffer) >= MinMessageLength:
                 dataLength = self.buffer[PositionDataLength]
 
                 fcsPosition = DataStart + dataLength
-- 
2.43.0


From d4dae388bd0faa30bf1bde83f8d2321159942d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 02/20] fix: a frame that can't be handled no longer discards
 the rest of the read

---
 zigpy_cc/uart.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/zigpy_cc/uart.py b/zigpy_cc/uart.py
index fbb3711..6ea70a0 100644
--- a/zigpy_cc/uart.py
+++ b/zigpy_cc/uart.py
@@ -145,11 +145,15 @@ class Gateway(asyncio.Protocol):
 
         found = False
         for b in data:
-            frame = self._parser.write(b)
-            if frame is not None:
-                found = True
-                LOGGER.debug("Frame received: %s", frame)
-                self._api.data_received(frame)
+            try:
+                frame = self._parser.write(b)
+                if frame is not None:
+                    found = True
+                    LOGGER.debug("Frame received: %s", frame)
+                    self._api.data_received(frame)
+            except Exception as e:
+                # a frame that can't be handled must not affect the following ones
+                LOGGER.error("Error while handling frame: %r", e)
 
         if not found:
             LOGGER.info("Bytes received: %s", data)
-- 
2.43.0


From a667c4b958f6e3108e5b13eb5ca3e9ff68624c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 03/20] fix: encode signed integers and fixed size buffers

---
 zigpy_cc/buffalo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/buffalo.py b/zigpy_cc/buffalo.py
index 23399ea..08154d6 100644
--- a/zigpy_cc/buffalo.py
+++ b/zigpy_cc/buffalo.py
@@ -33,7 +33,9 @@ class Buffalo:
                     self.write(i)
             else:
                 self.write(value, 8)
-        elif type == ParameterType.BUFFER:
+        elif type == ParameterType.INT8:
+            self.write(value, signed=True)
+        elif ParameterType.is_buffer(type):
             self.buffer += value
         elif type == ParameterType.LIST_UINT8:
             for v in value:
-- 
2.43.0


From d6f56e3aee6a9e0dbaa32a6922b9a1e32f270b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:41 +0000
Subject: [PATCH 04/20] fix: decode buffers that have no length field

---
 zigpy_cc/buffalo.py    | 7 +++++--
 zigpy_cc/zpi_object.py | 7 ++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/zigpy_cc/buffalo.py b/zigpy_cc/buffalo.py
index 08154d6..1159a3e 100644
--- a/zigpy_cc/buffalo.py
+++ b/zigpy_cc/buffalo.py
@@ -89,8 +89,11 @@ class Buffalo:
             res = self.read_ieee_addr()
         elif ParameterType.is_buffer(type):
             type_name = ParameterType(type).name
-            length = int(type_name.replace("BUFFER", "") or options.length)
-            res = self.read(length)
+            length = type_name.replace("BUFFER", "") or options.length
+            if length is None:
+                # no length field: the buffer extends to the end of the frame
+                length = self._len - self.position
+            res = self.read(int(length))
         elif type == ParameterType.INT8:
             res = self.read_int(signed=True)
         else:
diff --git a/zigpy_cc/zpi_object.py b/zigpy_cc/zpi_object.py
index d69c6a6..c420833 100644
--- a/zigpy_cc/zpi_object.py
+++ b/zigpy_cc/zpi_object.py
@@ -169,13 +169,17 @@ class ZpiObject:
         buffalo = Buffalo(data)
         res = {}
         length = None
+        length_name = ""
         start_index = None
         for p in parameters:
             options = BuffaloOptions()
             name = p["name"]
             param_type = p["parameterType"]
             if param_type in BufferAndListTypes:
-                if isinstance(length, int):
+                # a list follows its count, but a buffer doesn't always follow its length
+                if isinstance(length, int) and (
+                    param_type != ParameterType.BUFFER or "len" in length_name
+                ):
                     options.length = length
 
                 if param_type == ParameterType.LIST_ASSOC_DEV:
@@ -190,6 +194,7 @@ class ZpiObject:
             # When reading a buffer, assume that the previous parsed parameter
             # contains the length of the buffer
             length = res[name]
+            length_name = name
 
         return res
 
-- 
2.43.0


From 466c808646659031b47f7544c8128942a3e1ac45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:41 +0000
Subject: [PATCH 05/20] fix: deliver replies to requests with transaction
 number 0

---
 zigpy_cc/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index e0944e3..c4173a2 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -242,7 +242,7 @@ class API:
             if waiter.match(obj):
                 self._waiters.pop(waiter_id)
                 waiter.set_result(obj)
-                if waiter.sequence:
+                if waiter.sequence is not None:
                     obj.sequence = waiter.sequence
                     break
 
-- 
2.43.0


From fcb980c922fd951aadf36d60348551fab69e7195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:41 +0000
Subject: [PATCH 06/20] fix: deliver unbind, leave, power and match descriptor
 replies

---
 zigpy_cc/zigbee/application.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index d001efe..752e6f8 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -35,9 +35,13 @@ REQUESTS = {
     "mgmtPermitJoinReq": (ZDOCmd.Mgmt_Permit_Joining_req, 3),
     "mgmtPermitJoinRsp": (ZDOCmd.Mgmt_Permit_Joining_rsp, 2),
     "nodeDescRsp": (ZDOCmd.Node_Desc_rsp, 2),
+    "powerDescRsp": (ZDOCmd.Power_Desc_rsp, 2),
+    "matchDescRsp": (ZDOCmd.Match_Desc_rsp, 2),
     "activeEpRsp": (ZDOCmd.Active_EP_rsp, 2),
     "simpleDescRsp": (ZDOCmd.Simple_Desc_rsp, 2),
     "bindRsp": (ZDOCmd.Bind_rsp, 2),
+    "unbindRsp": (ZDOCmd.Unbind_rsp, 2),
+    "mgmtLeaveRsp": (ZDOCmd.Mgmt_Leave_rsp, 2),
 }
 
 IGNORED = (
-- 
2.43.0


From 2162deef90b99adb92dd3a3ffdb4e38b2ee45df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:41 +0000
Subject: [PATCH 07/20] fix: find the source device of extended incoming
 messages

---
 zigpy_cc/zigbee/application.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 752e6f8..4b8f3b3 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -332,6 +332,12 @@ class ControllerApplication(zigpy.application.ControllerApplication):
 
         nwk = obj.payload["srcaddr"] if "srcaddr" in obj.payload else None
         ieee = obj.payload["ieeeaddr"] if "ieeeaddr" in obj.payload else None
+        if obj.command == "incomingMsgExt":
+            # the source is a short or an extended address, in an 8 byte field
+            if obj.payload["srcaddrmode"] == AddressMode.ADDR_64BIT:
+                ieee = nwk
+            else:
+                nwk = zigpy.types.NWK.deserialize(nwk.serialize())[0]
         profile_id = zha.PROFILE_ID
         src_ep = 0
         dst_ep = 0
-- 
2.43.0


From 50c887205b763cc2d0a1f075f922fb2cbc2b7fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:41 +0000
Subject: [PATCH 08/20] fix: send network and IEEE address requests with their
 own parameters

---
 zigpy_cc/api.py        | 2 +-
 zigpy_cc/zpi_object.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index c4173a2..efab640 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -182,7 +182,7 @@ class API:
         if obj.command_type == CommandType.SREQ and obj.command.endswith("Req"):
             rsp = obj.command.replace("Req", "Rsp")
             for cmd in Definition[obj.subsystem]:
-                if rsp == cmd["name"]:
+                if rsp == cmd["name"] and "dstaddr" in obj.payload:
                     payload = {"srcaddr": obj.payload["dstaddr"]}
                     return self.wait_for(
                         CommandType.AREQ, Subsystem.ZDO, rsp, payload, sequence=sequence
diff --git a/zigpy_cc/zpi_object.py b/zigpy_cc/zpi_object.py
index c420833..8200b65 100644
--- a/zigpy_cc/zpi_object.py
+++ b/zigpy_cc/zpi_object.py
@@ -152,6 +152,9 @@ class ZpiObject:
             payload = cls.read_parameters(
                 bytes([addrmode]) + nwk.to_bytes(2, "little") + data[1:], parameters
             )
+        elif name in ("nwkAddrReq", "ieeeAddrReq"):
+            # these are not addressed to a device
+            payload = cls.read_parameters(data[1:], parameters)
         else:
             # TODO
             # assert sequence == data[0]
-- 
2.43.0


From f1e1204a6820ce4a079220dfe210f7d556ba1b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:41 +0000
Subject: [PATCH 09/20] fix: don't turn messages into unrelated ZDO commands

---
 zigpy_cc/zpi_object.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/zigpy_cc/zpi_object.py b/zigpy_cc/zpi_object.py
index 8200b65..3e741d1 100644
--- a/zigpy_cc/zpi_object.py
+++ b/zigpy_cc/zpi_object.py
@@ -1,9 +1,9 @@
-from zigpy.profiles import zha
 from zigpy.types import BroadcastAddress
 
 from zigpy_cc import uart
 from zigpy_cc.buffalo import Buffalo, BuffaloOptions
 from zigpy_cc.definition import Definition
+from zigpy_cc.exception import TODO
 from zigpy_cc.types import CommandType, ParameterType, Subsystem, AddressMode
 
 BufferAndListTypes = [
@@ -23,6 +23,11 @@ BufferAndListTypes = [
     ParameterType.LIST_UINT8,
 ]
 
+ZDO_PROFILE_ID = 0
+
+# clusters whose MT command has the same id, other ids are unrelated commands
+ZDO_CLUSTERS = (*range(0x00, 0x07), *range(0x20, 0x23), *range(0x30, 0x37))
+
 
 class ZpiObject:
     def __init__(
@@ -103,7 +108,7 @@ class ZpiObject:
         radius=30,
         addr_mode=None
     ):
-        if profile == zha.PROFILE_ID:
+        if profile != ZDO_PROFILE_ID:
             subsystem = Subsystem.AF
             if addr_mode is None:
                 cmd = next(c for c in Definition[subsystem] if c["ID"] == 1)
@@ -111,6 +116,8 @@ class ZpiObject:
                 cmd = next(c for c in Definition[subsystem] if c["ID"] == 2)
         else:
             subsystem = Subsystem.ZDO
+            if cluster not in ZDO_CLUSTERS:
+                raise TODO("ZDO cluster %s", cluster)
             cmd = next(c for c in Definition[subsystem] if c["ID"] == cluster)
         name = cmd["name"]
         parameters = (
-- 
2.43.0


From 6a2d8d9e94572e52dff3d3fac50a235efacf565c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:41 +0000
Subject: [PATCH 10/20] fix: don't take another device's endpoints for the
 coordinator's

---
 zigpy_cc/zigbee/start_znp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/zigbee/start_znp.py b/zigpy_cc/zigbee/start_znp.py
index d0d7114..dd32938 100644
--- a/zigpy_cc/zigbee/start_znp.py
+++ b/zigpy_cc/zigbee/start_znp.py
@@ -150,7 +150,9 @@ async def boot(znp: API):
 async def registerEndpoints(znp: API):
     LOGGER.debug("Register endpoints...")
 
-    active_ep_response = znp.wait_for(CommandType.AREQ, Subsystem.ZDO, "activeEpRsp")
+    active_ep_response = znp.wait_for(
+        CommandType.AREQ, Subsystem.ZDO, "activeEpRsp", {"srcaddr": 0}
+    )
     asyncio.create_task(
         znp.request(
             Subsystem.ZDO, "activeEpReq", {"dstaddr": 0, "nwkaddrofinterest": 0}
-- 
2.43.0


From adee89210fb55ce45f9153666512ac0459adfe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:41 +0000
Subject: [PATCH 11/20] fix: invalidate the configured marker before
 initialising the adapter again

---
 zigpy_cc/zigbee/start_znp.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zigpy_cc/zigbee/start_znp.py b/zigpy_cc/zigbee/start_znp.py
index dd32938..20a24eb 100644
--- a/zigpy_cc/zigbee/start_znp.py
+++ b/zigpy_cc/zigbee/start_znp.py
@@ -279,6 +279,13 @@ async def start_znp(
         result = "restored"
     elif await needsToBeInitialised(znp, version, options):
         LOGGER.debug("Initialize coordinator")
+        if hasConfigured:
+            # if interrupted, the initialisation has to be done again
+            await znp.request(
+                Subsystem.SYS,
+                "osalNvWrite",
+                {**Items.znpHasConfigured(version), "value": b"\x00"},
+            )
         await initialise(znp, version, options)
 
         if version == ZnpVersion.zStack12:
-- 
2.43.0


From 8b133c40ed47b9383efc9032302fac8dda9b48f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:31 +0000
Subject: [PATCH 12/20] fix: expect the reply to a request only while that
 request is outstanding

---
 zigpy_cc/api.py                | 49 ++++++++++++++++++++--------------
 zigpy_cc/zigbee/application.py | 22 +++++++--------
 2 files changed, 40 insertions(+), 31 deletions(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index efab640..492c8e1 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -41,6 +41,7 @@ class Waiter(Repr):
         self.matcher = Matcher(command_type, subsystem, command, payload)
         self.future = asyncio.get_event_loop().create_future()
         self.timeout = timeout
+        self.timer = None
         self.sequence = sequence
 
     async def wait(self):
@@ -117,10 +118,19 @@ class API:
         return await self.request_raw(obj, waiter_id, expected_status)
 
     async def request_raw(self, obj: ZpiObject, waiter_id=None, expected_status=None):
+        # the reply can only be expected once the request has been transmitted
+        reply_waiter = self._remove_waiter(waiter_id)
         async with self._lock:
-            return await self._request_raw(obj, waiter_id, expected_status)
-
-    async def _request_raw(self, obj: ZpiObject, waiter_id=None, expected_status=None):
+            try:
+                return await self._request_raw(obj, reply_waiter, expected_status)
+            except BaseException:
+                # failed or cancelled, a later reply belongs to another request
+                self._remove_waiter(waiter_id)
+                raise
+
+    async def _request_raw(
+        self, obj: ZpiObject, reply_waiter=None, expected_status=None
+    ):
         if expected_status is None:
             expected_status = [0]
 
@@ -138,15 +148,14 @@ class API:
                 CommandType.SRSP, obj.subsystem, obj.command, {}, timeout
             )
             self._uart.send(frame)
+            if reply_waiter is not None:
+                self._add_waiter(reply_waiter)
             result = await waiter.wait()
             if (
                 result
                 and "status" in result.payload
                 and result.payload["status"] not in expected_status
             ):
-                if waiter_id is not None:
-                    self._waiters.pop(waiter_id).set_result(result)
-
                 raise CommandError(
                     result.payload["status"],
                     "SREQ '{}' failed with status '{}' (expected '{}')".format(
@@ -209,25 +218,25 @@ class API:
             timeout,
             sequence,
         )
-        self._waiters[waiter.id] = waiter
         self._waiter_id += 1
+        self._add_waiter(waiter)
 
+        return waiter
+
+    def _add_waiter(self, waiter: Waiter):
         def callback():
-            if not waiter.future.done() or waiter.future.cancelled():
-                LOGGER.warning(
-                    "No response for: %s %s %s %s",
-                    command_type.name,
-                    subsystem.name,
-                    command,
-                    payload,
-                )
-                try:
-                    self._waiters.pop(waiter.id)
-                except KeyError:
-                    LOGGER.warning("Waiter not found: %s", waiter)
+            if self._waiters.pop(waiter.id, None) is not None:
+                LOGGER.warning("No response for: %s", waiter.matcher)
 
-        asyncio.get_event_loop().call_later(timeout / 1000 + 0.1, callback)
+        self._waiters[waiter.id] = waiter
+        waiter.timer = asyncio.get_event_loop().call_later(
+            waiter.timeout / 1000 + 0.1, callback
+        )
 
+    def _remove_waiter(self, waiter_id):
+        waiter = self._waiters.pop(waiter_id, None)
+        if waiter is not None:
+            waiter.timer.cancel()
         return waiter
 
     def data_received(self, frame):
diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 4b8f3b3..4496d18 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -192,12 +192,12 @@ class ControllerApplication(zigpy.application.ControllerApplication):
                 data,
                 addr_mode=AddressMode.ADDR_GROUP,
             )
-            waiter_id = None
-            waiter = self._api.create_response_waiter(obj, sequence)
-            if waiter:
-                waiter_id = waiter.id
-
             async with self._semaphore:
+                waiter_id = None
+                waiter = self._api.create_response_waiter(obj, sequence)
+                if waiter:
+                    waiter_id = waiter.id
+
                 await self._api.request_raw(obj, waiter_id)
                 """
                 As a group command is not confirmed and thus immediately returns
@@ -243,13 +243,13 @@ class ControllerApplication(zigpy.application.ControllerApplication):
             obj = ZpiObject.from_cluster(
                 device.nwk, profile, cluster, src_ep, dst_ep, sequence, data
             )
-            waiter_id = None
-            if expect_reply:
-                waiter = self._api.create_response_waiter(obj, sequence)
-                if waiter:
-                    waiter_id = waiter.id
-
             async with self._semaphore:
+                waiter_id = None
+                if expect_reply:
+                    waiter = self._api.create_response_waiter(obj, sequence)
+                    if waiter:
+                        waiter_id = waiter.id
+
                 await self._api.request_raw(obj, waiter_id)
 
         except CommandError as ex:
-- 
2.43.0


From 29e7c96a8994ac879bee95db00998817312d6fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:31 +0000
Subject: [PATCH 13/20] fix: close the port when the connection is closed or
 cancelled while connecting

---
 zigpy_cc/api.py  | 15 ++++++++++++++-
 zigpy_cc/uart.py | 22 +++++++++++++++++-----
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index 492c8e1..6cff135 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -83,6 +83,7 @@ class API:
         self._app = None
         self._proto_ver = None
         self._uart = None
+        self._closed = False
 
     @property
     def protocol_version(self):
@@ -101,15 +102,27 @@ class API:
 
     async def connect(self):
         assert self._uart is None
+        self._closed = False
         self._uart = await uart.connect(self._config, self)
+        if self._closed:
+            self.close()
+            raise serial.SerialException("Closed while connecting")
 
     def close(self):
+        self._closed = True
         if self._uart:
             self._uart.close()
             self._uart = None
 
+    def connection_made(self, gateway: Gateway):
+        # already used while connecting, so that it can be closed at any time
+        self._uart = gateway
+        if self._closed:
+            self.close()
+
     def connection_lost(self):
-        self._app.connection_lost()
+        if self._app is not None:
+            self._app.connection_lost()
 
     async def request(
         self, subsystem, command, payload, waiter_id=None, expected_status=None
diff --git a/zigpy_cc/uart.py b/zigpy_cc/uart.py
index 6ea70a0..d857d29 100644
--- a/zigpy_cc/uart.py
+++ b/zigpy_cc/uart.py
@@ -118,18 +118,25 @@ class Gateway(asyncio.Protocol):
         self._api = api
         self._transport = None
         self._open = False
+        self._closed = False
 
     def connection_made(self, transport: serial_asyncio.SerialTransport):
         """Callback when the uart is connected"""
         LOGGER.debug("Connection made")
-        self._open = True
         self._transport = transport
+        if self._closed:
+            transport.close()
+            return
+        self._open = True
+        self._api.connection_made(self)
         if self._connected_future:
             self._connected_future.set_result(True)
 
     def close(self):
         self._open = False
-        self._transport.close()
+        self._closed = True
+        if self._transport:
+            self._transport.close()
 
     def write(self, data):
         self._transport.write(data)
@@ -208,9 +215,14 @@ async def connect(config: Dict[str, Any], api, loop=None) -> Gateway:
         rtscts=rtscts,
     )
 
-    await connected_future
+    try:
+        await connected_future
 
-    protocol.write(b"\xef")
-    await asyncio.sleep(1)
+        protocol.write(b"\xef")
+        await asyncio.sleep(1)
+    except BaseException:
+        # cancelled
+        protocol.close()
+        raise
 
     return protocol
-- 
2.43.0


From c0a82a59a9203b6c98e06815ac2551503d36e40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:31 +0000
Subject: [PATCH 14/20] fix: run at most one recovery at a time and stop it on
 shutdown

---
 zigpy_cc/zigbee/application.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 4496d18..4ce843d 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -66,25 +66,37 @@ class ControllerApplication(zigpy.application.ControllerApplication):
     def __init__(self, config: Dict[str, Any]):
         super().__init__(config=zigpy.config.ZIGPY_SCHEMA(config))
         self._api = None
+        self._reconnect_task = None
+        self._connection_lost = False
 
         self.discovering = False
         self.version = {}
 
     async def shutdown(self):
         """Shutdown application."""
-        self._api.close()
+        if self._api is not None:
+            self._api.close()
+        task, self._reconnect_task = self._reconnect_task, None
+        while task is not None and not task.done():
+            # asyncio.wait_for may swallow a cancellation
+            task.cancel()
+            await asyncio.sleep(0)
 
     def connection_lost(self):
-        asyncio.create_task(self.reconnect())
+        self._connection_lost = True
+        if self._reconnect_task is None or self._reconnect_task.done():
+            self._reconnect_task = asyncio.create_task(self.reconnect())
 
     async def reconnect(self):
         while True:
             if self._api is not None:
                 self._api.close()
             await asyncio.sleep(5)
+            self._connection_lost = False
             try:
                 await self.startup(True)
-                break
+                if not self._connection_lost:
+                    break
             except Exception as e:
                 LOGGER.info("Failed to reconnect: %s", e)
                 pass
@@ -93,7 +105,9 @@ class ControllerApplication(zigpy.application.ControllerApplication):
         """Perform a complete application startup"""
 
         LOGGER.info("Starting zigpy-cc version: %s", __version__)
-        self._api = await API.new(self, self._config[CONF_DEVICE])
+        self._api = API(self._config[CONF_DEVICE])
+        self._api.set_application(self)
+        await self._api.connect()
 
         try:
             await self._api.request(Subsystem.SYS, "ping", {"capabilities": 1})
-- 
2.43.0


From 86ee513a56472723aa8d9c11d85f94ca450277fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:06 +0000
Subject: [PATCH 15/20] fix: don't send the next request before the answer to a
 cancelled one

---
 zigpy_cc/api.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index 6cff135..4ce312a 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -45,7 +45,8 @@ class Waiter(Repr):
         self.sequence = sequence
 
     async def wait(self):
-        return await asyncio.wait_for(self.future, self.timeout / 1000)
+        # the response still comes in when the waiting task has been cancelled
+        return await asyncio.wait_for(asyncio.shield(self.future), self.timeout / 1000)
 
     def set_result(self, result) -> None:
         if self.future.cancelled():
@@ -80,6 +81,7 @@ class API:
         self._lock = asyncio.Lock()
         self._waiter_id = 0
         self._waiters: Dict[int, Waiter] = {}
+        self._unanswered: Optional[Waiter] = None
         self._app = None
         self._proto_ver = None
         self._uart = None
@@ -157,13 +159,19 @@ class API:
                 or obj.command == "startupFromApp"
                 else Timeouts.SREQ
             )
+            await self._wait_for_unanswered()
             waiter = self.wait_for(
                 CommandType.SRSP, obj.subsystem, obj.command, {}, timeout
             )
             self._uart.send(frame)
             if reply_waiter is not None:
                 self._add_waiter(reply_waiter)
-            result = await waiter.wait()
+            try:
+                result = await waiter.wait()
+            except asyncio.CancelledError:
+                # must not be taken for the response to the next request
+                self._unanswered = waiter
+                raise
             if (
                 result
                 and "status" in result.payload
@@ -192,6 +200,12 @@ class API:
                 LOGGER.warning("Unknown type '%s'", obj.command_type)
                 raise Exception("Unknown type '{}'".format(obj.command_type))
 
+    async def _wait_for_unanswered(self):
+        if self._unanswered is not None:
+            timeout = self._unanswered.timer.when() - asyncio.get_event_loop().time()
+            await asyncio.wait([self._unanswered.future], timeout=timeout)
+            self._unanswered = None
+
     def create_response_waiter(self, obj: ZpiObject, sequence=None):
         if obj.command_type == CommandType.SREQ and obj.command.startswith(
             "dataRequest"
-- 
2.43.0


From 7722cefe322caf81e846ca42d6b28c6fa1415bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:44 +0000
Subject: [PATCH 16/20] fix: never lose a transmission slot when a queued
 sender is cancelled

---
 zigpy_cc/semaphore.py          | 52 ++++++++++++++++++++++++++++++++++
 zigpy_cc/zigbee/application.py |  3 +-
 2 files changed, 54 insertions(+), 1 deletion(-)
 create mode 100644 zigpy_cc/semaphore.py

diff --git a/zigpy_cc/semaphore.py b/zigpy_cc/semaphore.py
new file mode 100644
index 0000000..d23b7c4
--- /dev/null
+++ b/zigpy_cc/semaphore.py
@@ -0,0 +1,52 @@
+import asyncio
+import collections
+
+
+class FairSemaphore(asyncio.Semaphore):
+    """asyncio.Semaphore of Python 3.11
+
+    Earlier ones lose a slot or the order of the waiting tasks when a task is cancelled
+    in the moment a slot is handed over to it.
+    """
+
+    def __init__(self, value=1):
+        super().__init__(value)
+        self._value = value
+        self._waiters = collections.deque()
+
+    def locked(self):
+        return self._value == 0 or any(not fut.cancelled() for fut in self._waiters)
+
+    async def acquire(self):
+        if not self.locked():
+            self._value -= 1
+            return True
+
+        fut = asyncio.get_event_loop().create_future()
+        self._waiters.append(fut)
+        try:
+            try:
+                await fut
+            finally:
+                self._waiters.remove(fut)
+        except asyncio.CancelledError:
+            if not fut.cancelled():
+                # give back the slot
+                self._value += 1
+            raise
+        finally:
+            while self._value > 0 and self._wake_up_next():
+                pass
+        return True
+
+    def release(self):
+        self._value += 1
+        self._wake_up_next()
+
+    def _wake_up_next(self):
+        for fut in self._waiters:
+            if not fut.done():
+                self._value -= 1
+                fut.set_result(True)
+                return True
+        return False
diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 4ce843d..4699956 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -16,6 +16,7 @@ from zigpy_cc import __version__, types as t
 from zigpy_cc.api import API
 from zigpy_cc.config import CONF_DEVICE, CONFIG_SCHEMA, SCHEMA_DEVICE
 from zigpy_cc.exception import TODO, CommandError
+from zigpy_cc.semaphore import FairSemaphore
 from zigpy_cc.types import NetworkOptions, Subsystem, ZnpVersion, LedMode, AddressMode
 from zigpy_cc.zigbee.start_znp import start_znp
 from zigpy_cc.zpi_object import ZpiObject
@@ -119,7 +120,7 @@ class ControllerApplication(zigpy.application.ControllerApplication):
         concurrent = 16 if self.version["product"] == ZnpVersion.zStack3x0 else 2
         LOGGER.debug("Adapter concurrent: %d", concurrent)
 
-        self._semaphore = asyncio.Semaphore(concurrent)
+        self._semaphore = FairSemaphore(concurrent)
 
         ver = ZnpVersion(self.version["product"]).name
         LOGGER.info("Detected znp version '%s' (%s)", ver, self.version)
-- 
2.43.0


From c0a538688569d0ef5fdc52af5a4f7b2885bd9e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:55 +0000
Subject: [PATCH 17/20] fix: fail formation when the configured marker cannot
 be read

---
 zigpy_cc/zigbee/start_znp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/zigpy_cc/zigbee/start_znp.py b/zigpy_cc/zigbee/start_znp.py
index 20a24eb..8f2bdf9 100644
--- a/zigpy_cc/zigbee/start_znp.py
+++ b/zigpy_cc/zigbee/start_znp.py
@@ -8,7 +8,6 @@ from zigpy.zcl.clusters.security import IasZone, IasWd
 from zigpy_cc.api import API
 from zigpy_cc.const import Constants
 from zigpy_cc.types import NetworkOptions, Subsystem, ZnpVersion, CommandType
-from zigpy_cc.exception import CommandError
 from zigpy_cc.zigbee.backup import Restore
 from zigpy_cc.zigbee.common import Common
 from .nv_items import Items
@@ -270,7 +269,7 @@ async def start_znp(
             expected_status=[0, 2],
         )
         hasConfigured = True
-    except (AssertionError, CommandError):
+    except AssertionError:
         hasConfigured = False
 
     if backupPath and os.path.exists(backupPath) and not hasConfigured:
-- 
2.43.0


From 6464c7c78a6f3acaade3475a57ea75e4afabb79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:57 +0000
Subject: [PATCH 18/20] fix: don't send requests before the connection is ready

---
 zigpy_cc/api.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index 4ce312a..2e3e253 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -85,6 +85,7 @@ class API:
         self._app = None
         self._proto_ver = None
         self._uart = None
+        self._connecting: Optional[Gateway] = None
         self._closed = False
 
     @property
@@ -106,19 +107,23 @@ class API:
         assert self._uart is None
         self._closed = False
         self._uart = await uart.connect(self._config, self)
+        self._connecting = None
         if self._closed:
             self.close()
             raise serial.SerialException("Closed while connecting")
 
     def close(self):
         self._closed = True
+        if self._connecting:
+            self._connecting.close()
+            self._connecting = None
         if self._uart:
             self._uart.close()
             self._uart = None
 
     def connection_made(self, gateway: Gateway):
-        # already used while connecting, so that it can be closed at any time
-        self._uart = gateway
+        # can be closed at any time, but must not be used before it is ready
+        self._connecting = gateway
         if self._closed:
             self.close()
 
-- 
2.43.0


From 152c81c24d06835b5c67202c873b790eb26c543e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:17 +0000
Subject: [PATCH 19/20] fix: keep a configured PAN id of zero

---
 zigpy_cc/types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/types.py b/zigpy_cc/types.py
index c3b56c8..1dc1940 100644
--- a/zigpy_cc/types.py
+++ b/zigpy_cc/types.py
@@ -109,7 +109,9 @@ class NetworkOptions(Repr):
         self.networkKey = config[zigpy.config.CONF_NWK_KEY] or (
             zigpy.config.cv_key([1, 3, 5, 7, 9, 11, 13, 15, 0, 2, 4, 6, 8, 10, 12, 13])
         )
-        self.panID = config[zigpy.config.CONF_NWK_PAN_ID] or t.PanId(0x1A62)
+        self.panID = config[zigpy.config.CONF_NWK_PAN_ID]
+        if self.panID is None:
+            self.panID = t.PanId(0x1A62)
         self.extendedPanID = config[zigpy.config.CONF_NWK_EXTENDED_PAN_ID] or (
             t.ExtendedPanId([0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD])
         )
-- 
2.43.0


From d167fab76073ce49321e04fdd098b42d97ba3da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 20/20] fix: keep the transmission slots in use across a
 reconnect

---
 zigpy_cc/zigbee/application.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 4699956..d8820ba 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -69,6 +69,7 @@ class ControllerApplication(zigpy.application.ControllerApplication):
         self._api = None
         self._reconnect_task = None
         self._connection_lost = False
+        self._concurrent = None
 
         self.discovering = False
         self.version = {}
@@ -120,7 +121,10 @@ class ControllerApplication(zigpy.application.ControllerApplication):
         concurrent = 16 if self.version["product"] == ZnpVersion.zStack3x0 else 2
         LOGGER.debug("Adapter concurrent: %d", concurrent)
 
-        self._semaphore = FairSemaphore(concurrent)
+        if self._concurrent != concurrent:
+            # after a reconnect the slots may still be in use
+            self._concurrent = concurrent
+            self._semaphore = FairSemaphore(concurrent)
 
         ver = ZnpVersion(self.version["product"]).name
         LOGGER.info("Detected znp version '%s' (%s)", ver, self.version)
-- 
2.43.0

