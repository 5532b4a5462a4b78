From a6ac93932b829e02403c24d37ab0df168ee33961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:50 +0000
Subject: [PATCH 01/10] fix: read the base of a VarObjectHeader at the given
 offset

---
 src/vblf/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vblf/general.py b/src/vblf/general.py
index 66a999a..b425a0e 100644
--- a/src/vblf/general.py
+++ b/src/vblf/general.py
@@ -175,7 +175,7 @@ class VarObjectHeader(HeaderWithBase):
 
     @classmethod
     def unpack_from(cls, buffer: bytes, offset: int = 0) -> Self:
-        base = ObjectHeaderBase.unpack_from(buffer, 0)
+        base = ObjectHeaderBase.unpack_from(buffer, offset)
         (
             object_flags,
             object_static_size,
-- 
2.43.0


From b256804a38f337fe609e3d99f7ed0ec18a50e445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:50 +0000
Subject: [PATCH 02/10] fix: treat a zero extension offset of CanFdErrorFrame64
 as no extension

---
 src/vblf/can.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vblf/can.py b/src/vblf/can.py
index 2d5affc..cb696f2 100644
--- a/src/vblf/can.py
+++ b/src/vblf/can.py
@@ -685,7 +685,10 @@ class CanFdErrorFrame64(ObjectWithHeader[ObjectHeader]):
 
         # get ext frame data
         btr_ext_arb, btr_ext_data = 0, 0
-        if header.base.object_size >= ext_data_offset + cls._FORMAT_EXT.size:
+        if (
+            ext_data_offset != 0
+            and header.base.object_size >= ext_data_offset + cls._FORMAT_EXT.size
+        ):
             btr_ext_arb, btr_ext_data = cls._FORMAT_EXT.unpack_from(buffer, ext_data_offset)
 
         return cls(
@@ -748,7 +751,10 @@ class CanFdErrorFrame64(ObjectWithHeader[ObjectHeader]):
         buffer[data_offset : data_offset + self.valid_data_bytes] = self.data
 
         # pack ext frame data
-        if self.header.base.object_size >= self.ext_data_offset + self._FORMAT_EXT.size:
+        if (
+            self.ext_data_offset != 0
+            and self.header.base.object_size >= self.ext_data_offset + self._FORMAT_EXT.size
+        ):
             self._FORMAT_EXT.pack_into(
                 buffer, self.ext_data_offset, self.btr_ext_arb, self.btr_ext_data
             )
-- 
2.43.0


From a83442ce5fba12ead717d1abe00e2bb3c4d5352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:51 +0000
Subject: [PATCH 03/10] fix: do not append a terminator to an AppText without
 text

---
 src/vblf/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vblf/general.py b/src/vblf/general.py
index b425a0e..d4a74a5 100644
--- a/src/vblf/general.py
+++ b/src/vblf/general.py
@@ -521,7 +521,7 @@ class AppText(ObjectWithHeader[ObjectHeader]):
             self.text_length,
             self.reserved2,
         )
-        encoded_text = self.text.encode("cp1252") + b"\x00"
+        encoded_text = (self.text.encode("cp1252") + b"\x00")[: self.text_length]
         text_offset = ObjectHeader.SIZE + self._FORMAT.size
         buffer[text_offset : text_offset + self.text_length] = encoded_text
         return bytes(buffer)
-- 
2.43.0


From cacd759c29599f08ee7639edf7a2123158c8b0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:04 +0000
Subject: [PATCH 04/10] fix: pack and unpack little-endian without alignment on
 every host

---
 src/vblf/can.py      | 28 ++++++++++++++--------------
 src/vblf/ethernet.py |  4 ++--
 src/vblf/flexray.py  |  2 +-
 src/vblf/general.py  | 30 +++++++++++++++---------------
 src/vblf/lin.py      | 16 ++++++++--------
 src/vblf/tp_diag.py  |  2 +-
 6 files changed, 41 insertions(+), 41 deletions(-)

diff --git a/src/vblf/can.py b/src/vblf/can.py
index cb696f2..3098614 100644
--- a/src/vblf/can.py
+++ b/src/vblf/can.py
@@ -11,7 +11,7 @@ from .general import ObjectHeader, ObjectWithHeader
 
 @dataclass
 class CanMessage(ObjectWithHeader[ObjectHeader]):
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("HBBI8s")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<HBBI8s")
     header: ObjectHeader
     channel: int
     flags: int
@@ -77,7 +77,7 @@ class CanMessage(ObjectWithHeader[ObjectHeader]):
 
 @dataclass
 class CanMessage2(ObjectWithHeader[ObjectHeader]):
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("HBBI8sIBBH")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<HBBI8sIBBH")
     header: ObjectHeader
     channel: int
     flags: int
@@ -165,7 +165,7 @@ class CanMessage2(ObjectWithHeader[ObjectHeader]):
 
 @dataclass
 class CanFdMessage(ObjectWithHeader[ObjectHeader]):
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("HBBIIBBBBI64sI")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<HBBIIBBBBI64sI")
     header: ObjectHeader
     channel: int
     flags: int
@@ -269,8 +269,8 @@ class CanFdMessage(ObjectWithHeader[ObjectHeader]):
 
 @dataclass
 class CanFdMessage64(ObjectWithHeader[ObjectHeader]):
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("BBBBIIIIIIIHBBI")
-    _FORMAT_EXT: ClassVar[struct.Struct] = struct.Struct("II")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<BBBBIIIIIIIHBBI")
+    _FORMAT_EXT: ClassVar[struct.Struct] = struct.Struct("<II")
     header: ObjectHeader
     channel: int
     dlc: int
@@ -392,7 +392,7 @@ class CanFdMessage64(ObjectWithHeader[ObjectHeader]):
 
 @dataclass
 class CanDriverStatistic(ObjectWithHeader[ObjectHeader]):
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("HHIIIIIII")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<HHIIIIIII")
     header: ObjectHeader
     channel: int
     bus_load: int
@@ -447,7 +447,7 @@ class CanDriverStatistic(ObjectWithHeader[ObjectHeader]):
 
 @dataclass
 class CanDriverError(ObjectWithHeader[ObjectHeader]):
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("HBBI")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<HBBI")
     header: ObjectHeader
     channel: int
     tx_errors: int
@@ -482,7 +482,7 @@ class CanDriverError(ObjectWithHeader[ObjectHeader]):
 
 @dataclass
 class CanDriverErrorExt(ObjectWithHeader[ObjectHeader]):
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("HBBIIBBH4I")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<HBBIIBBH4I")
     header: ObjectHeader
     channel: int
     tx_errors: int
@@ -543,7 +543,7 @@ class CanDriverErrorExt(ObjectWithHeader[ObjectHeader]):
 
 @dataclass
 class CanErrorFrame(ObjectWithHeader[ObjectHeader]):
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("HHI")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<HHI")
     header: ObjectHeader
     channel: int
     length: int
@@ -561,7 +561,7 @@ class CanErrorFrame(ObjectWithHeader[ObjectHeader]):
 
 @dataclass
 class CanErrorFrameExt(ObjectWithHeader[ObjectHeader]):
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("HHIBBBBIIHH8s")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<HHIBBBBIIHH8s")
     header: ObjectHeader
     channel: int
     length: int
@@ -628,8 +628,8 @@ class CanErrorFrameExt(ObjectWithHeader[ObjectHeader]):
 
 @dataclass
 class CanFdErrorFrame64(ObjectWithHeader[ObjectHeader]):
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("BBBBHHHBBIIIIIIIHH")
-    _FORMAT_EXT: ClassVar[struct.Struct] = struct.Struct("II")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<BBBBHHHBBIIIIIIIHH")
+    _FORMAT_EXT: ClassVar[struct.Struct] = struct.Struct("<II")
     header: ObjectHeader
     channel: int
     dlc: int
@@ -763,7 +763,7 @@ class CanFdErrorFrame64(ObjectWithHeader[ObjectHeader]):
 
 @dataclass
 class CanDriverHwSync(ObjectWithHeader[ObjectHeader]):
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("HBBI")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<HBBI")
     header: ObjectHeader
     channel: int
     flags: int
@@ -784,7 +784,7 @@ class CanDriverHwSync(ObjectWithHeader[ObjectHeader]):
 
 @dataclass
 class CanOverloadFrame(ObjectWithHeader[ObjectHeader]):
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("HHI")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<HHI")
     header: ObjectHeader
     channel: int
     reserved1: int
diff --git a/src/vblf/ethernet.py b/src/vblf/ethernet.py
index 884a181..24ab61a 100644
--- a/src/vblf/ethernet.py
+++ b/src/vblf/ethernet.py
@@ -9,7 +9,7 @@ from vblf.general import ObjectHeader, ObjectWithHeader
 
 @dataclass
 class EthernetFrameEx(ObjectWithHeader[ObjectHeader]):
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("HHHHQIHHII")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<HHHHQIHHII")
     header: ObjectHeader
     struct_length: int
     flags: int
@@ -86,7 +86,7 @@ class EthernetFrameEx(ObjectWithHeader[ObjectHeader]):
 
 @dataclass
 class EthernetStatistic(ObjectWithHeader[ObjectHeader]):
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("HHIQQQQQQQhHI")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<HHIQQQQQQQhHI")
     channel: int
     reserved_1: int
     reserved_2: int
diff --git a/src/vblf/flexray.py b/src/vblf/flexray.py
index eff36a0..3a84004 100644
--- a/src/vblf/flexray.py
+++ b/src/vblf/flexray.py
@@ -9,7 +9,7 @@ from vblf.general import ObjectHeader, ObjectWithHeader
 
 @dataclass
 class FlexrayVFrReceiveMsgEx(ObjectWithHeader[ObjectHeader]):
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("HHHHIIHHHHHHIIIIIIHHH26s")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<HHHHIIHHHHHHIIIIIIHHH26s")
     header: ObjectHeader
     channel: int
     version: int
diff --git a/src/vblf/general.py b/src/vblf/general.py
index d4a74a5..b0a72af 100644
--- a/src/vblf/general.py
+++ b/src/vblf/general.py
@@ -26,7 +26,7 @@ HeaderType = TypeVar("HeaderType", bound="HeaderWithBase")
 
 @dataclass
 class SystemTime:
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("HHHHHHHH")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<HHHHHHHH")
     year: int
     month: int
     day_of_week: int
@@ -79,7 +79,7 @@ class SystemTime:
 
 @dataclass
 class ObjectHeaderBase:
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("4sHHII")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<4sHHII")
     SIZE: ClassVar[int] = _FORMAT.size
     signature: bytes
     header_size: int
@@ -149,7 +149,7 @@ class HeaderWithBase:
 
 @dataclass
 class VarObjectHeader(HeaderWithBase):
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("IHHQ")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<IHHQ")
     SIZE: ClassVar[int] = ObjectHeaderBase.SIZE + _FORMAT.size
     object_flags: ObjFlags
     object_static_size: int
@@ -212,7 +212,7 @@ class VarObjectHeader(HeaderWithBase):
 
 @dataclass
 class ObjectHeader(HeaderWithBase):
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("IHHQ")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<IHHQ")
     SIZE: ClassVar[int] = ObjectHeaderBase.SIZE + _FORMAT.size
     object_flags: ObjFlags
     client_index: int
@@ -339,7 +339,7 @@ class NotImplementedObject(ObjectWithHeader[HeaderWithBase]):
 
 @dataclass
 class FileStatistics:
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("4sIIBBBBQQII32xQ64s")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<4sIIBBBBQQII32xQ64s")
     SIZE: ClassVar[int] = _FORMAT.size
     signature: bytes
     statistics_size: int
@@ -482,7 +482,7 @@ class LogContainer(ObjectWithHeader[ObjectHeader]):
 
 @dataclass
 class AppText(ObjectWithHeader[ObjectHeader]):
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("IIII")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<IIII")
     header: ObjectHeader
     source: AppTextSource
     reserved1: int
@@ -529,7 +529,7 @@ class AppText(ObjectWithHeader[ObjectHeader]):
 
 @dataclass
 class AppTrigger(ObjectWithHeader[ObjectHeader]):
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("QQHHI")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<QQHHI")
     header: ObjectHeader
     pre_trigger_time: int
     post_trigger_time: int
@@ -568,7 +568,7 @@ class AppTrigger(ObjectWithHeader[ObjectHeader]):
 
 @dataclass
 class EnvironmentVariable(ObjectWithHeader[ObjectHeader]):
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("IIQ")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<IIQ")
     header: ObjectHeader
     name_length: int
     data_length: int
@@ -626,7 +626,7 @@ class EnvironmentVariable(ObjectWithHeader[ObjectHeader]):
 
 @dataclass
 class SystemVariable(ObjectWithHeader[ObjectHeader]):
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("IIQIIQ")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<IIQIIQ")
     header: ObjectHeader
     type: SysVarType
     representation: int
@@ -700,7 +700,7 @@ class SystemVariable(ObjectWithHeader[ObjectHeader]):
 
 @dataclass
 class RealTimeClock(ObjectWithHeader[ObjectHeader]):
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("QQ")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<QQ")
     header: ObjectHeader
     time: int
     logging_offset: int
@@ -717,7 +717,7 @@ class RealTimeClock(ObjectWithHeader[ObjectHeader]):
 
 @dataclass
 class DriverOverrun(ObjectWithHeader[ObjectHeader]):
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("IHH")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<IHH")
     header: ObjectHeader
     bus_type: BusType
     channel: int
@@ -748,7 +748,7 @@ class DriverOverrun(ObjectWithHeader[ObjectHeader]):
 
 @dataclass
 class EventComment(ObjectWithHeader[ObjectHeader]):
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("IIQ")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<IIQ")
     header: ObjectHeader
     commented_event_type: int
     text_length: int
@@ -791,7 +791,7 @@ class EventComment(ObjectWithHeader[ObjectHeader]):
 
 @dataclass
 class GlobalMarker(ObjectWithHeader[ObjectHeader]):
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("IIIBBHIIIIQ")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<IIIBBHIIIIQ")
     header: ObjectHeader
     commented_event_type: int
     foreground_color: int
@@ -882,7 +882,7 @@ class GlobalMarker(ObjectWithHeader[ObjectHeader]):
 
 @dataclass
 class FunctionBus(ObjectWithHeader[VarObjectHeader]):
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("IIII")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<IIII")
     header: VarObjectHeader
     object_type: FunctionBusType
     ve_type: int
@@ -936,7 +936,7 @@ class FunctionBus(ObjectWithHeader[VarObjectHeader]):
 
 @dataclass
 class TriggerCondition(ObjectWithHeader[VarObjectHeader]):
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("III")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<III")
     header: VarObjectHeader
     state: TriggerConditionStatus
     trigger_block_name_length: int
diff --git a/src/vblf/lin.py b/src/vblf/lin.py
index cb2f5dc..da3a5cf 100644
--- a/src/vblf/lin.py
+++ b/src/vblf/lin.py
@@ -9,7 +9,7 @@ from vblf.general import ObjectHeader, ObjectWithHeader
 
 @dataclass
 class LinMessage(ObjectWithHeader[ObjectHeader]):
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("HBB8sBBBBHB5s")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<HBB8sBBBBHB5s")
     header: ObjectHeader
     channel: int
     id: int
@@ -72,7 +72,7 @@ class LinMessage(ObjectWithHeader[ObjectHeader]):
 
 @dataclass
 class LinBusEvent:
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("QIH2s")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<QIH2s")
     SIZE: ClassVar[int] = _FORMAT.size
     sof: int
     event_baudrate: int
@@ -102,7 +102,7 @@ class LinBusEvent:
 
 @dataclass
 class LinSynchFieldEvent:
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("QQ")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<QQ")
     SIZE: ClassVar[int] = LinBusEvent.SIZE + _FORMAT.size
     lin_bus_event: LinBusEvent
     synch_break_length: int
@@ -130,7 +130,7 @@ class LinSynchFieldEvent:
 
 @dataclass
 class LinMessageDescriptor:
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("HHBBBB")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<HHBBBB")
     SIZE: ClassVar[int] = LinSynchFieldEvent.SIZE + _FORMAT.size
     lin_synch_field_event: LinSynchFieldEvent
     supplier_id: int
@@ -177,7 +177,7 @@ class LinMessageDescriptor:
 
 @dataclass
 class LinDatabyteTimestampEvent:
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("9Q")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<9Q")
     SIZE: ClassVar[int] = LinMessageDescriptor.SIZE + _FORMAT.size
     lin_msg_descr_event: LinMessageDescriptor
     databyte_timestamps: tuple[int]
@@ -200,9 +200,9 @@ class LinDatabyteTimestampEvent:
 
 @dataclass
 class LinMessage2(ObjectWithHeader[ObjectHeader]):
-    _FORMAT_V1: ClassVar[struct.Struct] = struct.Struct("8sHBBBBBBB3s")
-    _FORMAT_V2: ClassVar[struct.Struct] = struct.Struct("I")
-    _FORMAT_V3: ClassVar[struct.Struct] = struct.Struct("dII")
+    _FORMAT_V1: ClassVar[struct.Struct] = struct.Struct("<8sHBBBBBBB3s")
+    _FORMAT_V2: ClassVar[struct.Struct] = struct.Struct("<I")
+    _FORMAT_V3: ClassVar[struct.Struct] = struct.Struct("<dII")
     _V1_SIZE: ClassVar[int] = ObjectHeader.SIZE + LinDatabyteTimestampEvent.SIZE + _FORMAT_V1.size
     _V2_SIZE: ClassVar[int] = _V1_SIZE + _FORMAT_V2.size
     _V3_SIZE: ClassVar[int] = _V2_SIZE + _FORMAT_V3.size
diff --git a/src/vblf/tp_diag.py b/src/vblf/tp_diag.py
index ca2491b..f050fae 100644
--- a/src/vblf/tp_diag.py
+++ b/src/vblf/tp_diag.py
@@ -9,7 +9,7 @@ from vblf.general import ObjectHeader, ObjectWithHeader
 
 @dataclass
 class DiagRequestInterpretation(ObjectWithHeader[ObjectHeader]):
-    _FORMAT: ClassVar[struct.Struct] = struct.Struct("IIIIII")
+    _FORMAT: ClassVar[struct.Struct] = struct.Struct("<IIIIII")
     diag_description_handle: int
     diag_variant_handle: int
     diag_service_handle: int
-- 
2.43.0


From d5b6bae9bc9b8ac421f40253e6737f5a470f3dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 05/10] fix: refuse objects whose declared size is smaller than
 their header

---
 src/vblf/reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vblf/reader.py b/src/vblf/reader.py
index 27ac49f..4c46b99 100644
--- a/src/vblf/reader.py
+++ b/src/vblf/reader.py
@@ -112,6 +112,10 @@ class BlfReader(AbstractContextManager["BlfReader"]):
             else:
                 header_base = ObjectHeaderBase.unpack(header_base_data)
 
+            if header_base.object_size < ObjectHeaderBase.SIZE:
+                err_msg = f"Invalid object size {header_base.object_size}"
+                raise ValueError(err_msg)
+
             # read object data
             obj_data = header_base_data + stream.read(
                 header_base.object_size - ObjectHeaderBase.SIZE
-- 
2.43.0


From 5efba02cfcede7228d1596ac08cdd1175024afab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 06/10] fix: refuse a buffer size with which close would never
 end

---
 src/vblf/writer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 7386a51..c500bc5 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -21,6 +21,7 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
     :param compression_level: Compression level (0-9), defaults to no compression
     :param buffer_size: Size of internal buffer in bytes before flushing, defaults to 128 KiB
     :raises TypeError: If file parameter is of unsupported type
+    :raises ValueError: If the buffer size is not positive
     """
 
     def __init__(
@@ -33,6 +34,9 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
 
         See class documentation for details.
         """
+        if buffer_size <= 0:
+            err_msg = f"Buffer size must be positive, got {buffer_size}"
+            raise ValueError(err_msg)
         self._buffer_size = buffer_size
         self._buffer = bytearray()
         self._measurement_start_time = time.time()
-- 
2.43.0


From a514558fb821f598b808b6d541f5670f2bfa0c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 07/10] fix: close the file of a writer even if the final flush
 fails

---
 src/vblf/writer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index c500bc5..43833df 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -125,10 +125,12 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         Flushes any remaining buffered data and updates file statistics before closing.
         """
         if not self._file.closed:
-            while self._buffer:
-                self._flush_container()
-            self._update_file_statistics()
-            self._file.close()
+            try:
+                while self._buffer:
+                    self._flush_container()
+                self._update_file_statistics()
+            finally:
+                self._file.close()
 
     def __enter__(self) -> "BlfWriter":
         """Enter context manager.
-- 
2.43.0


From a50e62904144d087e8e2275f0fca2e2adf68a43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 08/10] fix: close a file opened by a constructor that fails

---
 src/vblf/reader.py | 16 +++++++++++-----
 src/vblf/writer.py |  8 +++++++-
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/vblf/reader.py b/src/vblf/reader.py
index 4c46b99..f8cd8f9 100644
--- a/src/vblf/reader.py
+++ b/src/vblf/reader.py
@@ -77,12 +77,18 @@ class BlfReader(AbstractContextManager["BlfReader"]):
             err_msg = "Unsupported type {type(file)}"
             raise TypeError(err_msg)
 
-        obj_data = self._file.read(FileStatistics.SIZE)
-        if len(obj_data) < FileStatistics.SIZE or not obj_data.startswith(FILE_SIGNATURE):
-            err_msg = "Unexpected file format"
-            raise ValueError(err_msg)
+        try:
+            obj_data = self._file.read(FileStatistics.SIZE)
+            if len(obj_data) < FileStatistics.SIZE or not obj_data.startswith(FILE_SIGNATURE):
+                err_msg = "Unexpected file format"
+                raise ValueError(err_msg)
 
-        self.file_statistics = FileStatistics.unpack(obj_data)
+            self.file_statistics = FileStatistics.unpack(obj_data)
+        except BaseException:
+            # do not leak a file that was opened here
+            if self._file is not file:
+                self._file.close()
+            raise
 
         self._incomplete_data: bytes = b""
         self._generator = self._generate_objects(self._file)
diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 43833df..b3d2d10 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -54,7 +54,13 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         # write file statistics
         self._file_statistics = FileStatistics.new()
         self._file_statistics.compression_level = compression_level
-        self._file.write(self._file_statistics.pack())
+        try:
+            self._file.write(self._file_statistics.pack())
+        except BaseException:
+            # do not leak a file that was opened here
+            if self._file is not file:
+                self._file.close()
+            raise
 
     def write(self, obj: ObjectWithHeader[HeaderWithBase]) -> None:
         """Write an object to the BLF file.
-- 
2.43.0


From 670f2c1a083c5258a6c46d948a6a52cc4a429b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 09/10] fix: write compression method and uncompressed size of
 containers

---
 src/vblf/writer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index b3d2d10..1fd2061 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -103,13 +103,17 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
 
         if self._file_statistics.compression_level > Compression.NONE:
             compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)
+            compression_method = 2
         else:
             compressed_data = bytes(buffer)
+            compression_method = 0
 
+        # a container stores its compression method and uncompressed size
+        # where other objects have their flags and time stamp
         log_container = LogContainer.new(
             data=compressed_data,
-            time_stamp=round((time.time() - self._measurement_start_time) * 1e9),
-            flags=ObjFlags.TIME_ONE_NANS,
+            time_stamp=len(buffer),
+            flags=ObjFlags(compression_method),
         )
         self._file.write(log_container.pack())
         self._file_statistics.file_size = self._file.tell()
-- 
2.43.0


From 2488166d4fc38342c69720afa2640fe8db1cc79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 10/10] fix: refuse objects written to a closed writer

They were accepted into the buffer and lost, because closing again does nothing.
---
 src/vblf/writer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 1fd2061..7a10d09 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -69,8 +69,12 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         or when the file is closed.
 
         :param obj: Object to write
-        :raises ValueError: If object size doesn't match its header
+        :raises ValueError: If object size doesn't match its header or the writer is closed
         """
+        if self._file.closed:
+            err_msg = "Cannot write to a closed file"
+            raise ValueError(err_msg)
+
         # byte alignment
         if rest := len(self._buffer) % BYTE_ALIGNMENT:
             self._buffer.extend(b"\x00" * (BYTE_ALIGNMENT - rest))
-- 
2.43.0

