From e93f399e3258ed3ac3b15591e1d794876daa63fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:00 +0000
Subject: [PATCH 01/21] fix: a missing optional crypto package no longer breaks
 the import of saltchannel

saltlib_tweetnaclext and saltlib_pynacl imported their third-party package
unconditionally, so without it no session class could even be imported. They now
report their absence through isAvailable().
---
 saltchannel/saltlib/saltlib_pynacl.py       | 13 ++++++++-----
 saltchannel/saltlib/saltlib_tweetnaclext.py |  7 +++++--
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/saltchannel/saltlib/saltlib_pynacl.py b/saltchannel/saltlib/saltlib_pynacl.py
index 747f8b3..86a118c 100644
--- a/saltchannel/saltlib/saltlib_pynacl.py
+++ b/saltchannel/saltlib/saltlib_pynacl.py
@@ -1,10 +1,13 @@
 # -*- coding: utf-8 -*-
 
-from nacl import bindings
+try:
+    from nacl import bindings
 
-from nacl import exceptions as exc
-from nacl._sodium import ffi, lib
-from nacl.exceptions import ensure
+    from nacl import exceptions as exc
+    from nacl._sodium import ffi, lib
+    from nacl.exceptions import ensure
+except ImportError:  # optional dependency, see isAvailable()
+    bindings = None
 
 from .exceptions import BadEncryptedDataException, BadSignatureException
 from .saltlib_base import SaltLibBase
@@ -13,7 +16,7 @@ class SaltLibPyNaCl(SaltLibBase):
 
     @staticmethod
     def isAvailable():
-        return True
+        return bindings is not None
 
     # ret: pk, sk
     def crypto_sign_keypair_not_random(self, seed):
diff --git a/saltchannel/saltlib/saltlib_tweetnaclext.py b/saltchannel/saltlib/saltlib_tweetnaclext.py
index d224307..d2379ba 100644
--- a/saltchannel/saltlib/saltlib_tweetnaclext.py
+++ b/saltchannel/saltlib/saltlib_tweetnaclext.py
@@ -1,6 +1,9 @@
 # -*- coding: utf-8 -*-
 
-import tweetnacl.raw as tweetnacl
+try:
+    import tweetnacl.raw as tweetnacl
+except ImportError:  # optional dependency, see isAvailable()
+    tweetnacl = None
 
 from .exceptions import BadEncryptedDataException, BadSignatureException
 from .saltlib_base import SaltLibBase
@@ -9,7 +12,7 @@ class SaltLibTweetNaClExt(SaltLibBase):
 
     @staticmethod
     def isAvailable():
-        return True
+        return tweetnacl is not None
 
     # ret: pk, sk
     def crypto_sign_keypair_not_random(self, seed):
-- 
2.43.0


From cb72e3fb88371ca7cad1b26552c72d627bc35f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:00 +0000
Subject: [PATCH 02/21] fix: SaltLib.getLib falls back to the next available
 crypto library

It raised NoSuchLibException as soon as the first library was unavailable, and
returned None for every explicitly requested library.
---
 saltchannel/saltlib/saltlib.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/saltchannel/saltlib/saltlib.py b/saltchannel/saltlib/saltlib.py
index 8f8d401..e2acf6a 100644
--- a/saltchannel/saltlib/saltlib.py
+++ b/saltchannel/saltlib/saltlib.py
@@ -41,10 +41,11 @@ class SaltLib(metaclass=Singleton):
             for t, api in sorted(SaltLib.lib_map.items()):
                 if api.isAvailable():
                     return api
-                else:
-                    raise NoSuchLibException
-            else:
-                return SaltLib.lib_map[lib_type]
+            raise NoSuchLibException
+        api = SaltLib.lib_map[lib_type.value]
+        if not api.isAvailable():
+            raise NoSuchLibException
+        return api
 
     @staticmethod
     def random_bytes(n):
-- 
2.43.0


From f6a987a3956757cc0b4a54b68ebe878a3a6e277e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:00 +0000
Subject: [PATCH 03/21] fix: SaltLibNative.randombytes passes a buffer to
 libsodium

randombytes(n) called the C function randombytes(buf, len) with n as the pointer
and crashed the process.
---
 saltchannel/saltlib/saltlib_native.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/saltchannel/saltlib/saltlib_native.py b/saltchannel/saltlib/saltlib_native.py
index d4c17ee..de8759c 100644
--- a/saltchannel/saltlib/saltlib_native.py
+++ b/saltchannel/saltlib/saltlib_native.py
@@ -172,4 +172,6 @@ class SaltLibNative(SaltLibBase):
 
 
     def randombytes(self, n):
-        return sodium.randombytes(n)
\ No newline at end of file
+        buf = ctypes.create_string_buffer(n)
+        sodium.randombytes(buf, ctypes.c_ulonglong(n))
+        return buf.raw
-- 
2.43.0


From 4288cff0246710a7bce9727d8ce0e36df5e87d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:20 +0000
Subject: [PATCH 04/21] fix: SaltClientSession honours wanted_server_sig_key

The attribute was never read: M1 did not carry the wanted key, and a handshake with
a server holding any other signing key succeeded.
---
 saltchannel/v2/salt_client_session.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/saltchannel/v2/salt_client_session.py b/saltchannel/v2/salt_client_session.py
index 5718722..b485087 100644
--- a/saltchannel/v2/salt_client_session.py
+++ b/saltchannel/v2/salt_client_session.py
@@ -56,9 +56,13 @@ class SaltClientSession(metaclass=util.Syncizer):
     async def do_m1(self):
         """Creates and writes M1 message."""
         self.m1 = packets.M1Packet()
+        if self.wanted_server_sig_key:
+            self.m1.data.Header.ServerSigKeyIncluded = 1
         self.m1.create_opt_fields()
         self.m1.data.Time = self.time_keeper.get_first_time()
         self.m1.ClientEncKey = self.enc_keypair.pub
+        if self.wanted_server_sig_key:
+            self.m1.ServerSigKey = self.wanted_server_sig_key
 
         m1_raw = bytes(self.m1)
         self.m1_hash = self.saltlib.sha512(m1_raw)
@@ -102,6 +106,8 @@ class SaltClientSession(metaclass=util.Syncizer):
 
     def validate_signature1(self):
         """Validates M3/Signature1."""
+        if self.wanted_server_sig_key and self.m3.ServerSigKey != self.wanted_server_sig_key:
+            raise saltchannel.exceptions.BadPeer("unexpected ServerSigKey")
         try:
             self.saltlib.sign_open(b''.join([self.m3.Signature1, packets.M3Packet.SIG1_PREFIX,
                                             self.m1_hash, self.m2_hash]), self.m3.ServerSigKey)
-- 
2.43.0


From a56100a1b22b6ddd6763cb65de4d15258c0677c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:20 +0000
Subject: [PATCH 05/21] fix: a bad first Time value is reported as BadPeer

NullTimeChecker.report_first_time concatenated str and int, so a peer sending any
first time other than 0 or 1 raised TypeError in the caller.
---
 saltchannel/util/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/util/time.py b/saltchannel/util/time.py
index 76305f3..b370153 100644
--- a/saltchannel/util/time.py
+++ b/saltchannel/util/time.py
@@ -47,7 +47,7 @@ class NullTimeChecker(TimeChecker):
     """Reports first time. Should be 0 or 1."""
     def report_first_time(self, time):
         if time not in [0,1]:
-            raise BadPeer("bad first time, " + time)
+            raise BadPeer("bad first time, ", time)
 
     """Checks 'time' against this object's clock."""
     def check_time(self, time): pass
-- 
2.43.0


From ce6b8e7e1669251dcf7f96c82fe35ea049204c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:39 +0000
Subject: [PATCH 06/21] fix: reject truncated and empty packets with BadPeer

A packet shorter than its fixed fields was accepted with the missing bytes read as
zero, an empty packet was parsed as a freshly constructed one, and short encrypted,
application, A1 or A2 packets raised AttributeError or ValueError.
---
 saltchannel/a1a2/packets.py |  4 ++--
 saltchannel/util/packets.py |  5 +++--
 saltchannel/v2/packets.py   | 14 +++++++-------
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/saltchannel/a1a2/packets.py b/saltchannel/a1a2/packets.py
index 3ec6e49..9b0bb3d 100644
--- a/saltchannel/a1a2/packets.py
+++ b/saltchannel/a1a2/packets.py
@@ -35,7 +35,7 @@ class A1Packet(Packet):
         self.data.Header.PacketType = type(self).TYPE
         self.data.AddressType = type(self).ADDRESS_TYPE_ANY
         self.data.AddressSize = 0
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def from_bytes(self, src, validate=True):
@@ -132,7 +132,7 @@ class A2Packet(Packet):
             self.opt.Prot[0].P1 = util.cbytes(self.SC2_PROT_STRING)
             self.opt.Prot[0].P2 = util.cbytes(self.UNSPECIFIED_PROT_STRING)
             return
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def from_bytes(self, src, validate=True):
diff --git a/saltchannel/util/packets.py b/saltchannel/util/packets.py
index 47795cb..8ab1b7d 100644
--- a/saltchannel/util/packets.py
+++ b/saltchannel/util/packets.py
@@ -33,8 +33,9 @@ class SmartStructure(LittleEndianStructure):
         super().__init__(**values)
 
     def from_bytes(self, src):
-        if src:
-            memmove(addressof(self), src, min(len(src), sizeof(self)))
+        if len(src) < sizeof(self):
+            raise BadPeer("packet too short: ", len(src))
+        memmove(addressof(self), src, sizeof(self))
 
     @property
     def size(self):
diff --git a/saltchannel/v2/packets.py b/saltchannel/v2/packets.py
index a9b3a0a..52f038a 100644
--- a/saltchannel/v2/packets.py
+++ b/saltchannel/v2/packets.py
@@ -39,7 +39,7 @@ class M1Packet(Packet):
         self.data = M1Packet._M1PacketBody()
         self.data.Header.PacketType = type(self).TYPE
         self.opt = self._opt_factory()
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def __bytes__(self):
@@ -93,7 +93,7 @@ class M2Packet(Packet):
         super().__init__()
         self.data = M2Packet._M2PacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def __bytes__(self):
@@ -127,7 +127,7 @@ class M3Packet(Packet):
         super().__init__()
         self.data = M3Packet._M3PacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
 
@@ -152,7 +152,7 @@ class M4Packet(Packet):
         super().__init__()
         self.data = M4Packet._M4PacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
 
@@ -187,7 +187,7 @@ class EncryptedPacket(Packet):
         super().__init__()
         self.data = EncryptedPacket._EncryptedPacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def from_bytes(self, src, validate=True):
@@ -240,7 +240,7 @@ class AppPacket(Packet):
         super().__init__()
         self.data = AppPacket._AppPacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf, validate=validate)
 
     def from_bytes(self, src, validate=True):
@@ -319,7 +319,7 @@ class MultiAppPacket(Packet):
         super().__init__()
         self.data = MultiAppPacket._MultiAppPacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf, validate=validate)
 
     def from_bytes(self, src, validate=True):
-- 
2.43.0


From 810320cd066e3ee13e1c10df3b16e2fa992ab7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:39 +0000
Subject: [PATCH 07/21] fix: reject a MultiAppPacket whose messages exceed the
 packet

A declared length beyond the end of the packet was silently delivered as a shorter
message, and a missing length field raised ValueError.
---
 saltchannel/v2/packets.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/saltchannel/v2/packets.py b/saltchannel/v2/packets.py
index 52f038a..ece02f5 100644
--- a/saltchannel/v2/packets.py
+++ b/saltchannel/v2/packets.py
@@ -294,8 +294,12 @@ class MultiAppPacket(Packet):
                 # deserialize manually now
                 cnt = offset = 0
                 while cnt < count:
+                    if offset + sizeof(c_uint16) > len(src):
+                        raise BadPeer("truncated message length, message: ", cnt)
                     length_field = c_uint16.from_buffer_copy(src, offset)
                     offset += sizeof(c_uint16)
+                    if offset + length_field.value > len(src):
+                        raise BadPeer("truncated message: ", cnt)
                     self.Message.append(src[offset:offset+length_field.value])
                     offset += length_field.value
                     cnt += 1
-- 
2.43.0


From 839e88b5004b80e882bfb395d19ea207953aff14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:39 +0000
Subject: [PATCH 08/21] fix: do not put more messages in a MultiAppPacket than
 its Count field can hold

Writing 65536 or more messages at once overflowed Count, so the reader silently lost
65536 of them or rejected the packet.
---
 saltchannel/v2/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/v2/packets.py b/saltchannel/v2/packets.py
index ece02f5..180f3b5 100644
--- a/saltchannel/v2/packets.py
+++ b/saltchannel/v2/packets.py
@@ -342,7 +342,7 @@ class MultiAppPacket(Packet):
 
     @staticmethod
     def should_use(msgs):
-        return False if len(msgs) < 2 or any(len(msg) > MultiAppPacket.MAX_SIZE for msg in msgs) else True
+        return False if not 2 <= len(msgs) <= MultiAppPacket.MAX_SIZE or any(len(msg) > MultiAppPacket.MAX_SIZE for msg in msgs) else True
 
 # leave here for now
 class TTPacket(Packet):
-- 
2.43.0


From 7afd089de365bd577f9d3432017cb495f4b16119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:16 +0000
Subject: [PATCH 09/21] fix: answer NoSuchServer to an A1 that asks for another
 server's key

AddressType was read as bytes and compared with an int, so the test never matched and
any server answered for any address. The A1-A2 examples ask for the key 0808..08 and
now run a server that has it.
---
 saltchannel/dev/example_session2.py   | 4 +++-
 saltchannel/dev/example_session2_a.py | 4 +++-
 saltchannel/v2/salt_server_session.py | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/saltchannel/dev/example_session2.py b/saltchannel/dev/example_session2.py
index f1b165c..d6fc252 100644
--- a/saltchannel/dev/example_session2.py
+++ b/saltchannel/dev/example_session2.py
@@ -13,6 +13,7 @@ from saltchannel.a1a2.a1_client_session import A1ClientSession
 
 from saltchannel.v2.salt_server_session import SaltServerSession
 from saltchannel.util.crypto_test_data import CryptoTestData
+from saltchannel.util.key_pair import KeyPair
 from saltchannel.dev.client_server import MpClientServerPair
 from .client_server import Session
 from saltchannel.exceptions  import ComException
@@ -29,7 +30,8 @@ SESSION_NUM = 1
 class ExampleSession(Session):
 
     def __init__(self):
-        self.server_sig_keypair = CryptoTestData.bSig
+        # the server that has the public key asked for in A1
+        self.server_sig_keypair = KeyPair(sec=CryptoTestData.bSig.sec, pub=b'\x08' * 32)
         self.server_enc_keypair = CryptoTestData.bEnc
 
     def server_session(self, channel):
diff --git a/saltchannel/dev/example_session2_a.py b/saltchannel/dev/example_session2_a.py
index 51c4c4f..03a06ad 100644
--- a/saltchannel/dev/example_session2_a.py
+++ b/saltchannel/dev/example_session2_a.py
@@ -15,6 +15,7 @@ from saltchannel.channel  import AsyncioChannel
 
 from saltchannel.v2.salt_server_session import SaltServerSession
 from saltchannel.util.crypto_test_data import CryptoTestData
+from saltchannel.util.key_pair import KeyPair
 from saltchannel.a1a2.a1_client_session import A1ClientSession
 
 # Log all to stdout
@@ -29,7 +30,8 @@ CLIENT_NUM = 1
 class ExampleSessionA(SessionA):
 
     def __init__(self):
-        self.server_sig_keypair = CryptoTestData.bSig
+        # the server that has the public key asked for in A1
+        self.server_sig_keypair = KeyPair(sec=CryptoTestData.bSig.sec, pub=b'\x08' * 32)
         self.server_enc_keypair = CryptoTestData.bEnc
 
     async def server_session(self, reader, writer):
diff --git a/saltchannel/v2/salt_server_session.py b/saltchannel/v2/salt_server_session.py
index f35532a..5d4753e 100644
--- a/saltchannel/v2/salt_server_session.py
+++ b/saltchannel/v2/salt_server_session.py
@@ -67,7 +67,7 @@ class SaltServerSession(metaclass=util.Syncizer):
 
     async def do_a2(self, data_chunk):
         a1 = A1Packet(src_buf=data_chunk)
-        if a1.AddressType == A1Packet.ADDRESS_TYPE_PUBKEY and a1.Address != self.sig_keypair.pub:
+        if a1.data.AddressType == A1Packet.ADDRESS_TYPE_PUBKEY and a1.Address != self.sig_keypair.pub:
             a2 = A2Packet(case=A2Packet.Case.A2_NO_SUCH_SERVER)
         elif self.a2:
             a2 = self.a2  # use injected a2
-- 
2.43.0


From b55b32ce86b4cc30a98ddbe433fbeb524bbb6d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:16 +0000
Subject: [PATCH 10/21] fix: report an M3 of the wrong size as BadPeer

It raised AssertionError, and with python -O a longer M3 was accepted.
---
 saltchannel/v2/salt_client_session.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/saltchannel/v2/salt_client_session.py b/saltchannel/v2/salt_client_session.py
index b485087..f32da00 100644
--- a/saltchannel/v2/salt_client_session.py
+++ b/saltchannel/v2/salt_client_session.py
@@ -88,7 +88,8 @@ class SaltClientSession(metaclass=util.Syncizer):
 
     async def do_m3(self):
         chunk = await self.enc_channel.read()
-        assert(len(chunk) == 2+4+32+64)
+        if len(chunk) != 2+4+32+64:
+            raise saltchannel.exceptions.BadPeer("bad M3 size: ", len(chunk))
         self.m3 = packets.M3Packet(src_buf=chunk)
         self.time_checker.check_time(self.m3.data.Time)
 
-- 
2.43.0


From 26c814a8a4e2e344ddfe7764c0e78e95b015658e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:16 +0000
Subject: [PATCH 11/21] fix: report a low-order peer encryption key as BadPeer

libsodium refuses such keys; the resulting ValueError or RuntimeError escaped from
handshake() at the will of the peer.
---
 saltchannel/v2/salt_client_session.py | 5 ++++-
 saltchannel/v2/salt_server_session.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/saltchannel/v2/salt_client_session.py b/saltchannel/v2/salt_client_session.py
index f32da00..dacc9b7 100644
--- a/saltchannel/v2/salt_client_session.py
+++ b/saltchannel/v2/salt_client_session.py
@@ -116,7 +116,10 @@ class SaltClientSession(metaclass=util.Syncizer):
             raise saltchannel.exceptions.BadPeer("invalid signature")
 
     def create_encrypted_channel(self):
-        self.session_key = self.saltlib.compute_shared_key(self.enc_keypair.sec, self.m2.ServerEncKey)
+        try:
+            self.session_key = self.saltlib.compute_shared_key(self.enc_keypair.sec, self.m2.ServerEncKey)
+        except Exception as e:  # each crypto library has its own exception type
+            raise saltchannel.exceptions.BadPeer("bad ServerEncKey: ", e)
         self.enc_channel = EncryptedChannelV2(self.clear_channel, self.session_key, Role.CLIENT)
         self.app_channel = AppChannelV2(self.enc_channel, self.time_keeper, self.time_checker)
 
diff --git a/saltchannel/v2/salt_server_session.py b/saltchannel/v2/salt_server_session.py
index 5d4753e..dda6562 100644
--- a/saltchannel/v2/salt_server_session.py
+++ b/saltchannel/v2/salt_server_session.py
@@ -136,7 +136,10 @@ class SaltServerSession(metaclass=util.Syncizer):
         self.client_sig_key = self.m4.ClientSigKey
 
     def create_encrypted_channel(self):
-        self.session_key = self.saltlib.compute_shared_key(self.enc_keypair.sec, self.m1.ClientEncKey)
+        try:
+            self.session_key = self.saltlib.compute_shared_key(self.enc_keypair.sec, self.m1.ClientEncKey)
+        except Exception as e:  # each crypto library has its own exception type
+            raise saltchannel.exceptions.BadPeer("bad ClientEncKey: ", e)
         self.enc_channel = EncryptedChannelV2(self.clear_channel, self.session_key, Role.SERVER)
         self.app_channel = AppChannelV2(self.enc_channel, self.time_keeper, self.time_checker)
 
-- 
2.43.0


From 4702a0c04acc9baa3428f0fa805d27cff86f20e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:16 +0000
Subject: [PATCH 12/21] fix: AsyncioChannel reports end of stream and broken
 connections as ComException

IncompleteReadError, ConnectionResetError and ValueError leaked through every layer
above it, which documents ComException.
---
 saltchannel/channel.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/saltchannel/channel.py b/saltchannel/channel.py
index c1e0431..e5c6a5e 100644
--- a/saltchannel/channel.py
+++ b/saltchannel/channel.py
@@ -44,12 +44,18 @@ class AsyncioChannel(ByteChannel, metaclass=util.Syncizer):
         self.writer = writer
 
     async def read(self):
-        return await self.reader.read_msg()
+        try:
+            return await self.reader.read_msg()
+        except (EOFError, OSError, ValueError) as e:  # end of stream, broken connection, bad length prefix
+            raise ComException(e)
 
     async def write(self, msg, *args, is_last=False):
-        for m in (msg,) + args:
-            self.writer.write_msg(m)
-        await self.writer.drain()
+        try:
+            for m in (msg,) + args:
+                self.writer.write_msg(m)
+            await self.writer.drain()
+        except OSError as e:
+            raise ComException(e)
 
     def close(self):
         self.writer.close()
-- 
2.43.0


From 4e6f20e04910583be4e85473971be8e2328cb0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:16 +0000
Subject: [PATCH 13/21] fix: validate A2 protocol strings as ASCII

Bytes that are not UTF-8 raised UnicodeDecodeError instead of BadPeer, and non-ASCII
letters and a trailing newline were accepted.
---
 saltchannel/a1a2/packets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/saltchannel/a1a2/packets.py b/saltchannel/a1a2/packets.py
index 9b0bb3d..1463f71 100644
--- a/saltchannel/a1a2/packets.py
+++ b/saltchannel/a1a2/packets.py
@@ -103,13 +103,13 @@ class A2Packet(Packet):
         class _A2Prot(SmartStructure):
             _fields_ = [("P1", c_uint8 * A2Packet.P_SIZE),
                         ("P2", c_uint8 * A2Packet.P_SIZE)]
-            proto_re = re.compile(r'^[-./\w]+$')  # used for p-string validation
+            proto_re = re.compile(rb'[-./A-Za-z0-9_]+')  # used for p-string validation
 
             def validate(self):
                 if len(self.P1) != A2Packet.P_SIZE or len(self.P2) != A2Packet.P_SIZE:
                     return False
-                return True if (type(self).proto_re.match(bytes(self.P1).decode()) and
-                                type(self).proto_re.match(bytes(self.P2).decode())) else False
+                return True if (type(self).proto_re.fullmatch(bytes(self.P1)) and
+                                type(self).proto_re.fullmatch(bytes(self.P2))) else False
 
         class _A2PacketBodyOpt(SmartStructure):
             # A2Packet opt/variable fields
-- 
2.43.0


From 196740b1d4ccac03fcf465fc1ec73b708ee45155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:16 +0000
Subject: [PATCH 14/21] fix: time keepers and checkers are per-session objects

Every subclass of TimeKeeper and TimeChecker was turned into a process-wide singleton,
so concurrent sessions (or the two ends of one) shared and reset each other's clock.
Only the stateless Null implementations remain singletons.
---
 saltchannel/util/time.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/saltchannel/util/time.py b/saltchannel/util/time.py
index b370153..bc573b0 100644
--- a/saltchannel/util/time.py
+++ b/saltchannel/util/time.py
@@ -3,7 +3,7 @@ from . import SingletonABCMeta
 from ..exceptions import BadPeer
 
 
-class TimeKeeper(metaclass=SingletonABCMeta):
+class TimeKeeper(metaclass=ABCMeta):
     """Keeps time; relative time since first message sent. Measure in milliseconds."""
 
     """Call this first, must return 1 when timing is supported and 0 if not."""
@@ -15,7 +15,7 @@ class TimeKeeper(metaclass=SingletonABCMeta):
     def get_time(self): pass
 
 
-class TimeChecker(metaclass=SingletonABCMeta):
+class TimeChecker(metaclass=ABCMeta):
     """"""
 
     """Reports first time. Should be 0 or 1."""
@@ -27,7 +27,7 @@ class TimeChecker(metaclass=SingletonABCMeta):
     def check_time(self, time): pass
 
 
-class NullTimeKeeper(TimeKeeper):
+class NullTimeKeeper(TimeKeeper, metaclass=SingletonABCMeta):
     """A TimeKeeper implementation that does not keep time.
     get_first_time() and get_time() always returns 0.
     """
@@ -41,7 +41,7 @@ class NullTimeKeeper(TimeKeeper):
         return 0
 
 
-class NullTimeChecker(TimeChecker):
+class NullTimeChecker(TimeChecker, metaclass=SingletonABCMeta):
     """TimeChecker that accepts all time values."""
 
     """Reports first time. Should be 0 or 1."""
-- 
2.43.0


From 1f50cbc860f24cad7e14dfcf5c4e81238923fc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:16 +0000
Subject: [PATCH 15/21] fix: client sessions can be created in any thread

SaltClientSession and A1ClientSession raised RuntimeError in a thread without an event
loop, unlike SaltServerSession and the channels.
---
 saltchannel/a1a2/a1_client_session.py | 4 ++--
 saltchannel/v2/salt_client_session.py | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/saltchannel/a1a2/a1_client_session.py b/saltchannel/a1a2/a1_client_session.py
index 467c4c5..b81ca49 100644
--- a/saltchannel/a1a2/a1_client_session.py
+++ b/saltchannel/a1a2/a1_client_session.py
@@ -1,11 +1,11 @@
-import asyncio
+import saltchannel.util as util
 from . import packets
 
 
 class A1ClientSession:
     """"""
     def __init__(self, channel, loop=None):
-        self.loop = loop or asyncio.get_event_loop()
+        self.loop = util.force_event_loop(loop=loop)
 
         self.channel = channel
         self.a1 = packets.A1Packet()
diff --git a/saltchannel/v2/salt_client_session.py b/saltchannel/v2/salt_client_session.py
index dacc9b7..52382bf 100644
--- a/saltchannel/v2/salt_client_session.py
+++ b/saltchannel/v2/salt_client_session.py
@@ -1,4 +1,3 @@
-import asyncio
 from ..saltlib import SaltLib
 from ..saltlib.saltlib_base import SaltLibBase
 import saltchannel.util as util
@@ -15,7 +14,7 @@ class SaltClientSession(metaclass=util.Syncizer):
     Asyncio-based implementation
     """
     def __init__(self, sig_keypair, clear_channel, loop=None):
-        self.loop = loop or asyncio.get_event_loop()
+        self.loop = util.force_event_loop(loop=loop)
 
         self.saltlib = SaltLib()
         self.sig_keypair = sig_keypair
-- 
2.43.0


From 189d256f160526fc6a70f7548cb0055d6d04190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:16 +0000
Subject: [PATCH 16/21] fix: EncryptedChannelV2 has working read_sync and
 write_sync

It inherited the empty placeholders of ByteChannel: write_sync() dropped the message
and read_sync() returned None.
---
 saltchannel/v2/encrypted_channel_v2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/saltchannel/v2/encrypted_channel_v2.py b/saltchannel/v2/encrypted_channel_v2.py
index fba49ba..cf271ca 100644
--- a/saltchannel/v2/encrypted_channel_v2.py
+++ b/saltchannel/v2/encrypted_channel_v2.py
@@ -1,5 +1,6 @@
 from enum import Enum
 
+import saltchannel.util as util
 from ..saltlib import SaltLib
 from ..saltlib import BadEncryptedDataException, BadSignatureException
 from ..channel import ByteChannel
@@ -32,7 +33,7 @@ class Nonce:
         return b''.join([self.value.to_bytes(8, 'little'), self.session_nonce, bytes(8)])
 
 
-class EncryptedChannelV2(ByteChannel):
+class EncryptedChannelV2(ByteChannel, metaclass=util.Syncizer):
     """An implementation of an encrypted channel using a shared symmetric session key.
     The read/write methods throws ComException for low-level IO errors
     and BadPeer if the data format is not OK or if the data is not
-- 
2.43.0


From 650a1f1818287beefbcf42bd0bd2ff8a69e4d168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:16 +0000
Subject: [PATCH 17/21] fix: a cancelled read_msg does not lose the length
 prefix

When a read was cancelled (e.g. asyncio.wait_for) between the length prefix and the
message, the next read took message bytes for a length and the stream was out of step.
---
 saltchannel/dev/client_server_a.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/saltchannel/dev/client_server_a.py b/saltchannel/dev/client_server_a.py
index 0a2dbe7..6dfca8d 100644
--- a/saltchannel/dev/client_server_a.py
+++ b/saltchannel/dev/client_server_a.py
@@ -14,9 +14,14 @@ class SaltChannelStreamWriter(streams.StreamWriter):
         self.write(b''.join([struct.pack('<i', len(msg)), bytes(msg)]))
 
 class SaltChannelStreamReader(streams.StreamReader):
+    _msg_len = None  # length prefix of a message whose read was cancelled
+
     async def read_msg(self):
-        msg_len = struct.unpack('<i', await self.readexactly(4))
-        return b'' if not msg_len else await self.readexactly(msg_len[0])
+        if self._msg_len is None:
+            self._msg_len = struct.unpack('<i', await self.readexactly(4))
+        msg = await self.readexactly(self._msg_len[0])
+        self._msg_len = None
+        return msg
 
 
 class SaltChannelStreamReaderProtocol(streams.StreamReaderProtocol):
-- 
2.43.0


From 575e612ee611bd988ed34cc9f2d123808f787117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:59 +0000
Subject: [PATCH 18/21] fix: run asyncio client sessions on Python 3.10 and
 later

asyncio.wait() lost its loop argument in Python 3.10, so run_sessions() of
ClientServerPairA failed with TypeError before waiting for any client.
---
 saltchannel/dev/client_server_a.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/dev/client_server_a.py b/saltchannel/dev/client_server_a.py
index 6dfca8d..61952ce 100644
--- a/saltchannel/dev/client_server_a.py
+++ b/saltchannel/dev/client_server_a.py
@@ -102,7 +102,7 @@ class ClientServerPairA:
             loop.run_in_executor(ProcessPoolExecutor(max_workers=self.client_num+1), self._spawn_client_process))
             for x in range(self.client_num)]
         while futures:
-            done, futures = await asyncio.wait(futures, loop=loop, return_when=asyncio.ALL_COMPLETED)
+            done, futures = await asyncio.wait(futures, return_when=asyncio.ALL_COMPLETED)
             for f in done:
                 await f
 
-- 
2.43.0


From 6cfe253244b56d987ae9635f2706ed4367fd69d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:24 +0000
Subject: [PATCH 19/21] fix: logging wrapper lost the records made while
 buffering was on

---
 saltchannel/dev/mitm_channel.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/saltchannel/dev/mitm_channel.py b/saltchannel/dev/mitm_channel.py
index 36ee713..8ebaa76 100644
--- a/saltchannel/dev/mitm_channel.py
+++ b/saltchannel/dev/mitm_channel.py
@@ -38,15 +38,15 @@ class MitmChannel(ByteChannel):
         self.queue.clear()
 
     def _log_event(self, log_record, force_log=False):
+        if self.log_buffering and not force_log:
+            self.queue.append(log_record._replace(data=bytes(log_record.data)))
+            return
         if not self.time0:
             self.time0 = log_record.time
-        if force_log or not self.log_buffering:
-            if self.log:
-                self.log.info('{:0.6f} +{:0.6f}, {:s}, len(msg):{:d}, msg: b\'{:s}\''
-                            .format(log_record.time, log_record.time-self.time0, log_record.type,
-                                    len(log_record.data), log_record.data.hex()))
-            else:
-                self.queue.append(log_record)
+        if self.log:
+            self.log.info('{:0.6f} +{:0.6f}, {:s}, len(msg):{:d}, msg: b\'{:s}\''
+                        .format(log_record.time, log_record.time-self.time0, log_record.type,
+                                len(log_record.data), log_record.data.hex()))
         self.time0 = log_record.time
 
     async def read(self):
-- 
2.43.0


From 00d20ea860ca6d31b4c5825d2529b4851f547767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:13 +0000
Subject: [PATCH 20/21] fix: a libsodium that cannot be loaded counts as not
 installed

A libsodium that is found but fails to load (wrong architecture, broken
link) made importing saltchannel fail although another crypto library
was usable.
---
 saltchannel/saltlib/saltlib_native.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/saltchannel/saltlib/saltlib_native.py b/saltchannel/saltlib/saltlib_native.py
index de8759c..ef7e759 100644
--- a/saltchannel/saltlib/saltlib_native.py
+++ b/saltchannel/saltlib/saltlib_native.py
@@ -6,7 +6,10 @@ import ctypes.util
 from .saltlib_base import SaltLibBase
 from .exceptions import BadEncryptedDataException, BadSignatureException
 
-sodium = ctypes.cdll.LoadLibrary(ctypes.util.find_library('sodium'))
+try:
+    sodium = ctypes.cdll.LoadLibrary(ctypes.util.find_library('sodium'))
+except OSError:  # there but not loadable, see isAvailable()
+    sodium = None
 
 def wrap(code):
     if code != 0:
@@ -21,7 +24,7 @@ class SaltLibNative(SaltLibBase):
 
     @staticmethod
     def isAvailable():
-        return False if not sodium._name else True
+        return False if sodium is None or not sodium._name else True
 
     def crypto_sign_keypair_not_random(self, seed):
         """
-- 
2.43.0


From c6b6fc3d41c6495f37d59f459ecd2834d258295f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:14 +0000
Subject: [PATCH 21/21] fix: a refused first write does not lose the buffered
 M4

---
 saltchannel/v2/app_channel_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/v2/app_channel_v2.py b/saltchannel/v2/app_channel_v2.py
index 5a72230..684bf84 100644
--- a/saltchannel/v2/app_channel_v2.py
+++ b/saltchannel/v2/app_channel_v2.py
@@ -46,7 +46,6 @@ class AppChannelV2(ByteChannel, metaclass=util.Syncizer):
         if self.buffered_m4:
             self.buffered_m4.data.Time = current_time
             rawmsg_list.append(bytes(self.buffered_m4))
-            self.buffered_m4 = None
 
         if MultiAppPacket.should_use(msgs):
             map = MultiAppPacket()
@@ -61,4 +60,5 @@ class AppChannelV2(ByteChannel, metaclass=util.Syncizer):
                 ap.Data = msg
                 rawmsg_list.append(bytes(ap))
 
+        self.buffered_m4 = None  # only now: a message that cannot be packed must not cost the M4
         await self.channel.write(rawmsg_list[0], *(rawmsg_list[1:]), is_last=is_last)
-- 
2.43.0

