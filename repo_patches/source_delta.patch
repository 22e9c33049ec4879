From 5cb454bdf0cfafdba444c21eecb093ee62a76918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 01/32] fix: Overwinter and Sapling sighash_all/sighash_single
 honour anyone_can_pay

---
 riemann/tx/overwinter.py | 10 ++++++++--
 riemann/tx/sapling.py    |  8 ++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/riemann/tx/overwinter.py b/riemann/tx/overwinter.py
index 3e39d94..668f0c6 100644
--- a/riemann/tx/overwinter.py
+++ b/riemann/tx/overwinter.py
@@ -268,10 +268,16 @@ class OverwinterTx(z.ZcashByteData):
         return False
 
     def sighash_all(self, anyone_can_pay: bool = False, **kwargs) -> bytes:
-        return self.sighash(sighash_type=shared.SIGHASH_ALL, **kwargs)
+        return self.sighash(sighash_type=shared.SIGHASH_ALL,
+                            anyone_can_pay=anyone_can_pay,
+                            **kwargs)
 
     def sighash_single(self, anyone_can_pay: bool = False, **kwargs) -> bytes:
-        return self.sighash(sighash_type=shared.SIGHASH_SINGLE, **kwargs)
+        # NB: existing callers pass the sighash type positionally, so only an
+        #     explicit True selects ANYONECANPAY
+        return self.sighash(sighash_type=shared.SIGHASH_SINGLE,
+                            anyone_can_pay=anyone_can_pay is True,
+                            **kwargs)
 
     def sighash(self,
                 sighash_type: int,
diff --git a/riemann/tx/sapling.py b/riemann/tx/sapling.py
index c606300..142e732 100644
--- a/riemann/tx/sapling.py
+++ b/riemann/tx/sapling.py
@@ -603,10 +603,14 @@ class SaplingTx(z.ZcashByteData):
         return False
 
     def sighash_all(self, anyone_can_pay: bool = False, **kwargs) -> bytes:
-        return self.sighash(sighash_type=shared.SIGHASH_ALL, **kwargs)
+        return self.sighash(sighash_type=shared.SIGHASH_ALL,
+                            anyone_can_pay=anyone_can_pay,
+                            **kwargs)
 
     def sighash_single(self, anyone_can_pay: bool = False, **kwargs) -> bytes:
-        return self.sighash(sighash_type=shared.SIGHASH_SINGLE, **kwargs)
+        return self.sighash(sighash_type=shared.SIGHASH_SINGLE,
+                            anyone_can_pay=anyone_can_pay,
+                            **kwargs)
 
     def sighash(self,
                 sighash_type: int,
-- 
2.43.0


From 9b7d66b9dfdfc97f2856b2ea4691169721a61ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:48 +0000
Subject: [PATCH 02/32] fix: Sprout sighash_single and anyone_can_pay work
 without joinsplits

---
 riemann/tx/sprout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index 117ac25..4a2d429 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -297,7 +297,7 @@ class SproutTx(z.ZcashByteData):
         https://github.com/petertodd/python-bitcoinlib/blob/051ec4e28c1f6404fd46713c2810d4ebbed38de4/bitcoin/core/script.py#L913-L965
         '''
 
-        if self.tx_joinsplits is not None:
+        if len(self.tx_joinsplits) != 0:
             raise ValueError('Sighash single not permitted with joinsplits.')
 
         if index >= len(self.tx_outs):
@@ -341,7 +341,7 @@ class SproutTx(z.ZcashByteData):
         https://en.bitcoin.it/wiki/OP_CHECKSIG#Procedure_for_Hashtype_SIGHASH_ANYONECANPAY
         '''
 
-        if self.tx_joinsplits is not None:
+        if len(self.tx_joinsplits) != 0:
             raise ValueError(
                 'Sighash anyonecanpay not permitted with joinsplits.')
 
-- 
2.43.0


From 5d7053e488251980c7c22f1096c4d8e813467688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:28 +0000
Subject: [PATCH 03/32] fix: SproutTx.from_bytes parses version 1 transactions

---
 riemann/tx/sprout.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index 4a2d429..d377f82 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -180,11 +180,10 @@ class SproutTx(z.ZcashByteData):
         lock_time = byte_string[current:current + 4]
         current += 4
 
-        tx_joinsplits = None
+        tx_joinsplits = []
         joinsplit_pubkey = None
         joinsplit_sig = None
         if utils.le2i(version) == 2:  # If we expect joinsplits
-            tx_joinsplits = []
             tx_joinsplits_num = shared.VarInt.from_bytes(byte_string[current:])
             current += len(tx_joinsplits_num)
 
-- 
2.43.0


From 5e4a8fd4b093d438bbe676388e34233300e87485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 04/32] fix: Sprout joinsplit key and signature are present
 only with joinsplits

---
 riemann/tx/sprout.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index d377f82..01f9e14 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -69,9 +69,10 @@ class SproutTx(z.ZcashByteData):
                         'Invalid Joinsplit. '
                         'Expected instance of SproutJoinsplit. Got {}'
                         .format(type(tx_joinsplit).__name__))
-            self.validate_bytes(joinsplit_pubkey, 32)
-            if joinsplit_sig is not None and joinsplit_sig != b'':
-                self.validate_bytes(joinsplit_sig, 64)
+            if len(tx_joinsplits) != 0:
+                self.validate_bytes(joinsplit_pubkey, 32)
+                if joinsplit_sig is not None and joinsplit_sig != b'':
+                    self.validate_bytes(joinsplit_sig, 64)
 
         if utils.le2i(version) not in [1, 2]:
             raise ValueError('Version must be 1 or 2. '
@@ -90,8 +91,9 @@ class SproutTx(z.ZcashByteData):
             self += shared.VarInt(len(tx_joinsplits))
             for tx_joinsplit in tx_joinsplits:
                 self += tx_joinsplit
-            self += cast(bytes, joinsplit_pubkey)
-            self += cast(bytes, joinsplit_sig)
+            if len(tx_joinsplits) != 0:
+                self += cast(bytes, joinsplit_pubkey)
+                self += cast(bytes, joinsplit_sig)
 
         self.version = version
         self.tx_ins = tuple(tx_in for tx_in in tx_ins)
@@ -99,7 +101,7 @@ class SproutTx(z.ZcashByteData):
         self.tx_joinsplits = tuple(js for js in tx_joinsplits)
         self.lock_time = lock_time
 
-        if version == utils.i2le_padded(2, 4):
+        if len(tx_joinsplits) != 0:
             self.joinsplit_pubkey = joinsplit_pubkey
             self.joinsplit_sig = joinsplit_sig
             # Zcash spec 5.4.1.4 Hsig hash function
@@ -191,9 +193,10 @@ class SproutTx(z.ZcashByteData):
                 joinsplit = z.SproutJoinsplit.from_bytes(byte_string[current:])
                 current += len(joinsplit)
                 tx_joinsplits.append(joinsplit)
-            joinsplit_pubkey = byte_string[current:current + 32]
-            current += 32
-            joinsplit_sig = byte_string[current:current + 64]
+            if tx_joinsplits_num.number != 0:
+                joinsplit_pubkey = byte_string[current:current + 32]
+                current += 32
+                joinsplit_sig = byte_string[current:current + 64]
 
         return SproutTx(
             version=version,
-- 
2.43.0


From b5ed4dc4ab4ae0bcbe1fd27ce02fef510aec75dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 05/32] fix: advance past the joinsplit count by its own length

---
 riemann/tx/overwinter.py | 2 +-
 riemann/tx/sapling.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/overwinter.py b/riemann/tx/overwinter.py
index 668f0c6..f41c6be 100644
--- a/riemann/tx/overwinter.py
+++ b/riemann/tx/overwinter.py
@@ -244,7 +244,7 @@ class OverwinterTx(z.ZcashByteData):
         else:
             tx_joinsplits = []
             tx_joinsplits_num = shared.VarInt.from_bytes(byte_string[current:])
-            current += len(tx_outs_num)
+            current += len(tx_joinsplits_num)
             for _ in range(tx_joinsplits_num.number):
                 tx_joinsplit = z.SproutJoinsplit.from_bytes(
                     byte_string[current:])
diff --git a/riemann/tx/sapling.py b/riemann/tx/sapling.py
index 142e732..6af0da7 100644
--- a/riemann/tx/sapling.py
+++ b/riemann/tx/sapling.py
@@ -561,7 +561,7 @@ class SaplingTx(z.ZcashByteData):
 
         tx_joinsplits = []
         tx_joinsplits_num = shared.VarInt.from_bytes(byte_string[current:])
-        current += len(tx_outs_num)
+        current += len(tx_joinsplits_num)
         for _ in range(tx_joinsplits_num.number):
             tx_joinsplit = SaplingJoinsplit.from_bytes(
                 byte_string[current:])
-- 
2.43.0


From d2bd3a5995a5a524aa4f2365b5237245ea1c04c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:51 +0000
Subject: [PATCH 06/32] fix: compact sizes decode, re-encode and reject cut or
 long forms exactly

---
 riemann/tx/shared.py | 26 ++++++++++++--------------
 riemann/tx/tx.py     |  5 +++++
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/riemann/tx/shared.py b/riemann/tx/shared.py
index f478326..da02ffa 100644
--- a/riemann/tx/shared.py
+++ b/riemann/tx/shared.py
@@ -172,15 +172,15 @@ class VarInt(ByteData):
             raise ValueError('VarInt cannot be greater than (2 ** 64) - 1. '
                              'Got: {}'
                              .format(number))
-        if number <= 0xfc:
+        if number <= 0xfc and length not in [3, 5, 9]:
             pass  # No prefix
-        elif number <= 0xffff or length == 3:
+        elif number <= 0xffff and length not in [5, 9]:
             self += bytes([0xfd])
             length = 3
-        elif number <= 0xffffffff or length == 5:
+        elif number <= 0xffffffff and length != 9:
             self += bytes([0xfe])
             length = 5
-        elif number <= 0xffffffffffffffff or length == 9:
+        else:
             self += bytes([0xff])
             length = 9
         self += utils.i2le(number)
@@ -194,7 +194,7 @@ class VarInt(ByteData):
         self._make_immutable()
 
     def copy(self) -> 'VarInt':
-        return VarInt(self.number)
+        return VarInt(self.number, length=len(self))
 
     @classmethod
     def from_bytes(VarInt, byte_string: bytes) -> 'VarInt':
@@ -204,21 +204,19 @@ class VarInt(ByteData):
         '''
         num = byte_string
         if num[0] <= 0xfc:
-            num = num[0:1]
-            non_compact = False
+            num, width, smallest = num[0:1], 1, 0x00
         elif num[0] == 0xfd:
-            num = num[1:3]
-            non_compact = (num[-1:] == b'\x00')
+            num, width, smallest = num[1:3], 2, 0xfd
         elif num[0] == 0xfe:
-            num = num[1:5]
-            non_compact = (num[-2:] == b'\x00\x00')
+            num, width, smallest = num[1:5], 4, 0x10000
         elif num[0] == 0xff:
-            num = num[1:9]
-            non_compact = (num[-4:] == b'\x00\x00\x00\x00')
-        if len(num) not in [1, 2, 4, 8]:
+            num, width, smallest = num[1:9], 8, 0x100000000
+        if len(num) != width:
             raise ValueError('Malformed VarInt. Got: {}'
                              .format(byte_string.hex()))
 
+        non_compact = utils.le2i(num) < smallest
+
         if (non_compact
             and ('overwinter' in riemann.get_current_network_name()
                  or 'sapling' in riemann.get_current_network_name())):
diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index a58b8a6..d3c7573 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -273,6 +273,11 @@ class TxOut(ByteData):
         '''
         Parse a TxOut from a bytestring. Also available as from_hex
         '''
+        # Longer scripts, even cut short, have a longer length prefix
+        if byte_string[8] > 0xfc:
+            raise NotImplementedError(
+                'No support for abnormally long pk_scripts.')
+
         n = VarInt.from_bytes(byte_string[8:])
         script_start = 8 + len(n)
         script_end = script_start + n.number
-- 
2.43.0


From c3726317758722a576aea3928d06e084eab45fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 07/32] fix: refuse outputs and witness items whose length
 reaches past the end

---
 riemann/tx/decred.py | 3 +++
 riemann/tx/tx.py     | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index 5084d15..1a8f466 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -129,6 +129,9 @@ class DecredTxOut(DecredByteData):
         script_start = 10 + len(n)
         script_end = script_start + n.number
         if n.number < 0xfc:
+            if script_end > len(byte_string):
+                raise ValueError('Malformed TxOut. '
+                                 'Output script is cut short.')
             return DecredTxOut(
                 value=byte_string[:8],
                 version=byte_string[8:10],
diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index d3c7573..7294bc6 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -282,6 +282,9 @@ class TxOut(ByteData):
         script_start = 8 + len(n)
         script_end = script_start + n.number
         if n.number < 0xfc:
+            if script_end > len(byte_string):
+                raise ValueError('Malformed TxOut. '
+                                 'Output script is cut short.')
             return TxOut(
                 value=byte_string[:8],
                 output_script=byte_string[script_start:script_end])
@@ -322,6 +325,9 @@ class WitnessStackItem(ByteData):
         n = VarInt.from_bytes(byte_string)
         item_start = len(n)
         item_end = item_start + n.number
+        if item_end > len(byte_string):
+            raise ValueError('Malformed WitnessStackItem. '
+                             'Item is cut short.')
         return WitnessStackItem(byte_string[item_start:item_end])
 
 
-- 
2.43.0


From 42e98fb7459e8e2e811da978c170a7c57536ede2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 08/32] fix: transaction parsers refuse anything but exactly
 one encoded transaction

---
 riemann/tx/overwinter.py | 10 +++++++++-
 riemann/tx/sapling.py    | 10 +++++++++-
 riemann/tx/sprout.py     | 10 +++++++++-
 riemann/tx/tx.py         | 10 +++++++++-
 4 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/riemann/tx/overwinter.py b/riemann/tx/overwinter.py
index f41c6be..f5f128f 100644
--- a/riemann/tx/overwinter.py
+++ b/riemann/tx/overwinter.py
@@ -255,7 +255,7 @@ class OverwinterTx(z.ZcashByteData):
             current += 32
             joinsplit_sig = byte_string[current:current + 64]
 
-        return OverwinterTx(
+        ret = OverwinterTx(
             tx_ins=tx_ins,
             tx_outs=tx_outs,
             lock_time=lock_time,
@@ -264,6 +264,14 @@ class OverwinterTx(z.ZcashByteData):
             joinsplit_pubkey=joinsplit_pubkey,
             joinsplit_sig=joinsplit_sig)
 
+        # Anything left over, missing, or not in its shortest form
+        if ret != byte_string:
+            raise ValueError(
+                'Malformed transaction. '
+                'Expected exactly the bytes of one transaction.')
+
+        return ret
+
     def is_witness(self) -> bool:
         return False
 
diff --git a/riemann/tx/sapling.py b/riemann/tx/sapling.py
index 6af0da7..7a6023c 100644
--- a/riemann/tx/sapling.py
+++ b/riemann/tx/sapling.py
@@ -586,7 +586,7 @@ class SaplingTx(z.ZcashByteData):
         else:
             binding_sig = None
 
-        return SaplingTx(
+        ret = SaplingTx(
             tx_ins=tx_ins,
             tx_outs=tx_outs,
             lock_time=lock_time,
@@ -599,6 +599,14 @@ class SaplingTx(z.ZcashByteData):
             joinsplit_sig=joinsplit_sig,
             binding_sig=binding_sig)
 
+        # Anything left over, missing, or not in its shortest form
+        if ret != byte_string:
+            raise ValueError(
+                'Malformed transaction. '
+                'Expected exactly the bytes of one transaction.')
+
+        return ret
+
     def is_witness(self) -> bool:
         return False
 
diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index 01f9e14..9b8c9a2 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -198,7 +198,7 @@ class SproutTx(z.ZcashByteData):
                 current += 32
                 joinsplit_sig = byte_string[current:current + 64]
 
-        return SproutTx(
+        ret = SproutTx(
             version=version,
             tx_ins=tx_ins,
             tx_outs=tx_outs,
@@ -207,6 +207,14 @@ class SproutTx(z.ZcashByteData):
             joinsplit_pubkey=joinsplit_pubkey,
             joinsplit_sig=joinsplit_sig)
 
+        # Anything left over, missing, or not in its shortest form
+        if ret != byte_string:
+            raise ValueError(
+                'Malformed transaction. '
+                'Expected exactly the bytes of one transaction.')
+
+        return ret
+
     def calculate_fee(self, input_values: Sequence[int]) -> int:
         '''
         Tx, list(int) -> int
diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index 7294bc6..dfcc935 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -610,7 +610,7 @@ class Tx(ByteData):
 
         # Get the lock time and return a complete tx
         lock_time = byte_string[current:current + 4]
-        return Tx(
+        ret = Tx(
             version=version,
             flag=flag,
             tx_ins=tx_ins,
@@ -618,6 +618,14 @@ class Tx(ByteData):
             tx_witnesses=tx_witnesses,
             lock_time=lock_time)
 
+        # Anything left over, missing, or not in its shortest form
+        if ret != byte_string:
+            raise ValueError(
+                'Malformed transaction. '
+                'Expected exactly the bytes of one transaction.')
+
+        return ret
+
     def no_witness(self) -> bytes:
         '''
         Return the Tx as a bytestring stripped of witnesses. This is the
-- 
2.43.0


From 799efdd3748668603282978a154a72f2c4dc775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 09/32] fix: deserialize refuses PUSHDATA that runs past the
 end of the script

---
 riemann/script/serialization.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/riemann/script/serialization.py b/riemann/script/serialization.py
index 666aaf4..44b2599 100644
--- a/riemann/script/serialization.py
+++ b/riemann/script/serialization.py
@@ -108,6 +108,10 @@ def deserialize(serialized_script: bytes) -> str:
                 serialized_script[i + 2: i + 2 + blob_len].hex())
 
             i += 2 + blob_len
+            if i > len(serialized_script):
+                raise IndexError(
+                    'Push {} caused out of bounds exception.'
+                    .format(blob_len))
 
         elif current_byte == 77:
             # next hex blob length
@@ -117,6 +121,10 @@ def deserialize(serialized_script: bytes) -> str:
                 serialized_script[i + 3: i + 3 + blob_len].hex())
 
             i += 3 + blob_len
+            if i > len(serialized_script):
+                raise IndexError(
+                    'Push {} caused out of bounds exception.'
+                    .format(blob_len))
 
         elif current_byte == 78:
             raise NotImplementedError('OP_PUSHDATA4 is a bad idea.')
-- 
2.43.0


From df51fa438bb7ef0291f9ddc22f3514f8677efcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 10/32] fix: parsing an input keeps its script sig byte for
 byte

---
 riemann/tx/tx.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index dfcc935..ab63e1f 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -179,8 +179,12 @@ class TxIn(ByteData):
             deserialized = serialization.deserialize(script_sig)
             items = deserialized.split()
             serialization.hex_deserialize(items[-1])
-            stack_script = serialization.serialize(' '.join(items[:-1]))
-            redeem_script = serialization.serialize(items[-1])
+            stack_items = serialization.serialize(' '.join(items[:-1]))
+            redeem_item = serialization.serialize(items[-1])
+            # Don't split if the pushes were not canonical
+            if stack_items + redeem_item == script_sig:
+                stack_script = bytes(stack_items)
+                redeem_script = bytes(redeem_item)
         except (IndexError, ValueError, NotImplementedError):
             pass
         return stack_script, redeem_script
-- 
2.43.0


From cfb8d7a718a2dab3fd9764c5055b10007e28daf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:03 +0000
Subject: [PATCH 11/32] fix: objects keep their own copy of the buffers and
 lists they are built from

---
 riemann/tx/decred.py |  6 +++---
 riemann/tx/shared.py | 10 ++++++++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index 1a8f466..e1d5734 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -254,11 +254,11 @@ class DecredTx(DecredByteData):
             self += tx_witness
 
         self.version = version
-        self.tx_ins = tx_ins
-        self.tx_outs = tx_outs
+        self.tx_ins = tuple(tx_in for tx_in in tx_ins)
+        self.tx_outs = tuple(tx_out for tx_out in tx_outs)
         self.lock_time = lock_time
         self.expiry = expiry
-        self.tx_witnesses = tx_witnesses
+        self.tx_witnesses = tuple(wit for wit in tx_witnesses)
 
         if len(self) > 100000:
             raise ValueError(
diff --git a/riemann/tx/shared.py b/riemann/tx/shared.py
index da02ffa..45a5ae4 100644
--- a/riemann/tx/shared.py
+++ b/riemann/tx/shared.py
@@ -78,8 +78,18 @@ class ByteData():
     def __setattr__(self, key: str, value):
         if self.__immutable:
             raise TypeError("%r cannot be written to." % self)
+        # Never share a buffer that someone else could change later
+        if key != '_bytes' and (
+                isinstance(value, bytearray)
+                or (isinstance(value, ByteData) and not value.__immutable)):
+            value = bytes(value)
         object.__setattr__(self, key, value)
 
+    def __delattr__(self, key: str):
+        if self.__immutable:
+            raise TypeError("%r cannot be written to." % self)
+        object.__delattr__(self, key)
+
     def __format__(self, code):
         '''
         ByteData -> str
-- 
2.43.0


From fcb4d9f72484448a7b3648a4f5ba898e61bb08ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:18 +0000
Subject: [PATCH 12/32] fix: a transaction is segwit exactly when it carries
 the marker

---
 riemann/tx/tx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index ab63e1f..6a7a3d8 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -555,7 +555,7 @@ class Tx(ByteData):
             self.tx_id_le = utils.hash256(self.to_bytes())
             self.tx_id = utils.change_endianness(self.tx_id_le)
             self.wtx_id = None
-            self.wtx_le = None
+            self.wtx_id_le = None
 
         self._make_immutable()
 
@@ -648,7 +648,7 @@ class Tx(ByteData):
 
     def is_witness(self) -> bool:
         '''Return True if the transaction witness flag is set'''
-        return self.flag is not None or self.tx_witnesses is not None
+        return self.flag is not None
 
     def calculate_fee(self, input_values: Sequence[int]) -> int:
         '''
-- 
2.43.0


From 411a9bd2023e9a53ebbd1ac34b5a8d2e614ada62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 13/32] fix: SIGHASH_SINGLE keeps exactly the outputs up to the
 signed index

---
 riemann/tx/decred.py | 2 +-
 riemann/tx/sprout.py | 2 +-
 riemann/tx/tx.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index e1d5734..3e95cd2 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -373,7 +373,7 @@ class DecredTx(DecredByteData):
                             value=b'\xff' * 8,
                             version=b'\x00\x00',
                             output_script=b'')
-                            for _ in copy_tx.tx_ins]
+                            for _ in copy_tx_outs]
             copy_tx_outs[index] = copy_tx.tx_outs[index]
         except IndexError:
             raise NotImplementedError(
diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index 9b8c9a2..5e36d2f 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -320,7 +320,7 @@ class SproutTx(z.ZcashByteData):
         # Other tx_outs are set to -1 value and null scripts
         copy_tx_outs = copy_tx.tx_outs[:index + 1]
         copy_tx_outs = [TxOut(value=b'\xff' * 8, output_script=b'')
-                        for _ in copy_tx.tx_ins]  # Null them all
+                        for _ in copy_tx_outs]  # Null them all
         copy_tx_outs[index] = copy_tx.tx_outs[index]  # Fix the current one
 
         # Other tx_ins sequence numbers are set to 0
diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index 6a7a3d8..4c1c467 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -947,7 +947,7 @@ class Tx(ByteData):
         # Other tx_outs are set to -1 value and null scripts
         copy_tx_outs = list(copy_tx.tx_outs[:index + 1])
         copy_tx_outs = [TxOut(value=b'\xff' * 8, output_script=b'')
-                        for _ in copy_tx.tx_ins]  # Null them all
+                        for _ in copy_tx_outs]  # Null them all
         copy_tx_outs[index] = copy_tx.tx_outs[index]  # Fix the current one
 
         # Other tx_ins sequence numbers are set to 0
-- 
2.43.0


From d14ba3571f200e3877775f1eb83edbd4d886c912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 14/32] fix: Decred anyone_can_pay keeps only the signed input

---
 riemann/tx/decred.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index 3e95cd2..ac07112 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -420,11 +420,10 @@ class DecredTx(DecredByteData):
                                 index: int,
                                 copy_tx: 'DecredTx',
                                 sighash_type: int) -> bytes:
-        copy_tx_witnesses = [
-            w.copy(stack_script=b'', redeem_script=b'')
-            for w in copy_tx.tx_witnesses]
-        copy_tx_witnesses[index] = copy_tx.tx_witnesses[index]
-        copy_tx = copy_tx.copy(tx_witnesses=copy_tx_witnesses)
+        # Only the input being signed, and its witness, remain
+        copy_tx = copy_tx.copy(
+            tx_ins=[copy_tx.tx_ins[index]],
+            tx_witnesses=[copy_tx.tx_witnesses[index]])
 
         return self._sighash_final_hashing(
             index=index,
-- 
2.43.0


From 5a90e5a16575f30c26dd29975524843f6d83d247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 15/32] fix: Decred SIGHASH_SINGLE keeps the version of blanked
 outputs

---
 riemann/tx/decred.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index ac07112..d18621a 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -369,11 +369,10 @@ class DecredTx(DecredByteData):
 
         try:
             copy_tx_outs = copy_tx.tx_outs[:index + 1]
-            copy_tx_outs = [DecredTxOut(
+            copy_tx_outs = [tx_out.copy(
                             value=b'\xff' * 8,
-                            version=b'\x00\x00',
                             output_script=b'')
-                            for _ in copy_tx_outs]
+                            for tx_out in copy_tx_outs]
             copy_tx_outs[index] = copy_tx.tx_outs[index]
         except IndexError:
             raise NotImplementedError(
-- 
2.43.0


From ab7b7ac0b2562ddd050a365a75166d3084ee51e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 16/32] fix: segwit_sighash refuses a missing or wrongly sized
 prevout value

---
 riemann/tx/tx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index 4c1c467..9145dde 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -981,6 +981,8 @@ class Tx(ByteData):
         For an excellent pasta dinner, see here:
         https://ricette.giallozafferano.it/Spaghetti-alla-Norma.html
         '''
+        self.validate_bytes(prevout_value, 8)
+
         data = ByteData()
 
         # 1. nVersion of the transaction (4-byte little endian)
-- 
2.43.0


From db63474860fb534a4f39f98de5483e018e8e4e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 17/32] fix: make_tx builds Sprout, Sapling and Decred
 transactions from plain parts

---
 riemann/tx/tx_builder.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/riemann/tx/tx_builder.py b/riemann/tx/tx_builder.py
index 77b34b6..2c831aa 100644
--- a/riemann/tx/tx_builder.py
+++ b/riemann/tx/tx_builder.py
@@ -577,10 +577,10 @@ def make_tx(  # noqa: F811
             tx_outs=tx_outs,
             lock_time=utils.i2le_padded(lock_time, 4),
             expiry=utils.i2le_padded(expiry, 4),
-            tx_witnesses=[tx_witnesses])
+            tx_witnesses=tx_witnesses if tx_witnesses is not None else [])
     if 'sprout' in n and tx_joinsplits is not None:
         return sprout.SproutTx(
-            version=version,
+            version=utils.i2le_padded(version, 4),
             tx_ins=tx_ins,
             tx_outs=tx_outs,
             lock_time=utils.i2le_padded(lock_time, 4),
@@ -602,10 +602,12 @@ def make_tx(  # noqa: F811
             tx_outs=tx_outs,
             lock_time=utils.i2le_padded(lock_time, 4),
             expiry_height=utils.i2le_padded(expiry, 4),
-            value_balance=utils.i2le_padded(value_balance, 8),
-            tx_shielded_spends=tx_shielded_spends,
-            tx_shielded_outputs=tx_shielded_outputs,
-            tx_joinsplits=tx_joinsplits,
+            value_balance=value_balance.to_bytes(8, 'little', signed=True),
+            tx_shielded_spends=(tx_shielded_spends
+                                if tx_shielded_spends is not None else []),
+            tx_shielded_outputs=(tx_shielded_outputs
+                                 if tx_shielded_outputs is not None else []),
+            tx_joinsplits=tx_joinsplits if tx_joinsplits is not None else [],
             joinsplit_pubkey=joinsplit_pubkey,
             joinsplit_sig=joinsplit_sig,
             binding_sig=binding_sig)
-- 
2.43.0


From f528c830506aafccfea27b5b296f5ffaecdcef09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:05 +0000
Subject: [PATCH 18/32] fix: outputs built without a version on Decred get
 script version 0

---
 riemann/tx/tx_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/tx_builder.py b/riemann/tx/tx_builder.py
index 2c831aa..8042d1c 100644
--- a/riemann/tx/tx_builder.py
+++ b/riemann/tx/tx_builder.py
@@ -3,7 +3,7 @@ from riemann import utils
 from riemann.script import serialization
 from riemann.tx import tx, decred, overwinter, sapling, sprout, zcash_shared
 
-from typing import cast, List, Optional, overload
+from typing import List, Optional, overload
 
 
 def make_sh_script_pubkey(script_bytes: bytes, witness: bool = False) -> bytes:
@@ -168,7 +168,7 @@ def _make_output(  # noqa: F811
     if 'decred' in riemann.get_current_network_name():
         return decred.DecredTxOut(
             value=value,
-            version=cast(int, version),
+            version=version if version is not None else b'\x00\x00',
             output_script=output_script)
     return tx.TxOut(value=value, output_script=output_script)
 
-- 
2.43.0


From c8a9814e3632e6d1b1a455ffbf6a55a83e264b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:08 +0000
Subject: [PATCH 19/32] fix: make_sh_script_pubkey refuses witness scripts on
 networks without segwit

---
 riemann/tx/tx_builder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/riemann/tx/tx_builder.py b/riemann/tx/tx_builder.py
index 8042d1c..6215a2b 100644
--- a/riemann/tx/tx_builder.py
+++ b/riemann/tx/tx_builder.py
@@ -17,6 +17,11 @@ def make_sh_script_pubkey(script_bytes: bytes, witness: bool = False) -> bytes:
     Returns:
         The script pubkey containing the hash of the serialized script.
     '''
+    if witness and not riemann.network.SEGWIT:
+        raise ValueError(
+            'Network {} does not support witness scripts.'
+            .format(riemann.get_current_network_name()))
+
     output_script = bytearray()
     if witness:
         script_hash = utils.sha256(script_bytes)
-- 
2.43.0


From 5d5eccb26938fce7969c2b75a545ede8fb5a8b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 20/32] fix: from_output_script refuses scripts that do not end
 like a standard form

---
 riemann/encoding/addresses.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index 94783fb..da4b3ea 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -331,11 +331,13 @@ def from_output_script(output_script: bytes, cashaddr: bool = True) -> str:
     except TypeError:
         pass
 
-    if len(output_script) == 25 and output_script.find(b'\x76\xa9\x14') == 0:
+    if len(output_script) == 25 and output_script.find(b'\x76\xa9\x14') == 0 \
+            and output_script[23:] == b'\x88\xac':
         return _make_pkh_address(
             output_script[3:23], witness=False, cashaddr=cashaddr)
 
-    elif len(output_script) == 23 and output_script.find(b'\xa9\x14') == 0:
+    elif len(output_script) == 23 and output_script.find(b'\xa9\x14') == 0 \
+            and output_script[22:] == b'\x87':
         return _hash_to_sh_address(
             output_script[2:22], witness=False, cashaddr=cashaddr)
 
-- 
2.43.0


From e22b0ad3de0d68d122ab9aa74f5d41ab82b4f7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:25 +0000
Subject: [PATCH 21/32] fix: witness addresses are refused on networks without
 segwit

---
 riemann/encoding/addresses.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index da4b3ea..5310bc6 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -20,6 +20,10 @@ def _hash_to_sh_address(
         The encoded address
     '''
     addr_bytes = bytearray()
+    if witness and not riemann.network.SEGWIT:
+        raise ValueError(
+            'Network {} does not support witness addresses.'
+            .format(riemann.get_current_network_name()))
     if riemann.network.CASHADDR_P2SH is not None and cashaddr:
         addr_bytes.extend(riemann.network.CASHADDR_P2SH)
         addr_bytes.extend(script_hash)
@@ -142,6 +146,10 @@ def _make_pkh_address(
         The encoded address
     '''
     addr_bytes = bytearray()
+    if witness and not riemann.network.SEGWIT:
+        raise ValueError(
+            'Network {} does not support witness addresses.'
+            .format(riemann.get_current_network_name()))
     if riemann.network.CASHADDR_P2PKH is not None and cashaddr:
         addr_bytes.extend(riemann.network.CASHADDR_P2PKH)
         addr_bytes.extend(pubkey_hash)
-- 
2.43.0


From 0b128b7fdff09599ccfe03f370ef7b3fe584066d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:28 +0000
Subject: [PATCH 22/32] fix: addresses are read by the rules of the encoding
 they are in

---
 riemann/encoding/addresses.py | 159 ++++++++++++++--------------------
 1 file changed, 67 insertions(+), 92 deletions(-)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index 5310bc6..7df1bbc 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -2,6 +2,8 @@ import riemann
 from riemann import utils
 from riemann.script import serialization as script_ser
 
+from typing import Any, List, Optional, Tuple
+
 
 def _hash_to_sh_address(
         script_hash: bytes,
@@ -222,96 +224,92 @@ def make_legacy_p2pkh_address(pubkey: bytes) -> str:
     return make_pkh_address(pubkey=pubkey, witness=False, cashaddr=False)
 
 
-def parse(address: str) -> bytes:
+def _decode(address: str) -> Tuple[Any, bytearray]:
     '''
-    Decode an address to the underlying raw bytes
+    Decode an address, and tell which encoder it belongs to
 
     Args:
-        address: The address to parse
+        address: The address to decode
     Returns:
-        The raw bytestring encoded by the address
+        The encoder that accepted the address, and the raw bytes it encodes
     '''
-    try:
-        return bytearray(riemann.network.LEGACY_ENCODER.decode(address))
-    except ValueError:
-        pass
-
-    try:
-        return bytearray(riemann.network.SEGWIT_ENCODER.decode(address))
-    except Exception:
-        pass
-
-    try:
-        return bytearray(riemann.network.CASHADDR_ENCODER.decode(address))
-    except Exception:
-        pass
+    for encoder in (riemann.network.LEGACY_ENCODER,
+                    riemann.network.SEGWIT_ENCODER,
+                    riemann.network.CASHADDR_ENCODER):
+        try:
+            return encoder, bytearray(encoder.decode(address))
+        except Exception:
+            pass
 
     raise ValueError(
         'Unsupported address format. Got: {}'.format(address))
 
 
-def to_output_script(address: str) -> bytes:
+def _split(address: str) -> Tuple[bytes, bytearray, bytes]:
     '''
-    Convert an address into its associated output script.
+    Decode an address of the current network, and split the output script that
+    it stands for around the hash
 
     Args:
-        address: The address to parse
+        address: The address to decode
     Returns:
-        The output script that corresponds to the address, suitable for
-        inclusion in a TxOut
+        The part of the script before the hash, the hash, and the part after
+        it. Three empty bytestrings if the address is of no supported kind.
     '''
-    parsed = parse(address)
-    parsed_hash = b''
+    network = riemann.network
+    encoder, raw = _decode(address)
 
-    try:
-        if (parsed.find(riemann.network.P2WPKH_PREFIX) == 0
-                and len(parsed) == 22):
-            return parsed
-    except TypeError:
-        pass
+    p2pkh = b'\x76\xa9\x14', b'\x88\xac'  # DUP HASH160 .. EQUALVERIFY CHECKSIG
+    p2sh = b'\xa9\x14', b'\x87'           # HASH160 .. EQUAL
 
-    try:
-        if (parsed.find(riemann.network.P2WSH_PREFIX) == 0
-                and len(parsed) == 34):
-            return parsed
-    except TypeError:
-        pass
+    forms: List[Tuple[Optional[bytes], int, Tuple[bytes, bytes]]] = []
+    if encoder is network.LEGACY_ENCODER:
+        forms.append((network.P2PKH_PREFIX, 20, p2pkh))
+        forms.append((network.P2SH_PREFIX, 20, p2sh))
+    if encoder is network.SEGWIT_ENCODER and network.SEGWIT:
+        forms.append((network.P2WPKH_PREFIX, 20, (network.P2WPKH_PREFIX, b'')))
+        forms.append((network.P2WSH_PREFIX, 32, (network.P2WSH_PREFIX, b'')))
+    if encoder is network.CASHADDR_ENCODER:
+        forms.append((network.CASHADDR_P2PKH, 20, p2pkh))
+        forms.append((network.CASHADDR_P2SH, 20, p2sh))
 
-    try:
-        if (parsed.find(riemann.network.CASHADDR_P2SH) == 0
-                and len(parsed) == len(riemann.network.CASHADDR_P2SH) + 20):
-            prefix = b'\xa9\x14'  # OP_HASH160 PUSH14
-            parsed_hash = parsed[len(riemann.network.P2SH_PREFIX):]
-            suffix = b'\x87'  # OP_EQUAL
-    except TypeError:
-        pass
+    for prefix, hash_len, (before, after) in forms:
+        if (prefix is not None
+                and raw.find(prefix) == 0
+                and len(raw) == len(prefix) + hash_len):
+            return before, raw[len(prefix):], after
 
-    try:
-        if (parsed.find(riemann.network.CASHADDR_P2PKH) == 0
-                and len(parsed) == len(riemann.network.CASHADDR_P2PKH) + 20):
-            prefix = b'\x76\xa9\x14'  # OP_DUP OP_HASH160 PUSH14
-            parsed_hash = parsed[len(riemann.network.P2PKH_PREFIX):]
-            suffix = b'\x88\xac'  # OP_EQUALVERIFY OP_CHECKSIG
-    except TypeError:
-        pass
+    return b'', bytearray(), b''
 
-    if (parsed.find(riemann.network.P2PKH_PREFIX) == 0
-            and len(parsed) == len(riemann.network.P2PKH_PREFIX) + 20):
-        prefix = b'\x76\xa9\x14'  # OP_DUP OP_HASH160 PUSH14
-        parsed_hash = parsed[len(riemann.network.P2PKH_PREFIX):]
-        suffix = b'\x88\xac'  # OP_EQUALVERIFY OP_CHECKSIG
 
-    if (parsed.find(riemann.network.P2SH_PREFIX) == 0
-            and len(parsed) == len(riemann.network.P2SH_PREFIX) + 20):
-        prefix = b'\xa9\x14'  # OP_HASH160 PUSH14
-        parsed_hash = parsed[len(riemann.network.P2SH_PREFIX):]
-        suffix = b'\x87'  # OP_EQUAL
+def parse(address: str) -> bytes:
+    '''
+    Decode an address to the underlying raw bytes
+
+    Args:
+        address: The address to parse
+    Returns:
+        The raw bytestring encoded by the address
+    '''
+    return _decode(address)[1]
+
+
+def to_output_script(address: str) -> bytes:
+    '''
+    Convert an address into its associated output script.
+
+    Args:
+        address: The address to parse
+    Returns:
+        The output script that corresponds to the address, suitable for
+        inclusion in a TxOut
+    '''
+    before, parsed_hash, after = _split(address)
 
     if parsed_hash == b'':
         raise ValueError('Cannot parse output script from address.')
 
-    output_script = prefix + parsed_hash + suffix
-    return output_script
+    return before + parsed_hash + after
 
 
 def from_output_script(output_script: bytes, cashaddr: bool = True) -> str:
@@ -361,32 +359,9 @@ def parse_hash(address: str) -> bytes:
     Returns:
         The 20 or 32 byte hash represented by the address
     '''
-    raw = parse(address)
+    parsed_hash = _split(address)[1]
 
-    # Cash addresses
-    try:
-        if address.find(riemann.network.CASHADDR_PREFIX) == 0:
-            if raw.find(riemann.network.CASHADDR_P2SH) == 0:
-                return raw[len(riemann.network.CASHADDR_P2SH):]
-            if raw.find(riemann.network.CASHADDR_P2PKH) == 0:
-                return raw[len(riemann.network.CASHADDR_P2PKH):]
-    except TypeError:
-        pass
-
-    # Segwit addresses
-    try:
-        if address.find(riemann.network.BECH32_HRP) == 0:
-            if raw.find(riemann.network.P2WSH_PREFIX) == 0:
-                return raw[len(riemann.network.P2WSH_PREFIX):]
-            if raw.find(riemann.network.P2WPKH_PREFIX) == 0:
-                return raw[len(riemann.network.P2WPKH_PREFIX):]
-    except TypeError:
-        pass
-
-    # Legacy Addresses
-    if raw.find(riemann.network.P2SH_PREFIX) == 0:
-        return raw[len(riemann.network.P2SH_PREFIX):]
-    if raw.find(riemann.network.P2PKH_PREFIX) == 0:
-        return raw[len(riemann.network.P2PKH_PREFIX):]
+    if parsed_hash == b'':
+        raise ValueError('Could not parse hash, unknown error')
 
-    raise ValueError('Could not parse hash, unknown error')
+    return parsed_hash
-- 
2.43.0


From 280bdf12cfc035603a801775153e3237c230dfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 23/32] fix: cash addresses with a foreign prefix, bad
 characters or bad padding are refused

---
 riemann/encoding/cashaddr.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/riemann/encoding/cashaddr.py b/riemann/encoding/cashaddr.py
index 59b75f9..da4e479 100644
--- a/riemann/encoding/cashaddr.py
+++ b/riemann/encoding/cashaddr.py
@@ -49,7 +49,7 @@ def decode(data: str) -> bytes:
     if riemann.network.CASHADDR_PREFIX is None:
         raise ValueError('Network {} does not support cashaddresses.'
                          .format(riemann.get_current_network_name()))
-    if data.find(riemann.network.CASHADDR_PREFIX) != 0:
+    if not data.startswith(riemann.network.CASHADDR_PREFIX + ':'):
         raise ValueError('Malformed cashaddr. Cannot locate prefix: {}'
                          .format(riemann.network.CASHADDR_PREFIX))
 
@@ -58,9 +58,12 @@ def decode(data: str) -> bytes:
     decoded = b32decode(data)
     if not verify_checksum(prefix, decoded):
         raise ValueError('Bad cash address checksum')
-    converted = convertbits(decoded, 5, 8)
+    # remove the checksum from the end
+    converted = convertbits(decoded[:-8], 5, 8, False)
+    if converted is None:
+        raise ValueError('Bad cash address padding')
 
-    return bytes(converted[:-6])  # remove the checksum from the end
+    return bytes(converted)
 
 
 def polymod(values):
@@ -99,6 +102,8 @@ def verify_checksum(prefix, payload):
 def b32decode(inputs):
     out = list()
     for letter in inputs:
+        if letter not in CHARSET:
+            raise ValueError('Bad cash address character')
         out.append(CHARSET.find(letter))
     return out
 
-- 
2.43.0


From 7ef72ecd670a257864bbeeae5fb78c2023b90b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 24/32] fix: transaction versions over 255 are not standard

---
 riemann/networks/standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index a88034d..4de9e6a 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -17,7 +17,7 @@ def check_is_standard_tx(t: tx.Tx) -> bool:
         (bool): True for standard, false for non-standard
     '''
     # 'version'
-    if t.version[0] not in [1, 2]:
+    if rutils.le2i(t.version) not in [1, 2]:
         return False
 
     # 'tx-size'
-- 
2.43.0


From 125c95053bf0fcdefbbf9511983cd71aaee307ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:51 +0000
Subject: [PATCH 25/32] fix: is_push_only looks at opcodes, not at characters

---
 riemann/networks/standard.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index 4de9e6a..04f165a 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -52,12 +52,11 @@ def is_push_only(script_sig: bytes) -> bool:
     Returns:
         (bool): True if Push Only, otherwise False
     '''
-    script = ser.deserialize(script_sig)
+    script = ser.deserialize(script_sig).split()
     non_data_opcodes = [t for t in script if t[0:3] == 'OP_']
     for token in non_data_opcodes:
         integer_opcode = opcodes.CODE_TO_INT[token]
-        if (integer_opcode in [79, 80]
-                or integer_opcode >= 97):
+        if integer_opcode >= 97:
             return False
     return True
 
-- 
2.43.0


From 2b9bd8dcd7bc9e928a3284adb8e1142900219cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:53 +0000
Subject: [PATCH 26/32] fix: a transaction with one data carrier output is
 standard

---
 riemann/networks/standard.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index 04f165a..5e15d96 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -70,6 +70,10 @@ def check_is_standard(t: tx.Tx) -> bool:
         (bool): True for standard, false for non-standard
     '''
     for o in t.tx_outs:
+        # data carriers have no value, so they are not dust
+        if is_op_return(o):
+            continue
+
         # 'scriptpubkey'
         if not is_standard_output_type(o):
             return False
@@ -80,7 +84,7 @@ def check_is_standard(t: tx.Tx) -> bool:
             return False
 
     # 'multi-op-return'
-    if len([is_op_return(o) for o in t.tx_outs]) > 1:
+    if len([o for o in t.tx_outs if is_op_return(o)]) > 1:
         return False
 
     return True
@@ -94,15 +98,14 @@ def is_op_return(o: tx.TxOut) -> bool:
     Returns:
         (bool): True if standard opreturn, otherwise false
     '''
-    script: str = ser.deserialize(o.output_script)
-    split_script = script.split()
-
     # TX_NULL_DATA, up to 83 bytes (80 for safety)
-    if (rutils.le2i(o.value) == 0
-            and split_script[0] == 'OP_RETURN'
-            and len(script) < 80):
-        return True
-    return False
+    try:
+        return (rutils.le2i(o.value) == 0
+                and o.output_script[:1] == b'\x6a'  # OP_RETURN
+                and len(o.output_script) <= 80
+                and is_push_only(o.output_script[1:]))
+    except Exception:
+        return False
 
 
 def is_standard_output_type(o: tx.TxOut) -> bool:
-- 
2.43.0


From deb65d66888daa2885c36428dc3ac60414d8c53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 27/32] fix: pay-to-pubkey outputs are standard, unparseable
 scripts are not

---
 riemann/networks/standard.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index 5e15d96..5f1fe75 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -126,18 +126,23 @@ def is_standard_output_type(o: tx.TxOut) -> bool:
     except ValueError:
         pass
 
-    script: str = ser.deserialize(o.output_script)
-    split_script = script.split()
+    try:
+        split_script = ser.deserialize(o.output_script).split()
+    except Exception:
+        return False
 
     # TX_PUBKEY
-    if (split_script[-1] == 'OP_CHECKSIG'
-            and len(split_script) == 2
-            and len(bytes.fromhex(split_script[1])) in [33, 65]):
+    if (len(split_script) == 2
+            and split_script[1] == 'OP_CHECKSIG'
+            and len(split_script[0]) in [66, 130]):
         return True
 
     # TX_MULTISIG, up to x-of-3
-    if (split_script[-1] == 'OP_CHECKMULTISIG'
-            and split_script[-2] in ['OP_1', 'OP_2', 'OP_3']):
+    small_ints = ['OP_1', 'OP_2', 'OP_3']
+    if (len(split_script) > 3
+            and split_script[-1] == 'OP_CHECKMULTISIG'
+            and split_script[-2] in small_ints
+            and split_script[0] in small_ints):
 
         num_pubkeys = int(split_script[-2][-1])
         num_sigs = int(split_script[0][-1])
@@ -146,7 +151,7 @@ def is_standard_output_type(o: tx.TxOut) -> bool:
                 or len(split_script) != num_pubkeys + 3):  # some junk script
             return False
         for pubkey in split_script[1:-2]:
-            if len(bytes.fromhex(pubkey)) not in [33, 65]:
+            if len(pubkey) not in [66, 130]:
                 return False
         return True
 
-- 
2.43.0


From d53a7a509e322fe6b3da6a557246da7c27d35921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:23 +0000
Subject: [PATCH 28/32] fix: BLAKE salts shorter than the salt size are padded

---
 riemann/blake256.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/blake256.py b/riemann/blake256.py
index 044e9c5..f1c0d72 100644
--- a/riemann/blake256.py
+++ b/riemann/blake256.py
@@ -347,7 +347,7 @@ class BLAKE(object):
         # if too short, prefix with null bytes.  if too long,
         # truncate high order bytes
         if len(salt) < saltsize:
-            salt = (chr(0)*(saltsize-len(salt)) + salt)
+            salt = (b'\x00'*(saltsize-len(salt)) + salt)
         else:
             salt = salt[-saltsize:]
         # prep the salt array
-- 
2.43.0


From 5cbdb8675819072d48c920306cfe2b009599d9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 29/32] fix: BLAKE update counts the bytes of a text, not its
 characters

---
 riemann/blake256.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/riemann/blake256.py b/riemann/blake256.py
index f1c0d72..5c08235 100644
--- a/riemann/blake256.py
+++ b/riemann/blake256.py
@@ -370,9 +370,6 @@ class BLAKE(object):
         BLKBYTES = self.BLKBYTES   # de-referenced for improved readability
         BLKBITS  = self.BLKBITS
 
-        datalen = len(data)
-        if not datalen:  return
-
         if type(data) == type(u''):
 
             # use either of the next two lines for a proper
@@ -390,6 +387,9 @@ class BLAKE(object):
             # that does nothing would at least allow
             # compatibility between Python2 and Python3.
 
+        datalen = len(data)
+        if not datalen:  return
+
         left = len(self.cache)
         fill = BLKBYTES - left
 
-- 
2.43.0


From 6d9ff506ab3a5ce8461d5bf6e576d7e69b489169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:02 +0000
Subject: [PATCH 30/32] fix: Decred witnesses can be built from byte containers
 like every other part

---
 riemann/tx/decred.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index d18621a..d9909a1 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -173,7 +173,7 @@ class DecredInputWitness(DecredByteData):
         self.value = value
         self.height = height
         self.index = index
-        self.script_len = len(stack_script + redeem_script)
+        self.script_len = len(stack_script) + len(redeem_script)
         self.stack_script = stack_script
         self.redeem_script = redeem_script
         self.script_sig = self.stack_script + self.redeem_script
-- 
2.43.0


From f6488faa2e800206dd11695fb80b2fb42f38619a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 31/32] fix: SproutTx.from_bytes refuses a transaction cut
 before its joinsplit signature

---
 riemann/tx/sprout.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index 5e36d2f..23fbb37 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -197,6 +197,7 @@ class SproutTx(z.ZcashByteData):
                 joinsplit_pubkey = byte_string[current:current + 32]
                 current += 32
                 joinsplit_sig = byte_string[current:current + 64]
+                SproutTx.validate_bytes(joinsplit_sig, 64)
 
         ret = SproutTx(
             version=version,
-- 
2.43.0


From 83958cb0c6eaa3385b224d27e368be0eed28289c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:17 +0000
Subject: [PATCH 32/32] fix: ZIP 143/243 digests of type NONE do not commit to
 sequences

---
 riemann/tx/overwinter.py | 3 +++
 riemann/tx/sapling.py    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/riemann/tx/overwinter.py b/riemann/tx/overwinter.py
index f5f128f..3ad9545 100644
--- a/riemann/tx/overwinter.py
+++ b/riemann/tx/overwinter.py
@@ -343,6 +343,9 @@ class OverwinterTx(z.ZcashByteData):
             person=b'ZcashPrevoutHash')
 
     def _hash_sequence(self, sighash_type: int, anyone_can_pay: bool) -> bytes:
+        if sighash_type == shared.SIGHASH_NONE:
+            return b'\x00' * 32
+
         if anyone_can_pay or sighash_type == shared.SIGHASH_SINGLE:
             return b'\x00' * 32
 
diff --git a/riemann/tx/sapling.py b/riemann/tx/sapling.py
index 7a6023c..7bfc1c6 100644
--- a/riemann/tx/sapling.py
+++ b/riemann/tx/sapling.py
@@ -679,6 +679,9 @@ class SaplingTx(z.ZcashByteData):
             person=b'ZcashPrevoutHash')
 
     def _hash_sequence(self, sighash_type: int, anyone_can_pay: bool) -> bytes:
+        if sighash_type == shared.SIGHASH_NONE:
+            return b'\x00' * 32
+
         if anyone_can_pay or sighash_type == shared.SIGHASH_SINGLE:
             return b'\x00' * 32
 
-- 
2.43.0

