From f274141726ce1e4aa9e125d52f2383c368a5d366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:16 +0000
Subject: [PATCH 01/24] fix: segwit v0 sighash: nLockTime is unsigned

struct.pack('<i') raised struct.error for nLockTime >= 2**31, which is
every time-based lock after January 2038 and the maximum 0xffffffff.
---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index b94d905..4202173 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -183,7 +183,7 @@ def RawElementsSignatureHash(
     if not txTo.vin[inIdx].assetIssuance.is_null():
         txTo.vin[inIdx].assetIssuance.stream_serialize(f)
     f.write(hashOutputs)
-    f.write(struct.pack("<i", txTo.nLockTime))
+    f.write(struct.pack("<I", txTo.nLockTime))
     f.write(struct.pack("<i", hashtype))
 
     hash = Hash(f.getvalue())
-- 
2.43.0


From 0c356fd8a69898fe35d858d6dca2aff7a6680f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:20 +0000
Subject: [PATCH 02/24] fix: segwit v0 sighash: serialize null amount as a null
 confidential value

A null confidential value is encoded as a single zero byte, but nothing
was added to the sighash preimage for it.
---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 4202173..eedb501 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -178,7 +178,7 @@ def RawElementsSignatureHash(
     f.write(hashIssuance)
     txTo.vin[inIdx].prevout.stream_serialize(f)
     BytesSerializer.stream_serialize(script, f)
-    f.write(amount.commitment)
+    amount.stream_serialize(f)
     f.write(struct.pack("<I", txTo.vin[inIdx].nSequence))
     if not txTo.vin[inIdx].assetIssuance.is_null():
         txTo.vin[inIdx].assetIssuance.stream_serialize(f)
-- 
2.43.0


From d0ce7de98e04b97f4283caef5e2e37f78f180263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:23 +0000
Subject: [PATCH 03/24] fix: schnorr sighash: off-by-one in SIGHASH_SINGLE
 output index check

inIdx == len(vout) raised IndexError instead of ValueError.
---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index eedb501..19ccec7 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -360,7 +360,7 @@ def ElementsSignatureHashSchnorr(
 
     if output_type == SIGHASH_SINGLE:
         outIdx = inIdx
-        if outIdx > len(txTo.vout):
+        if outIdx >= len(txTo.vout):
             raise ValueError(f'outIdx {outIdx} out of range ({len(txTo.vout)})')
         f.write(hashlib.sha256(txTo.vout[outIdx].serialize()).digest())
         f.write(hashlib.sha256(txTo.wit.vtxoutwit[outIdx].serialize()).digest())
-- 
2.43.0


From 5347f2f8c026d044c0f0e4f0907aa84d5c9a106f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:26 +0000
Subject: [PATCH 04/24] fix: schnorr sighash: length prefixes in
 SIGHASH_ANYONECANPAY preimage

scriptPubKey of the spent output and the issuance rangeproofs are
serialized with length prefix in Elements Core, as they already are in
the code path without SIGHASH_ANYONECANPAY.
---
 elementstx/core/script.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 19ccec7..5b3c344 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -338,7 +338,7 @@ def ElementsSignatureHashSchnorr(
         f.write(txTo.vin[inIdx].prevout.serialize())
         f.write(spent_outputs[inIdx].nAsset.serialize())
         f.write(spent_outputs[inIdx].nValue.serialize())
-        f.write(spent_outputs[inIdx].scriptPubKey)
+        BytesSerializer.stream_serialize(spent_outputs[inIdx].scriptPubKey, f)
         f.write(struct.pack('<I', txTo.vin[inIdx].nSequence))
         if txTo.vin[inIdx].assetIssuance.is_null():
             f.write(b'\x00')
@@ -348,8 +348,8 @@ def ElementsSignatureHashSchnorr(
             inwit = txTo.wit.vtxinwit[inIdx]
             f.write(
                 hashlib.sha256(
-                    inwit.issuanceAmountRangeproof
-                    + inwit.inflationKeysRangeproof
+                    BytesSerializer.serialize(inwit.issuanceAmountRangeproof)
+                    + BytesSerializer.serialize(inwit.inflationKeysRangeproof)
                 ).digest()
             )
     else:
-- 
2.43.0


From 0caec012247c37b466283cdc670149e724c62afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:29 +0000
Subject: [PATCH 05/24] fix: schnorr sighash: annex hash is written without
 length prefix

As specified in BIP341, the 32 bytes of sha_annex are added to the
preimage as is.
---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 5b3c344..e35f500 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -356,7 +356,7 @@ def ElementsSignatureHashSchnorr(
         f.write(struct.pack('<I', inIdx))
 
     if annex_hash is not None:
-        BytesSerializer.stream_serialize(annex_hash, f)
+        f.write(annex_hash)
 
     if output_type == SIGHASH_SINGLE:
         outIdx = inIdx
-- 
2.43.0


From 875c5722f44c84b681dcd1cfec23cf35b6b5a073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:57 +0000
Subject: [PATCH 06/24] fix: schnorr sighash: IndexError for transactions
 without witness data

wit.vtxinwit and wit.vtxoutwit are empty in an immutable transaction that
has no witness data (and after inputs or outputs are appended to a mutable
one). Treat absent witness entries as empty ones.
---
 elementstx/core/script.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index e35f500..b18082e 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -272,6 +272,18 @@ def ElementsSignatureHashSchnorr(
 
         return bytes([opf >> 24])
 
+    # Transaction without witness data may have no entries in wit.vtxinwit
+    # and wit.vtxoutwit, absent entries are the same as empty ones
+    def get_txin_witness(i: int) -> 'elementstx.core.CElementsTxInWitness':
+        if i < len(txTo.wit.vtxinwit):
+            return txTo.wit.vtxinwit[i]
+        return elementstx.core.CElementsTxInWitness()
+
+    def get_txout_witness(i: int) -> 'elementstx.core.CElementsTxOutWitness':
+        if i < len(txTo.wit.vtxoutwit):
+            return txTo.wit.vtxoutwit[i]
+        return elementstx.core.CElementsTxOutWitness()
+
     if input_type != SIGHASH_ANYONECANPAY:
         outpoints_flag_hashobj = hashlib.sha256()
         assets_amounts_hashobj = hashlib.sha256()
@@ -295,7 +307,7 @@ def ElementsSignatureHashSchnorr(
             else:
                 issuances_hashobj.update(txin.assetIssuance.serialize())
 
-            inwit = txTo.wit.vtxinwit[inp_i]
+            inwit = get_txin_witness(inp_i)
             issuance_rangeproof_hashobj.update(
                 BytesSerializer.serialize(inwit.issuanceAmountRangeproof))
             issuance_rangeproof_hashobj.update(
@@ -321,7 +333,7 @@ def ElementsSignatureHashSchnorr(
         for outp_i, txout in enumerate(txTo.vout):
             outputs_hashobj.update(txout.serialize())
             output_witnesses_hashobj.update(
-                txTo.wit.vtxoutwit[outp_i].serialize())
+                get_txout_witness(outp_i).serialize())
 
         f.write(outputs_hashobj.digest())
         f.write(output_witnesses_hashobj.digest())
@@ -345,7 +357,7 @@ def ElementsSignatureHashSchnorr(
         else:
             f.write(txTo.vin[inIdx].assetIssuance.serialize())
 
-            inwit = txTo.wit.vtxinwit[inIdx]
+            inwit = get_txin_witness(inIdx)
             f.write(
                 hashlib.sha256(
                     BytesSerializer.serialize(inwit.issuanceAmountRangeproof)
@@ -363,7 +375,7 @@ def ElementsSignatureHashSchnorr(
         if outIdx >= len(txTo.vout):
             raise ValueError(f'outIdx {outIdx} out of range ({len(txTo.vout)})')
         f.write(hashlib.sha256(txTo.vout[outIdx].serialize()).digest())
-        f.write(hashlib.sha256(txTo.wit.vtxoutwit[outIdx].serialize()).digest())
+        f.write(hashlib.sha256(get_txout_witness(outIdx).serialize()).digest())
 
     if sigversion == SIGVERSION_TAPSCRIPT:
         if tapleaf_hash is None:
-- 
2.43.0


From 721b4774b9f0133be26dc78493889e22d42db98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:25 +0000
Subject: [PATCH 07/24] fix: transaction serialization: missing witness entries
 are empty ones

When a transaction with witness data had less entries in wit.vtxinwit or
wit.vtxoutwit than there are inputs or outputs, the result of serialize()
could not be deserialized, or the serialization failed with AssertionError.
This happened, for example, after a transaction that was built by appending
to vin and vout has been blinded: blind() adds only the entries that it
needs.
---
 elementstx/core/__init__.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index d5b5d6f..199d456 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1113,15 +1113,24 @@ class CElementsTransaction(CTransaction, CoreElementsClass):
                          **kwargs: Any) -> None:
         f.write(struct.pack(b"<i", self.nVersion))
         if include_witness and not self.wit.is_null():
-            assert len(self.wit.vtxinwit) == 0 or len(self.wit.vtxinwit) == len(self.vin)
-            assert len(self.wit.vtxoutwit) == 0 or len(self.wit.vtxoutwit) == len(self.vout)
+            assert len(self.wit.vtxinwit) <= len(self.vin)
+            assert len(self.wit.vtxoutwit) <= len(self.vout)
             f.write(b'\x01')  # Flag
             # no check of for_sighash, because standard sighash calls this without witnesses.
             VectorSerializer.stream_serialize(self.vin, f)
             VectorSerializer.stream_serialize(self.vout, f)
             # Note: nLockTime goes before witness in Elements transactions
             f.write(struct.pack(b"<I", self.nLockTime))
-            self.wit.stream_serialize(f)
+            # The number of witness entries is not encoded, there must be
+            # one for each input and for each output. Absent ones are empty.
+            for i in range(len(self.vin)):
+                inwit = (self.wit.vtxinwit[i] if i < len(self.wit.vtxinwit)
+                         else CElementsTxInWitness())
+                inwit.stream_serialize(f)
+            for i in range(len(self.vout)):
+                outwit = (self.wit.vtxoutwit[i] if i < len(self.wit.vtxoutwit)
+                          else CElementsTxOutWitness())
+                outwit.stream_serialize(f)
         else:
             if not for_sighash:
                 f.write(b'\x00')  # Flag is needed in Elements
-- 
2.43.0


From b7b3a8554405ce53b3cd37da50bdb4397379ae59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:29 +0000
Subject: [PATCH 08/24] fix: transaction deserialization: reject unknown flags

Any flag byte other than 0x01 was treated as 0x00. As in Elements Core
(and in bitcointx), raise 'Unknown transaction optional data'.
---
 elementstx/core/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 199d456..d15dceb 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1101,6 +1101,8 @@ class CElementsTransaction(CTransaction, CoreElementsClass):
                 raise ValueError('Superfluous witness record')
 
             return cls(vin, vout, nLockTime, nVersion, wit)
+        elif flagbyte != 0:
+            raise ValueError('Unknown transaction optional data')
         else:
             vin = VectorSerializer.stream_deserialize(f, element_class=CTxIn)
             vout = VectorSerializer.stream_deserialize(f, element_class=CTxOut)
-- 
2.43.0


From 5368b6dc81960418db1a707d5e0f48e24dddf0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:33 +0000
Subject: [PATCH 09/24] fix: CElementsTxOutWitness must not hold on to a
 bytearray argument

The contents of supposedly immutable witness changed when the caller
changed the bytearray that was passed to the constructor.
---
 elementstx/core/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index d15dceb..7a301cb 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -551,8 +551,8 @@ class CElementsTxOutWitness(CTxOutWitness, CoreElementsClass):
                  rangeproof: Union[bytes, bytearray] = b''):
         ensure_isinstance(surjectionproof, (bytes, bytearray), 'surjectionproof')
         ensure_isinstance(rangeproof, (bytes, bytearray), 'rangeproof')
-        object.__setattr__(self, 'surjectionproof', surjectionproof)
-        object.__setattr__(self, 'rangeproof', rangeproof)
+        object.__setattr__(self, 'surjectionproof', bytes(surjectionproof))
+        object.__setattr__(self, 'rangeproof', bytes(rangeproof))
 
     @no_bool_use_as_property
     def is_null(self) -> bool:
-- 
2.43.0


From d2f9890d03691b1b4b6084e99150c86ed032a9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:37 +0000
Subject: [PATCH 10/24] fix: confidential address: to_redeemScript() returned
 the scriptPubKey

It should be the same script that the corresponding unconfidential address
gives: P2PKH-like script for P2WPKH, while for P2SH, P2WSH and P2TR it
cannot be known from the address.
---
 elementstx/wallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/wallet.py b/elementstx/wallet.py
index d126076..9850a59 100644
--- a/elementstx/wallet.py
+++ b/elementstx/wallet.py
@@ -158,7 +158,7 @@ class CCoinConfidentialAddress(CCoinAddress):
         return self.to_unconfidential().to_scriptPubKey()
 
     def to_redeemScript(self) -> CScript:
-        return self.to_unconfidential().to_scriptPubKey()
+        return self.to_unconfidential().to_redeemScript()
 
     def from_scriptPubKey(self) -> None:  # type: ignore
         raise CCoinAddressError(
-- 
2.43.0


From b3b5a3a72d0d702d05b57740eb9a718c74e1c46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:41 +0000
Subject: [PATCH 11/24] fix: OP_DETERMINISTICRANDOM is 0xc0, not 0xc1

0xc1 is OP_CHECKSIGFROMSTACK.
---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index b18082e..393aab0 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -43,7 +43,7 @@ import elementstx.core
 # to have CBitcoinScriptOp and CElementsScriptOp, but
 # this is too heavy for this small issue. These opcodes are useable as-is,
 # the only proble is that they will be shown as UNKNOWN for repr(script).
-OP_DETERMINISTICRANDOM = CScriptOp(0xc1)
+OP_DETERMINISTICRANDOM = CScriptOp(0xc0)
 OP_CHECKSIGFROMSTACK = CScriptOp(0xc1)
 OP_CHECKSIGFROMSTACKVERIFY = CScriptOp(0xc2)
 
-- 
2.43.0


From dc327a2bea4553eb24d14aec630861b0a39b2ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:08 +0000
Subject: [PATCH 12/24] fix: get_virtual_size() did not account for Elements tx
 format

The method inherited from bitcointx assumes that the flag is only present
(together with the marker) when the transaction has witness, and the
result was off by one for most transactions. Also, it failed or gave
wrong result when some of the witness entries are absent.
---
 elementstx/core/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 7a301cb..3679f14 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1141,6 +1141,15 @@ class CElementsTransaction(CTransaction, CoreElementsClass):
             VectorSerializer.stream_serialize(self.vout, f)
             f.write(struct.pack(b"<I", self.nLockTime))
 
+    def get_virtual_size(self) -> int:
+        # Unlike in Bitcoin, the flag byte is always present in the serialized
+        # transaction, and there is no marker byte.
+        WITNESS_SCALE_FACTOR = CoreElementsParams.WITNESS_SCALE_FACTOR
+        base_size = len(self.serialize(include_witness=False))
+        total_size = len(self.serialize())
+        weight = base_size*(WITNESS_SCALE_FACTOR-1) + total_size
+        return (weight + WITNESS_SCALE_FACTOR-1) // WITNESS_SCALE_FACTOR
+
     @property
     def num_issuances(self) -> int:
         numIssuances = 0
-- 
2.43.0


From 48e3205298ce8b3148da3d955d89bf0db9298d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:12 +0000
Subject: [PATCH 13/24] fix: TaprootElementsScriptTree used Bitcoin rules
 outside of Elements context

When current chain params were not Elements, TaprootElementsScriptTree
silently used leaf version and tagged hashes of that other chain, and
the resulting merkle root and output pubkey were wrong.
---
 elementstx/core/script.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 393aab0..419a76f 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -13,10 +13,13 @@
 
 import struct
 import hashlib
+from contextlib import contextmanager
 from io import BytesIO
-from typing import Optional, Tuple, Sequence
+from typing import Any, Iterator, Optional, Tuple, Sequence
 
-from bitcointx.util import no_bool_use_as_property, ensure_isinstance
+from bitcointx.util import (
+    no_bool_use_as_property, ensure_isinstance, activate_class_dispatcher
+)
 from bitcointx.core import Hash
 from bitcointx.core.key import CKey, CKeyBase
 from bitcointx.core.script import (
@@ -110,6 +113,18 @@ class ScriptElementsClass(ScriptCoinClass,
     ...
 
 
+@contextmanager
+def _core_elements_classes() -> Iterator[None]:
+    # Methods of the script classes only activate the script class dispatcher.
+    # This is for the code that uses other core classes, or CoreCoinParams
+    prev_dispatcher = activate_class_dispatcher(
+        elementstx.core.CoreElementsClassDispatcher)
+    try:
+        yield
+    finally:
+        activate_class_dispatcher(prev_dispatcher)
+
+
 def RawElementsSignatureHash(
     script: CScript,
     txTo: 'elementstx.core.CElementsTransaction',
@@ -511,7 +526,15 @@ class CElementsScript(CScript, ScriptElementsClass):
 
 
 class TaprootElementsScriptTree(TaprootScriptTree, ScriptElementsClass):
-    ...
+
+    def __init__(self, *args: Any, **kwargs: Any) -> None:
+        # leaf version and hashers are taken from CoreCoinParams
+        with _core_elements_classes():
+            super().__init__(*args, **kwargs)
+
+    def set_internal_pubkey(self, *args: Any, **kwargs: Any) -> None:
+        with _core_elements_classes():
+            super().set_internal_pubkey(*args, **kwargs)
 
 
 __all__ = (
-- 
2.43.0


From e6f432125e7d8512e6ef5bc9d80b3cd5b92e7070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 14/24] fix: legacy sighash with SIGHASH_SINGLE failed outside
 of Elements context

RawBitcoinSignatureHash() creates empty CTxOut instances, and these were
of the type that corresponds to the current chain params.
---
 elementstx/core/script.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 419a76f..eaef04e 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -148,8 +148,9 @@ def RawElementsSignatureHash(
         # revert to standard bitcoin signature hash
         # amount is not used in SIGVERSION_BASE sighash,
         # so we specify invalid value.
-        return RawBitcoinSignatureHash(script, txTo, inIdx, hashtype,
-                                       amount=None, sigversion=sigversion)
+        with _core_elements_classes():
+            return RawBitcoinSignatureHash(script, txTo, inIdx, hashtype,
+                                           amount=None, sigversion=sigversion)
 
     ensure_isinstance(amount, elementstx.core.CConfidentialValue, 'amount')
     assert isinstance(amount, elementstx.core.CConfidentialValue)
-- 
2.43.0


From 57682d94cd737ebb7171576409e1687803b420a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:56 +0000
Subject: [PATCH 15/24] fix: unblind_confidential_pair() failed for bytearray
 rangeproof

bytearray is accepted by the type check, but ctypes refuses it for c_char_p
---
 elementstx/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 3679f14..5bd23bb 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -2083,7 +2083,7 @@ def unblind_confidential_pair(*, blinding_key: CKeyBase,  # noqa
         msg, ctypes.byref(msg_size),
         nonce,
         ctypes.byref(min_value), ctypes.byref(max_value),
-        commit, rangeproof, len(rangeproof),
+        commit, bytes(rangeproof), len(rangeproof),
         committedScript or None, len(committedScript),
         observed_gen)
 
-- 
2.43.0


From f98be7dffdce40c469ab842586e9c2626b368ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:56 +0000
Subject: [PATCH 16/24] fix: blind() failed for bytearray auxiliary generators

bytearray is accepted by the type check, but ctypes refuses it for c_char_p
---
 elementstx/core/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 5bd23bb..00dfb6b 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1336,7 +1336,7 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                 # Parse generator here
                 asset_generator = ctypes.create_string_buffer(SECP256K1_GENERATOR_SIZE)
                 result = secp256k1.lib.secp256k1_generator_parse(
-                    secp256k1.ctx.blind, asset_generator, auxiliary_generators[i])
+                    secp256k1.ctx.blind, asset_generator, bytes(auxiliary_generators[i]))
                 if result != 1:
                     assert result == 0
                     return BlindingFailure(
@@ -1417,7 +1417,7 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
             gen_buf = ctypes.create_string_buffer(SECP256K1_GENERATOR_SIZE)
             ret = secp256k1.lib.secp256k1_generator_parse(
                 secp256k1.ctx.blind,
-                gen_buf, auxiliary_generators[len(tx.vin)+n])
+                gen_buf, bytes(ag))
             if ret != 1:
                 assert ret == 0
                 return BlindingFailure(
-- 
2.43.0


From 88f433efe59d6849471dd67614f5da8118b6e952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:37 +0000
Subject: [PATCH 17/24] fix: blind() reported success for unbalanced tx when
 issuance key was given for input without issuance

Such key was counted as blind attempt, but not as something to blind,
so the balancing blinding factor was never calculated
---
 elementstx/core/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 00dfb6b..2c15f55 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1467,6 +1467,12 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
 
         # Count number of issuance pseudo-inputs to blind
         issuance = tx.vin[nIn].assetIssuance
+        if issuance.is_null() and any(
+                len(keys) > nIn and keys[nIn] is not None
+                for keys in (blind_issuance_asset_keys, blind_issuance_token_keys)):
+            return BlindingFailure(
+                'issuance blinding key is specified for input %d, '
+                'but this input has no issuance' % nIn)
         if not issuance.is_null():
             # Marked for blinding
             if len(blind_issuance_asset_keys) > nIn and blind_issuance_asset_keys[nIn] is not None:
-- 
2.43.0


From 24691a7a59ce10cab2b1b97ba4cfc97f0b40bba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:37 +0000
Subject: [PATCH 18/24] fix: blind() used unset or unrelated token for
 reissuance with nInflationKeys

---
 elementstx/core/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 2c15f55..ee083db 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1379,6 +1379,9 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                 asset = calculate_asset(entropy)
                 token = calculate_reissuance_token(entropy, blind_issuance)
             else:
+                if not issuance.nInflationKeys.is_null():
+                    return BlindingFailure(
+                        'reissuance of input %d has non-null nInflationKeys' % i)
                 asset = calculate_asset(issuance.assetEntropy)
 
             if not issuance.nAmount.is_null():
-- 
2.43.0


From f222e1ba780c58035aa385b5665eabb2bf337731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:09 +0000
Subject: [PATCH 19/24] fix: result of secp256k1_surjectionproof_serialize()
 was not checked

---
 elementstx/core/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index ee083db..351e51d 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1995,8 +1995,11 @@ def generate_surjectionproof(surjectionTargets: List[Uint256],
             secp256k1.ctx.blind, proof)
         output_len = ctypes.c_size_t(expected_output_len)
         serialized_proof = ctypes.create_string_buffer(output_len.value)
-        secp256k1.lib.secp256k1_surjectionproof_serialize(
+        ret = secp256k1.lib.secp256k1_surjectionproof_serialize(
             secp256k1.ctx.blind, serialized_proof, ctypes.byref(output_len), proof)
+        if 1 != ret:
+            assert ret == 0
+            raise RuntimeError('secp256k1_surjectionproof_serialize returned failure')
         assert output_len.value == expected_output_len
     finally:
         secp256k1.lib.secp256k1_surjectionproof_destroy(proof)
-- 
2.43.0


From d111c544667ad2fc4bacb68dca0156d85679fc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:24 +0000
Subject: [PATCH 20/24] fix: keep the positions of fields in the printed form
 of an issuance

---
 elementstx/core/__init__.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 351e51d..130004e 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -788,15 +788,17 @@ class CAssetIssuance(ImmutableSerializable, ReprOrStrMixin):
         self.nInflationKeys.stream_serialize(f)
 
     def _repr_or_str(self, strfn: Callable[[Any], str]) -> str:
-        r = []
-        if self.assetBlindingNonce.to_int():
-            r.append(bytes_repr(self.assetBlindingNonce.data))
-        if self.assetEntropy.to_int():
-            r.append(bytes_repr(self.assetEntropy.data))
-        if not self.nAmount.is_null():
-            r.append(strfn(self.nAmount))
-        if not self.nInflationKeys.is_null():
-            r.append(strfn(self.nInflationKeys))
+        # The fields are positional, only the trailing ones can be omitted
+        fields = [
+            (bool(self.assetBlindingNonce.to_int()),
+             bytes_repr(self.assetBlindingNonce.data)),
+            (bool(self.assetEntropy.to_int()),
+             bytes_repr(self.assetEntropy.data)),
+            (not self.nAmount.is_null(), strfn(self.nAmount)),
+            (not self.nInflationKeys.is_null(), strfn(self.nInflationKeys))]
+        while fields and not fields[-1][0]:
+            fields.pop()
+        r = [text for _, text in fields]
         return 'CAssetIssuance({})'.format(', '.join(r))
 
 
-- 
2.43.0


From 3314c02c46f1557d62a7259e9ecb3c930b7e1da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:57 +0000
Subject: [PATCH 21/24] fix: CAsset.to_commitment() was unusable under its name

The name was mangled by a search-and-replace; examples/asset-atomic-swap.py
calls it as to_commitment().
---
 elementstx/core/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 130004e..04ef078 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -308,7 +308,7 @@ class CAsset(Uint256):
     def __repr__(self) -> str:
         return "{}('{}')".format(self.__class__.__name__, self.to_hex())
 
-    def to_comm_secp256k1itment(self) -> bytes:
+    def to_commitment(self) -> bytes:
         secp256k1 = get_secp256k1()
         gen = ctypes.create_string_buffer(64)
         res = secp256k1.lib.secp256k1_generator_generate(
@@ -323,6 +323,10 @@ class CAsset(Uint256):
             raise RuntimeError('secp256k1_generator_serialize returned failure')
         return result_commitment.raw
 
+    # the name that was produced by an unfortunate search-and-replace,
+    # kept for the code that might use it
+    to_comm_secp256k1itment = to_commitment
+
 
 class CConfidentialAsset(CConfidentialCommitmentBase):
     _explicitSize = 33
-- 
2.43.0


From 907cdef4289839a9851110f0379089da047b1b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:46 +0000
Subject: [PATCH 22/24] fix: check sizes of buffers that are passed to
 secp256k1 library

create_value_commitment() and generate_surjectionproof() did not check the
length of the blinding factor and of the generator, so the library was
reading past the end of data that was too short.
---
 elementstx/core/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 04ef078..f4b2df1 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1833,6 +1833,12 @@ def blinded_asset(asset: CAsset, assetblind: Uint256
 
 def create_value_commitment(blind: bytes, gen: bytes, amount: int
                             ) -> Tuple[CConfidentialValue, bytes]:
+    # C code will not be able to check the sizes of the buffers
+    if len(blind) != 32:
+        raise ValueError('len(blind) != 32')
+    if len(gen) != SECP256K1_GENERATOR_SIZE:
+        raise ValueError('len(gen) != SECP256K1_GENERATOR_SIZE')
+
     commit = ctypes.create_string_buffer(SECP256K1_PEDERSEN_COMMITMENT_SIZE)
     secp256k1 = get_secp256k1()
     ret = secp256k1.lib.secp256k1_pedersen_commit(
@@ -1954,6 +1960,10 @@ def generate_surjectionproof(surjectionTargets: List[Uint256],
     # We could require these elements to be passed explicitly,
     # but we will try to be close to original code.
 
+    # C code will not be able to check the size of the buffer
+    if len(gen) != SECP256K1_GENERATOR_SIZE:
+        raise ValueError('len(gen) != SECP256K1_GENERATOR_SIZE')
+
     nInputsToSelect = min(3, len(surjectionTargets))
     randseed = _rand_func(32)
 
-- 
2.43.0


From eb1951a684b8e6dd7886d83d391390225dcd0391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:54 +0000
Subject: [PATCH 23/24] fix: refuse numbers that do not fit in arguments of
 secp256k1 functions

ctypes truncates them silently: a commitment to the amount of -1 was a
commitment to 2**64-1, and CT bits of 2**32+52 meant 52.
---
 elementstx/core/__init__.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index f4b2df1..cb37ed3 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1838,6 +1838,9 @@ def create_value_commitment(blind: bytes, gen: bytes, amount: int
         raise ValueError('len(blind) != 32')
     if len(gen) != SECP256K1_GENERATOR_SIZE:
         raise ValueError('len(gen) != SECP256K1_GENERATOR_SIZE')
+    # ctypes silently truncates the numbers that do not fit
+    if ctypes.c_uint64(amount).value != amount:
+        raise ValueError('amount is out of range')
 
     commit = ctypes.create_string_buffer(SECP256K1_PEDERSEN_COMMITMENT_SIZE)
     secp256k1 = get_secp256k1()
@@ -1914,6 +1917,14 @@ def generate_rangeproof(in_blinds: List[Uint256], nonce: Uint256,
     else:
         ct_bits = CoreCoinParams.CT_BITS
 
+    # ctypes silently truncates the numbers that do not fit
+    if ctypes.c_uint64(amount).value != amount:
+        raise ValueError('amount is out of range')
+    if ctypes.c_int(ct_exponent).value != ct_exponent:
+        raise ValueError('CT exponent is out of range')
+    if ctypes.c_int(ct_bits).value != ct_bits:
+        raise ValueError('CT bits is out of range')
+
     # Sign rangeproof
     # If min_value is 0, scriptPubKey must be unspendable
     ret = secp256k1.lib.secp256k1_rangeproof_sign(
-- 
2.43.0


From 777c6aec70daba5987e7a4c01ff038d9d1103e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:10 +0000
Subject: [PATCH 24/24] fix: reissuance token of an issuance of which one
 amount is blinded

---
 elementstx/core/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index cb37ed3..16a16d1 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1379,8 +1379,10 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
 
             # New Issuance
             if issuance.assetBlindingNonce.is_null():
-                blind_issuance = (len(blind_issuance_token_keys) > i
-                                  and blind_issuance_token_keys[i] is not None)
+                # The kind of the token depends on nAmount being blinded,
+                # regardless of nInflationKeys being blinded
+                blind_issuance = (len(blind_issuance_asset_keys) > i
+                                  and blind_issuance_asset_keys[i] is not None)
                 entropy = generate_asset_entropy(tx.vin[i].prevout, issuance.assetEntropy)
                 asset = calculate_asset(entropy)
                 token = calculate_reissuance_token(entropy, blind_issuance)
@@ -1570,8 +1572,7 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                     if nPseudo == 0:
                         asset = calculate_asset(entropy)
                     else:
-                        assert token_issuance_valid
-                        asset = calculate_reissuance_token(entropy, token_issuance_valid)
+                        asset = calculate_reissuance_token(entropy, asset_issuace_valid)
                 else:
                     if nPseudo == 0:
                         asset = calculate_asset(issuance.assetEntropy)
-- 
2.43.0

