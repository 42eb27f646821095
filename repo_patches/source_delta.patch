From eb3df703139dce4b8a23312f70a7b2f595d2a69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:33 +0000
Subject: [PATCH 01/19] fix: txout witness must not share the caller's buffers

CElementsTxOutWitness stored a bytearray given to it as-is, so an immutable
witness (and transaction) changed when the caller reused the buffer.
---
 elementstx/core/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index d5b5d6f..0b7b052 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -551,8 +551,8 @@ class CElementsTxOutWitness(CTxOutWitness, CoreElementsClass):
                  rangeproof: Union[bytes, bytearray] = b''):
         ensure_isinstance(surjectionproof, (bytes, bytearray), 'surjectionproof')
         ensure_isinstance(rangeproof, (bytes, bytearray), 'rangeproof')
-        object.__setattr__(self, 'surjectionproof', surjectionproof)
-        object.__setattr__(self, 'rangeproof', rangeproof)
+        object.__setattr__(self, 'surjectionproof', bytes(surjectionproof))
+        object.__setattr__(self, 'rangeproof', bytes(rangeproof))
 
     @no_bool_use_as_property
     def is_null(self) -> bool:
-- 
2.43.0


From 976ccbfae9d6c9b98cec3e6ebdbb076656df4767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:33 +0000
Subject: [PATCH 02/19] fix: reject transactions with unknown serialization
 flags

Any flag byte other than 1 was read as 'no witness', so the bytes of a
transaction with a damaged flag passed for another transaction. Elements Core
rejects unknown flags.
---
 elementstx/core/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 0b7b052..fad4e8b 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1102,6 +1102,9 @@ class CElementsTransaction(CTransaction, CoreElementsClass):
 
             return cls(vin, vout, nLockTime, nVersion, wit)
         else:
+            if flagbyte != 0:
+                raise SerializationError('Unknown transaction optional data')
+
             vin = VectorSerializer.stream_deserialize(f, element_class=CTxIn)
             vout = VectorSerializer.stream_deserialize(f, element_class=CTxOut)
             nLockTime = struct.unpack(b"<I", ser_read(f, 4))[0]
-- 
2.43.0


From 65145dace7cef106b6c3d2ff24b1c8f8b273022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:33 +0000
Subject: [PATCH 03/19] fix: serialize all witnesses when one of the witness
 lists is empty

A transaction that has only input witnesses or only output witnesses in its
wit field was serialized without the (empty) witnesses of the other kind, and
the result could not be deserialized.
---
 elementstx/core/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index fad4e8b..918fed6 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1124,7 +1124,12 @@ class CElementsTransaction(CTransaction, CoreElementsClass):
             VectorSerializer.stream_serialize(self.vout, f)
             # Note: nLockTime goes before witness in Elements transactions
             f.write(struct.pack(b"<I", self.nLockTime))
-            self.wit.stream_serialize(f)
+            # An empty list of witnesses stands for witnesses that are all
+            # empty, but all of them are expected by the deserializing side
+            wit = CElementsTxWitness(
+                self.wit.vtxinwit or [CElementsTxInWitness()] * len(self.vin),
+                self.wit.vtxoutwit or [CElementsTxOutWitness()] * len(self.vout))
+            wit.stream_serialize(f)
         else:
             if not for_sighash:
                 f.write(b'\x00')  # Flag is needed in Elements
-- 
2.43.0


From 934d14ce37d2d0d67be711ab03e0447f2bdfc22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:33 +0000
Subject: [PATCH 04/19] fix: segwit v0 sighash of transactions with nLockTime
 >= 2**31

nLockTime is unsigned, but was packed as signed, with struct.error as a result.
---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index b94d905..4202173 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -183,7 +183,7 @@ def RawElementsSignatureHash(
     if not txTo.vin[inIdx].assetIssuance.is_null():
         txTo.vin[inIdx].assetIssuance.stream_serialize(f)
     f.write(hashOutputs)
-    f.write(struct.pack("<i", txTo.nLockTime))
+    f.write(struct.pack("<I", txTo.nLockTime))
     f.write(struct.pack("<i", hashtype))
 
     hash = Hash(f.getvalue())
-- 
2.43.0


From 396e33fa84b2b9c0d268cb4fd52ccafe63ff02af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:33 +0000
Subject: [PATCH 05/19] fix: serialization of variable-length fields in the
 taproot sighash

With ANYONECANPAY, scriptPubKey of the spent output and the issuance
rangeproofs must be serialized with their sizes, and the annex hash is a
fixed-size field that must be serialized without it (see SignatureHashSchnorr
in Elements Core).
---
 elementstx/core/script.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 4202173..99f21d9 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -338,7 +338,7 @@ def ElementsSignatureHashSchnorr(
         f.write(txTo.vin[inIdx].prevout.serialize())
         f.write(spent_outputs[inIdx].nAsset.serialize())
         f.write(spent_outputs[inIdx].nValue.serialize())
-        f.write(spent_outputs[inIdx].scriptPubKey)
+        BytesSerializer.stream_serialize(spent_outputs[inIdx].scriptPubKey, f)
         f.write(struct.pack('<I', txTo.vin[inIdx].nSequence))
         if txTo.vin[inIdx].assetIssuance.is_null():
             f.write(b'\x00')
@@ -348,15 +348,15 @@ def ElementsSignatureHashSchnorr(
             inwit = txTo.wit.vtxinwit[inIdx]
             f.write(
                 hashlib.sha256(
-                    inwit.issuanceAmountRangeproof
-                    + inwit.inflationKeysRangeproof
+                    BytesSerializer.serialize(inwit.issuanceAmountRangeproof)
+                    + BytesSerializer.serialize(inwit.inflationKeysRangeproof)
                 ).digest()
             )
     else:
         f.write(struct.pack('<I', inIdx))
 
     if annex_hash is not None:
-        BytesSerializer.stream_serialize(annex_hash, f)
+        f.write(annex_hash)
 
     if output_type == SIGHASH_SINGLE:
         outIdx = inIdx
-- 
2.43.0


From ea99e9aad28cdad34058823753cb7b36fe2f4c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:33 +0000
Subject: [PATCH 06/19] fix: off by one in output index check for taproot
 SIGHASH_SINGLE

IndexError was raised instead of ValueError when inIdx == len(vout).
---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 99f21d9..1ea970f 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -360,7 +360,7 @@ def ElementsSignatureHashSchnorr(
 
     if output_type == SIGHASH_SINGLE:
         outIdx = inIdx
-        if outIdx > len(txTo.vout):
+        if outIdx >= len(txTo.vout):
             raise ValueError(f'outIdx {outIdx} out of range ({len(txTo.vout)})')
         f.write(hashlib.sha256(txTo.vout[outIdx].serialize()).digest())
         f.write(hashlib.sha256(txTo.wit.vtxoutwit[outIdx].serialize()).digest())
-- 
2.43.0


From ea1a9a8fb5dd47f0aafe58fa23c512c7ff32fc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:33 +0000
Subject: [PATCH 07/19] fix: taproot sighash of transactions without witnesses

The lists of witnesses are empty in immutable transactions that have no
witnesses, and IndexError was raised.
---
 elementstx/core/script.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 1ea970f..2cb7c6d 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -240,6 +240,12 @@ def ElementsSignatureHashSchnorr(
         raise ValueError(
             'number of spent_outputs is not equal to number of inputs')
 
+    # Lists of witnesses can be empty if there are no witnesses
+    vtxinwit = (txTo.wit.vtxinwit
+                or [elementstx.core.CElementsTxInWitness()] * len(txTo.vin))
+    vtxoutwit = (txTo.wit.vtxoutwit
+                 or [elementstx.core.CElementsTxOutWitness()] * len(txTo.vout))
+
     f = BytesIO()
 
     # No epoch in elements taphash
@@ -295,7 +301,7 @@ def ElementsSignatureHashSchnorr(
             else:
                 issuances_hashobj.update(txin.assetIssuance.serialize())
 
-            inwit = txTo.wit.vtxinwit[inp_i]
+            inwit = vtxinwit[inp_i]
             issuance_rangeproof_hashobj.update(
                 BytesSerializer.serialize(inwit.issuanceAmountRangeproof))
             issuance_rangeproof_hashobj.update(
@@ -321,7 +327,7 @@ def ElementsSignatureHashSchnorr(
         for outp_i, txout in enumerate(txTo.vout):
             outputs_hashobj.update(txout.serialize())
             output_witnesses_hashobj.update(
-                txTo.wit.vtxoutwit[outp_i].serialize())
+                vtxoutwit[outp_i].serialize())
 
         f.write(outputs_hashobj.digest())
         f.write(output_witnesses_hashobj.digest())
@@ -345,7 +351,7 @@ def ElementsSignatureHashSchnorr(
         else:
             f.write(txTo.vin[inIdx].assetIssuance.serialize())
 
-            inwit = txTo.wit.vtxinwit[inIdx]
+            inwit = vtxinwit[inIdx]
             f.write(
                 hashlib.sha256(
                     BytesSerializer.serialize(inwit.issuanceAmountRangeproof)
@@ -363,7 +369,7 @@ def ElementsSignatureHashSchnorr(
         if outIdx >= len(txTo.vout):
             raise ValueError(f'outIdx {outIdx} out of range ({len(txTo.vout)})')
         f.write(hashlib.sha256(txTo.vout[outIdx].serialize()).digest())
-        f.write(hashlib.sha256(txTo.wit.vtxoutwit[outIdx].serialize()).digest())
+        f.write(hashlib.sha256(vtxoutwit[outIdx].serialize()).digest())
 
     if sigversion == SIGVERSION_TAPSCRIPT:
         if tapleaf_hash is None:
-- 
2.43.0


From 353a83a00566348cd0840c692c14c321dfe575e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:34 +0000
Subject: [PATCH 08/19] fix: refuse to blind a reissuance that has inflation
 keys

---
 elementstx/core/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 918fed6..0dda8b1 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1367,6 +1367,9 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                 asset = calculate_asset(entropy)
                 token = calculate_reissuance_token(entropy, blind_issuance)
             else:
+                if not issuance.nInflationKeys.is_null():
+                    return BlindingFailure(
+                        'reissuance at input %d has non-null nInflationKeys' % i)
                 asset = calculate_asset(issuance.assetEntropy)
 
             if not issuance.nAmount.is_null():
-- 
2.43.0


From 47596e23bd652888bacb22c3f7d7c99174054a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:34 +0000
Subject: [PATCH 09/19] fix: confidentiality of reissuance token depends on
 blinding of asset amount

---
 elementstx/core/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 0dda8b1..980c813 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1361,8 +1361,10 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
 
             # New Issuance
             if issuance.assetBlindingNonce.is_null():
-                blind_issuance = (len(blind_issuance_token_keys) > i
-                                  and blind_issuance_token_keys[i] is not None)
+                # The token is calculated as confidential if the amount of
+                # the issued asset is a commitment
+                blind_issuance = (len(blind_issuance_asset_keys) > i
+                                  and blind_issuance_asset_keys[i] is not None)
                 entropy = generate_asset_entropy(tx.vin[i].prevout, issuance.assetEntropy)
                 asset = calculate_asset(entropy)
                 token = calculate_reissuance_token(entropy, blind_issuance)
@@ -1547,7 +1549,7 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                         asset = calculate_asset(entropy)
                     else:
                         assert token_issuance_valid
-                        asset = calculate_reissuance_token(entropy, token_issuance_valid)
+                        asset = calculate_reissuance_token(entropy, asset_issuace_valid)
                 else:
                     if nPseudo == 0:
                         asset = calculate_asset(issuance.assetEntropy)
-- 
2.43.0


From dbadccb55546f045048e2ae87b557a6d80e47425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:34 +0000
Subject: [PATCH 10/19] fix: refuse issuance blinding keys for inputs without
 issuance

---
 elementstx/core/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 980c813..1d20f05 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1460,7 +1460,14 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
 
         # Count number of issuance pseudo-inputs to blind
         issuance = tx.vin[nIn].assetIssuance
-        if not issuance.is_null():
+        if issuance.is_null():
+            if any(len(keys) > nIn and keys[nIn] is not None
+                   for keys in (blind_issuance_asset_keys,
+                                blind_issuance_token_keys)):
+                return BlindingFailure(
+                    'issuance blinding key is specified for input %d, '
+                    'but there is no issuance in this input' % nIn)
+        else:
             # Marked for blinding
             if len(blind_issuance_asset_keys) > nIn and blind_issuance_asset_keys[nIn] is not None:
                 if not issuance.nAmount.is_explicit():
-- 
2.43.0


From 8f43e864ed12852949b5710cae9c87ba1a1e3b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:34 +0000
Subject: [PATCH 11/19] fix: check the result of surjection proof serialization

---
 elementstx/core/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 1d20f05..176b2a2 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1986,8 +1986,13 @@ def generate_surjectionproof(surjectionTargets: List[Uint256],
             secp256k1.ctx.blind, proof)
         output_len = ctypes.c_size_t(expected_output_len)
         serialized_proof = ctypes.create_string_buffer(output_len.value)
-        secp256k1.lib.secp256k1_surjectionproof_serialize(
+        ret = secp256k1.lib.secp256k1_surjectionproof_serialize(
             secp256k1.ctx.blind, serialized_proof, ctypes.byref(output_len), proof)
+
+        if 1 != ret:
+            assert ret == 0
+            raise RuntimeError('secp256k1_surjectionproof_serialize returned failure')
+
         assert output_len.value == expected_output_len
     finally:
         secp256k1.lib.secp256k1_surjectionproof_destroy(proof)
-- 
2.43.0


From 206da82db4990665586f295f9e8b213b4221bd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:06 +0000
Subject: [PATCH 12/19] fix: pad input witnesses to the number of inputs when
 blinding issuances

When the list of input witnesses was shorter than the list of inputs,
blinding an issuance extended it only up to the input with the issuance,
and the blinded transaction could not be serialized.
---
 elementstx/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 176b2a2..de9aea7 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1574,7 +1574,7 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                     # though it is possible. No privacy gained here, incompatible with secp api
                     return blinding_result()
 
-                while len(tx.wit.vtxinwit) <= nIn:
+                while len(tx.wit.vtxinwit) < len(tx.vin):
                     tx.wit.vtxinwit.append(CElementsMutableTxInWitness())
 
                 txinwit = tx.wit.vtxinwit[nIn]
-- 
2.43.0


From 77d2246aef5cb154962fb5416ffcbb7b1e9a597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:17 +0000
Subject: [PATCH 13/19] fix: accept auxiliary generators given as bytearray

They pass the argument checks of blind_transaction(), but ctypes cannot
pass a bytearray where it expects c_char_p, and raised ArgumentError.
---
 elementstx/core/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index de9aea7..f227f19 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1324,7 +1324,8 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                 # Parse generator here
                 asset_generator = ctypes.create_string_buffer(SECP256K1_GENERATOR_SIZE)
                 result = secp256k1.lib.secp256k1_generator_parse(
-                    secp256k1.ctx.blind, asset_generator, auxiliary_generators[i])
+                    secp256k1.ctx.blind, asset_generator,
+                    bytes(auxiliary_generators[i]))
                 if result != 1:
                     assert result == 0
                     return BlindingFailure(
@@ -1410,7 +1411,7 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
             gen_buf = ctypes.create_string_buffer(SECP256K1_GENERATOR_SIZE)
             ret = secp256k1.lib.secp256k1_generator_parse(
                 secp256k1.ctx.blind,
-                gen_buf, auxiliary_generators[len(tx.vin)+n])
+                gen_buf, bytes(auxiliary_generators[len(tx.vin)+n]))
             if ret != 1:
                 assert ret == 0
                 return BlindingFailure(
-- 
2.43.0


From 8158ea421f9c3a92b969db4f8bec7a82d6591198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:17 +0000
Subject: [PATCH 14/19] fix: accept rangeproof given as bytearray when
 unblinding

It passes the argument check of unblind_confidential_pair(), but ctypes
cannot pass a bytearray where it expects c_char_p, and raised ArgumentError.
---
 elementstx/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index f227f19..f4d7b5a 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -2089,7 +2089,7 @@ def unblind_confidential_pair(*, blinding_key: CKeyBase,  # noqa
         msg, ctypes.byref(msg_size),
         nonce,
         ctypes.byref(min_value), ctypes.byref(max_value),
-        commit, rangeproof, len(rangeproof),
+        commit, bytes(rangeproof), len(rangeproof),
         committedScript or None, len(committedScript),
         observed_gen)
 
-- 
2.43.0


From 38352503d4b645b11b322fb434564f5872c0e892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:12 +0000
Subject: [PATCH 15/19] fix: refuse base58 confidential addresses of a wrong
 length with an address error

---
 elementstx/wallet.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/elementstx/wallet.py b/elementstx/wallet.py
index d126076..f94ffa5 100644
--- a/elementstx/wallet.py
+++ b/elementstx/wallet.py
@@ -65,6 +65,10 @@ T_CCoinConfidentialAddress = TypeVar('T_CCoinConfidentialAddress',
                                      bound='CCoinConfidentialAddress')
 
 
+T_CBase58CoinConfidentialAddress = TypeVar(
+    'T_CBase58CoinConfidentialAddress', bound='CBase58CoinConfidentialAddress')
+
+
 class CCoinConfidentialAddress(CCoinAddress):
 
     _unconfidential_address_class: Type[CCoinAddress]
@@ -186,7 +190,20 @@ class CCoinConfidentialAddress(CCoinAddress):
 
 
 class CBase58CoinConfidentialAddress(CCoinConfidentialAddress, CBase58CoinAddress):
-    ...
+
+    @classmethod
+    def base58_from_bytes_match_prefix(
+        cls: Type[T_CBase58CoinConfidentialAddress], data: bytes
+    ) -> T_CBase58CoinConfidentialAddress:
+        for candidate in cls.base58_get_match_candidates():
+            pfx = candidate.base58_prefix
+            if pfx and data.startswith(pfx) and \
+                    len(data) != len(pfx) + candidate._data_length:
+                raise CConfidentialAddressError(
+                    'Incorrect length of the data for {}: {}, expected {}'
+                    .format(candidate.__name__, len(data) - len(pfx),
+                            candidate._data_length))
+        return super().base58_from_bytes_match_prefix(data)
 
 
 class CBlech32AddressError(CCoinAddressError):
-- 
2.43.0


From 6179eda1d80c2b8acad65f1dc9772d223341c086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:40 +0000
Subject: [PATCH 16/19] fix: OP_DETERMINISTICRANDOM is 0xc0, 0xc1 is
 OP_CHECKSIGFROMSTACK

---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 2cb7c6d..16983b3 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -43,7 +43,7 @@ import elementstx.core
 # to have CBitcoinScriptOp and CElementsScriptOp, but
 # this is too heavy for this small issue. These opcodes are useable as-is,
 # the only proble is that they will be shown as UNKNOWN for repr(script).
-OP_DETERMINISTICRANDOM = CScriptOp(0xc1)
+OP_DETERMINISTICRANDOM = CScriptOp(0xc0)
 OP_CHECKSIGFROMSTACK = CScriptOp(0xc1)
 OP_CHECKSIGFROMSTACKVERIFY = CScriptOp(0xc2)
 
-- 
2.43.0


From 32464f54c8b796788c6d11d4a4d5994922412863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:26 +0000
Subject: [PATCH 17/19] fix: redeem script of a confidential address is that of
 its plain form

---
 elementstx/wallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/wallet.py b/elementstx/wallet.py
index f94ffa5..864e37b 100644
--- a/elementstx/wallet.py
+++ b/elementstx/wallet.py
@@ -162,7 +162,7 @@ class CCoinConfidentialAddress(CCoinAddress):
         return self.to_unconfidential().to_scriptPubKey()
 
     def to_redeemScript(self) -> CScript:
-        return self.to_unconfidential().to_scriptPubKey()
+        return self.to_unconfidential().to_redeemScript()
 
     def from_scriptPubKey(self) -> None:  # type: ignore
         raise CCoinAddressError(
-- 
2.43.0


From 56bbcb9c65eb8d2454d9e3800e77997f1155070f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:09 +0000
Subject: [PATCH 18/19] fix: secret keys of Liquid have the prefix 128, 239 is
 that of test networks

---
 elementstx/wallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/wallet.py b/elementstx/wallet.py
index 864e37b..35f05a5 100644
--- a/elementstx/wallet.py
+++ b/elementstx/wallet.py
@@ -497,7 +497,7 @@ P2TRElementsLiquidV1Address.register(P2TRElementsLiquidV1ConfidentialAddress)
 
 
 class CElementsLiquidV1Key(CCoinKey, WalletElementsLiquidV1Class):
-    base58_prefix = bytes([239])
+    base58_prefix = bytes([128])
 
 
 class CElementsLiquidV1ExtPubKey(CCoinExtPubKey, WalletElementsLiquidV1Class):
-- 
2.43.0


From 72d2fc909ef0060fd50edb487d500637ef58b1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:00 +0000
Subject: [PATCH 19/19] fix: CAsset.to_commitment() has its name again

---
 elementstx/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index f4d7b5a..b9e6ebe 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -308,7 +308,7 @@ class CAsset(Uint256):
     def __repr__(self) -> str:
         return "{}('{}')".format(self.__class__.__name__, self.to_hex())
 
-    def to_comm_secp256k1itment(self) -> bytes:
+    def to_commitment(self) -> bytes:
         secp256k1 = get_secp256k1()
         gen = ctypes.create_string_buffer(64)
         res = secp256k1.lib.secp256k1_generator_generate(
-- 
2.43.0

