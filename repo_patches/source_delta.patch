From 9bb7a8ce019f661b8e6bbc02b5add1a8931c0717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:12 +0000
Subject: [PATCH 01/25] fix: reject the empty public key when verifying
 attestation signatures

Block.VerifySignature refuses the all-zero Ed25519 key, a small-order point for which a zero signature verifies for every message. Attestation.VerifySignature reported such a signature as valid.
---
 attestation.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/attestation.go b/attestation.go
index bf194e5..5d3c5fc 100644
--- a/attestation.go
+++ b/attestation.go
@@ -3,6 +3,7 @@ package iotago
 import (
 	"bytes"
 	"context"
+	"crypto/ed25519"
 
 	hiveEd25519 "github.com/iotaledger/hive.go/crypto/ed25519"
 	"github.com/iotaledger/hive.go/ierrors"
@@ -111,6 +112,10 @@ func (a *Attestation) VerifySignature() (valid bool, err error) {
 		return false, ierrors.Errorf("only ed2519 signatures supported, got %s", a.Signature.Type())
 	}
 
+	if edSig.PublicKey == [ed25519.PublicKeySize]byte{} {
+		return false, ierrors.New("ed25519 public key must not be empty")
+	}
+
 	return hiveEd25519.Verify(edSig.PublicKey[:], signingMessage, edSig.Signature[:]), nil
 }
 
-- 
2.43.0


From beb056a765657aa9f01e183e073c26402782c8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 02/25] fix: exempt commitment inputs to the genesis slot from
 the minimum age, as the block's commitment is

---
 block.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/block.go b/block.go
index b98835c..50a5771 100644
--- a/block.go
+++ b/block.go
@@ -412,6 +412,7 @@ func (b *BasicBlockBody) syntacticallyValidate(block *Block) error {
 	if b.Payload != nil && b.Payload.PayloadType() == PayloadSignedTransaction {
 		blockSlot := block.Slot()
 
+		genesisSlot := block.API.ProtocolParameters().GenesisSlot()
 		minCommittableAge := block.API.ProtocolParameters().MinCommittableAge()
 		maxCommittableAge := block.API.ProtocolParameters().MaxCommittableAge()
 
@@ -426,7 +427,7 @@ func (b *BasicBlockBody) syntacticallyValidate(block *Block) error {
 		if cInput := signedTransaction.Transaction.CommitmentInput(); cInput != nil {
 			cInputSlot := cInput.CommitmentID.Slot()
 			// check that commitment input is not too recent.
-			if cInputSlot > 0 && // Don't filter commitments to genesis based on being too recent.
+			if cInputSlot > genesisSlot && // Don't filter commitments to genesis based on being too recent.
 				blockSlot < cInputSlot+minCommittableAge { // filter commitments to future slots.
 				return ierrors.WithMessagef(ErrCommitmentInputTooRecent, "block at slot %d with commitment input to slot %d, min committable age %d", blockSlot, cInput.CommitmentID.Slot(), minCommittableAge)
 			}
-- 
2.43.0


From 28ad8ddd53dd45261b8c0a883059563f183d7d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 03/25] fix: count the length prefix of a transaction payload
 in the transaction's size

---
 transaction_essence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transaction_essence.go b/transaction_essence.go
index d8dbc80..657a552 100644
--- a/transaction_essence.go
+++ b/transaction_essence.go
@@ -69,7 +69,7 @@ func (u *TransactionEssence) Clone() *TransactionEssence {
 func (u *TransactionEssence) Size() int {
 	payloadSize := serializer.PayloadLengthByteSize
 	if u.Payload != nil {
-		payloadSize = u.Payload.Size()
+		payloadSize += u.Payload.Size()
 	}
 
 	// NetworkID
-- 
2.43.0


From 07757b451f36f041951a191c0f293052d816640f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:36 +0000
Subject: [PATCH 04/25] fix: allocate the members of a cloned multi address
 before assigning them

---
 address_multi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address_multi.go b/address_multi.go
index 9a9a3d1..deb8ea3 100644
--- a/address_multi.go
+++ b/address_multi.go
@@ -61,7 +61,7 @@ type MultiAddress struct {
 
 func (addr *MultiAddress) Clone() Address {
 	cpy := &MultiAddress{
-		Addresses: make(AddressesWithWeight, 0, len(addr.Addresses)),
+		Addresses: make(AddressesWithWeight, len(addr.Addresses)),
 		Threshold: addr.Threshold,
 	}
 
-- 
2.43.0


From 04d88ebcf140bfb80cb72defdeabbd561140973d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 05/25] fix: clone the block issuer keys of a cloned block
 issuer feature

---
 feat_blockissuer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feat_blockissuer.go b/feat_blockissuer.go
index 400d315..ad0f898 100644
--- a/feat_blockissuer.go
+++ b/feat_blockissuer.go
@@ -40,7 +40,7 @@ type BlockIssuerFeature struct {
 func (s *BlockIssuerFeature) Clone() Feature {
 	return &BlockIssuerFeature{
 		ExpirySlot:      s.ExpirySlot,
-		BlockIssuerKeys: s.BlockIssuerKeys,
+		BlockIssuerKeys: s.BlockIssuerKeys.Clone(),
 	}
 }
 
-- 
2.43.0


From b10a97e7353b69885474816ea1e4ba0bd60d0e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 06/25] fix: clone the validator address of a cloned delegation
 output

---
 output_delegation.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/output_delegation.go b/output_delegation.go
index 3d85146..952f6d8 100644
--- a/output_delegation.go
+++ b/output_delegation.go
@@ -112,11 +112,14 @@ type DelegationOutput struct {
 }
 
 func (d *DelegationOutput) Clone() Output {
+	//nolint:forcetypeassert // we can safely assume that this is an AccountAddress
+	validatorAddress := d.ValidatorAddress.Clone().(*AccountAddress)
+
 	return &DelegationOutput{
 		Amount:           d.Amount,
 		DelegatedAmount:  d.DelegatedAmount,
 		DelegationID:     d.DelegationID,
-		ValidatorAddress: d.ValidatorAddress,
+		ValidatorAddress: validatorAddress,
 		StartEpoch:       d.StartEpoch,
 		EndEpoch:         d.EndEpoch,
 		UnlockConditions: d.UnlockConditions.Clone(),
-- 
2.43.0


From 22708901bf8030738ea0e12a015725c06f314466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:15 +0000
Subject: [PATCH 07/25] fix: reject negative indexes in ComputeProofForIndex

A negative index was silently accepted and produced a proof for another value.
---
 merklehasher/merkle_proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merklehasher/merkle_proof.go b/merklehasher/merkle_proof.go
index 07019c9..e40bac5 100644
--- a/merklehasher/merkle_proof.go
+++ b/merklehasher/merkle_proof.go
@@ -81,7 +81,7 @@ func (t *Hasher[V]) ComputeProofForIndex(values []V, index int) (*Proof[V], erro
 	if len(values) < 1 {
 		return nil, ierrors.New("at least one item is needed to create an inclusion proof")
 	}
-	if index >= len(values) {
+	if index < 0 || index >= len(values) {
 		return nil, ierrors.Errorf("index %d out of bounds for 'values' of len %d", index, len(values))
 	}
 
-- 
2.43.0


From 9ff8658a62ef1797201fc824cdb77a3ba1aea173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:45 +0000
Subject: [PATCH 08/25] fix: reject trailing bytes in bech32 multi addresses

ParseBech32 ignored everything after a multi address reference, and after
the capabilities of a restricted one, so that many texts denoted one address.
---
 address.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/address.go b/address.go
index 49e8c3f..0ef519a 100644
--- a/address.go
+++ b/address.go
@@ -221,11 +221,15 @@ func ParseBech32(s string) (NetworkPrefix, Address, error) {
 	//nolint:exhaustive
 	switch addrType {
 	case AddressMulti:
-		multiAddrRef, _, err := MultiAddressReferenceFromBytes(addrData)
+		multiAddrRef, consumed, err := MultiAddressReferenceFromBytes(addrData)
 		if err != nil {
 			return "", nil, ierrors.Wrap(err, "invalid multi address")
 		}
 
+		if consumed != len(addrData) {
+			return "", nil, serializer.ErrDeserializationNotAllConsumed
+		}
+
 		return NetworkPrefix(hrp), multiAddrRef, nil
 
 	case AddressRestricted:
@@ -240,11 +244,15 @@ func ParseBech32(s string) (NetworkPrefix, Address, error) {
 			}
 
 			// get the address capabilities from the remaining bytes
-			capabilities, _, err := AddressCapabilitiesBitMaskFromBytes(addrData[1+consumed:])
+			capabilities, consumedCapabilities, err := AddressCapabilitiesBitMaskFromBytes(addrData[1+consumed:])
 			if err != nil {
 				return "", nil, ierrors.Wrap(err, "invalid restricted address capabilities")
 			}
 
+			if 1+consumed+consumedCapabilities != len(addrData) {
+				return "", nil, serializer.ErrDeserializationNotAllConsumed
+			}
+
 			return NetworkPrefix(hrp), &RestrictedAddress{
 				Address:             multiAddrRef,
 				AllowedCapabilities: capabilities,
-- 
2.43.0


From 11410b44e5801fa07d0c2a8e7abfbd28afbf24d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 09/25] fix: reject non-ASCII characters in the data part of
 bech32 texts

The Kelvin sign lower cases to the letter k, which made Decode accept texts
that are not ASCII.
---
 bech32/bech32.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bech32/bech32.go b/bech32/bech32.go
index c6faca6..1e1217d 100644
--- a/bech32/bech32.go
+++ b/bech32/bech32.go
@@ -82,6 +82,12 @@ func Decode(s string) (string, []byte, error) {
 			return "", nil, &SyntaxError{ierrors.WithMessage(ErrInvalidCharacter, "non US-ASCII character in human-readable part"), i}
 		}
 	}
+	// validate that the data part does not contain characters that only become part of the charset in lower case
+	for i, c := range s[hrpLen:] {
+		if !isValidHRPChar(c) {
+			return "", nil, &SyntaxError{ierrors.WithMessage(ErrInvalidCharacter, "non-charset character in data part"), hrpLen + i}
+		}
+	}
 	// validate that the case of the entire string is consistent
 	if err := validateCase(s); err != nil {
 		return "", nil, err
-- 
2.43.0


From a33bd661452e2ad6e519b1bf9b69abf75d152088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 10/25] fix: take the lock when listing the protocol versions
 of an EpochBasedProvider

---
 api_epoch_based_provider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api_epoch_based_provider.go b/api_epoch_based_provider.go
index 356f7ba..892ec7f 100644
--- a/api_epoch_based_provider.go
+++ b/api_epoch_based_provider.go
@@ -217,6 +217,9 @@ func (e *EpochBasedProvider) ProtocolParametersHash(version Version) Identifier
 }
 
 func (e *EpochBasedProvider) ProtocolEpochVersions() []ProtocolEpochVersion {
+	e.mutex.RLock()
+	defer e.mutex.RUnlock()
+
 	return e.protocolVersions.Slice()
 }
 
-- 
2.43.0


From 5a7b05d6e50b10ea715905bc2d87fa69b225aacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 11/25] fix: hold the lock when reading the cached bytes of
 V3ProtocolParameters

---
 api_v3_protocol_parameters.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/api_v3_protocol_parameters.go b/api_v3_protocol_parameters.go
index 281bcff..15d5701 100644
--- a/api_v3_protocol_parameters.go
+++ b/api_v3_protocol_parameters.go
@@ -147,14 +147,10 @@ func (p *V3ProtocolParameters) ChainSwitchingThreshold() uint8 {
 }
 
 func (p *V3ProtocolParameters) Bytes() ([]byte, error) {
-	if len(p.bytes) > 0 {
-		return p.bytes, nil
-	}
-
 	p.bytesMutex.Lock()
 	defer p.bytesMutex.Unlock()
 
-	// Check if some other goroutine cached the bytes while waiting for the lock.
+	// Check if the bytes were already cached.
 	if len(p.bytes) > 0 {
 		return p.bytes, nil
 	}
-- 
2.43.0


From f51ecda6141f05be9616fde7d7fccdc73b3bcf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 12/25] fix: do not read the locks and cached values of
 V3ProtocolParameters when encoding them

---
 api_v3_protocol_parameters.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api_v3_protocol_parameters.go b/api_v3_protocol_parameters.go
index 15d5701..759e48f 100644
--- a/api_v3_protocol_parameters.go
+++ b/api_v3_protocol_parameters.go
@@ -155,7 +155,8 @@ func (p *V3ProtocolParameters) Bytes() ([]byte, error) {
 		return p.bytes, nil
 	}
 
-	bytes, err := CommonSerixAPI().Encode(context.TODO(), p)
+	// Encode a copy without the cached values and their locks, which other goroutines might be using concurrently.
+	bytes, err := CommonSerixAPI().Encode(context.TODO(), &V3ProtocolParameters{basicProtocolParameters: p.basicProtocolParameters})
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 5897b1404eb5608c07eba906db9aec10d00fe811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 13/25] fix: reject truncated Ed25519 signatures instead of
 panicking

---
 signature_ed25519.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/signature_ed25519.go b/signature_ed25519.go
index 6c2e492..9f74363 100644
--- a/signature_ed25519.go
+++ b/signature_ed25519.go
@@ -38,6 +38,9 @@ func (e *Ed25519Signature) Clone() Signature {
 }
 
 func (e *Ed25519Signature) Decode(b []byte) (int, error) {
+	if len(b) < Ed25519SignatureSerializedBytesSize-1 {
+		return 0, ierrors.Errorf("invalid length for ed25519 signature, expected at least %d bytes, got %d bytes", Ed25519SignatureSerializedBytesSize-1, len(b))
+	}
 	copy(e.PublicKey[:], b[:ed25519.PublicKeySize])
 	copy(e.Signature[:], b[ed25519.PublicKeySize:])
 
-- 
2.43.0


From 1bac68111cfe4b2bcf4acd686212f6dce3efe722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:14 +0000
Subject: [PATCH 14/25] fix: reject identifier texts of the wrong length
 instead of panicking or leaving bytes unset

---
 block_id.gen.go              | 4 ++++
 commitment_id.gen.go         | 4 ++++
 gen/identifier.tmpl          | 4 ++++
 gen/slot_identifier.tmpl     | 4 ++++
 identifier.gen.go            | 4 ++++
 identifier_account.gen.go    | 4 ++++
 identifier_anchor.gen.go     | 4 ++++
 output_id.gen.go             | 4 ++++
 signed_transaction_id.gen.go | 4 ++++
 transaction_id.gen.go        | 4 ++++
 10 files changed, 40 insertions(+)

diff --git a/block_id.gen.go b/block_id.gen.go
index e98d820..7a65654 100644
--- a/block_id.gen.go
+++ b/block_id.gen.go
@@ -92,6 +92,10 @@ func (b BlockID) MarshalText() (text []byte, err error) {
 }
 
 func (b *BlockID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(BlockIDLength) {
+		return ierrors.Errorf("invalid length for BlockID, expected %d hex digits, got %d", hex.EncodedLen(BlockIDLength), len(text))
+	}
+
 	_, err := hex.Decode(b[:], text)
 
 	return err
diff --git a/commitment_id.gen.go b/commitment_id.gen.go
index 1ea2a0f..ea1f9ae 100644
--- a/commitment_id.gen.go
+++ b/commitment_id.gen.go
@@ -92,6 +92,10 @@ func (c CommitmentID) MarshalText() (text []byte, err error) {
 }
 
 func (c *CommitmentID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(CommitmentIDLength) {
+		return ierrors.Errorf("invalid length for CommitmentID, expected %d hex digits, got %d", hex.EncodedLen(CommitmentIDLength), len(text))
+	}
+
 	_, err := hex.Decode(c[:], text)
 
 	return err
diff --git a/gen/identifier.tmpl b/gen/identifier.tmpl
index 114670f..037e020 100644
--- a/gen/identifier.tmpl
+++ b/gen/identifier.tmpl
@@ -84,6 +84,10 @@ func ({{.Receiver}} {{.Name}}) MarshalText() (text []byte, err error) {
 }
 
 func ({{.Receiver}} *{{.Name}}) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen({{.Name}}Length) {
+		return ierrors.Errorf("invalid length for {{.Name}}, expected %d hex digits, got %d", hex.EncodedLen({{.Name}}Length), len(text))
+	}
+
 	_, err := hex.Decode({{.Receiver}}[:], text)
 
 	return err
diff --git a/gen/slot_identifier.tmpl b/gen/slot_identifier.tmpl
index 4ee3a39..ed99730 100644
--- a/gen/slot_identifier.tmpl
+++ b/gen/slot_identifier.tmpl
@@ -108,6 +108,10 @@ func ({{.Receiver}} {{.Name}}) MarshalText() (text []byte, err error) {
 }
 
 func ({{.Receiver}} *{{.Name}}) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen({{.Name}}Length) {
+		return ierrors.Errorf("invalid length for {{.Name}}, expected %d hex digits, got %d", hex.EncodedLen({{.Name}}Length), len(text))
+	}
+
 	_, err := hex.Decode({{.Receiver}}[:], text)
 
 	return err
diff --git a/identifier.gen.go b/identifier.gen.go
index 9039988..616c0d9 100644
--- a/identifier.gen.go
+++ b/identifier.gen.go
@@ -84,6 +84,10 @@ func (i Identifier) MarshalText() (text []byte, err error) {
 }
 
 func (i *Identifier) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(IdentifierLength) {
+		return ierrors.Errorf("invalid length for Identifier, expected %d hex digits, got %d", hex.EncodedLen(IdentifierLength), len(text))
+	}
+
 	_, err := hex.Decode(i[:], text)
 
 	return err
diff --git a/identifier_account.gen.go b/identifier_account.gen.go
index 155f55d..d429c88 100644
--- a/identifier_account.gen.go
+++ b/identifier_account.gen.go
@@ -84,6 +84,10 @@ func (a AccountID) MarshalText() (text []byte, err error) {
 }
 
 func (a *AccountID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(AccountIDLength) {
+		return ierrors.Errorf("invalid length for AccountID, expected %d hex digits, got %d", hex.EncodedLen(AccountIDLength), len(text))
+	}
+
 	_, err := hex.Decode(a[:], text)
 
 	return err
diff --git a/identifier_anchor.gen.go b/identifier_anchor.gen.go
index 32f009d..b38afdf 100644
--- a/identifier_anchor.gen.go
+++ b/identifier_anchor.gen.go
@@ -84,6 +84,10 @@ func (a AnchorID) MarshalText() (text []byte, err error) {
 }
 
 func (a *AnchorID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(AnchorIDLength) {
+		return ierrors.Errorf("invalid length for AnchorID, expected %d hex digits, got %d", hex.EncodedLen(AnchorIDLength), len(text))
+	}
+
 	_, err := hex.Decode(a[:], text)
 
 	return err
diff --git a/output_id.gen.go b/output_id.gen.go
index 77af5e6..c22c22d 100644
--- a/output_id.gen.go
+++ b/output_id.gen.go
@@ -82,6 +82,10 @@ func (o OutputID) MarshalText() (text []byte, err error) {
 }
 
 func (o *OutputID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(OutputIDLength) {
+		return ierrors.Errorf("invalid length for OutputID, expected %d hex digits, got %d", hex.EncodedLen(OutputIDLength), len(text))
+	}
+
 	_, err := hex.Decode(o[:], text)
 
 	return err
diff --git a/signed_transaction_id.gen.go b/signed_transaction_id.gen.go
index 8ecf09f..38dd91c 100644
--- a/signed_transaction_id.gen.go
+++ b/signed_transaction_id.gen.go
@@ -92,6 +92,10 @@ func (t SignedTransactionID) MarshalText() (text []byte, err error) {
 }
 
 func (t *SignedTransactionID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(SignedTransactionIDLength) {
+		return ierrors.Errorf("invalid length for SignedTransactionID, expected %d hex digits, got %d", hex.EncodedLen(SignedTransactionIDLength), len(text))
+	}
+
 	_, err := hex.Decode(t[:], text)
 
 	return err
diff --git a/transaction_id.gen.go b/transaction_id.gen.go
index 85b702b..4cf9df0 100644
--- a/transaction_id.gen.go
+++ b/transaction_id.gen.go
@@ -92,6 +92,10 @@ func (t TransactionID) MarshalText() (text []byte, err error) {
 }
 
 func (t *TransactionID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(TransactionIDLength) {
+		return ierrors.Errorf("invalid length for TransactionID, expected %d hex digits, got %d", hex.EncodedLen(TransactionIDLength), len(text))
+	}
+
 	_, err := hex.Decode(t[:], text)
 
 	return err
-- 
2.43.0


From cd5d9e12a4012df3387e2ed28fdb403b64446f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:19 +0000
Subject: [PATCH 15/25] fix: report the number of bytes identifiers are read
 from

---
 gen/identifier.tmpl       | 2 +-
 identifier.gen.go         | 2 +-
 identifier_account.gen.go | 2 +-
 identifier_anchor.gen.go  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gen/identifier.tmpl b/gen/identifier.tmpl
index 037e020..bb05556 100644
--- a/gen/identifier.tmpl
+++ b/gen/identifier.tmpl
@@ -69,7 +69,7 @@ func {{.Name}}FromBytes(bytes []byte) ({{.Name}}, int, error) {
 	}
 	copy({{.Receiver}}[:], bytes)
 
-	return {{.Receiver}}, len(bytes), nil
+	return {{.Receiver}}, {{.Name}}Length, nil
 }
 
 func ({{.Receiver}} {{.Name}}) Bytes() ([]byte, error) {
diff --git a/identifier.gen.go b/identifier.gen.go
index 616c0d9..def82ab 100644
--- a/identifier.gen.go
+++ b/identifier.gen.go
@@ -69,7 +69,7 @@ func IdentifierFromBytes(bytes []byte) (Identifier, int, error) {
 	}
 	copy(i[:], bytes)
 
-	return i, len(bytes), nil
+	return i, IdentifierLength, nil
 }
 
 func (i Identifier) Bytes() ([]byte, error) {
diff --git a/identifier_account.gen.go b/identifier_account.gen.go
index d429c88..9f35098 100644
--- a/identifier_account.gen.go
+++ b/identifier_account.gen.go
@@ -69,7 +69,7 @@ func AccountIDFromBytes(bytes []byte) (AccountID, int, error) {
 	}
 	copy(a[:], bytes)
 
-	return a, len(bytes), nil
+	return a, AccountIDLength, nil
 }
 
 func (a AccountID) Bytes() ([]byte, error) {
diff --git a/identifier_anchor.gen.go b/identifier_anchor.gen.go
index b38afdf..fae57d4 100644
--- a/identifier_anchor.gen.go
+++ b/identifier_anchor.gen.go
@@ -69,7 +69,7 @@ func AnchorIDFromBytes(bytes []byte) (AnchorID, int, error) {
 	}
 	copy(a[:], bytes)
 
-	return a, len(bytes), nil
+	return a, AnchorIDLength, nil
 }
 
 func (a AnchorID) Bytes() ([]byte, error) {
-- 
2.43.0


From ac3a7cab1b71783ab8f972793bc6f425ee450695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:35 +0000
Subject: [PATCH 16/25] fix: reject hex output ids of the wrong length instead
 of panicking or truncating

---
 output_id.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/output_id.go b/output_id.go
index 2677f9d..59510d0 100644
--- a/output_id.go
+++ b/output_id.go
@@ -85,6 +85,9 @@ func (oih OutputIDHex) SplitParts() (*TransactionID, uint16, error) {
 	if err != nil {
 		return nil, 0, err
 	}
+	if err := IsValidOutputID(outputIDBytes); err != nil {
+		return nil, 0, err
+	}
 	var txID TransactionID
 	copy(txID[:], outputIDBytes[:TransactionIDLength])
 	outputIndex := binary.LittleEndian.Uint16(outputIDBytes[TransactionIDLength : TransactionIDLength+serializer.UInt16ByteSize])
@@ -139,6 +142,9 @@ func (ids HexOutputIDs) OutputIDs() (OutputIDs, error) {
 		if err != nil {
 			return nil, err
 		}
+		if err := IsValidOutputID(val); err != nil {
+			return nil, err
+		}
 		copy(vals[i][:], val)
 	}
 
-- 
2.43.0


From 64ed4179dfd2208dd2cc356f5bbe5f2099dd8126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:35 +0000
Subject: [PATCH 17/25] fix: reject hex identifiers that are longer than the
 identifier

---
 block_id.gen.go              | 4 ++++
 commitment_id.gen.go         | 4 ++++
 gen/identifier.tmpl          | 4 ++++
 gen/slot_identifier.tmpl     | 4 ++++
 identifier.gen.go            | 4 ++++
 identifier_account.gen.go    | 4 ++++
 identifier_anchor.gen.go     | 4 ++++
 output_id.gen.go             | 4 ++++
 signed_transaction_id.gen.go | 4 ++++
 transaction_id.gen.go        | 4 ++++
 10 files changed, 40 insertions(+)

diff --git a/block_id.gen.go b/block_id.gen.go
index 7a65654..5a73dde 100644
--- a/block_id.gen.go
+++ b/block_id.gen.go
@@ -47,6 +47,10 @@ func BlockIDFromHexString(hex string) (BlockID, error) {
 		return EmptyBlockID, err
 	}
 
+	if err := IsValidBlockID(b); err != nil {
+		return EmptyBlockID, err
+	}
+
 	s, _, err := BlockIDFromBytes(b)
 
 	return s, err
diff --git a/commitment_id.gen.go b/commitment_id.gen.go
index ea1f9ae..d6dbf7d 100644
--- a/commitment_id.gen.go
+++ b/commitment_id.gen.go
@@ -47,6 +47,10 @@ func CommitmentIDFromHexString(hex string) (CommitmentID, error) {
 		return EmptyCommitmentID, err
 	}
 
+	if err := IsValidCommitmentID(b); err != nil {
+		return EmptyCommitmentID, err
+	}
+
 	s, _, err := CommitmentIDFromBytes(b)
 
 	return s, err
diff --git a/gen/identifier.tmpl b/gen/identifier.tmpl
index bb05556..417ae56 100644
--- a/gen/identifier.tmpl
+++ b/gen/identifier.tmpl
@@ -38,6 +38,10 @@ func {{.Name}}FromHexString(hex string) ({{.Name}}, error) {
 		return Empty{{.Name}}, err
 	}
 
+	if err := IsValid{{.Name}}(bytes); err != nil {
+		return Empty{{.Name}}, err
+	}
+
 	{{.Receiver}}, _, err := {{.Name}}FromBytes(bytes)
 
 	return {{.Receiver}}, err
diff --git a/gen/slot_identifier.tmpl b/gen/slot_identifier.tmpl
index ed99730..3fae5a9 100644
--- a/gen/slot_identifier.tmpl
+++ b/gen/slot_identifier.tmpl
@@ -63,6 +63,10 @@ func {{.Name}}FromHexString(hex string) ({{.Name}}, error) {
 		return Empty{{.Name}}, err
 	}
 
+	if err := IsValid{{.Name}}(b); err != nil {
+		return Empty{{.Name}}, err
+	}
+
 	s, _, err := {{.Name}}FromBytes(b)
 
 	return s, err
diff --git a/identifier.gen.go b/identifier.gen.go
index def82ab..464671d 100644
--- a/identifier.gen.go
+++ b/identifier.gen.go
@@ -38,6 +38,10 @@ func IdentifierFromHexString(hex string) (Identifier, error) {
 		return EmptyIdentifier, err
 	}
 
+	if err := IsValidIdentifier(bytes); err != nil {
+		return EmptyIdentifier, err
+	}
+
 	i, _, err := IdentifierFromBytes(bytes)
 
 	return i, err
diff --git a/identifier_account.gen.go b/identifier_account.gen.go
index 9f35098..f822772 100644
--- a/identifier_account.gen.go
+++ b/identifier_account.gen.go
@@ -38,6 +38,10 @@ func AccountIDFromHexString(hex string) (AccountID, error) {
 		return EmptyAccountID, err
 	}
 
+	if err := IsValidAccountID(bytes); err != nil {
+		return EmptyAccountID, err
+	}
+
 	a, _, err := AccountIDFromBytes(bytes)
 
 	return a, err
diff --git a/identifier_anchor.gen.go b/identifier_anchor.gen.go
index fae57d4..9021507 100644
--- a/identifier_anchor.gen.go
+++ b/identifier_anchor.gen.go
@@ -38,6 +38,10 @@ func AnchorIDFromHexString(hex string) (AnchorID, error) {
 		return EmptyAnchorID, err
 	}
 
+	if err := IsValidAnchorID(bytes); err != nil {
+		return EmptyAnchorID, err
+	}
+
 	a, _, err := AnchorIDFromBytes(bytes)
 
 	return a, err
diff --git a/output_id.gen.go b/output_id.gen.go
index c22c22d..eaf1e80 100644
--- a/output_id.gen.go
+++ b/output_id.gen.go
@@ -37,6 +37,10 @@ func OutputIDFromHexString(hex string) (OutputID, error) {
 		return EmptyOutputID, err
 	}
 
+	if err := IsValidOutputID(b); err != nil {
+		return EmptyOutputID, err
+	}
+
 	s, _, err := OutputIDFromBytes(b)
 
 	return s, err
diff --git a/signed_transaction_id.gen.go b/signed_transaction_id.gen.go
index 38dd91c..ff6d17c 100644
--- a/signed_transaction_id.gen.go
+++ b/signed_transaction_id.gen.go
@@ -47,6 +47,10 @@ func SignedTransactionIDFromHexString(hex string) (SignedTransactionID, error) {
 		return EmptySignedTransactionID, err
 	}
 
+	if err := IsValidSignedTransactionID(b); err != nil {
+		return EmptySignedTransactionID, err
+	}
+
 	s, _, err := SignedTransactionIDFromBytes(b)
 
 	return s, err
diff --git a/transaction_id.gen.go b/transaction_id.gen.go
index 4cf9df0..228502c 100644
--- a/transaction_id.gen.go
+++ b/transaction_id.gen.go
@@ -47,6 +47,10 @@ func TransactionIDFromHexString(hex string) (TransactionID, error) {
 		return EmptyTransactionID, err
 	}
 
+	if err := IsValidTransactionID(b); err != nil {
+		return EmptyTransactionID, err
+	}
+
 	s, _, err := TransactionIDFromBytes(b)
 
 	return s, err
-- 
2.43.0


From 745ad1bf11d844c8929f4d2d032da12945b88084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:49 +0000
Subject: [PATCH 18/25] fix: decode block issuer keys into an addressable
 interface

---
 block_issuer_key.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block_issuer_key.go b/block_issuer_key.go
index 7f6a39e..45cfad5 100644
--- a/block_issuer_key.go
+++ b/block_issuer_key.go
@@ -177,7 +177,7 @@ func BlockIssuerKeyFromReader(reader io.ReadSeeker) (BlockIssuerKey, error) {
 func BlockIssuerKeyFromBytes(bytes []byte) (BlockIssuerKey, int, error) {
 	var blockIssuerKey BlockIssuerKey
 
-	n, err := CommonSerixAPI().Decode(context.TODO(), bytes, blockIssuerKey)
+	n, err := CommonSerixAPI().Decode(context.TODO(), bytes, &blockIssuerKey)
 	if err != nil {
 		return nil, 0, ierrors.Wrap(err, "unable to decode block issuer key")
 	}
-- 
2.43.0


From 484b056977737ab335663e645c0f7d0331aca4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:30 +0000
Subject: [PATCH 19/25] fix: attach the block issuer and staking features
 created by account output transitions

---
 builder/output_builder_account.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/output_builder_account.go b/builder/output_builder_account.go
index 37a659e..fdb9b1c 100644
--- a/builder/output_builder_account.go
+++ b/builder/output_builder_account.go
@@ -169,6 +169,7 @@ func (builder *AccountOutputBuilder) BlockIssuerTransition() *BlockIssuerTransit
 			BlockIssuerKeys: iotago.NewBlockIssuerKeys(),
 			ExpirySlot:      0,
 		}
+		builder.output.Features.Upsert(blockIssuerFeature)
 	}
 
 	return &BlockIssuerTransition{
@@ -188,6 +189,7 @@ func (builder *AccountOutputBuilder) StakingTransition() *StakingTransition {
 			StartEpoch:   0,
 			EndEpoch:     0,
 		}
+		builder.output.Features.Upsert(stakingFeature)
 	}
 
 	return &StakingTransition{
-- 
2.43.0


From f4915048906d502e59880d85d997ae53aa5b4861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:52 +0000
Subject: [PATCH 20/25] fix: resolve the chain IDs of newly created chains in
 the transaction builder

---
 builder/transaction_builder.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/builder/transaction_builder.go b/builder/transaction_builder.go
index 1584b8e..35bbfd9 100644
--- a/builder/transaction_builder.go
+++ b/builder/transaction_builder.go
@@ -610,7 +610,13 @@ func (b *TransactionBuilder) CalculateAvailableManaInputs(targetSlot iotago.Slot
 				return nil, ierrors.Wrap(err, "failed to add input mana")
 			}
 
-			if err := result.AddAccountBoundMana(accountOutput.AccountID, inputTotalMana); err != nil {
+			// the account ID is only set after the first transition of the account
+			accountID := accountOutput.AccountID
+			if accountID.Empty() {
+				accountID = iotago.AccountIDFromOutputID(inputID)
+			}
+
+			if err := result.AddAccountBoundMana(accountID, inputTotalMana); err != nil {
 				return nil, err
 			}
 		} else {
@@ -732,7 +738,7 @@ func (b *TransactionBuilder) build(signEssence bool) (*iotago.SignedTransaction,
 
 			// always mark the chain as unlocked in case the output is a chain output.
 			// e.g. "an NFT owns an NFT".
-			unlockedSet.addChainAsUnlocked(inputs[inputIndex], inputIndex)
+			unlockedSet.addChainAsUnlocked(inputIDs[inputIndex], inputs[inputIndex], inputIndex)
 
 			// skip the rest of the input processing because we don't need to sign chain inputs
 			continue
@@ -777,7 +783,7 @@ func (b *TransactionBuilder) build(signEssence bool) (*iotago.SignedTransaction,
 
 		// always mark the chain as unlocked in case the output is a chain output
 		// e.g. "an NFT owned by an ed25519 address".
-		unlockedSet.addChainAsUnlocked(inputs[inputIndex], inputIndex)
+		unlockedSet.addChainAsUnlocked(inputIDs[inputIndex], inputs[inputIndex], inputIndex)
 	}
 
 	sigTxPayload := &iotago.SignedTransaction{
@@ -826,9 +832,15 @@ func (u *txBuilderUnlockedSet) addSignerUID(signerUID iotago.Identifier, unlocke
 // addChainAsUnlocked marks the underlying chain address as unlocked at "unlockedAtIndex".
 // This is only done if the output is a chain output and the chain ID is addressable,
 // which is only valid for AccountOutput, AnchorOutput and NFTOutput.
-func (u *txBuilderUnlockedSet) addChainAsUnlocked(input iotago.Output, unlockedAtIndex int) {
+func (u *txBuilderUnlockedSet) addChainAsUnlocked(inputID iotago.OutputID, input iotago.Output, unlockedAtIndex int) {
 	if chainInput, is := input.(iotago.ChainOutput); is && chainInput.ChainID().Addressable() {
-		u.unlockedChains[chainInput.ChainID().ToAddress().Key()] = unlockedAtIndex
+		chainID := chainInput.ChainID()
+		if utxoIDChainID, is := chainID.(iotago.UTXOIDChainID); is && chainID.Empty() {
+			// the chain ID is only set after the first transition of the chain
+			chainID = utxoIDChainID.FromOutputID(inputID)
+		}
+
+		u.unlockedChains[chainID.ToAddress().Key()] = unlockedAtIndex
 	}
 }
 
-- 
2.43.0


From 58c57e10ac17c1a04cf2905e3639af18d6c19017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:55 +0000
Subject: [PATCH 21/25] fix: report mana overflows of rewards and allotments in
 the transaction builder

---
 builder/transaction_builder.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/builder/transaction_builder.go b/builder/transaction_builder.go
index 35bbfd9..749fd8d 100644
--- a/builder/transaction_builder.go
+++ b/builder/transaction_builder.go
@@ -100,7 +100,12 @@ func (b *TransactionBuilder) AddBlockIssuanceCreditInput(blockIssuanceCreditInpu
 // AddRewardInput adds the given reward input to the builder.
 func (b *TransactionBuilder) AddRewardInput(rewardInput *iotago.RewardInput, mana iotago.Mana) *TransactionBuilder {
 	b.transaction.TransactionEssence.ContextInputs = append(b.transaction.TransactionEssence.ContextInputs, rewardInput)
-	b.rewards += mana
+
+	rewards, err := safemath.SafeAdd(b.rewards, mana)
+	if err != nil {
+		return b.setBuildError(ierrors.Wrap(err, "failed to add rewards"))
+	}
+	b.rewards = rewards
 
 	return b
 }
@@ -114,7 +119,12 @@ func (b *TransactionBuilder) IncreaseAllotment(accountID iotago.AccountID, value
 	// check if the allotment already exists and add the value on top
 	for _, allotment := range b.transaction.Allotments {
 		if allotment.AccountID == accountID {
-			allotment.Mana += value
+			allottedMana, err := safemath.SafeAdd(allotment.Mana, value)
+			if err != nil {
+				return b.setBuildError(ierrors.Wrapf(err, "failed to increase the allotment of account %s", accountID.ToHex()))
+			}
+			allotment.Mana = allottedMana
+
 			return b
 		}
 	}
-- 
2.43.0


From c57def86d8dc4ac8746ef18937411d016051172c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:10 +0000
Subject: [PATCH 22/25] fix: keys registered for a restricted address were
 never found by the signer

---
 address_signer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/address_signer.go b/address_signer.go
index 6dbcb7e..6248363 100644
--- a/address_signer.go
+++ b/address_signer.go
@@ -70,7 +70,12 @@ func NewInMemoryAddressSigner(addrKeys ...AddressKeys) AddressSigner {
 		addrKeys: map[string]interface{}{},
 	}
 	for _, c := range addrKeys {
-		ss.addrKeys[c.Address.Key()] = c.Keys
+		addr := c.Address
+		// the keys are looked up by the underlying address in case of a restricted address.
+		if restrictedAddr, isRestricted := addr.(*RestrictedAddress); isRestricted {
+			addr = restrictedAddr.Address
+		}
+		ss.addrKeys[addr.Key()] = c.Keys
 	}
 
 	return ss
-- 
2.43.0


From 8b10d86fa0193d67e80d4eff121b669648cec8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:51 +0000
Subject: [PATCH 23/25] fix: the indexer client panicked on malformed output
 IDs in an answer

---
 nodeclient/indexer_client.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nodeclient/indexer_client.go b/nodeclient/indexer_client.go
index 7f86996..e3698ae 100644
--- a/nodeclient/indexer_client.go
+++ b/nodeclient/indexer_client.go
@@ -81,7 +81,11 @@ func (resultSet *IndexerResultSet) Next() bool {
 
 // Outputs collects/fetches the outputs result from the query.
 func (resultSet *IndexerResultSet) Outputs(ctx context.Context) (iotago.Outputs[iotago.Output], error) {
-	outputIDs := resultSet.Response.Items.MustOutputIDs()
+	outputIDs, err := resultSet.Response.Items.OutputIDs()
+	if err != nil {
+		return nil, ierrors.Wrap(err, "unable to parse the output IDs")
+	}
+
 	outputs := make(iotago.Outputs[iotago.Output], len(outputIDs))
 	for i, outputID := range outputIDs {
 		output, err := resultSet.client.OutputByID(ctx, outputID)
@@ -163,7 +167,12 @@ func (client *indexerClient) singleOutputQuery(ctx context.Context, route string
 		return nil, nil, res.CommittedSlot, ierrors.WithMessagef(ErrIndexerNotFound, "route %s", route)
 	}
 
-	outputID := res.Items.MustOutputIDs()[0]
+	outputIDs, err := res.Items.OutputIDs()
+	if err != nil {
+		return nil, nil, res.CommittedSlot, ierrors.Wrap(err, "unable to parse the output IDs")
+	}
+
+	outputID := outputIDs[0]
 	output, err := client.core.OutputByID(ctx, outputID)
 	if err != nil {
 		return nil, nil, res.CommittedSlot, err
-- 
2.43.0


From 6b0c2d5862bc016440a42d4eb7eb28e061872e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:13 +0000
Subject: [PATCH 24/25] fix: the indexer client panicked when the indexer
 returned an output of another type

---
 nodeclient/indexer_client.go | 40 +++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/nodeclient/indexer_client.go b/nodeclient/indexer_client.go
index e3698ae..3ca4826 100644
--- a/nodeclient/indexer_client.go
+++ b/nodeclient/indexer_client.go
@@ -187,8 +187,12 @@ func (client *indexerClient) Account(ctx context.Context, accountAddress *iotago
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is an AccountOutput
-	return outputID, output.(*iotago.AccountOutput), ledgerIndex, nil
+	typedOutput, is := output.(*iotago.AccountOutput)
+	if !is {
+		return nil, nil, ledgerIndex, ierrors.Errorf("expected account output, got %T", output)
+	}
+
+	return outputID, typedOutput, ledgerIndex, nil
 }
 
 func (client *indexerClient) Anchor(ctx context.Context, anchorAddress *iotago.AnchorAddress) (*iotago.OutputID, *iotago.AnchorOutput, iotago.SlotIndex, error) {
@@ -197,8 +201,12 @@ func (client *indexerClient) Anchor(ctx context.Context, anchorAddress *iotago.A
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is an AnchorOutput
-	return outputID, output.(*iotago.AnchorOutput), ledgerIndex, nil
+	typedOutput, is := output.(*iotago.AnchorOutput)
+	if !is {
+		return nil, nil, ledgerIndex, ierrors.Errorf("expected anchor output, got %T", output)
+	}
+
+	return outputID, typedOutput, ledgerIndex, nil
 }
 
 func (client *indexerClient) Foundry(ctx context.Context, foundryID iotago.FoundryID) (*iotago.OutputID, *iotago.FoundryOutput, iotago.SlotIndex, error) {
@@ -207,8 +215,12 @@ func (client *indexerClient) Foundry(ctx context.Context, foundryID iotago.Found
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is an FoundryOutput
-	return outputID, output.(*iotago.FoundryOutput), ledgerIndex, nil
+	typedOutput, is := output.(*iotago.FoundryOutput)
+	if !is {
+		return nil, nil, ledgerIndex, ierrors.Errorf("expected foundry output, got %T", output)
+	}
+
+	return outputID, typedOutput, ledgerIndex, nil
 }
 
 func (client *indexerClient) NFT(ctx context.Context, nftAddress *iotago.NFTAddress) (*iotago.OutputID, *iotago.NFTOutput, iotago.SlotIndex, error) {
@@ -217,8 +229,12 @@ func (client *indexerClient) NFT(ctx context.Context, nftAddress *iotago.NFTAddr
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is an NFTOutput
-	return outputID, output.(*iotago.NFTOutput), ledgerIndex, nil
+	typedOutput, is := output.(*iotago.NFTOutput)
+	if !is {
+		return nil, nil, ledgerIndex, ierrors.Errorf("expected NFT output, got %T", output)
+	}
+
+	return outputID, typedOutput, ledgerIndex, nil
 }
 
 func (client *indexerClient) Delegation(ctx context.Context, delegationID iotago.DelegationID) (*iotago.OutputID, *iotago.DelegationOutput, iotago.SlotIndex, error) {
@@ -227,6 +243,10 @@ func (client *indexerClient) Delegation(ctx context.Context, delegationID iotago
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is a DelegationOutput
-	return outputID, output.(*iotago.DelegationOutput), ledgerIndex, nil
+	typedOutput, is := output.(*iotago.DelegationOutput)
+	if !is {
+		return nil, nil, ledgerIndex, ierrors.Errorf("expected delegation output, got %T", output)
+	}
+
+	return outputID, typedOutput, ledgerIndex, nil
 }
-- 
2.43.0


From 625a54848c7a66c1deca202743b6a773b38b93c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:41 +0000
Subject: [PATCH 25/25] fix: a foundry created by a converted implicit account
 crashed the virtual machine

---
 vm/nova/vm.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vm/nova/vm.go b/vm/nova/vm.go
index 9f41510..2f91ad8 100644
--- a/vm/nova/vm.go
+++ b/vm/nova/vm.go
@@ -808,8 +808,16 @@ func foundryGenesisValid(vmParams *vm.Params, current *iotago.FoundryOutput, thi
 		)
 	}
 
+	// an implicit account which is converted to an account in the same transaction can not create foundries
+	inAccountOutput, is := inAccount.Output.(*iotago.AccountOutput)
+	if !is {
+		return ierrors.WithMessagef(iotago.ErrFoundryTransitionWithoutAccount,
+			"input account %s for new foundry output %s is not an account output", accountID, thisFoundryID.ToHex(),
+		)
+	}
+
 	//nolint:forcetypeassert // we can safely assume that this is an AccountOutput
-	return foundrySerialNumberValid(vmParams, current, inAccount.Output.(*iotago.AccountOutput), outAccount.(*iotago.AccountOutput), thisFoundryID)
+	return foundrySerialNumberValid(vmParams, current, inAccountOutput, outAccount.(*iotago.AccountOutput), thisFoundryID)
 }
 
 func foundrySerialNumberValid(vmParams *vm.Params, current *iotago.FoundryOutput, inAccount *iotago.AccountOutput, outAccount *iotago.AccountOutput, thisFoundryID iotago.FoundryID) error {
-- 
2.43.0

