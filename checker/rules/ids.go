package rules

import (
	"strings"
)

// P28: what identifiers, commitments and signing messages are computed from.

func init() {
	register(&Prop{ID: "P28", Min: 60, Note: "identifiers bind all content", Run: func(c *Ctx) {
		opaque := []string{"SlotFromTime", "HashValues", "merklehasher.NewHasher", "ContainsValue", "ComputeProofForIndex"}
		// val: on success the function returns exactly the specified value, and it succeeds exactly under the given condition.
		val := func(anchor, names, val, success string) *Sum {
			s := c.Sum(anchor, Opt{Names: strings.Fields(names), Opaque: opaque})
			if val != "" {
				s.Result("content", 0, "true", val)
			}
			if success != "" {
				s.Exact("succeeds", "true", success)
			}
			return s
		}
		enc := func(x string) string { return "res(Encode(" + x + ", nil), 0)" }
		encok := func(x string) string { return "res(Encode(" + x + ", nil), 1) == nil" }
		common := func(x string) string { return "iotago.CommonSerixAPI(), context.TODO(), " + x }
		sum := func(x string) string { return "blake2b.Sum256(" + x + ")" }
		slot := func(x string) string {
			return "SlotFromTime(TimeProvider(" + x + ".API), " + x + ".Header.IssuingTime)"
		}

		// blocks
		val("iotago:BlockHeader.Hash", "h api", sum(enc("api, h")), encok("api, h"))
		val("iotago:BasicBlockBody.Hash", "b", sum(enc("b.API, b")), encok("b.API, b"))
		val("iotago:ValidationBlockBody.Hash", "b", sum(enc("b.API, b")), encok("b.API, b"))
		head := sum(enc("b.API, b.Header"))
		val("iotago:Block.SigningMessage", "b", "cat("+head+", res(Hash(b.Body), 0))", encok("b.API, b.Header")+" && res(Hash(b.Body), 1) == nil")
		bid := func(x string) string {
			return sum("cat(" + sum(x+"[0:89]") + ", " + sum(x+"[89:len("+x+")-97]") + ", " + x + "[len(" + x + ")-97:])")
		}
		val("iotago:BlockIdentifierFromBlockBytes", "x", bid("x"), "len(x) >= 186")
		val("iotago:Block.ID", "b", "cat("+bid(enc("b.API, b"))+", le32("+slot("b")+"))", encok("b.API, b")+" && len("+enc("b.API, b")+") >= 186")
		val("iotago:Block.MustID", "b", "cat("+bid(enc("b.API, b"))+", le32("+slot("b")+"))", encok("b.API, b")+" && len("+enc("b.API, b")+") >= 186")
		val("iotago:Block.IDWithBlockIdentifier", "b i", "cat(i, le32("+slot("b")+"))", "true")
		val("iotago:Block.Slot", "b", slot("b"), "")
		val("iotago:Attestation.Slot", "a", slot("a"), "")
		ahead := sum(enc("a.API, a.Header"))
		val("iotago:Attestation.BlockID", "a", "cat("+sum("cat("+ahead+", a.BodyHash, "+enc("a.API, a.Signature")+")")+", le32("+slot("a")+"))",
			encok("a.API, a.Header")+" && "+encok("a.API, a.Signature"))
		val("iotago:NewAttestation", "api block", "&iotago.Attestation{API: api, Header: block.Header, BodyHash: res(Hash(block.Body), 0), Signature: block.Signature}", "res(Hash(block.Body), 1) == nil")
		val("iotago:Attestation.Bytes", "a", enc("a.API, a"), encok("a.API, a"))

		// transactions
		outs := "HashValues(merklehasher.NewHasher(17), collect(o, t.Outputs, true, &iotago.APIByter[iotago.TxEssenceOutput]{API: t.API, Value: o}))"
		ess, essok := sum(enc("t.API, t.TransactionEssence")), encok("t.API, t.TransactionEssence")
		val("iotago:APIByter.Bytes", "a", enc("a.API, a.Value"), encok("a.API, a.Value"))
		val("iotago:Transaction.TransactionCommitment", "t", ess, essok)
		val("iotago:Transaction.OutputCommitment", "t", "res("+outs+", 0)", "res("+outs+", 1) == nil")
		txid := "cat(" + sum("cat("+ess+", res("+outs+", 0))") + ", le32(t.CreationSlot))"
		for _, f := range []string{"ID", "MustID"} {
			val("iotago:Transaction."+f, "t", txid, essok+" && res("+outs+", 1) == nil")
		}
		val("iotago:TransactionIDFromTransactionCommitmentAndOutputCommitment", "slot t o", "cat("+sum("cat(t, o)")+", le32(slot))", "true")
		val("iotago:Transaction.SigningMessage", "t", sum(enc("t.API, t")), encok("t.API, t"))
		val("iotago:Transaction.OutputsSet", "t", "mapfill(o, t.Outputs, true, cat("+txid+", le16(o_i)), o)", essok+" && res("+outs+", 1) == nil")
		stx := "cat(" + sum("cat("+enc("t.API, t.Transaction")+", "+enc("t.API, t.Unlocks")+")") + ", le32(t.Transaction.CreationSlot))"
		for _, f := range []string{"ID", "MustID"} {
			val("iotago:SignedTransaction."+f, "t", stx, encok("t.API, t.Transaction")+" && "+encok("t.API, t.Unlocks"))
		}

		// outputs
		for _, f := range []string{"iotago:OutputIDFromTransactionIDAndIndex"} {
			val(f, "t i", "cat(t, le16(i))", "true")
		}
		val("iotago:UTXOInput.OutputID", "u", "cat(u.TransactionID, le16(u.TransactionOutputIndex))", "true")
		val("iotago:UTXOInput.CreationSlot", "u", "unle32(u.TransactionID[32:])", "true")
		val("iotago:OutputID.TransactionID", "o", "o[0:36]", "true")
		val("iotago:OutputID.CreationSlot", "o", "unle32(o[32:36])", "true")
		val("iotago:OutputID.Index", "o", "unle16(o[36:])", "true")
		val("iotago:OutputID.UTXOInput", "o", "&iotago.UTXOInput{TransactionID: o[0:36], TransactionOutputIndex: unle16(o[36:])}", "true")
		byt := "&iotago.APIByter[iotago.TxEssenceOutput]{API: p.API, Value: output}"
		cont := "ContainsValue(p.OutputCommitmentProof, " + byt + ", merklehasher.NewHasher(17))"
		val("iotago:OutputIDProof.OutputID", "p output", "cat("+sum("cat(p.TransactionCommitment, hash(p.OutputCommitmentProof.MerkleHashable, merklehasher.NewHasher(17)))")+", le32(p.Slot), le16(p.OutputIndex))",
			"res("+cont+", 0) && res("+cont+", 1) == nil && p.API != nil")
		prf := "ComputeProofForIndex(merklehasher.NewHasher(17), collect(o, tx.Outputs, true, &iotago.APIByter[iotago.TxEssenceOutput]{API: tx.API, Value: o}), index)"
		val("iotago:OutputIDProofFromTransaction", "tx index", "&iotago.OutputIDProof{API: tx.API, Slot: tx.CreationSlot, OutputIndex: index, TransactionCommitment: "+sum(enc("tx.API, tx.TransactionEssence"))+", OutputCommitmentProof: res("+prf+", 0)}",
			"tx.API != nil && "+encok("tx.API, tx.TransactionEssence")+" && index < len(tx.Outputs) && res("+prf+", 1) == nil")

		// slot commitments
		val("iotago:Commitment.ID", "c", "cat("+sum(enc(common("c")))+", le32(c.Slot))", encok(common("c")))
		val("iotago:Commitment.MustID", "c", "cat("+sum(enc(common("c")))+", le32(c.Slot))", encok(common("c")))
		rootList := "bytelist(r.TangleRoot, r.StateMutationRoot, r.StateRoot, r.AccountRoot, r.AttestationsRoot, r.CommitteeRoot, r.RewardsRoot, r.ProtocolParametersHash)"
		roots := "HashValues(merklehasher.NewHasher(17), " + rootList + ")"
		val("iotago:Roots.ID", "r", "res("+roots+", 0)", "res("+roots+", 1) == nil")
		for f, i := range map[string]string{"TangleProof": "0", "MutationProof": "1", "AttestationsProof": "4"} {
			prf := "ComputeProofForIndex(merklehasher.NewHasher(17), " + rootList + ", " + i + ")"
			val("iotago:Roots."+f, "r", "res("+prf+", 0)", "res("+prf+", 1) == nil")
		}
		val("iotago:NewRoots", "tangle mutation attestations state account committee rewards params", "&iotago.Roots{TangleRoot: tangle, StateMutationRoot: mutation, StateRoot: state, AccountRoot: account, AttestationsRoot: attestations, CommitteeRoot: committee, RewardsRoot: rewards, ProtocolParametersHash: params}", "true")
		cv := "ContainsValue(proof, value, merklehasher.NewHasher(17))"
		c.Sum("iotago:VerifyProof", Opt{Names: strings.Fields("proof value root"), Opaque: opaque}).
			ResultB("verifies", 0, "res("+cv+", 1) == nil", "res("+cv+", 0) && hash(proof.MerkleHashable, merklehasher.NewHasher(17)) == root")

		// identifiers with slots
		for _, n := range []string{"BlockID", "CommitmentID", "TransactionID", "SignedTransactionID"} {
			val("iotago:New"+n, "slot id", "cat(id, le32(slot))", "true")
			val("iotago:"+n+"RepresentingData", "slot data", "cat("+sum("data")+", le32(slot))", "true")
			val("iotago:"+n+".Index", "x", "unle32(x[32:])", "true")
		}
		for _, n := range []string{"BlockID", "CommitmentID", "TransactionID", "SignedTransactionID", "OutputID"} {
			val("iotago:"+n+".Identifier", "x", "x[0:32]", "true")
			val("iotago:"+n+".Slot", "x", map[bool]string{true: "unle32(x[32:36])", false: "unle32(x[32:])"}[n == "OutputID"], "true")
			val("iotago:"+n+"FromBytes", "x", "x", map[bool]string{true: "len(x) >= 38", false: "len(x) >= 36"}[n == "OutputID"])
			val("iotago:"+n+".Bytes", "x", "x", "true")
		}
		for _, n := range []string{"Identifier", "AccountID", "AnchorID"} {
			val("iotago:"+n+"FromData", "x", sum("x"), "true")
			val("iotago:"+n+"FromBytes", "x", "fit32(x)", "len(x) >= 32")
			val("iotago:"+n+".Bytes", "x", "x", "true")
		}

		// chains
		for _, n := range []string{"AccountID", "AnchorID", "NFTID", "DelegationID"} {
			val("iotago:"+n+"FromOutputID", "o", sum("o"), "true")
			val("iotago:"+n+".FromOutputID", "x o", "iface("+sum("o")+", iotago."+n+")", "true")
		}
		for _, n := range []string{"AccountAddress", "AnchorAddress", "NFTAddress"} {
			val("iotago:"+n+"FromOutputID", "o", sum("o"), "true")
		}
		for _, n := range []string{"Ed25519Address", "ImplicitAccountCreationAddress"} {
			val("iotago:"+n+"FromPubKey", "k", sum("k"), "true")
		}
		val("iotago:Ed25519PublicKeyHashBlockIssuerKeyFromPublicKey", "k", "&iotago.Ed25519PublicKeyHashBlockIssuerKey{PublicKeyHash: "+sum("k")+"}", "true")

		// addresses
		for _, n := range []string{"Ed25519Address", "AccountAddress", "AnchorAddress", "NFTAddress", "ImplicitAccountCreationAddress"} {
			val("iotago:"+n+".ID", "a", enc(common("a")), encok(common("a")))
		}
		val("iotago:MultiAddress.ID", "a", "cat(bytelist(40), "+sum(enc(common("a")))+")", encok(common("a")))
		val("iotago:RestrictedAddress.ID", "a", "cat(bytelist(48), ID(a.Address), "+enc(common("a.AllowedCapabilities"))+")", encok(common("a.AllowedCapabilities")))

		// parameters
		val("iotago:NetworkIDFromString", "x", "unle64("+sum("x")+"[0:8])", "true")
		self := common("&iotago.V3ProtocolParameters{basicProtocolParameters: p.basicProtocolParameters}")
		params := "ifte(len(p.bytes) > 0, p.bytes, " + enc(self) + ")"
		val("iotago:V3ProtocolParameters.Hash", "p", sum(params), "len(p.bytes) > 0 || "+encok(self))
		val("iotago:V3ProtocolParameters.NetworkID", "p", "unle64("+sum("p.basicProtocolParameters.NetworkName")+"[0:8])", "true")
		val("iotago:V3ProtocolParameters.Bytes", "p", params, "len(p.bytes) > 0 || "+encok(self))
	}})
}
