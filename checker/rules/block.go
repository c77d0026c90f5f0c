package rules

// P20: block validation.

func init() {
	register(&Prop{ID: "P20", Min: 8, Note: "block and block body validation", Run: func(c *Ctx) {
		fns := merge(synFns, map[string]M{
			"pp":     mac("ProtocolParameters(b.API)"),
			"weak":   mac("WeakParentIDs(b.Body)"),
			"strong": mac("StrongParentIDs(b.Body)"),
			"shal":   mac("ShallowLikeParentIDs(b.Body)"),
			"com":    mac("Slot(b.Header.SlotCommitmentID)"),
			"tx":     mac("as(b.Payload, *iotago.SignedTransaction, Transaction)"),
			"isTx":   mac("b.Payload != nil && PayloadType(b.Payload) == iotago.PayloadSignedTransaction && is(b.Payload, *iotago.SignedTransaction)"),
			"bp":     mac("ProtocolParameters(block.API)"),
			"ci":     mac("CommitmentInput(tx())"),
			"ciSlot": mac("Slot(CommitmentInput(tx()).CommitmentID)"),
			"young":  mac("s <= GenesisSlot(p) || at >= s + MinCommittableAge(p)", "p", "s", "at"),
			"old":    mac("at > s + MaxCommittableAge(p)", "p", "s", "at"),
		})
		blk := c.Sum(":Block.syntacticallyValidate", Opt{Names: []string{"b"}, Opaque: []string{"Size", "Slot"}, Fns: fns})
		blk.Require("fits the size limit", "Size(b) <= iotago.MaxBlockSize")
		blk.Require("version of the API at its slot", "Version(pp()) == b.Header.ProtocolVersion")
		blk.Require("network", "b.Header.NetworkID == NetworkID(pp())")
		blk.Require("weak parents are no strong parents", "all(w, weak(), all(s, strong(), w != s))")
		blk.Require("weak parents are not shallow liked", "all(w, weak(), all(s, shal(), w != s))")
		blk.Require("commitment not too recent", "young(pp(), com(), Slot(b))")
		blk.Require("commitment not too old", "!old(pp(), com(), Slot(b))")
		blk.Require("body valid", "ok(syntacticallyValidate(b.Body, b))")
		blk.Accepts("nothing else", `Size(b) <= iotago.MaxBlockSize && Version(pp()) == b.Header.ProtocolVersion && b.Header.NetworkID == NetworkID(pp()) &&
			all(w, weak(), all(s, strong(), w != s)) && all(w, weak(), all(s, shal(), w != s)) && young(pp(), com(), Slot(b)) && !old(pp(), com(), Slot(b)) &&
			ok(syntacticallyValidate(b.Body, b))`)
		basic := c.Sum(":BasicBlockBody.syntacticallyValidate", Opt{Names: []string{"b", "block"}, Opaque: []string{"Slot", "CommitmentInput"}, Fns: fns})
		basic.RequireIf("transaction not from the future", "isTx()", "tx().TransactionEssence.CreationSlot <= Slot(block)")
		basic.RequireIf("commitment input not too recent", "isTx() && ci() != nil", "young(bp(), ciSlot(), Slot(block))")
		basic.RequireIf("commitment input not too old", "isTx() && ci() != nil", "!old(bp(), ciSlot(), Slot(block))")
		basic.RequireIf("commitment input not newer than the block's commitment", "isTx() && ci() != nil", "ciSlot() <= Slot(block.Header.SlotCommitmentID)")
		basic.Accepts("transaction within the window", `isTx() && tx().TransactionEssence.CreationSlot <= Slot(block) && implies(ci() != nil, young(bp(), ciSlot(), Slot(block)) &&
			!old(bp(), ciSlot(), Slot(block)) && ciSlot() <= Slot(block.Header.SlotCommitmentID))`)
		basic.Accepts("other payloads", "b.Payload == nil || PayloadType(b.Payload) != iotago.PayloadSignedTransaction")
		cin := c.Sum(":Transaction.CommitmentInput", Opt{Names: []string{"t"}, Fns: fns})
		cin.Require("the commitment input of the transaction", "ret0 == nil || some(x, t.TransactionEssence.ContextInputs, is(x, *iotago.CommitmentInput) && x == ret0)")
		val := c.Sum(":ValidationBlockBody.syntacticallyValidate", Opt{Names: []string{"b", "block"}, Fns: fns})
		val.Exact("supports the version of its block", "", "b.HighestSupportedVersion >= block.Header.ProtocolVersion")
	}})
}
