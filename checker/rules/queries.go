package rules

func init() {
	register(&Prop{
		ID:   "P44",
		Note: "questions wallets and nodes ask about outputs, transactions and blocks are answered with what the consensus rules and the fields say",
		Min:  24,
		Run:  func(c *Ctx) { c.queries() },
	})
}

func (c *Ctx) queries() {
	c.unlockable()
	c.transactionQueries()
}

// unlockable: UnlockableBy of every output type says what the unlock rules of the virtual machine enforce (P03).
func (c *Ctx) unlockable() {
	fns := map[string]M{
		"hasTL":   mac("has(UnlockConditionSet(o), iotago.UnlockConditionTimelock)"),
		"hasEX":   mac("has(UnlockConditionSet(o), iotago.UnlockConditionExpiration)"),
		"tl":      mac("as(at(UnlockConditionSet(o), iotago.UnlockConditionTimelock), *iotago.TimelockUnlockCondition, Slot)"),
		"ex":      mac("as(at(UnlockConditionSet(o), iotago.UnlockConditionExpiration), *iotago.ExpirationUnlockCondition, Slot)"),
		"exRet":   mac("as(at(UnlockConditionSet(o), iotago.UnlockConditionExpiration), *iotago.ExpirationUnlockCondition, ReturnAddress)"),
		"late":    mac("hasEX() && future >= ex()"),
		"early":   mac("!hasEX() || past < ex()"),
		"expired": mac("!hasTL() || tl() <= future"),
	}
	for _, t := range []string{"BasicOutput", "AccountOutput", "FoundryOutput", "NFTOutput", "DelegationOutput"} {
		s := c.Sum(":"+t+".UnlockableBy", Opt{Names: []string{"o", "addr", "past", "future"}, Opaque: []string{"Owner", "Equal", "UnlockConditionSet"}, Assume: keyedSet("UnlockConditionSet", "o"), Fns: fns})
		s.ResultB("the return address once expired, the owner before, nobody while locked", 0, "", "expired() && ifte(late(), Equal(addr, exRet()), early() && Equal(addr, Owner(o)))")
	}
	an := c.Sum(":AnchorOutput.UnlockableBy", Opt{Names: []string{"o", "addr", "next", "past", "future"}, Opaque: []string{"Owner", "Equal", "UnlockConditionSet"}, Assume: keyedSet("UnlockConditionSet", "o"), Fns: fns})
	an.Exact("answers whenever the next state determines the owner", "", "ok(Owner(o, next), 1)")
	an.ResultB("the owner the transition asks for", 0, "ok(Owner(o, next), 1)", "expired() && ifte(late(), Equal(addr, exRet()), early() && Equal(addr, res(Owner(o, next), 0)))")
}

func (c *Ctx) transactionQueries() {
	t := func(m string) *Sum {
		return c.Sum(":Transaction."+m, Opt{Names: []string{"t"}, Assume: "t != nil && t.TransactionEssence != nil && all(i, t.TransactionEssence.Inputs, is(i, *iotago.UTXOInput)) && " +
			"all(i, t.TransactionEssence.ContextInputs, is(i, *iotago.CommitmentInput) || is(i, *iotago.BlockIssuanceCreditInput) || is(i, *iotago.RewardInput))"})
	}
	t("Inputs").ResultAny("the inputs in order", 0, "collect(i, t.TransactionEssence.Inputs, true, i)", "collect(i, t.TransactionEssence.Inputs, true, ifte(is(i, *iotago.UTXOInput), i, nil))").NoPanic("for every known input", "")
	t("ContextInputs").ResultAny("the context inputs in order", 0, "collect(i, t.TransactionEssence.ContextInputs, true, i)",
		"collect(i, t.TransactionEssence.ContextInputs, true, ifte(is(i, *iotago.CommitmentInput) || is(i, *iotago.BlockIssuanceCreditInput) || is(i, *iotago.RewardInput), i, nil))").NoPanic("for every known context input", "")
	t("BICInputs").Result("the block issuance credit inputs in order", 0, "", "collect(i, t.TransactionEssence.ContextInputs, is(i, *iotago.BlockIssuanceCreditInput), i)").NoPanic("for every known context input", "")
	t("RewardInputs").Result("the reward inputs in order", 0, "", "collect(i, t.TransactionEssence.ContextInputs, is(i, *iotago.RewardInput), i)").NoPanic("for every known context input", "")
	ci := t("CommitmentInput")
	ci.NoPanic("for every known context input", "")
	ci.Result("none", 0, "!some(i, t.TransactionEssence.ContextInputs, is(i, *iotago.CommitmentInput))", "nil")

	for _, k := range []string{"Strong", "Weak", "ShallowLike"} {
		c.Sum(":BasicBlockBody."+k+"ParentIDs", Opt{Names: []string{"b"}}).Result("the field", 0, "", "b."+k+"Parents")
		c.Sum(":ValidationBlockBody."+k+"ParentIDs", Opt{Names: []string{"b"}}).Result("the field", 0, "", "b."+k+"Parents")
	}
}
