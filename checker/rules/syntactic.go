package rules

import "strings"

// P16, P18, P19, P30: what a transaction must satisfy before it is executed.

// the output rules a transaction is validated against, in no particular order
var outRules = []string{"UnlockConditionLexicalOrderAndUniqueness", "FeaturesLexicalOrderAndUniqueness", "MetadataFeatureMaxSize", "DepositAmount",
	"ExpirationAndTimelock", "NativeTokens", "StoredMana", "ChainConstrainedOutputUniqueness", "Foundry", "Account", "Anchor", "NFT", "Delegation",
	"AddressRestrictions", "ImplicitAccountCreationAddress", "CommitmentInput"}

func outRuleOpaque(except ...string) []string {
	var r []string
	for _, n := range outRules {
		keep := true
		for _, x := range except {
			keep = keep && x != n
		}
		if keep {
			r = append(r, "iotago.OutputsSyntactical"+n)
		}
	}
	return append(r, "syntacticallyValidateEssence")
}

// outRule summarises one stateless per-output rule.
func (c *Ctx) outRule(name string, opaque ...string) *Sum {
	outer := map[string][]string{"DepositAmount": {"pp", "sss"}, "StoredMana": {"max"}, "CommitmentInput": {"has"}}[name]
	return c.Sum(":OutputsSyntactical"+name+"()", Opt{Outer: outer, Names: []string{"idx", "o"}, Opaque: opaque, Fns: synFns})
}

// rule: a stateless output rule decides exactly spec, and transaction validation applies it to every output.
func (c *Ctx) rule(name, label, premise, spec string, opaque ...string) {
	c.outRule(name, opaque...).Exact(label, premise, spec)
	sp := strings.NewReplacer(", has)", ", hasCommit())").Replace(spec)
	if premise == "" {
		premise = "true"
	}
	c.txWith(opaque, name).Require("every output: "+label, "all(o, t.Outputs, implies("+premise+", "+sp+"))")
}

// txWith summarises transaction validation with only the given output rules expanded.
func (c *Ctx) txWith(opaque []string, rules ...string) *Sum {
	return c.Sum(":Transaction.SyntacticallyValidate", Opt{Names: []string{"t", "api"}, Opaque: append(outRuleOpaque(rules...), opaque...), Fns: synFns})
}

// uc and ft read one entry of an object's unlock condition / feature set.
var synFns = merge(vmFns, exFns, map[string]M{
	"sdr":    mac("hasSDR(o) && is(at(UnlockConditionSet(o), iotago.UnlockConditionStorageDepositReturn), *iotago.StorageDepositReturnUnlockCondition)", "o"),
	"uc":     mac("at(UnlockConditionSet(o), code)", "o", "code"),
	"isUC":   mac("has(UnlockConditionSet(o), code)", "o", "code"),
	"addrOf": mac("as(at(UnlockConditionSet(o), iotago.UnlockConditionAddress), *iotago.AddressUnlockCondition, Address)", "o"),
	"sctlOf": mac("as(at(UnlockConditionSet(o), iotago.UnlockConditionStateControllerAddress), *iotago.StateControllerAddressUnlockCondition, Address)", "o"),
	"govOf":  mac("as(at(UnlockConditionSet(o), iotago.UnlockConditionGovernorAddress), *iotago.GovernorAddressUnlockCondition, Address)", "o"),
	"supply": mac("TokenSupply(ProtocolParameters(api))"),
	"amtB4":  mac("pre(sum(p, t.Outputs, true, BaseTokenAmount(p)))"),
	"manaB4": mac("pre(sum(p, t.Outputs, true, StoredMana(p)))"),
	"cover":  mac("CoversMinDeposit(StorageScoreStructure(api), o, BaseTokenAmount(o))", "o"),
	"retMin": mac("MinStorageDepositForReturnOutput(StorageScoreStructure(api), sdrRet(o))", "o"),
	"amtOf":  mac("BaseTokenAmount(o)", "o"),
	// what the serializer guarantees about a decoded output
	"wfUC": mac(`implies(has(UnlockConditionSet(o), iotago.UnlockConditionAddress), is(at(UnlockConditionSet(o), iotago.UnlockConditionAddress), *iotago.AddressUnlockCondition)) &&
		implies(has(UnlockConditionSet(o), iotago.UnlockConditionStorageDepositReturn), is(at(UnlockConditionSet(o), iotago.UnlockConditionStorageDepositReturn), *iotago.StorageDepositReturnUnlockCondition)) &&
		implies(has(UnlockConditionSet(o), iotago.UnlockConditionTimelock), is(at(UnlockConditionSet(o), iotago.UnlockConditionTimelock), *iotago.TimelockUnlockCondition)) &&
		implies(has(UnlockConditionSet(o), iotago.UnlockConditionExpiration), is(at(UnlockConditionSet(o), iotago.UnlockConditionExpiration), *iotago.ExpirationUnlockCondition)) &&
		implies(has(UnlockConditionSet(o), iotago.UnlockConditionStateControllerAddress), is(at(UnlockConditionSet(o), iotago.UnlockConditionStateControllerAddress), *iotago.StateControllerAddressUnlockCondition)) &&
		implies(has(UnlockConditionSet(o), iotago.UnlockConditionGovernorAddress), is(at(UnlockConditionSet(o), iotago.UnlockConditionGovernorAddress), *iotago.GovernorAddressUnlockCondition)) &&
		implies(has(UnlockConditionSet(o), iotago.UnlockConditionImmutableAccount), is(at(UnlockConditionSet(o), iotago.UnlockConditionImmutableAccount), *iotago.ImmutableAccountUnlockCondition))`, "o"),
	"wfFT": mac(`implies(has(FeatureSet(o), iotago.FeatureNativeToken), is(at(FeatureSet(o), iotago.FeatureNativeToken), *iotago.NativeTokenFeature)) &&
		implies(has(FeatureSet(o), iotago.FeatureMetadata), is(at(FeatureSet(o), iotago.FeatureMetadata), *iotago.MetadataFeature)) &&
		implies(has(FeatureSet(o), iotago.FeatureStateMetadata), is(at(FeatureSet(o), iotago.FeatureStateMetadata), *iotago.StateMetadataFeature)) &&
		implies(has(FeatureSet(o), iotago.FeatureStaking), is(at(FeatureSet(o), iotago.FeatureStaking), *iotago.StakingFeature)) &&
		implies(has(FeatureSet(o), iotago.FeatureBlockIssuer), is(at(FeatureSet(o), iotago.FeatureBlockIssuer), *iotago.BlockIssuerFeature))`, "o"),
	"hasCommit": mac("some(x, t.TransactionEssence.ContextInputs, is(x, *iotago.CommitmentInput))"),
	"stk":       mac("has(FeatureSet(o), iotago.FeatureStaking)", "o"),
	"bif":       mac("has(FeatureSet(o), iotago.FeatureBlockIssuer)", "o"),
	"staked":    mac("as(at(FeatureSet(o), iotago.FeatureStaking), *iotago.StakingFeature, StakedAmount)", "o"),
	"mapSize":   mac("1 + 3*len(e) + sum(x, e, true, len(x_k)) + sum(x, e, true, len(x))", "e"),
})

func init() {
	register(&Prop{ID: "P19", Min: 20, Note: "per output rule, every output kind", Run: func(c *Ctx) {
		c.basis()
		dep := c.txWith([]string{"CoversMinDeposit", "MinStorageDepositForReturnOutput"}, "DepositAmount")
		dep.Require("every output holds base tokens", "all(o, t.Outputs, amtOf(o) != 0)")
		dep.Require("running total never overflows", "all(o, t.Outputs, !ovfadd(amtB4() + amtOf(o)))")
		dep.Require("total is at most the token supply", "all(o, t.Outputs, amtB4() + amtOf(o) <= supply())")
		dep.Require("storage deposit covered", "all(o, t.Outputs, ok(cover(o), 1))")
		dep.Require("deposit return pays for the return output", "all(o, t.Outputs, implies(sdr(o), ok(retMin(o), 1) && sdrAmt(o) >= res(retMin(o), 0)))")
		dep.Require("deposit return at most the deposit", "all(o, t.Outputs, implies(sdr(o), sdrAmt(o) <= amtOf(o)))")
		one := c.outRule("DepositAmount", "CoversMinDeposit", "MinStorageDepositForReturnOutput")
		one.Exact("single output", "wfUC(o)", `amtOf(o) != 0 && amtOf(o) <= TokenSupply(pp) && ok(CoversMinDeposit(sss, o, amtOf(o)), 1) &&
			implies(hasSDR(o), ok(MinStorageDepositForReturnOutput(sss, sdrRet(o)), 1) && sdrAmt(o) >= res(MinStorageDepositForReturnOutput(sss, sdrRet(o)), 0) && sdrAmt(o) <= amtOf(o))`)
		min := c.Sum(":StorageScoreStructure.CoversMinDeposit", Opt{Names: []string{"s", "o", "amt"}, Opaque: []string{"StorageScore"}})
		min.Exact("score times cost", "", "!ovfmul(StorageScore(o, s, nil) * s.StorageScoreParameters.StorageCost) && amt >= StorageScore(o, s, nil) * s.StorageScoreParameters.StorageCost")
		ret := c.Sum(":StorageScoreStructure.MinStorageDepositForReturnOutput", Opt{Names: []string{"s", "addr"}})
		ref := c.Sum(":BasicOutput.StorageScore", Opt{Names: []string{"o", "s", "f"}})
		ret.Result("score of a basic output with one address condition", 0, "", "(s.StorageScoreParameters.FactorData * wrap(Size(addr) + 20) + StorageScore(addr, s, nil) + s.OffsetOutput) * s.StorageScoreParameters.StorageCost")
		_ = ref

		mana := c.txWith(nil, "StoredMana")
		mana.Require("running mana total never overflows", "all(o, t.Outputs, !ovfadd(manaB4() + StoredMana(o)))")
		mana.Require("total stored mana within the mana bits", "all(o, t.Outputs, manaB4() + StoredMana(o) <= (1 << ManaParameters(ProtocolParameters(api)).BitsCount) - 1)")

		c.rule("ExpirationAndTimelock", "slots set", "wfUC(o)", "implies(hasEX(o), exSlot(o) != 0) && implies(hasTL(o), tlSlot(o) != 0)")
		c.rule("NativeTokens", "amount positive", "wfFT(o) && implies(hasNT(o), ntAmt(o) >= 0)", "implies(hasNT(o), ntAmt(o) > 0)")
		c.rule("Account", "account", "wfUC(o) && wfFT(o) && isUC(o, iotago.UnlockConditionAddress)", `implies(is(o, *iotago.AccountOutput),
			implies(as(o, *iotago.AccountOutput, AccountID) == iotago.EmptyAccountID, as(o, *iotago.AccountOutput, FoundryCounter) == 0) &&
			!(is(addrOf(o), *iotago.AccountAddress) && addrOf(o) == as(o, *iotago.AccountOutput, AccountID)) &&
			implies(stk(o), as(o, *iotago.AccountOutput, Amount) >= staked(o) && bif(o)))`)
		c.rule("Anchor", "anchor", "wfUC(o) && isUC(o, iotago.UnlockConditionStateControllerAddress) && isUC(o, iotago.UnlockConditionGovernorAddress)", `implies(is(o, *iotago.AnchorOutput),
			implies(as(o, *iotago.AnchorOutput, AnchorID) == iotago.EmptyAnchorID, as(o, *iotago.AnchorOutput, StateIndex) == 0) &&
			implies(as(o, *iotago.AnchorOutput, AnchorID) != iotago.EmptyAnchorID,
				!(is(sctlOf(o), *iotago.AnchorAddress) && sctlOf(o) == as(o, *iotago.AnchorOutput, AnchorID)) &&
				!(is(govOf(o), *iotago.AnchorAddress) && govOf(o) == as(o, *iotago.AnchorOutput, AnchorID))))`)
		c.rule("NFT", "nft", "wfUC(o) && isUC(o, iotago.UnlockConditionAddress)", `implies(is(o, *iotago.NFTOutput) && !zero(as(o, *iotago.NFTOutput, NFTID)),
			!(is(addrOf(o), *iotago.NFTAddress) && addrOf(o) == as(o, *iotago.NFTOutput, NFTID)))`)
		c.rule("Delegation", "validator set", "", "implies(is(o, *iotago.DelegationOutput), as(o, *iotago.DelegationOutput, ValidatorAddress) != iotago.EmptyAccountID)")
		c.rule("Foundry", "foundry", "wfFT(o)", `implies(is(o, *iotago.FoundryOutput),
			ok(SyntacticalValidation(as(o, *iotago.FoundryOutput, TokenScheme))) && implies(hasNT(o), ok(FoundryID(o), 1) && ntID(o) == res(FoundryID(o), 0)))`, "FoundryID", "SyntacticalValidation")
		c.Sum(":SimpleTokenScheme.SyntacticalValidation", Opt{Names: []string{"s"}}).Exact("supply sane", "", "s.MaximumSupply > 0 && s.MintedTokens >= s.MeltedTokens && s.MintedTokens <= s.MaximumSupply + s.MeltedTokens")
		uniq := c.txWith([]string{"ChainID"}, "ChainConstrainedOutputUniqueness")
		uniq.Require("no chain occurs twice", `all(o, t.Outputs, implies(is(o, iotago.ChainOutput) && !Empty(ChainID(o)),
			!has(pre(mapfill(p, t.Outputs, is(p, iotago.ChainOutput) && !Empty(ChainID(p)), ChainID(p), p)), ChainID(o))))`)
		c.rule("MetadataFeatureMaxSize", "metadata size", "wfFT(o)", `implies(has(FeatureSet(o), iotago.FeatureMetadata), mapSize(as(at(FeatureSet(o), iotago.FeatureMetadata), *iotago.MetadataFeature, Entries)) <= iotago.MaxMetadataMapSize) &&
			implies(has(FeatureSet(o), iotago.FeatureStateMetadata), mapSize(as(at(FeatureSet(o), iotago.FeatureStateMetadata), *iotago.StateMetadataFeature, Entries)) <= iotago.MaxMetadataMapSize)`)
		ordered := func(typ, list string) string {
			return "implies(is(o, " + typ + "), all(f, as(o, " + typ + ", " + list + "), implies(f_i != 0, Compare(as(o, " + typ + ", " + list + ")[f_i-1], f) == -1)))"
		}
		var ucs, fts []string
		for _, t := range []string{"Basic", "Account", "Anchor", "Foundry", "NFT", "Delegation"} {
			ucs = append(ucs, ordered("*iotago."+t+"Output", "UnlockConditions"))
			if t != "Delegation" {
				fts = append(fts, ordered("*iotago."+t+"Output", "Features"))
			}
			if t != "Delegation" && t != "Basic" {
				fts = append(fts, ordered("*iotago."+t+"Output", "ImmutableFeatures"))
			}
		}
		kinds := "(is(o, *iotago.BasicOutput) || is(o, *iotago.AccountOutput) || is(o, *iotago.AnchorOutput) || is(o, *iotago.FoundryOutput) || is(o, *iotago.NFTOutput) || is(o, *iotago.DelegationOutput))"
		c.rule("UnlockConditionLexicalOrderAndUniqueness", "unlock conditions strictly ordered", kinds, strings.Join(ucs, " && "))
		c.rule("FeaturesLexicalOrderAndUniqueness", "features strictly ordered", kinds, strings.Join(fts, " && "))
	}})
}

func init() {
	register(&Prop{ID: "P18", Min: 15, Note: "transaction essence, wiring of the output rules, unlock count", Run: func(c *Ctx) {
		fns := merge(synFns, map[string]M{
			"pp":      mac("ProtocolParameters(api)"),
			"utxo":    mac("is(u, *iotago.UTXOInput)", "u"),
			"outID":   mac("cat(as(u, *iotago.UTXOInput, TransactionID), le16(as(u, *iotago.UTXOInput, TransactionOutputIndex)))", "u"),
			"com":     mac("is(x, *iotago.CommitmentInput)", "x"),
			"bic":     mac("is(x, *iotago.BlockIssuanceCreditInput)", "x"),
			"rew":     mac("is(x, *iotago.RewardInput)", "x"),
			"comB4":   mac("pre(some(y, t.ContextInputs, com(y)))"),
			"manaB4":  mac("pre(sum(p, t.Allotments, true, p.Mana))"),
			"maxMana": mac("(1 << ManaParameters(ProtocolParameters(api)).BitsCount) - 1"),
			"inputOK": mac("as(u, *iotago.UTXOInput, TransactionOutputIndex) <= iotago.RefUTXOIndexMax && !has(pre(mapfill(p, t.Inputs, true, outID(p), 0)), outID(u))", "u"),
			"ctxOK":   mac(`implies(x_i != 0, Compare(t.ContextInputs[x_i-1], x) == -1) && implies(rew(x), as(x, *iotago.RewardInput, Index) < trunc16(len(t.Inputs))) && implies(bic(x) || rew(x), comB4())`, "x", "x_i"),
		})
		e := c.Sum(":TransactionEssence.syntacticallyValidateEssence", Opt{Names: []string{"t", "api"}, Fns: fns})
		e.Require("network identifier", "t.NetworkID == NetworkID(pp())")
		e.Require("capabilities without trailing zero byte", "len(t.Capabilities) == 0 || t.Capabilities[len(t.Capabilities)-1] != 0")
		e.Require("inputs spend distinct outputs", "all(u, t.Inputs, utxo(u) && !has(pre(mapfill(p, t.Inputs, true, outID(p), 0)), outID(u)))")
		e.Require("input indices within bounds", "all(u, t.Inputs, as(u, *iotago.UTXOInput, TransactionOutputIndex) <= iotago.RefUTXOIndexMax)")
		e.Require("context inputs strictly ordered", "all(x, t.ContextInputs, implies(x_i != 0, Compare(t.ContextInputs[x_i-1], x) == -1))")
		e.Require("reward inputs point at inputs", "all(x, t.ContextInputs, implies(rew(x), as(x, *iotago.RewardInput, Index) < trunc16(len(t.Inputs))))")
		e.Require("credit and reward inputs follow a commitment input", "all(x, t.ContextInputs, implies(bic(x) || rew(x), comB4()))")
		e.Require("allotments strictly ordered by account", "all(a, t.Allotments, implies(a_i != 0, t.Allotments[a_i-1].AccountID < a.AccountID))")
		e.Require("allotted mana never overflows", "all(a, t.Allotments, !ovfadd(manaB4() + a.Mana))")
		e.Require("allotted mana within the mana bits", "all(a, t.Allotments, manaB4() + a.Mana <= maxMana())")
		e.Exact("nothing else is demanded", "all(u, t.Inputs, utxo(u)) && all(x, t.ContextInputs, com(x) || bic(x) || rew(x))",
			`t.NetworkID == NetworkID(pp()) && (len(t.Capabilities) == 0 || t.Capabilities[len(t.Capabilities)-1] != 0) &&
			all(u, t.Inputs, as(u, *iotago.UTXOInput, TransactionOutputIndex) <= iotago.RefUTXOIndexMax && !has(pre(mapfill(p, t.Inputs, true, outID(p), 0)), outID(u))) &&
			all(x, t.ContextInputs, implies(x_i != 0, Compare(t.ContextInputs[x_i-1], x) == -1) && implies(rew(x), as(x, *iotago.RewardInput, Index) < trunc16(len(t.Inputs))) && implies(bic(x) || rew(x), comB4())) &&
			all(a, t.Allotments, implies(a_i != 0, t.Allotments[a_i-1].AccountID < a.AccountID) && !ovfadd(manaB4() + a.Mana) && manaB4() + a.Mana <= maxMana())`)

		tx := c.txWith(nil)
		tx.Require("essence valid", "ok(syntacticallyValidateEssence(t.TransactionEssence, api))")
		c.rule("CommitmentInput", "staking, block issuer features and delegations come with a commitment input", "wfFT(o)",
			"implies(stk(o) || bif(o) || Type(o) == iotago.OutputDelegation, has)")
		st := c.Sum(":SignedTransaction.syntacticallyValidate", Opt{Names: []string{"t"}, Opaque: []string{"SyntacticallyValidate", "ValidateUnlocks"}, Fns: fns})
		st.Require("one unlock per input", "len(t.Unlocks) == len(t.Transaction.TransactionEssence.Inputs)")
		st.Require("transaction and unlocks valid", "ok(SyntacticallyValidate(t.Transaction, t.API))")
	}})
	register(&Prop{ID: "P21", Min: 5, Note: "unlock list validation, every unlock kind", Run: func(c *Ctx) {
		s := c.Sum(":SignedTransaction.syntacticallyValidate", Opt{Names: []string{"t"}, Opaque: []string{"SyntacticallyValidate"}, Fns: synFns})
		fns := merge(synFns, map[string]M{
			"sig":   mac("is(u, *iotago.SignatureUnlock)", "u"),
			"multi": mac("is(u, *iotago.MultiUnlock)", "u"),
			"refu":  mac("!sig(u) && is(u, iotago.ReferentialUnlock)", "u"),
			"uid":   mac("SignerUID(as(u, *iotago.SignatureUnlock, Signature))", "u"),
			"subs":  mac("as(u, *iotago.MultiUnlock, Unlocks)", "u"),
			"ref":   mac("ReferencedInputIndex(u)", "u"),
			"sigAt": mac("has(pre(mapfill(p, t.Unlocks, sig(p), p_i, 0)), i)", "i"),
			"refAt": mac("has(pre(mapfill(p, t.Unlocks, refu(p), p_i, 0)), i)", "i"),
			"mulAt": mac("has(pre(mapfill(p, t.Unlocks, multi(p), p_i, 0)), i)", "i"),
			"sigBy": mac("has(pre(mapfill(p, t.Unlocks, sig(p), uid(p), 0)), x)", "x"),
			"enc":   mac("Encode(t.API, u, nil)", "u"),
		})
		s.Scope.Fns = fns
		s.Require("as many unlocks as inputs", "len(t.Unlocks) == len(t.Transaction.TransactionEssence.Inputs)")
		s.Require("transaction valid", "ok(SyntacticallyValidate(t.Transaction, t.API))")
		s.Require("signatures present", "all(u, t.Unlocks, implies(sig(u), as(u, *iotago.SignatureUnlock, Signature) != nil))")
		s.Require("signers of signature unlocks are unique", "all(u, t.Unlocks, implies(sig(u), !sigBy(uid(u))))")
		s.Require("signers do not repeat from an earlier multi unlock", `all(u, t.Unlocks, implies(sig(u),
			!pre(some(p, t.Unlocks, multi(p) && some(q, subs(p), sig(q) && uid(q) == uid(u))))))`)
		s.Require("references point to an earlier unlock of a kind they may reference", "all(u, t.Unlocks, implies(refu(u), sigAt(ref(u)) || mulAt(ref(u)) || refAt(ref(u)) && Chainable(u)))")
		s.Require("reference to a reference must be chainable", "all(u, t.Unlocks, implies(refu(u) && refAt(ref(u)), Chainable(u)))")
		s.Require("no empty unlock outside a multi unlock", "all(u, t.Unlocks, !is(u, *iotago.EmptyUnlock))")
		s.Require("multi unlocks are unique", "all(u, t.Unlocks, implies(multi(u), ok(enc(u), 1) && !has(pre(mapfill(p, t.Unlocks, multi(p), res(enc(p), 0), 0)), res(enc(u), 0))))")
		s.Require("no nested multi unlock", "all(u, t.Unlocks, implies(multi(u), all(v, subs(u), !multi(v))))")
		s.Require("signatures inside multi unlocks present and fresh", `all(u, t.Unlocks, implies(multi(u), all(v, subs(u), implies(sig(v),
			as(v, *iotago.SignatureUnlock, Signature) != nil && !sigBy(uid(v))))))`)
		s.Require("references inside multi unlocks point to an earlier signature or chain unlock", `all(u, t.Unlocks, implies(multi(u), all(v, subs(u), implies(refu(v),
			sigAt(ref(v)) || refAt(ref(v)) && Chainable(v)))))`)
		s.Require("references inside multi unlocks to references must be chainable", `all(u, t.Unlocks, implies(multi(u), all(v, subs(u), implies(refu(v) && refAt(ref(v)), Chainable(v)))))`)
		s.Exact("nothing else is demanded", "all(o, t.Transaction.TransactionEssence.Inputs, is(o, *iotago.UTXOInput))", `len(t.Unlocks) == len(t.Transaction.TransactionEssence.Inputs) && ok(SyntacticallyValidate(t.Transaction, t.API)) &&
			all(u, t.Unlocks, (sig(u) || refu(u) || multi(u)) &&
				implies(sig(u), as(u, *iotago.SignatureUnlock, Signature) != nil && !sigBy(uid(u)) && !pre(some(p, t.Unlocks, multi(p) && some(q, subs(p), sig(q) && uid(q) == uid(u))))) &&
				implies(refu(u), refAt(ref(u)) && Chainable(u) || !refAt(ref(u)) && (sigAt(ref(u)) || mulAt(ref(u)))) &&
				implies(multi(u), ok(enc(u), 1) && !has(pre(mapfill(p, t.Unlocks, multi(p), res(enc(p), 0), 0)), res(enc(u), 0)) &&
					all(v, subs(u), (sig(v) || refu(v) || is(v, *iotago.EmptyUnlock)) &&
						implies(sig(v), as(v, *iotago.SignatureUnlock, Signature) != nil && !sigBy(uid(v))) &&
						implies(refu(v), refAt(ref(v)) && Chainable(v) || !refAt(ref(v)) && sigAt(ref(v))))))`)
		for _, k := range []struct{ typ, chain string }{{"ReferenceUnlock", "false"}, {"AccountUnlock", "true"}, {"AnchorUnlock", "true"}, {"NFTUnlock", "true"}} {
			c.Sum(":"+k.typ+".Chainable", Opt{}).Result("whether a reference to a reference is allowed", 0, "", k.chain)
			c.Sum(":"+k.typ+".ReferencedInputIndex", Opt{Names: []string{"u"}}).Result("the index it carries", 0, "", "u.Reference")
		}
	}})
}
