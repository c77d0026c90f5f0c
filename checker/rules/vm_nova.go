package rules

import "verif/checker/engine"

type M = engine.Macro

func mac(body string, params ...string) M { return M{Params: params, Body: body} }

// vocabulary shared by the virtual machine rules
var vmFns = map[string]M{
	"pp":        mac("ProtocolParameters(vmParams.API)"),
	"past":      mac("vmParams.WorkingSet.Commitment.Slot + MaxCommittableAge(ProtocolParameters(vmParams.API))"),
	"future":    mac("vmParams.WorkingSet.Commitment.Slot + MinCommittableAge(ProtocolParameters(vmParams.API))"),
	"epoch":     mac("EpochFromSlot(TimeProvider(vmParams.API), s)", "s"),
	"regSlot":   mac("EpochEnd(TimeProvider(vmParams.API), e) - EpochNearingThreshold(ProtocolParameters(vmParams.API))", "e"),
	"hasC":      mac("vmParams.WorkingSet.Commitment != nil"),
	"hasBI":     mac("has(FeatureSet(o), iotago.FeatureBlockIssuer)", "o"),
	"exp":       mac("as(at(FeatureSet(o), iotago.FeatureBlockIssuer), *iotago.BlockIssuerFeature, ExpirySlot)", "o"),
	"hasSt":     mac("has(FeatureSet(o), iotago.FeatureStaking)", "o"),
	"stStart":   mac("as(at(FeatureSet(o), iotago.FeatureStaking), *iotago.StakingFeature, StartEpoch)", "o"),
	"stEnd":     mac("as(at(FeatureSet(o), iotago.FeatureStaking), *iotago.StakingFeature, EndEpoch)", "o"),
	"stAmt":     mac("as(at(FeatureSet(o), iotago.FeatureStaking), *iotago.StakingFeature, StakedAmount)", "o"),
	"stCost":    mac("as(at(FeatureSet(o), iotago.FeatureStaking), *iotago.StakingFeature, FixedCost)", "o"),
	"unbond":    mac("EpochFromSlot(TimeProvider(vmParams.API), vmParams.WorkingSet.Commitment.Slot + MaxCommittableAge(ProtocolParameters(vmParams.API))) + StakingUnbondingPeriod(ProtocolParameters(vmParams.API))"),
	"stGen":     mac(`stStart(o) == epoch(past()) && stEnd(o) >= unbond()`, "o"),
	"stSame":    mac(`stAmt(a) == stAmt(b) && stCost(a) == stCost(b) && stStart(a) == stStart(b)`, "a", "b"),
	"stExpired": mac(`epoch(future()) > stEnd(o)`, "o"),
	"immEq":     mac("len(a) == len(b) && all(f, a, Equal(f, b[f_i]))", "a", "b"),
	"under":     mac("ifte(is(a, *iotago.RestrictedAddress), as(a, *iotago.RestrictedAddress, Address), a)", "a"),
	"issuerOK": mac(`!has(ImmutableFeatureSet(o), iotago.FeatureIssuer) ||
		has(vmParams.WorkingSet.UnlockedAddrs, Key(under(as(at(ImmutableFeatureSet(o), iotago.FeatureIssuer), *iotago.IssuerFeature, Address))))`, "o"),
	"claims": mac("has(vmParams.WorkingSet.Rewards, input.ChainID)"),
	"bicOK":  mac("has(vmParams.WorkingSet.BIC, id) && at(vmParams.WorkingSet.BIC, id) >= 0", "id"),
	"cap":    mac("len(vmParams.WorkingSet.Tx.TransactionEssence.Capabilities) > 0 && (vmParams.WorkingSet.Tx.TransactionEssence.Capabilities[0] & mask) != 0", "mask"),
	"acc":    mac("o", "o"),
}

// bit masks of the transaction capabilities (protocol constants)
const (
	capBurnNT     = "cap(1)"
	capBurnMana   = "cap(2)"
	capDestroyAcc = "cap(4)"
	capDestroyAnc = "cap(8)"
	capDestroyFnd = "cap(16)"
	capDestroyNFT = "cap(32)"
)

var stvfNames = []string{"vm", "vmParams", "transType", "input", "next"}
var timeOpaque = []string{"EpochFromSlot", "EpochEnd", "EpochStart", "DecayManaBySlots", "GenerateManaAndDecayBySlots", "iotago.PotentialMana", "MustFoundryID", "FoundryID", "MustNativeTokenID"}

func (c *Ctx) stvf(kase, typ, trans string, extra string) *Sum {
	a := ""
	switch trans {
	case "create":
		a = "transType == iotago.ChainTransitionTypeGenesis && is(next, " + typ + ") && input == nil"
	case "change":
		a = "transType == iotago.ChainTransitionTypeStateChange && is(input.Output, " + typ + ") && next != nil && input != nil"
	case "destroy":
		a = "transType == iotago.ChainTransitionTypeDestroy && is(input.Output, " + typ + ") && next == nil && input != nil"
	}
	if extra != "" {
		a += " && " + extra
	}
	return c.Sum("vm/nova:virtualMachine.ChainSTVF", Opt{Names: stvfNames, Assume: a, Opaque: timeOpaque, Case: kase, Fns: vmFns})
}

const (
	tAcc = "*iotago.AccountOutput"
	tImp = "*vm.ImplicitAccountOutput"
	tAnc = "*iotago.AnchorOutput"
	tFnd = "*iotago.FoundryOutput"
	tNFT = "*iotago.NFTOutput"
	tDel = "*iotago.DelegationOutput"
	tBas = "*iotago.BasicOutput"
)

// foundry vocabulary
var fndFns = map[string]M{
	"inNT":         mac("ifte(has(vmParams.WorkingSet.InNativeTokens, MustNativeTokenID(f)), at(vmParams.WorkingSet.InNativeTokens, MustNativeTokenID(f)), 0)", "f"),
	"outNT":        mac("ifte(has(vmParams.WorkingSet.OutNativeTokens, MustNativeTokenID(f)), at(vmParams.WorkingSet.OutNativeTokens, MustNativeTokenID(f)), 0)", "f"),
	"accKey":       mac("iface(Owner(next), iotago.AccountID)"),
	"serial":       mac("as(f, *iotago.FoundryOutput, SerialNumber)", "f"),
	"isNewSibling": mac(`is(o, *iotago.FoundryOutput) && Equal(Owner(o), Owner(next)) && res(FoundryID(o), 1) == nil && !has(vmParams.WorkingSet.InChains, iface(res(FoundryID(o), 0), iotago.FoundryID))`, "o"),
}

func merge(ms ...map[string]M) map[string]M {
	r := map[string]M{}
	for _, m := range ms {
		for k, v := range m {
			r[k] = v
		}
	}
	return r
}

func (c *Ctx) foundry(trans string) *Sum {
	a := map[string]string{
		"create":  "transType == iotago.ChainTransitionTypeGenesis && is(next, *iotago.FoundryOutput) && input == nil",
		"change":  "transType == iotago.ChainTransitionTypeStateChange && is(input.Output, *iotago.FoundryOutput) && next != nil && input != nil",
		"destroy": "transType == iotago.ChainTransitionTypeDestroy && is(input.Output, *iotago.FoundryOutput) && next == nil && input != nil",
	}[trans]
	return c.Sum("vm/nova:virtualMachine.ChainSTVF", Opt{Names: stvfNames, Assume: a, Opaque: append([]string{"Owner"}, timeOpaque...), Case: "foundry " + trans, Fns: merge(vmFns, fndFns)})
}

func init() {
	register(&Prop{ID: "P13", Note: "Foundry transition rules on the chain transition dispatcher, token scheme transitions and syntactic supply rules.", Min: 20, Run: func(c *Ctx) {
		c.basis("Foundry", "Account")
		ge := c.foundry("create")
		ge.Require("token scheme creation rule applied to the created tokens", "ok(StateTransition(as(next, *iotago.FoundryOutput, TokenScheme), iotago.ChainTransitionTypeGenesis, nil, nil, outNT(next)))")
		ge.Require("account consumed in the same transaction", "is(Owner(next), *iotago.AccountAddress) && has(vmParams.WorkingSet.InChains, accKey()) && is(at(vmParams.WorkingSet.InChains, accKey()).Output, *iotago.AccountOutput)")
		ge.Require("account created in the same transaction", "has(vmParams.WorkingSet.OutChains, accKey()) && is(at(vmParams.WorkingSet.OutChains, accKey()), *iotago.AccountOutput)")
		ge.Require("serial above the previous counter", "serial(next) > as(at(vmParams.WorkingSet.InChains, accKey()).Output, *iotago.AccountOutput, FoundryCounter)")
		ge.Require("serial at most the next counter", "serial(next) <= as(at(vmParams.WorkingSet.OutChains, accKey()), *iotago.AccountOutput, FoundryCounter)")
		ge.Rejects("new foundries of an account are in serial order", `some(o, vmParams.WorkingSet.Tx.Outputs, isNewSibling(o) && !(res(FoundryID(o), 0) == MustFoundryID(next)) && serial(o) >= serial(next)) &&
			!some(o, vmParams.WorkingSet.Tx.Outputs, isNewSibling(o) && res(FoundryID(o), 0) == MustFoundryID(next))`)
		ch := c.foundry("change")
		ch.Require("continues as a foundry", "is(next, *iotago.FoundryOutput)")
		ch.Require("immutable features unchanged", "immEq(as(input.Output, *iotago.FoundryOutput, ImmutableFeatures), as(next, *iotago.FoundryOutput, ImmutableFeatures))")
		ch.Require("token scheme change rule applied to the token difference", "ok(StateTransition(as(input.Output, *iotago.FoundryOutput, TokenScheme), iotago.ChainTransitionTypeStateChange, as(next, *iotago.FoundryOutput, TokenScheme), inNT(input.Output), outNT(input.Output)))")
		de := c.foundry("destroy")
		de.Exact("destroyed with the capability and the token scheme destruction rule", "", capDestroyFnd+" && ok(StateTransition(as(input.Output, *iotago.FoundryOutput, TokenScheme), iotago.ChainTransitionTypeDestroy, nil, inNT(input.Output), outNT(input.Output)))")

		sn := []string{"s", "transType", "nextState", "in", "out"}
		N := func(f string) string { return "as(nextState, *iotago.SimpleTokenScheme, " + f + ")" }
		st := func(k, a string) *Sum {
			return c.Sum(":SimpleTokenScheme.StateTransition", Opt{Names: sn, Assume: a, Case: k})
		}
		st("create", "transType == iotago.ChainTransitionTypeGenesis").Exact("supply at creation", "", "s.MeltedTokens == 0 && out == s.MintedTokens")
		st("destroy", "transType == iotago.ChainTransitionTypeDestroy").Exact("supply at destruction", "", "s.MintedTokens + out - in == s.MeltedTokens")
		cs := st("change", "transType == iotago.ChainTransitionTypeStateChange")
		cs.Require("same scheme", "is(nextState, *iotago.SimpleTokenScheme)")
		cs.Require("maximum supply fixed", N("MaximumSupply")+" == s.MaximumSupply")
		cs.Require("minted never decreases", N("MintedTokens")+" >= s.MintedTokens")
		cs.Require("melted never decreases", N("MeltedTokens")+" >= s.MeltedTokens")
		cs.RequireIf("minting matches the counters", "out > in", N("MintedTokens")+" - s.MintedTokens == out - in && "+N("MeltedTokens")+" == s.MeltedTokens")
		cs.RequireIf("melting matches the counters", "out < in", N("MeltedTokens")+" - s.MeltedTokens == in - out && "+N("MintedTokens")+" == s.MintedTokens")
		cs.RequireIf("no token change, no counter change", "out == in", N("MeltedTokens")+" == s.MeltedTokens && "+N("MintedTokens")+" == s.MintedTokens")
		sy := c.Sum(":SimpleTokenScheme.SyntacticalValidation", Opt{Names: []string{"s"}})
		sy.Exact("supply invariants", "", "s.MaximumSupply > 0 && s.MintedTokens >= s.MeltedTokens && s.MintedTokens - s.MeltedTokens <= s.MaximumSupply")
	}})
	register(&Prop{ID: "P09", Note: "Account transition rules decided on guarded summaries of the chain transition dispatcher specialised to accounts: identity, immutable features, foundry counter, issuer, destruction gates.", Min: 10, Run: func(c *Ctx) {
		c.basis("Account")
		ch := c.stvf("account change", tAcc, "change", "")
		ch.Require("continues as an account", "is(next, *iotago.AccountOutput)")
		ch.Require("immutable features unchanged", "immEq(as(input.Output, *iotago.AccountOutput, ImmutableFeatures), as(next, *iotago.AccountOutput, ImmutableFeatures))")
		ch.Require("foundry counter never decreases", "as(next, *iotago.AccountOutput, FoundryCounter) >= as(input.Output, *iotago.AccountOutput, FoundryCounter)")
		fc := c.Sum("vm/nova:virtualMachine.ChainSTVF", Opt{Names: stvfNames, Case: "account change, owners opaque", Fns: vmFns, Opaque: append([]string{"Owner"}, timeOpaque...),
			Assume: "transType == iotago.ChainTransitionTypeStateChange && is(input.Output, *iotago.AccountOutput) && is(next, *iotago.AccountOutput) && next != nil && input != nil"})
		fc.Require("foundry counter grows by the foundries created under the account", `as(next, *iotago.AccountOutput, FoundryCounter) == as(input.Output, *iotago.AccountOutput, FoundryCounter) ||
			as(next, *iotago.AccountOutput, FoundryCounter) == as(input.Output, *iotago.AccountOutput, FoundryCounter) + sum(o, vmParams.WorkingSet.Tx.Outputs, is(o, *iotago.FoundryOutput) && !has(vmParams.WorkingSet.InChains, iface(MustFoundryID(o), iotago.FoundryID)) && Owner(o) == as(next, *iotago.AccountOutput, AccountID), 1)`)
		ge := c.stvf("account create", tAcc, "create", "")
		ge.Require("created with an empty identifier", "zero(as(next, *iotago.AccountOutput, AccountID))")
		ge.Require("issuer unlocked", "issuerOK(next)")
		de := c.stvf("account destroy", tAcc, "destroy", "")
		de.Require("capability", capDestroyAcc)
		de.Require("staking expired", "!hasSt(input.Output) || hasC() && stExpired(input.Output)")
		de.Require("block issuer expired", "!hasBI(input.Output) || hasC() && exp(input.Output) < vmParams.WorkingSet.Commitment.Slot")
		de.Require("rewards claimed exactly when staking ends", "iff(claims(), hasSt(input.Output))")
	}})
	register(&Prop{ID: "P10", Note: "Block issuer feature transition rules on the chain transition dispatcher for accounts and implicit accounts.", Min: 10, Run: func(c *Ctx) {
		c.basis("Account")
		ch := c.stvf("account change", tAcc, "change", "")
		ch.RequireIf("commitment present", "hasBI(input.Output) || hasBI(next)", "hasC()")
		ch.RequireIf("unexpired feature is not removed", "hasBI(input.Output) && exp(input.Output) >= vmParams.WorkingSet.Commitment.Slot", "hasBI(next)")
		ch.RequireIf("changed expiry is not before the past bounded slot", "hasBI(input.Output) && hasBI(next) && exp(input.Output) >= vmParams.WorkingSet.Commitment.Slot", "exp(next) == exp(input.Output) || exp(next) >= past()")
		ch.RequireIf("expired feature restarts in range", "hasBI(input.Output) && hasBI(next) && exp(input.Output) < vmParams.WorkingSet.Commitment.Slot", "exp(next) >= past()")
		ch.RequireIf("added expiry in range", "!hasBI(input.Output) && hasBI(next)", "exp(next) >= past()")
		ch.RequireIf("credit present and not negative", "hasBI(input.Output)", "is(input.ChainID, iotago.AccountID) && bicOK(input.ChainID)")
		ge := c.stvf("account create", tAcc, "create", "")
		ge.RequireIf("new expiry in range", "hasBI(next)", "hasC() && exp(next) >= past()")
		de := c.stvf("account destroy", tAcc, "destroy", "")
		de.RequireIf("destroyed only after expiry with a commitment", "hasBI(input.Output)", "hasC() && exp(input.Output) < vmParams.WorkingSet.Commitment.Slot")
		de.RequireIf("credit present and not negative", "hasBI(input.Output)", "is(input.ChainID, iotago.AccountID) && bicOK(input.ChainID)")
		im := c.stvf("implicit change", tImp, "change", "")
		im.Require("implicit account carries on as block issuer", "hasC() && hasBI(next) && exp(next) >= past()")
		im.Require("credit present and not negative", "bicOK(as(next, *iotago.AccountOutput, AccountID))")
	}})
	register(&Prop{ID: "P11", Note: "Staking transition rules on the chain transition dispatcher, and syntactic staking rules of account outputs.", Min: 10, Run: func(c *Ctx) {
		c.basis("Account")
		ch := c.stvf("account change", tAcc, "change", "")
		ch.RequireIf("commitment present", "hasSt(input.Output)", "hasC()")
		ch.RequireIf("running staking is not removed", "hasSt(input.Output) && !stExpired(input.Output)", "hasSt(next)")
		ch.RequireIf("running staking keeps amount, cost and start", "hasSt(input.Output) && hasSt(next) && !stExpired(input.Output)", "stSame(input.Output, next)")
		ch.RequireIf("running staking extends to at least the unbonding epoch", "hasSt(input.Output) && hasSt(next) && !stExpired(input.Output)", "stEnd(next) == stEnd(input.Output) || stEnd(next) >= unbond()")
		ch.RequireIf("running staking claims nothing", "hasSt(input.Output) && !stExpired(input.Output)", "!claims()")
		ch.RequireIf("expired staking is kept unchanged or reset", "hasSt(input.Output) && stExpired(input.Output) && hasSt(next)", "stSame(input.Output, next) && stEnd(input.Output) == stEnd(next) && !claims() || stGen(next) && claims()")
		ch.RequireIf("removed staking claims rewards", "hasSt(input.Output) && stExpired(input.Output) && !hasSt(next)", "claims()")
		ch.RequireIf("added staking starts in range", "!hasSt(input.Output) && hasSt(next)", "stGen(next) && !claims()")
		ch.RequireIf("no staking, no rewards", "!hasSt(input.Output) && !hasSt(next)", "!claims()")
		ge := c.stvf("account create", tAcc, "create", "")
		ge.RequireIf("new staking in range", "hasSt(next)", "hasC() && stGen(next)")
		de := c.stvf("account destroy", tAcc, "destroy", "")
		de.RequireIf("destroyed only after staking ended", "hasSt(input.Output)", "hasC() && stExpired(input.Output) && claims()")
		de.RequireIf("no staking, no rewards", "!hasSt(input.Output)", "!claims()")
	}})
	register(&Prop{ID: "P12", Note: "Anchor transition rules on the chain transition dispatcher; controller/governor selection.", Min: 8, Run: func(c *Ctx) {
		c.basis("Anchor")
		A := func(o, f string) string { return "as(" + o + ", *iotago.AnchorOutput, " + f + ")" }
		same := func(f string) string { return A("input.Output", f) + " == " + A("next", f) }
		ch := c.stvf("anchor change", tAnc, "change", "is(next, *iotago.AnchorOutput)")
		ch.Require("immutable features unchanged", "immEq("+A("input.Output", "ImmutableFeatures")+", "+A("next", "ImmutableFeatures")+")")
		ch.Require("state index kept or incremented", A("next", "StateIndex")+" == "+A("input.Output", "StateIndex")+" || "+A("next", "StateIndex")+" == "+A("input.Output", "StateIndex")+" + 1")
		gov := same("StateIndex")
		ch.RequireIf("governance keeps amount", gov, same("Amount"))
		ch.RequireIf("governance keeps state metadata", gov, `iff(has(FeatureSet(input.Output), iotago.FeatureStateMetadata), has(FeatureSet(next), iotago.FeatureStateMetadata)) && (!has(FeatureSet(next), iotago.FeatureStateMetadata) || Equal(at(FeatureSet(input.Output), iotago.FeatureStateMetadata), at(FeatureSet(next), iotago.FeatureStateMetadata)))`)
		st := "!(" + gov + ")"
		uc := func(k, t string) string {
			f := func(o string) string {
				return "as(at(UnlockConditionSet(" + o + "), iotago." + k + "), *iotago." + t + ", Address)"
			}
			return "implies(has(UnlockConditionSet(input.Output), iotago." + k + ") && has(UnlockConditionSet(next), iotago." + k + "), Equal(" + f("input.Output") + ", " + f("next") + "))"
		}
		ch.RequireIf("state transition keeps the state controller", st, uc("UnlockConditionStateControllerAddress", "StateControllerAddressUnlockCondition"))
		ch.RequireIf("state transition keeps the governor", st, uc("UnlockConditionGovernorAddress", "GovernorAddressUnlockCondition"))
		ch.RequireIf("state transition keeps metadata", st, `iff(has(FeatureSet(input.Output), iotago.FeatureMetadata), has(FeatureSet(next), iotago.FeatureMetadata)) && (!has(FeatureSet(next), iotago.FeatureMetadata) || Equal(at(FeatureSet(input.Output), iotago.FeatureMetadata), at(FeatureSet(next), iotago.FeatureMetadata)))`)
		ge := c.stvf("anchor create", tAnc, "create", "")
		ge.Require("created with an empty identifier", "zero("+A("next", "AnchorID")+")")
		ge.Require("issuer unlocked", "issuerOK(next)")
		c.stvf("anchor destroy", tAnc, "destroy", "").Exact("capability", "", capDestroyAnc)
	}})
	register(&Prop{ID: "P14", Note: "NFT transition rules on the chain transition dispatcher.", Min: 5, Run: func(c *Ctx) {
		c.basis("NFT")
		A := func(o, f string) string { return "as(" + o + ", *iotago.NFTOutput, " + f + ")" }
		ch := c.stvf("nft change", tNFT, "change", "")
		ch.Exact("immutable features unchanged", "", "is(next, *iotago.NFTOutput) && immEq("+A("input.Output", "ImmutableFeatures")+", "+A("next", "ImmutableFeatures")+")")
		ge := c.stvf("nft create", tNFT, "create", "")
		ge.Require("created with an empty identifier", "zero("+A("next", "NFTID")+")")
		ge.Require("issuer unlocked", "issuerOK(next)")
		c.stvf("nft destroy", tNFT, "destroy", "").Exact("capability", "", capDestroyNFT)
	}})
	register(&Prop{ID: "P15", Note: "Delegation transition rules on the chain transition dispatcher.", Min: 8, Run: func(c *Ctx) {
		c.basis("Delegation")
		D := func(o, f string) string { return "as(" + o + ", *iotago.DelegationOutput, " + f + ")" }
		ge := c.stvf("delegation create", tDel, "create", "")
		ge.Exact("creation rule", "", "zero("+D("next", "DelegationID")+") && hasC() && "+
			D("next", "StartEpoch")+" == epoch(past()) + ifte(past() <= regSlot(epoch(past())), 1, 2) && "+
			D("next", "DelegatedAmount")+" == "+D("next", "Amount")+" && "+D("next", "EndEpoch")+" == 0")
		ch := c.stvf("delegation change", tDel, "change", "is(next, *iotago.DelegationOutput)")
		ch.Require("transitioned once", "zero("+D("input.Output", "DelegationID")+")")
		ch.Require("no claim on transition", "!claims()")
		ch.Require("amount kept", D("input.Output", "DelegatedAmount")+" == "+D("next", "DelegatedAmount"))
		ch.Require("start kept", D("input.Output", "StartEpoch")+" == "+D("next", "StartEpoch"))
		ch.Require("validator kept", "is("+D("next", "ValidatorAddress")+", *iotago.AccountAddress) && "+D("input.Output", "ValidatorAddress")+" == "+D("next", "ValidatorAddress"))
		ch.Require("end epoch prescribed", "hasC() && "+D("next", "EndEpoch")+" == epoch(future()) + ifte(future() <= regSlot(epoch(future())), 0, 1)")
		c.stvf("delegation destroy", tDel, "destroy", "").Exact("destroyed with its reward", "", "claims()")
	}})
}
