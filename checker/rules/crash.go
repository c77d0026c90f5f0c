package rules

import (
	"sort"
	"strings"
)

func init() {
	register(&Prop{
		ID:   "P43",
		Note: "no validation step of a transaction panics: explicit panics, unchecked type assertions and accesses out of bounds are unreachable under the guarantees of the steps before it",
		Min:  55,
		Run:  func(c *Ctx) { c.crash() },
	})
}

var keyedKinds = map[string]map[string]string{
	"FeatureSet":          {"0": "SenderFeature", "1": "IssuerFeature", "2": "MetadataFeature", "3": "StateMetadataFeature", "4": "TagFeature", "5": "NativeTokenFeature", "6": "BlockIssuerFeature", "7": "StakingFeature"},
	"ImmutableFeatureSet": {"1": "IssuerFeature", "2": "MetadataFeature"},
	"UnlockConditionSet": {"0": "AddressUnlockCondition", "1": "StorageDepositReturnUnlockCondition", "2": "TimelockUnlockCondition", "3": "ExpirationUnlockCondition",
		"4": "StateControllerAddressUnlockCondition", "5": "GovernorAddressUnlockCondition", "6": "ImmutableAccountUnlockCondition"},
}

// keyedSet: the sets of an output hold what their keys say (they are built from the types of their elements).
func keyedSet(set, o string) string {
	var cs []string
	for k, T := range keyedKinds[set] {
		cs = append(cs, "implies(has("+set+"("+o+"), "+k+"), is(at("+set+"("+o+"), "+k+"), *iotago."+T+"))")
	}
	sort.Strings(cs)
	return strings.Join(cs, " && ")
}

func keyed(o string) string {
	return keyedSet("FeatureSet", o) + " && " + keyedSet("ImmutableFeatureSet", o) + " && " + keyedSet("UnlockConditionSet", o)
}

func (c *Ctx) crash() {
	for _, k := range []struct{ kase, typ, next string }{
		{"account", tAcc, tAcc}, {"implicit account", tImp, tAcc}, {"anchor", tAnc, tAnc}, {"foundry", tFnd, tFnd}, {"NFT", tNFT, tNFT}, {"delegation", tDel, tDel},
	} {
		for _, trans := range []string{"Genesis", "StateChange", "Destroy"} {
			if trans == "Genesis" && k.typ == tImp {
				continue
			}
			a := "transType == iotago.ChainTransitionType" + trans + " && "
			switch trans {
			case "Genesis":
				a += "is(next, " + k.typ + ") && input == nil"
			case "StateChange":
				a += "is(input.Output, " + k.typ + ") && is(next, " + k.next + ") && input != nil"
			case "Destroy":
				a += "is(input.Output, " + k.typ + ") && next == nil && input != nil"
			}
			for _, o := range []string{"next", "input.Output"} {
				if o == "next" && trans == "Destroy" || o != "next" && trans == "Genesis" {
					continue
				}
				a += " && " + keyed(o)
				switch k.typ { // mandatory unlock conditions (P19)
				case tAnc:
					a += " && has(UnlockConditionSet(" + o + "), 4) && has(UnlockConditionSet(" + o + "), 5)"
				case tFnd:
					a += " && has(UnlockConditionSet(" + o + "), 6)"
				default:
					a += " && has(UnlockConditionSet(" + o + "), 0)"
				}
			}
			a += " && all(o, vmParams.WorkingSet.Tx.Outputs, implies(is(o, *iotago.FoundryOutput), is(Owner(o), *iotago.AccountAddress)) && " + keyedSet("UnlockConditionSet", "o") + ")"
			if trans != "Destroy" { // outputs with these features need a commitment input (P19)
				a += " && implies(has(FeatureSet(next), 6) || has(FeatureSet(next), 7), vmParams.WorkingSet.Commitment != nil)"
			}
			if k.typ == tFnd && trans == "StateChange" { // chains are matched by their identifiers (P08)
				a += " && MustFoundryID(input.Output) == MustFoundryID(next)"
			}
			if k.typ == tFnd && trans == "Genesis" {
				a += " && is(Owner(next), *iotago.AccountAddress) && implies(has(vmParams.WorkingSet.OutChains, iface(Owner(next), iotago.AccountID)), is(at(vmParams.WorkingSet.OutChains, iface(Owner(next), iotago.AccountID)), *iotago.AccountOutput))"
			}
			s := c.Sum("vm/nova:virtualMachine.ChainSTVF", Opt{Names: stvfNames, Assume: a, Opaque: append([]string{"Owner"}, timeOpaque...), Case: k.kase + " " + trans, Fns: merge(vmFns, fndFns), Strict: true, Bounds: true, Optional: []string{"Commitment"}})
			s.NoPanic("does not panic", "")
			s.NilSafe("dereferences nothing that may be nil", "")
		}
	}
	for _, f := range []string{"ExecFuncTimelocks()", "ExecFuncSenderUnlocked()", "ExecFuncBalancedBaseTokens()", "ExecFuncBalancedNativeTokens()", "ExecFuncChainTransitions()", "ExecFuncBalancedMana()", "ExecFuncAtMostOneImplicitAccountCreationAddress()"} {
		s := c.Sum("vm:"+f, Opt{Names: []string{"vm", "p"}, Opaque: append([]string{"Owner", "ChainSTVF"}, timeOpaque...), Strict: true, Bounds: true, Optional: []string{"Commitment"},
			Assume: "all(o, p.WorkingSet.Tx.Outputs, " + keyed("o") + ") && all(o, p.WorkingSet.UTXOInputs, " + keyed("o") + ") && all(o, p.WorkingSet.UTXOInputsSet, " + keyed("o") + ")"})
		s.NoPanic("does not panic", "")
		s.NilSafe("dereferences nothing that may be nil", "")
		s.InBounds("accesses within bounds", "")
	}
	ledger := func(set string) string { return "all(o, " + set + ", o != nil && " + keyed("o") + ")" }
	ex := c.Sum("vm/nova:virtualMachine.Execute", Opt{Names: []string{"vm", "tx", "in", "ids"}, Opaque: append([]string{"ID", "ExecFuncTimelocks", "vm.RunVMFuncs", "OutputID", "iotago.PotentialMana"}, timeOpaque...), Strict: true, Bounds: true, Optional: []string{"Commitment"},
		Assume: "ok(ID(tx), 1) && all(i, tx.TransactionEssence.Inputs, is(i, *iotago.UTXOInput) && has(in.InputSet, OutputID(i))) && " + ledger("in.InputSet") + " && " + ledger("tx.Outputs")})
	ex.NoPanic("does not panic", "")
	ex.NilSafe("dereferences nothing that may be nil", "")
	ex.InBounds("accesses within bounds", "")
}
