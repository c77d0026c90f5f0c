package rules

import (
	"strings"

	"verif/checker/engine"
)

// vocabulary of the execution functions
var exFns = map[string]M{
	"hasTL":  mac("has(UnlockConditionSet(o), iotago.UnlockConditionTimelock) && is(at(UnlockConditionSet(o), iotago.UnlockConditionTimelock), *iotago.TimelockUnlockCondition)", "o"),
	"tlSlot": mac("as(at(UnlockConditionSet(o), iotago.UnlockConditionTimelock), *iotago.TimelockUnlockCondition, Slot)", "o"),
	"hasEX":  mac("has(UnlockConditionSet(o), iotago.UnlockConditionExpiration) && is(at(UnlockConditionSet(o), iotago.UnlockConditionExpiration), *iotago.ExpirationUnlockCondition)", "o"),
	"exSlot": mac("as(at(UnlockConditionSet(o), iotago.UnlockConditionExpiration), *iotago.ExpirationUnlockCondition, Slot)", "o"),
	"exRet":  mac("as(at(UnlockConditionSet(o), iotago.UnlockConditionExpiration), *iotago.ExpirationUnlockCondition, ReturnAddress)", "o"),
	"hasSDR": mac("has(UnlockConditionSet(o), iotago.UnlockConditionStorageDepositReturn)", "o"),
	"sdrAmt": mac("as(at(UnlockConditionSet(o), iotago.UnlockConditionStorageDepositReturn), *iotago.StorageDepositReturnUnlockCondition, Amount)", "o"),
	"sdrRet": mac("as(at(UnlockConditionSet(o), iotago.UnlockConditionStorageDepositReturn), *iotago.StorageDepositReturnUnlockCondition, ReturnAddress)", "o"),
	"hasSnd": mac("has(FeatureSet(o), iotago.FeatureSender) && is(at(FeatureSet(o), iotago.FeatureSender), *iotago.SenderFeature)", "o"),
	"sender": mac("as(at(FeatureSet(o), iotago.FeatureSender), *iotago.SenderFeature, Address)", "o"),
	"hasNT":  mac("has(FeatureSet(o), iotago.FeatureNativeToken)", "o"),
	"ntID":   mac("as(at(FeatureSet(o), iotago.FeatureNativeToken), *iotago.NativeTokenFeature, ID)", "o"),
	"ntAmt":  mac("as(at(FeatureSet(o), iotago.FeatureNativeToken), *iotago.NativeTokenFeature, Amount)", "o"),
	"ownKey": mac("Key(as(at(UnlockConditionSet(o), iotago.UnlockConditionAddress), *iotago.AddressUnlockCondition, Address))", "o"),
}

var execNames = []string{"vm", "vmParams"}

func (c *Ctx) exec(fn string, opaque ...string) *Sum {
	return c.Sum("vm:"+fn+"()", Opt{Names: execNames, Opaque: append([]string{"CreationSlot"}, opaque...), Fns: merge(vmFns, exFns)})
}

var unlockNames = []string{"owner", "unlock", "idx", "set", "msg", "only"}

// unlockAddr summarises the unlock rule of one kind of address.
func (c *Ctx) unlockAddr(typ string, opaque ...string) *Sum {
	return c.Sum("vm:unlockAddress", Opt{Names: unlockNames, Assume: "is(owner, " + typ + ")", Case: strings.TrimPrefix(typ, "*iotago."), Opaque: opaque, Fns: merge(vmFns, exFns)})
}

func walkTerms(b engine.B, f func(t *engine.Term)) {
	seen := map[*engine.Term]bool{}
	var wt func(t *engine.Term)
	var wb func(b engine.B)
	wb = func(b engine.B) {
		for _, a := range engine.Support(b) {
			wt(a)
		}
	}
	wt = func(t *engine.Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.Args {
			wt(a)
		}
		for _, g := range t.GV {
			wb(g.G)
			wt(g.T)
		}
		if t.B != 0 {
			wb(t.B)
		}
	}
	wb(b)
}

func init() {
	register(&Prop{ID: "P01", Note: "Unlock rules: the wiring of ValidateUnlocks (every input, its own unlock, its index, the transaction's signing message, the current unlock set), the owner each input is unlocked by, and the exact acceptance condition and effects of unlocking per address kind.", Min: 30, Run: func(c *Ctx) {
		c.basis()
		vu := c.Sum("vm:ValidateUnlocks", Opt{Names: []string{"stx", "in"}, Opaque: []string{"ID", "SigningMessage", "vm.unlockOutput!5", "OutputID", "ChainOutputSet", "ToAddress", "Inputs"}, Fns: merge(vmFns, exFns)})
		vu.Require("every input is unlocked by its own unlock over the signing message", `!some(i, Inputs(stx.Transaction), !(vm.unlockOutput(stx.Transaction, in.CommitmentInput, in.InputSet[OutputID(i)], stx.Unlocks[i_i], i_i,
			ChainOutputSet(stx.Transaction.Outputs, res(ID(stx.Transaction), 0)), res(SigningMessage(stx.Transaction), 0)) == nil))`)
		chainID := `ifte(Empty(ChainID(in.InputSet[OutputID(i)])), FromOutputID(ChainID(in.InputSet[OutputID(i)]), OutputID(stx.Transaction.TransactionEssence.Inputs[i_i])), ChainID(in.InputSet[OutputID(i)]))`
		vu2 := c.Sum("vm:ValidateUnlocks", Opt{Case: "chains", Names: []string{"stx", "in"}, Opaque: []string{"ID", "SigningMessage", "vm.unlockOutput!5", "OutputID", "ChainOutputSet", "ToAddress", "Inputs"},
			Fns: merge(vmFns, exFns, map[string]M{
				"o":    mac("in.InputSet[OutputID(i)]", "i"),
				"cid":  mac(strings.ReplaceAll(chainID, "i_i", "ix"), "i", "ix"),
				"outs": mac("ChainOutputSet(stx.Transaction.Outputs, res(ID(stx.Transaction), 0))"),
				"stateTr": mac(`has(outs(), cid(i, ix)) && is(at(outs(), cid(i, ix)), *iotago.AnchorOutput) &&
					as(o(i), *iotago.AnchorOutput, StateIndex) + 1 == as(at(outs(), cid(i, ix)), *iotago.AnchorOutput, StateIndex)`, "i", "ix"),
			})})
		vu2.Result("exactly the consumed chains (anchors only in a state transition) unlock their own address", 0, "", `mapfill(i, Inputs(stx.Transaction),
			is(o(i), iotago.ChainOutput) && Addressable(ChainID(o(i))) && (!is(o(i), *iotago.AnchorOutput) || stateTr(i, i_i)),
			Key(ToAddress(cid(i, i_i))), &vm.UnlockedAddress{Address: ToAddress(cid(i, i_i)), UnlockedAtInputIndex: i_i, ReferencedByInputIndex: makemap})`)
		vs := c.Sum("vm:ValidateUnlocks", Opt{Case: "order", Names: []string{"stx", "in"}, Opaque: []string{"ID", "SigningMessage", "vm.unlockOutput", "OutputID", "ChainOutputSet", "ToAddress", "Inputs"}, Fns: vmFns})
		vs.ob("an input is unlocked before its own chain address counts as unlocked", func() {
			n := 0
			walkTerms(vs.Out.Succ(), func(t *engine.Term) {
				if t.Op != "call" || t.Sym != "vm.unlockOutput" {
					return
				}
				n++
				for _, a := range t.Args {
					if a.Op == "&struct" && len(a.Args) == 1 && a.Args[0].Op == "struct" {
						for _, m := range a.Args[0].Args {
							if m.Op == "mapset" || m.Op == "mapfill" || m.Op == "gv" {
								Failf("the unlock set passed to unlockOutput already contains an address added in the same step: %s", clip(m.String(), 300))
							}
						}
					}
				}
			})
			if n == 0 {
				Failf("no unlockOutput call found in the accepting condition")
			}
		})

		// the address an input has to be unlocked by
		ou := []string{"tx", "commit", "input", "unlock", "idx", "set", "outChains", "msg"}
		uo := c.Sum("vm:unlockOutput", Opt{Names: ou, Opaque: []string{"vm.unlockAddress", "vm.addressToUnlock"}, Fns: merge(vmFns, exFns)})
		own := "res(vm.addressToUnlock(tx, input, idx, outChains), 0)"
		uo.Require("owner known", "ok(vm.addressToUnlock(tx, input, idx, outChains), 1)")
		uo.RequireIf("unlocked by the owner", "!(hasEX(input))", "ok(vm.unlockAddress(under("+own+"), unlock, idx, set, msg, false))")
		uo.RequireIf("unlocked by the owner before the expiration", "hasEX(input) && commit.Slot + MinCommittableAge(ProtocolParameters(tx.API)) < exSlot(input)", "ok(vm.unlockAddress(under("+own+"), unlock, idx, set, msg, false))")
		uo.RequireIf("unlocked by the return address after the expiration", "hasEX(input) && exRet(input) != nil && commit.Slot + MinCommittableAge(ProtocolParameters(tx.API)) >= exSlot(input)", "ok(vm.unlockAddress(under(exRet(input)), unlock, idx, set, msg, false))")

		au := c.Sum("vm:addressToUnlock", Opt{Names: []string{"tx", "input", "idx", "outChains"}, Opaque: []string{"OutputID"}, Fns: merge(vmFns, map[string]M{
			"cid": mac("ifte(Empty(ChainID(input)), FromOutputID(ChainID(input), OutputID(tx.TransactionEssence.Inputs[idx])), ChainID(input))"),
		})})
		au.Result("owner of a transition independent output", 0, "is(input, iotago.OwnerTransitionIndependentOutput)", "Owner(input)")
		au.Result("owner of a transition dependent output that ends", 0, "!is(input, iotago.OwnerTransitionIndependentOutput) && !has(outChains, cid())", "res(Owner(input, nil), 0)")
		au.Result("owner of a transition dependent output that continues", 0, "!is(input, iotago.OwnerTransitionIndependentOutput) && has(outChains, cid())", "res(Owner(input, at(outChains, cid())), 0)")
		au.RequireIf("owner errors surface", "!is(input, iotago.OwnerTransitionIndependentOutput) && !has(outChains, cid())", "ok(Owner(input, nil), 1)")
		au.RequireIf("owner errors surface for continuing outputs", "!is(input, iotago.OwnerTransitionIndependentOutput) && has(outChains, cid())", "ok(Owner(input, at(outChains, cid())), 1) && is(at(outChains, cid()), iotago.OwnerTransitionDependentOutput)")
		an := c.Sum(":AnchorOutput.Owner", Opt{Names: []string{"a", "next"}, Fns: vmFns})
		acond := func(k, t string) string {
			return "as(at(UnlockConditionSet(a), iotago." + k + "), *iotago." + t + ", Address)"
		}
		gov, sta := acond("UnlockConditionGovernorAddress", "GovernorAddressUnlockCondition"), acond("UnlockConditionStateControllerAddress", "StateControllerAddressUnlockCondition")
		present := "has(UnlockConditionSet(a), iotago.UnlockConditionGovernorAddress) && has(UnlockConditionSet(a), iotago.UnlockConditionStateControllerAddress)"
		an.Result("an ending anchor belongs to its governor", 0, "next == nil && "+present, gov)
		an.Result("governance transitions belong to the governor", 0, "next != nil && is(next, *iotago.AnchorOutput) && as(next, *iotago.AnchorOutput, StateIndex) == a.StateIndex && "+present, gov)
		an.Result("state transitions belong to the state controller", 0, "next != nil && is(next, *iotago.AnchorOutput) && as(next, *iotago.AnchorOutput, StateIndex) == a.StateIndex + 1 && as(next, *iotago.AnchorOutput, StateIndex) != a.StateIndex && "+present, sta)
		an.Rejects("other state indexes have no owner", "next != nil && is(next, *iotago.AnchorOutput) && as(next, *iotago.AnchorOutput, StateIndex) != a.StateIndex && as(next, *iotago.AnchorOutput, StateIndex) != a.StateIndex + 1")

		// per address kind
		ref := "has(set.UnlockedAddrsByAddrKey, Key(owner)) && at(set.UnlockedAddrsByAddrKey, Key(owner)).UnlockedAtInputIndex == ReferencedInputIndex(unlock)"
		for _, t := range []string{"Account", "Anchor", "NFT"} {
			s := c.unlockAddr("*iotago." + t + "Address")
			s.Exact("chain address: only by a chain reference to the input that unlocked it", "", "is(unlock, iotago.ReferentialUnlock) && Chainable(unlock) && SourceAllowed(unlock, owner) && "+ref)
			s.Require("chain address: recorded as referenced", "implies(!only, has(final(set.UnlockedAddrsByAddrKey[Key(owner)].ReferencedByInputIndex), idx))")
			c.Sum(":"+t+"Unlock.SourceAllowed", Opt{Names: []string{"u", "a"}}).ResultB("source", 0, "", "is(a, *iotago."+t+"Address)")
			c.Sum(":"+t+"Unlock.Chainable", Opt{Names: []string{"u"}}).ResultB("chainable", 0, "", "true")
			c.Sum(":"+t+"Unlock.ReferencedInputIndex", Opt{Names: []string{"u"}}).Result("index", 0, "", "u.Reference")
		}
		c.Sum(":ReferenceUnlock.SourceAllowed", Opt{Names: []string{"u", "a"}}).ResultB("source", 0, "", "!is(a, iotago.ChainAddress)")
		c.Sum(":ReferenceUnlock.Chainable", Opt{Names: []string{"u"}}).ResultB("chainable", 0, "", "false")
		c.Sum(":ReferenceUnlock.ReferencedInputIndex", Opt{Names: []string{"u"}}).Result("index", 0, "", "u.Reference")
		for _, t := range []string{"Ed25519", "ImplicitAccountCreation"} {
			s := c.unlockAddr("*iotago."+t+"Address", "Unlock")
			s.Exact("direct address: a fresh signature, or a plain reference to a signature that fits", "!is(unlock, *iotago.SignatureUnlock) || !is(unlock, iotago.ReferentialUnlock)", `
				is(unlock, *iotago.SignatureUnlock) && !has(set.UnlockedAddrsByAddrKey, Key(owner)) && ok(Unlock(owner, msg, as(unlock, *iotago.SignatureUnlock, Signature))) ||
				is(unlock, iotago.ReferentialUnlock) && !Chainable(unlock) && SourceAllowed(unlock, owner) && has(set.SignatureUnlockedAddrsByIndex, ReferencedInputIndex(unlock)) &&
				at(set.SignatureUnlockedAddrsByIndex, ReferencedInputIndex(unlock)).UnlockedAddress.UnlockedAtInputIndex == ReferencedInputIndex(unlock) &&
				MatchesAddress(at(set.SignatureUnlockedAddrsByIndex, ReferencedInputIndex(unlock)).Signature, owner)`)
			s.Require("direct address: nothing is unlocked by a check inside a multi unlock", "implies(only, final(set.UnlockedAddrsByAddrKey) == set.UnlockedAddrsByAddrKey && final(set.SignatureUnlockedAddrsByIndex) == set.SignatureUnlockedAddrsByIndex)")
			s.Require("direct address: unlocked afterwards", "implies(!only, has(final(set.UnlockedAddrsByAddrKey), Key(owner)))")
			s.RequireIf("direct address: only a signature makes a signature referencable", "!only && is(unlock, iotago.ReferentialUnlock) && !is(unlock, *iotago.SignatureUnlock)", "final(set.SignatureUnlockedAddrsByIndex) == set.SignatureUnlockedAddrsByIndex")
			s.RequireIf("direct address: an address stays unlocked by the input that unlocked it first", "has(set.UnlockedAddrsByAddrKey, Key(owner)) && is(unlock, iotago.ReferentialUnlock)", "final(set.UnlockedAddrsByAddrKey) == set.UnlockedAddrsByAddrKey")
			s.RequireIf("direct address: a signature is referencable at its own input", "!only && is(unlock, *iotago.SignatureUnlock) && !is(unlock, iotago.ReferentialUnlock)", "has(final(set.SignatureUnlockedAddrsByIndex), idx) && at(final(set.SignatureUnlockedAddrsByIndex), idx).Signature == as(unlock, *iotago.SignatureUnlock, Signature)")
		}
		m := c.unlockAddr("*iotago.MultiAddress", "MultiUnlock")
		m.Exact("multi address: a fresh multi unlock or a plain reference", "(!is(unlock, *iotago.MultiUnlock) || !is(unlock, iotago.ReferentialUnlock)) && !(only && is(unlock, *iotago.MultiUnlock))", `
			is(unlock, *iotago.MultiUnlock) && !has(set.UnlockedAddrsByAddrKey, Key(owner)) && ok(MultiUnlock(set, owner, unlock, msg, idx)) ||
			is(unlock, iotago.ReferentialUnlock) && !Chainable(unlock) && SourceAllowed(unlock, owner) && `+ref)
		mu := c.Sum("vm:unlockedAddressesSet.MultiUnlock", Opt{Names: []string{"s", "addr", "mu", "msg", "idx"}, Opaque: []string{"vm.unlockAddress"}, Fns: vmFns})
		mu.Require("one unlock slot per address", "len(addr.Addresses) == len(mu.Unlocks)")
		mu.Require("no nested multi unlock", "!some(u, mu.Unlocks, is(u, *iotago.MultiUnlock))")
		mu.Require("every unlock is empty or valid for the address in its slot, checked without unlocking", "!some(u, mu.Unlocks, !is(u, *iotago.EmptyUnlock) && !is(u, *iotago.MultiUnlock) && !(vm.unlockAddress(addr.Addresses[u_i].Address, u, idx, s, msg, true) == nil))")
		mu.Require("weights of the given unlocks reach the threshold", "sum(u, mu.Unlocks, !is(u, *iotago.EmptyUnlock), addr.Addresses[u_i].Weight) >= addr.Threshold")
		mu.Accepts("enough valid unlocks are accepted", `len(addr.Addresses) == len(mu.Unlocks) && !some(u, mu.Unlocks, is(u, *iotago.MultiUnlock)) &&
			all(u, mu.Unlocks, implies(!is(u, *iotago.EmptyUnlock), vm.unlockAddress(addr.Addresses[u_i].Address, u, idx, s, msg, true) == nil)) &&
			sum(u, mu.Unlocks, !is(u, *iotago.EmptyUnlock), addr.Addresses[u_i].Weight) >= addr.Threshold`)
		mu.Require("only the multi address itself is unlocked", "final(s.SignatureUnlockedAddrsByIndex) == s.SignatureUnlockedAddrsByIndex && at(final(s.UnlockedAddrsByAddrKey), Key(addr)).UnlockedAtInputIndex == idx")
	}})
	register(&Prop{ID: "P02", Note: "Signature acceptance: the exact acceptance conditions of the Ed25519 signature, the address unlock functions, block and attestation signature verification, and what the signing messages are built from.", Min: 10, Run: func(c *Ctx) {
		verify := func(p string) string {
			return "addr == blake2b.Sum256(" + p + ".PublicKey) && ed25519.Verify(" + p + ".PublicKey, msg, " + p + ".Signature)"
		}
		c.Sum(":Ed25519Signature.Valid", Opt{Names: []string{"e", "msg", "addr"}}).Exact("bound to key and message", "", verify("e"))
		for _, t := range []string{"Ed25519", "ImplicitAccountCreation"} {
			s := c.Sum(":"+t+"Address.Unlock", Opt{Names: []string{"addr", "msg", "sig"}})
			s.Exact("only an Ed25519 signature of the address over the message", "", "is(sig, *iotago.Ed25519Signature) && "+
				"addr == blake2b.Sum256(as(sig, *iotago.Ed25519Signature, PublicKey)) && ed25519.Verify(as(sig, *iotago.Ed25519Signature, PublicKey), msg, as(sig, *iotago.Ed25519Signature, Signature))")
		}
		ma := c.Sum(":Ed25519Signature.MatchesAddress", Opt{Names: []string{"e", "addr"}})
		ma.ResultB("only the hash of the key", 0, "is(addr, *iotago.Ed25519Address)", "addr == blake2b.Sum256(e.PublicKey)")
		ma.ResultB("only the hash of the key (implicit)", 0, "is(addr, *iotago.ImplicitAccountCreationAddress)", "addr == blake2b.Sum256(e.PublicKey)")
		ma.ResultB("no other address kind", 0, "!is(addr, *iotago.ImplicitAccountCreationAddress) && !is(addr, *iotago.Ed25519Address)", "false")
		sig := func(o string) string { return "as(" + o + ".Signature, *iotago.Ed25519Signature, " }
		for _, v := range [][3]string{{":Block.VerifySignature", "b", "SigningMessage"}, {":Attestation.VerifySignature", "b", "signingMessage"}} {
			s := c.Sum(v[0], Opt{Names: []string{"b"}, Opaque: []string{v[2]}})
			s.ob("valid only for a non-empty key and the signing message", func() {
				valid := engine.TruthB(engine.Box(s.Out.Result(0)))
				want := s.Scope.Bool("ok(" + v[2] + "(b), 1) && is(b.Signature, *iotago.Ed25519Signature) && !zero(" + sig("b") + "PublicKey)) && ed25519.Verify(" + sig("b") + "PublicKey), res(" + v[2] + "(b), 0), " + sig("b") + "Signature))")
				if ok, pos, neg := engine.Entails(c.P, engine.And(s.Out.Returns(), valid), want); !ok {
					Failf("reports a valid signature although it is not bound to key and message\n%s", showModel(pos, neg))
				}
				if ok, pos, neg := engine.Entails(c.P, want, valid); !ok {
					Failf("reports an invalid signature although it verifies\n%s", showModel(pos, neg))
				}
				if ok, _, _ := engine.Sat(c.P, engine.And(s.Out.Returns(), valid)); !ok {
					Failf("never reports a valid signature")
				}
			})
		}
		b := c.Sum(":Block.SigningMessage", Opt{Names: []string{"b"}, Opaque: []string{"Hash"}})
		b.Result("header hash then body hash", 0, "", "cat(res(Hash(b.Header, b.API), 0), res(Hash(b.Body), 0))")
		at := c.Sum(":Attestation.signingMessage", Opt{Names: []string{"a"}, Opaque: []string{"Hash"}})
		at.Result("header hash then body hash", 0, "", "cat(res(Hash(a.Header, a.API), 0), a.BodyHash)")
	}})
	register(&Prop{ID: "P03", Note: "Timelock execution function and expiration rule, for every input and every commitment slot.", Min: 12, Run: func(c *Ctx) {
		c.basis()
		c.exec("ExecFuncTimelocks").Exact("timelocks expired at the earliest inclusion slot", "", "!some(o, vmParams.WorkingSet.UTXOInputsSet, hasTL(o) && (!hasC() || tlSlot(o) > future()))")
		ou := []string{"tx", "commit", "input", "unlock", "idx", "set", "outChains", "msg"}
		uo := c.Sum("vm:unlockOutput", Opt{Names: ou, Opaque: []string{"vm.unlockAddress", "vm.addressToUnlock"}, Fns: merge(vmFns, exFns)})
		early := "commit.Slot + MinCommittableAge(ProtocolParameters(tx.API))"
		late := "commit.Slot + MaxCommittableAge(ProtocolParameters(tx.API))"
		uo.RequireIf("expiration needs a commitment", "hasEX(input)", "commit != nil")
		uo.Rejects("nobody unlocks between", "hasEX(input) && "+early+" < exSlot(input) && "+late+" >= exSlot(input)")
		uo.RequireIf("after expiration only the return address", "hasEX(input) && exRet(input) != nil && "+early+" >= exSlot(input)", "ok(vm.unlockAddress(under(exRet(input)), unlock, idx, set, msg, false))")
		uo.RequireIf("before expiration only the owner", "hasEX(input) && "+late+" < exSlot(input) && "+early+" < exSlot(input)", "ok(vm.unlockAddress(under(res(vm.addressToUnlock(tx, input, idx, outChains), 0)), unlock, idx, set, msg, false))")
		ucs := func(m string, names ...string) *Sum {
			return c.Sum(":UnlockConditionSet."+m, Opt{Names: append([]string{"f"}, names...), Fns: map[string]M{
				"hasTL": mac("has(f, iotago.UnlockConditionTimelock)"), "tl": mac("as(at(f, iotago.UnlockConditionTimelock), *iotago.TimelockUnlockCondition, Slot)"),
				"hasEX": mac("has(f, iotago.UnlockConditionExpiration)"), "ex": mac("as(at(f, iotago.UnlockConditionExpiration), *iotago.ExpirationUnlockCondition, Slot)"),
				"ret":     mac("as(at(f, iotago.UnlockConditionExpiration), *iotago.ExpirationUnlockCondition, ReturnAddress)"),
				"hasAddr": mac("has(f, iotago.UnlockConditionAddress)"), "addr": mac("as(at(f, iotago.UnlockConditionAddress), *iotago.AddressUnlockCondition, Address)"),
			}})
		}
		ucs("TimelocksExpired", "future").Exact("expired once the slot is reached", "implies(hasTL(), is(at(f, iotago.UnlockConditionTimelock), *iotago.TimelockUnlockCondition))", "!hasTL() || tl() <= future")
		ucs("OwnerAddressCanUnlock", "past").ResultB("owner strictly before", 0, "", "!hasEX() || past < ex()")
		ucs("ReturnAddressCanUnlock", "future").ResultB("return address from the slot on", 0, "", "hasEX() && future >= ex()")
		ucs("ReturnAddressCanUnlock", "future").ob("the return address", func() {
			s := ucs("ReturnAddressCanUnlock", "future")
			pre := s.Scope.Bool("hasEX() && is(at(f, iotago.UnlockConditionExpiration), *iotago.ExpirationUnlockCondition) && future >= ex()")
			for _, a := range s.Out.Result(1) {
				if ok, pos, neg := engine.Sat(c.P, engine.AndAll(pre, a.G, engine.Not(engine.EqB(a.T, s.Scope.Term("ret()"))))); ok {
					Failf("returns %s instead of the return address\n%s", a.T, showModel(pos, neg))
				}
			}
		})
		ce := ucs("CheckExpirationCondition", "future", "past")
		typed := "implies(hasEX(), is(at(f, iotago.UnlockConditionExpiration), *iotago.ExpirationUnlockCondition))"
		ce.Exact("unlockable by somebody", typed, "!hasEX() || future >= ex() || past < ex()")
		ce.Result("return address after", 0, "hasEX() && future >= ex()", "ret()")
		ce.Result("owner before", 0, "!hasEX() || future < ex()", "nil")
		ucs("HasTimelockUntil", "slot").ResultB("locked strictly beyond", 0, "", "hasTL() && slot < tl()")
	}})
	register(&Prop{ID: "P04", Note: "Sender feature execution function and issuer rule of all chain creations.", Min: 5, Run: func(c *Ctx) {
		c.basis()
		c.exec("ExecFuncSenderUnlocked").Exact("every sender is unlocked", "", "!some(o, vmParams.WorkingSet.Tx.Outputs, hasSnd(o) && !has(vmParams.WorkingSet.UnlockedAddrs, Key(under(sender(o)))))")
		for _, t := range [][2]string{{"account", tAcc}, {"anchor", tAnc}, {"nft", tNFT}} {
			c.stvf(t[0]+" create", t[1], "create", "").Require("issuer unlocked", "issuerOK(next)")
		}
		ex := c.Sum("vm/nova:virtualMachine.Execute", Opt{Events: true, Names: []string{"v", "tx", "in", "unlocked", "funcs"}, Opaque: []string{"nova.NewVMParamsWorkingSet", "vm.RunVMFuncs"}})
		ex.AtCall("the unlocked addresses given are the ones checked", "vm.RunVMFuncs", "now(arg1.WorkingSet.UnlockedAddrs) == unlocked")
	}})
	register(&Prop{ID: "P05", Note: "Base token balance and storage deposit return execution function.", Min: 4, Run: func(c *Ctx) {
		c.basis("Basic")
		s := c.Sum("vm:ExecFuncBalancedBaseTokens()", Opt{Names: execNames, Opaque: []string{"UnlockedBy", "IsSimpleTransfer"}, Fns: merge(vmFns, exFns, map[string]M{
			"owed": mac(`mapsum(o, vmParams.WorkingSet.UTXOInputsSet, hasSDR(o) && !UnlockedBy(vmParams.WorkingSet.UnlockedAddrs, ifte(has(vmParams.WorkingSet.InputIDToInputIndex, o_k), at(vmParams.WorkingSet.InputIDToInputIndex, o_k), 0), Key(sdrRet(o))), Key(sdrRet(o)), sdrAmt(o))`),
			"paid": mac(`mapsum(o, vmParams.WorkingSet.Tx.Outputs, is(o, *iotago.BasicOutput) && IsSimpleTransfer(o), ownKey(o), BaseTokenAmount(o))`),
		})})
		s.Require("base tokens in equal base tokens out", "sum(o, vmParams.WorkingSet.UTXOInputsSet, true, BaseTokenAmount(o)) == sum(o, vmParams.WorkingSet.Tx.Outputs, true, BaseTokenAmount(o))")
		s.Require("storage deposits returned by simple transfers", "!some(a, owed(), !has(paid(), a_k) || at(paid(), a_k) < a)")
		u := c.Sum("vm:UnlockedAddresses.UnlockedBy", Opt{Names: []string{"u", "i", "k"}})
		u.ResultB("an input is unlocked by an address that unlocked it or that it references", 0, "", "has(u, k) && (at(u, k).UnlockedAtInputIndex == i || has(at(u, k).ReferencedByInputIndex, i))")
		st := c.Sum(":BasicOutput.IsSimpleTransfer", Opt{Names: []string{"b"}})
		st.ResultB("a simple transfer has an address condition only and no features", 0, "", "len(UnlockConditionSet(b)) == 1 && len(FeatureSet(b)) == 0")
		ws := c.workingSet()
		ws.Require("the inputs the balance is taken over are the resolved inputs", "ret0.UTXOInputsSet == utxos()")
		ws.Require("input positions", "ret0.InputIDToInputIndex == mapfill(i, t.TransactionEssence.Inputs, true, OutputID(i), i_i)")
	}})
	register(&Prop{ID: "P06", Note: "Mana accounting: balance rule, exact sums over inputs and outputs with overflow errors, working set wiring, and the mana lock of block issuer accounts.", Min: 12, Run: func(c *Ctx) {
		c.basis("Account")
		b := c.exec("ExecFuncBalancedMana")
		b.Exact("mana out covered, burning only if allowed, no input from the future", "", `!some(o, vmParams.WorkingSet.UTXOInputsSet, CreationSlot(o_k) > vmParams.WorkingSet.Tx.TransactionEssence.CreationSlot) &&
			vmParams.WorkingSet.TotalManaOut <= vmParams.WorkingSet.TotalManaIn && (vmParams.WorkingSet.TotalManaOut == vmParams.WorkingSet.TotalManaIn || `+capBurnMana+`)`)
		mi := c.Sum("vm:TotalManaIn", Opt{Names: []string{"mp", "st", "slot", "ins", "rewards"}, Opaque: []string{"CreationSlot", "DecayManaBySlots", "iotago.PotentialMana"}, Fns: map[string]M{
			"stored": mac("DecayManaBySlots(mp, StoredMana(o), CreationSlot(k), slot)", "o", "k"),
			"pot":    mac("iotago.PotentialMana(mp, st, o, CreationSlot(k), slot)", "o", "k"),
		}})
		mi.Result("decayed stored plus potential mana of every input plus rewards", 0, "", "sum(o, ins, true, res(stored(o, o_k), 0)) + sum(o, ins, true, res(pot(o, o_k), 0)) + sum(r, rewards, true, r)")
		mi.Require("stored mana calculation errors surface", "!some(o, ins, !ok(stored(o, o_k), 1))")
		mi.Accepts("nothing else fails", `!some(o, ins, true) && !some(r, rewards, true)`)
		mi.ob("every addition is overflow checked", func() { sumsChecked(mi) })
		mo := c.Sum("vm:TotalManaOut", Opt{Names: []string{"outs", "allot"}})
		mo.Result("stored mana of every output plus every allotment", 0, "", "sum(o, outs, true, StoredMana(o)) + sum(a, allot, true, a.Mana)")
		mo.ob("every addition is overflow checked", func() { sumsChecked(mo) })
		ws := c.workingSet()
		ws.Require("mana in is taken over the resolved inputs and rewards at the creation slot", "ret0.TotalManaIn == res(vm.TotalManaIn(ManaDecayProvider(api), StorageScoreStructure(api), t.TransactionEssence.CreationSlot, utxos(), in.RewardsInputSet), 0)")
		ws.Require("mana in errors surface", "ok(vm.TotalManaIn(ManaDecayProvider(api), StorageScoreStructure(api), t.TransactionEssence.CreationSlot, utxos(), in.RewardsInputSet), 1)")
		ws.Require("mana out is taken over the outputs and allotments", "ret0.TotalManaOut == res(vm.TotalManaOut(t.Outputs, t.TransactionEssence.Allotments), 0) && ok(vm.TotalManaOut(t.Outputs, t.TransactionEssence.Allotments), 1)")
		for _, k := range [][2]string{{"account", tAcc}, {"implicit account", tImp}} {
			s := c.manaLock(k[0], k[1])
			prem := "hasBI(input.Output) || hasBI(next)"
			if k[0] != "account" {
				prem = "true"
			}
			manaLocked(s, prem)
		}
		ml := c.Sum(":UnlockConditionSet.HasManalockCondition", Opt{Names: []string{"f", "id", "slot"}, Opaque: []string{"HasTimelockUntil", "ToAddress"}})
		ml.ResultB("locked beyond the slot and owned by the account", 0, "has(f, iotago.UnlockConditionAddress) && is(at(f, iotago.UnlockConditionAddress), *iotago.AddressUnlockCondition)", `HasTimelockUntil(f, slot) &&
			Type(as(at(f, iotago.UnlockConditionAddress), *iotago.AddressUnlockCondition, Address)) == iotago.AddressAccount && Equal(as(at(f, iotago.UnlockConditionAddress), *iotago.AddressUnlockCondition, Address), ToAddress(id))`)
		ml.ResultB("not without an address condition", 0, "!has(f, iotago.UnlockConditionAddress)", "false")
		ag := c.Sum(":Allotments.Get", Opt{Names: []string{"a", "id"}})
		ag.ob("allotment of the account", func() {
			for _, r := range ag.Out.Result(0) {
				if r.T.Op == "int" {
					if ok, pos, neg := engine.Sat(c.P, engine.And(r.G, ag.Scope.Bool("some(x, a, x.AccountID == id)"))); ok && len(pos)+len(neg) > 0 {
						Failf("returns %s although the account has an allotment\n%s", r.T, showModel(pos, neg))
					}
				} else if want := ag.Scope.Bool("some(x, a, x.AccountID == id)"); true {
					if ok, pos, neg := engine.Entails(c.P, r.G, want); !ok {
						Failf("returns %s although the account has no allotment\n%s", r.T, showModel(pos, neg))
					}
					if !strings.HasSuffix(r.T.String(), ".Mana") {
						Failf("returns %s instead of the allotted mana", r.T)
					}
				}
			}
		})
	}})
	register(&Prop{ID: "P07", Note: "Native token balance execution function and the token sums it is based on; foundry supply rules are decided by P13.", Min: 6, Run: func(c *Ctx) {
		c.basis()
		s := c.ntBalance()
		s.Require("token sums are valid", "ok(NativeTokenSum(vmParams.WorkingSet.UTXOInputs), 1) && ok(NativeTokenSum(vmParams.WorkingSet.Tx.Outputs), 1)")
		s.Require("no minting without the foundry", "!some(t, O(), !fnd(t_k) && !has(I(), t_k))")
		s.Require("no more out than in without the foundry", "!some(t, I(), !fnd(t_k) && has(O(), t_k) && at(O(), t_k) > t)")
		s.RequireIf("no burning without the capability", "!("+capBurnNT+")", "!some(t, I(), !fnd(t_k) && !has(O(), t_k)) && !some(t, I(), !fnd(t_k) && has(O(), t_k) && !(at(O(), t_k) == t))")
		s.Require("sums are kept for the foundry rules", "final(vmParams.WorkingSet.InNativeTokens) == I() && final(vmParams.WorkingSet.OutNativeTokens) == O()")
		s.Exact("nothing else is rejected", "ok(NativeTokenSum(vmParams.WorkingSet.UTXOInputs), 1) && ok(NativeTokenSum(vmParams.WorkingSet.Tx.Outputs), 1) && "+capBurnNT,
			"!some(t, O(), !fnd(t_k) && !has(I(), t_k)) && !some(t, I(), !fnd(t_k) && has(O(), t_k) && at(O(), t_k) > t)")
		for _, t := range []string{"TxEssenceOutputs"} {
			n := c.Sum(":"+t+".NativeTokenSum", Opt{Names: []string{"outs"}, Fns: exFns})
			n.Result("sum per token over all outputs", 0, "", "mapsum(o, outs, hasNT(o), ntID(o), ntAmt(o))")
			n.Rejects("non positive amounts", "some(o, outs, hasNT(o) && is(at(FeatureSet(o), iotago.FeatureNativeToken), *iotago.NativeTokenFeature) && ntAmt(o) < 0) || some(o, outs, hasNT(o) && is(at(FeatureSet(o), iotago.FeatureNativeToken), *iotago.NativeTokenFeature) && ntAmt(o) == 0)")
			n.Rejects("sums beyond 256 bits", `some(o, outs, hasNT(o) && is(at(FeatureSet(o), iotago.FeatureNativeToken), *iotago.NativeTokenFeature) && ntAmt(o) > 0 && has(pre(mapsum(p, outs, hasNT(p), ntID(p), ntAmt(p))), ntID(o)) &&
				at(pre(mapsum(p, outs, hasNT(p), ntID(p), ntAmt(p))), ntID(o)) + ntAmt(o) > abi.MaxUint256)`)
		}
	}})
	register(&Prop{ID: "P08", Note: "Chain transition dispatch: which rule is applied to which chain, from the chain sets, over the working set; list of execution functions; type continuity of transitions.", Min: 20, Run: func(c *Ctx) {
		s := c.exec("ExecFuncChainTransitions")
		W := "vmParams.WorkingSet."
		s.Exact("every chain is checked by its rule", "", "!some(i, "+W+"InChains, !has("+W+"OutChains, i_k) && !(ChainSTVF(vm, vmParams, iotago.ChainTransitionTypeDestroy, i, nil) == nil)) && "+
			"!some(i, "+W+"InChains, has("+W+"OutChains, i_k) && !(ChainSTVF(vm, vmParams, iotago.ChainTransitionTypeStateChange, i, at("+W+"OutChains, i_k)) == nil)) && "+
			"!some(o, "+W+"OutChains, !has("+W+"InChains, o_k) && !(ChainSTVF(vm, vmParams, iotago.ChainTransitionTypeGenesis, nil, o) == nil))")
		run := c.Sum("vm:RunVMFuncs", Opt{Names: []string{"vm", "params", "fs"}})
		run.ob("any failing function fails the execution", func() {
			n := 0
			walkTerms(run.Out.Succ(), func(t *engine.Term) {
				if t.Op == "exists" && strings.Contains(t.Args[0].String(), "fs") {
					n++
				}
			})
			if n != 1 {
				Failf("the functions are not run one after the other until the first failure")
			}
			if ok, _, _ := engine.Entails(c.P, run.Out.Succ(), engine.Not(run.Out.Fail())); !ok {
				Failf("a failing function does not fail the execution")
			}
		})
		nv := c.Sum("vm/nova:NewVirtualMachine", Opt{})
		nv.ob("the default list runs every rule", func() {
			have := engine.Box(nv.Out.Result(0)).String()
			at := map[string]int{}
			for _, f := range []string{"ExecFuncTimelocks", "ExecFuncSenderUnlocked", "ExecFuncBalancedBaseTokens", "ExecFuncBalancedNativeTokens", "ExecFuncChainTransitions", "ExecFuncBalancedMana", "ExecFuncAtMostOneImplicitAccountCreationAddress"} {
				mk := c.Sum("vm:"+f, Opt{})
				if mk.Err != "" {
					Failf("%s", mk.Err)
				}
				fn := engine.Box(mk.Out.Result(0)).String()
				at[f] = strings.Index(have, fn)
				if at[f] < 0 {
					Failf("%s (%s) is not in the default execution list %s", f, fn, clip(have, 900))
				}
			}
			if at["ExecFuncBalancedNativeTokens"] > at["ExecFuncChainTransitions"] {
				Failf("chain transitions run before the native token sums they use are computed")
			}
		})
		for _, k := range []string{"default", "given"} {
			a := "len(funcs) == 0"
			want := "v.execList"
			if k == "given" {
				a, want = "len(funcs) != 0", "funcs"
			}
			ex := c.Sum("vm/nova:virtualMachine.Execute", Opt{Case: k, Assume: a, Names: []string{"v", "tx", "in", "unlocked", "funcs"}, Opaque: []string{"nova.NewVMParamsWorkingSet", "vm.RunVMFuncs!1"}})
			ex.Require("the execution list is run", "ok(vm.RunVMFuncs(v, "+want+")) && ok(nova.NewVMParamsWorkingSet(tx.API, tx, in), 1)")
		}
		ci := c.Sum("vm:InputSet.ChainInputSet", Opt{Names: []string{"ins"}})
		cid := func(o, k string) string {
			return "ifte(Empty(ChainID(" + o + ")), ifte(is(ChainID(" + o + "), iotago.UTXOIDChainID), FromOutputID(ChainID(" + o + "), " + k + "), ChainID(" + o + ")), ChainID(" + o + "))"
		}
		ci.ob("every chain input under its identifier", func() {
			chainSet(ci, "ins", "o_k", "is(o, iotago.ChainOutput)", map[string]string{"ChainID": "ID", "OutputID": "o_k", "Output": "o"})
		})
		ci.NoPanic("panics only for chains that cannot have an identifier", "!some(o, ins, is(o, iotago.ChainOutput) && Empty("+cid("o", "o_k")+"))")
		co := c.Sum(":TxEssenceOutputs.ChainOutputSet", Opt{Names: []string{"outs", "txID"}, Opaque: []string{"iotago.OutputIDFromTransactionIDAndIndex"}})
		co.ob("every chain output under its identifier", func() {
			chainSet(co, "outs", "iotago.OutputIDFromTransactionIDAndIndex(txID, o_i)", "is(o, iotago.ChainOutput)", map[string]string{"": "o"})
		})
		ws := c.workingSet()
		ws.Require("chains are taken from all inputs and outputs", "ret0.InChains == ChainInputSet(utxos()) && ret0.OutChains == ChainOutputSet(t.Outputs, res(ID(t), 0)) && ret0.Tx == t")
		ws.Require("context of the transition rules", "ret0.BIC == in.BlockIssuanceCreditInputSet && ret0.Commitment == in.CommitmentInput && ret0.Rewards == in.RewardsInputSet")
		ws.Require("the inputs are the resolved inputs in order", "ret0.UTXOInputs == collect(i, t.TransactionEssence.Inputs, true, at(utxos(), OutputID(i)))")
		im := c.exec("ExecFuncAtMostOneImplicitAccountCreationAddress")
		im.Require("at most one implicit account creation address is consumed", `!some(o, vmParams.WorkingSet.UTXOInputs, isImp(o) && is(at(UnlockConditionSet(o), iotago.UnlockConditionAddress), *iotago.AddressUnlockCondition) && pre(some(p, vmParams.WorkingSet.UTXOInputs, isImp(p))))`)
		// type continuity and creation with an empty identifier
		for _, k := range [][3]string{{"account", tAcc, tAcc}, {"implicit", tImp, tAcc}, {"anchor", tAnc, tAnc}, {"foundry", tFnd, tFnd}, {"nft", tNFT, tNFT}, {"delegation", tDel, tDel}} {
			c.stvf(k[0]+" change", k[1], "change", "").Require("continues as its own type", "is(next, "+k[2]+")")
		}
		for _, k := range [][3]string{{"account", tAcc, "AccountID"}, {"anchor", tAnc, "AnchorID"}, {"nft", tNFT, "NFTID"}, {"delegation", tDel, "DelegationID"}} {
			c.stvf(k[0]+" create", k[1], "create", "").Require("created with an empty identifier", "zero(as(next, "+k[1]+", "+k[2]+"))")
		}
	}})
	exFns["isImp"] = mac(`Type(o) == iotago.OutputBasic && has(UnlockConditionSet(o), iotago.UnlockConditionAddress) &&
		Type(as(at(UnlockConditionSet(o), iotago.UnlockConditionAddress), *iotago.AddressUnlockCondition, Address)) == iotago.AddressImplicitAccountCreation`, "o")
}

// workingSet summarises the construction of the working set.
func (c *Ctx) ntBalance() *Sum {
	return c.Sum("vm:ExecFuncBalancedNativeTokens()", Opt{Names: execNames, Opaque: []string{"NativeTokenSum"}, Fns: merge(vmFns, exFns, map[string]M{
		"I":   mac("res(NativeTokenSum(vmParams.WorkingSet.UTXOInputs), 0)"),
		"O":   mac("res(NativeTokenSum(vmParams.WorkingSet.Tx.Outputs), 0)"),
		"fnd": mac("has(vmParams.WorkingSet.OutChains, iface(k, iotago.NativeTokenID))", "k"),
	})})
}

func (c *Ctx) workingSet() *Sum {
	s := c.Sum("vm/nova:NewVMParamsWorkingSet", Opt{Names: []string{"api", "t", "in"}, Opaque: []string{"ID", "ChainInputSet", "ChainOutputSet", "vm.TotalManaIn", "vm.TotalManaOut", "OutputID"}, Fns: map[string]M{
		"utxos": mac("U"),
	}})
	if s.Err == "" { // U: the input set of a created working set
		for _, a := range engine.Unbox(s.Scope.Term("ret0.UTXOInputsSet")) {
			if ok, _, _ := engine.Sat(c.P, engine.And(a.G, s.Out.Succ())); ok {
				s.Scope.Vars["U"] = a.T
			}
		}
	}
	return s
}

// chainSet decides that the result is the map identifier -> chain over a domain, where an empty identifier is derived
// from the output identifier.
func chainSet(s *Sum, dom, oid, guard string, fields map[string]string) {
	res := s.Out.Result(0)
	n := 0
	for _, a := range res {
		g := engine.And(a.G, s.Out.Returns())
		if ok, _, _ := engine.Sat(s.C.P, g); !ok {
			continue
		}
		n++
		if a.T.Op != "mapfill" {
			Failf("result %s is not a map over the chain outputs", clip(a.T.String(), 200))
		}
		id := "ifte(Empty(ChainID(o)), FromOutputID(ChainID(o), " + oid + "), ChainID(o))"
		want := s.Scope.Term("mapfill(o, " + dom + ", " + guard + ", " + id + ", 0)")
		if want.Args[1] != a.T.Args[1] || a.T.Args[0].Op != "makemap" {
			Failf("the set is taken over %s", a.T.Args[1])
		}
		for f, w := range fields {
			val := a.T.Args[3]
			if f != "" {
				s.Scope.Vars["v"] = val
				val = s.Scope.Term("v." + f)
			}
			want := s.Scope.Term("mapfill(o, " + dom + ", " + guard + ", " + id + ", " + strings.ReplaceAll(w, "ID", id) + ")")
			if ok, pos, neg := engine.Entails(s.C.P, g, engine.EqB(want, engine.WithVal(a.T, val))); !ok {
				Failf("the set does not hold %s as %s under each identifier\n%s", w, f, showModel(pos, neg))
			}
		}
	}
	if n != 1 {
		Failf("%d results", n)
	}
}

// sumsChecked decides that success excludes overflow of every accumulation step: for each value added per element there is
// an overflow check of the running total plus that value.
func sumsChecked(s *Sum) {
	var adds []*engine.Term
	for _, a := range s.Out.Result(0) {
		if ok, _, _ := engine.Sat(s.C.P, engine.And(a.G, s.Out.Succ())); !ok {
			continue
		}
		walkTerms(engine.EqB(a.T, engine.SymTerm("total")), func(t *engine.Term) {
			if t.Op == "sum" {
				adds = append(adds, t)
			}
		})
	}
	if len(adds) == 0 {
		Failf("the total is not a sum")
	}
	for _, sum := range adds {
		found := false
		val := sum.Args[len(sum.Args)-1]
		walkTerms(s.Out.Succ(), func(t *engine.Term) {
			if t.Op == "ovf" && strings.Contains(t.String(), val.String()) && strings.Contains(t.String(), "pre(") {
				found = true
			}
		})
		if !found {
			Failf("adding %s is not overflow checked", val)
		}
	}
}

// manaLock is the chain transition of an account with the mana calculations kept apart.
func (c *Ctx) manaLock(kase, typ string) *Sum {
	fns := merge(vmFns, map[string]M{
		"W":      mac("vmParams.WorkingSet"),
		"stored": mac("DecayManaBySlots(ManaDecayProvider(vmParams.API), StoredMana(input.Output), CreationSlot(input.OutputID), vmParams.WorkingSet.Tx.TransactionEssence.CreationSlot)"),
		"pot":    mac("iotago.PotentialMana(ManaDecayProvider(vmParams.API), StorageScoreStructure(vmParams.API), input.Output, CreationSlot(input.OutputID), vmParams.WorkingSet.Tx.TransactionEssence.CreationSlot)"),
	})
	op := append([]string{"Get", "HasManalockCondition", "CreationSlot", "StoredMana"}, timeOpaque...)
	return c.Sum("vm/nova:virtualMachine.ChainSTVF", Opt{Names: stvfNames, Case: kase + " mana lock", Fns: fns, Opaque: op,
		Assume: "transType == iotago.ChainTransitionTypeStateChange && is(input.Output, " + typ + ") && is(next, *iotago.AccountOutput) && next != nil && input != nil"})
}

func manaLocked(s *Sum, prem string) {
	out := "stored()"
	s.RequireIf("mana of a block issuer account is locked to it", prem, `W().TotalManaIn - res(`+strings.ReplaceAll(out, "KIND", "stored")+`, 0) - res(pot(), 0) >=
			W().TotalManaOut - as(next, *iotago.AccountOutput, Mana) - Get(W().Tx.TransactionEssence.Allotments, as(next, *iotago.AccountOutput, AccountID)) -
			sum(o, W().Tx.Outputs, HasManalockCondition(UnlockConditionSet(o), as(next, *iotago.AccountOutput, AccountID), past() + MaxCommittableAge(pp())), StoredMana(o))`)
	s.RequireIf("stored and potential mana calculation errors surface", prem, "ok("+strings.ReplaceAll(out, "KIND", "stored")+", 1) && ok(pot(), 1)")
	s.RequireIf("mana subtractions do not wrap", prem, `W().TotalManaIn - res(`+strings.ReplaceAll(out, "KIND", "stored")+`, 0) >= res(pot(), 0) && W().TotalManaOut >= as(next, *iotago.AccountOutput, Mana) &&
			W().TotalManaOut - as(next, *iotago.AccountOutput, Mana) >= Get(W().Tx.TransactionEssence.Allotments, as(next, *iotago.AccountOutput, AccountID))`)
}
