package rules

import (
	"fmt"
	"go/types"
	"sort"

	"verif/checker/engine"
)

// P16, P17, P30: implicit accounts, capability bit masks, restricted addresses.

// bit: an action and the protocol's bit for it
type bit struct {
	with, getter string
	n            int
}

var txBits = []bit{{"WithTransactionCanBurnNativeTokens", "CannotBurnNativeTokens", 0}, {"WithTransactionCanBurnMana", "CannotBurnMana", 1},
	{"WithTransactionCanDestroyAccountOutputs", "CannotDestroyAccountOutputs", 2}, {"WithTransactionCanDestroyAnchorOutputs", "CannotDestroyAnchorOutputs", 3},
	{"WithTransactionCanDestroyFoundryOutputs", "CannotDestroyFoundryOutputs", 4}, {"WithTransactionCanDestroyNFTOutputs", "CannotDestroyNFTOutputs", 5}}

var addrBits = []bit{{"WithAddressCanReceiveNativeTokens", "CannotReceiveNativeTokens", 0}, {"WithAddressCanReceiveMana", "CannotReceiveMana", 1},
	{"WithAddressCanReceiveOutputsWithTimelockUnlockCondition", "CannotReceiveOutputsWithTimelockUnlockCondition", 2},
	{"WithAddressCanReceiveOutputsWithExpirationUnlockCondition", "CannotReceiveOutputsWithExpirationUnlockCondition", 3},
	{"WithAddressCanReceiveOutputsWithStorageDepositReturnUnlockCondition", "CannotReceiveOutputsWithStorageDepositReturnUnlockCondition", 4},
	{"WithAddressCanReceiveAccountOutputs", "CannotReceiveAccountOutputs", 5}, {"WithAddressCanReceiveAnchorOutputs", "CannotReceiveAnchorOutputs", 6},
	{"WithAddressCanReceiveNFTOutputs", "CannotReceiveNFTOutputs", 7}, {"WithAddressCanReceiveDelegationOutputs", "CannotReceiveDelegationOutputs", 8}}

func maskBit(m string, n int) string {
	return fmt.Sprintf("len(%s) > %d && (%s[%d] & %d) != 0", m, n/8, m, n/8, 1<<(n%8))
}

// optFields decides which fields of the option struct the option function sets to val.
func (c *Ctx) optFields(with, val string) []string {
	s := c.Sum(":"+with+"()", Opt{Outer: []string{"val"}, Names: []string{"o"}})
	if s.Err != "" {
		Failf("%s: %s", with, s.Err)
	}
	pt, ok := s.Fn.Params[0].Type().(*types.Pointer)
	if !ok {
		Failf("%s is not an option of a struct", with)
	}
	st := pt.Elem().Underlying().(*types.Struct)
	var r []string
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i).Name()
		got := s.Scope.Term("final(o." + f + ")")
		if got == s.Scope.Term("o."+f) {
			continue
		}
		if ok, _, _ := engine.Entails(c.P, s.Out.Succ(), engine.EqB(got, s.Scope.Term(val))); !ok {
			Failf("%s sets %s to %s", with, f, clip(got.String(), 200))
		}
		r = append(r, f)
	}
	return r
}

// capTable: option, constructor and getter agree on the protocol's bits.
func (c *Ctx) capTable(build, maskType, all string, bits []bit) {
	fields := map[string]int{}
	c.Ob("options|"+build, build, func() {
		for _, b := range bits {
			fs := c.optFields(b.with, "val")
			if len(fs) != 1 {
				Failf("%s sets fields %v", b.with, fs)
			}
			if _, dup := fields[fs[0]]; dup {
				Failf("%s sets %s, which another option sets", b.with, fs[0])
			}
			fields[fs[0]] = b.n
		}
		if fs := c.optFields(all, "true"); len(fs) != len(bits) {
			Failf("%s sets %v", all, fs)
		}
	})
	s := c.Sum(":"+build, Opt{Names: []string{"opts"}, Opaque: []string{"options.Apply", "iotago.BitMaskSetBit"}})
	s.ob("each option sets its own bit", func() {
		var names []string
		for f := range fields {
			names = append(names, f)
		}
		sort.Strings(names)
		res := s.Out.Result(0)
		seen := map[int]bool{}
		conds := map[int]engine.B{}
		// bitOf: when the mask term has bit k set
		var bitOf func(t *engine.Term, k int) engine.B
		bitOf = func(t *engine.Term, k int) engine.B {
			switch {
			case t.Op == "gv" || t.Op == "phi":
				r := engine.False
				if t.Op == "phi" {
					t = t.Args[0]
				}
				for _, a := range engine.Unbox(t) {
					r = engine.Or(r, engine.And(a.G, bitOf(a.T, k)))
				}
				return r
			case t.Op == "call" && t.Sym == "iotago.BitMaskSetBit" && t.Args[1].Op == "int":
				seen[int(t.Args[1].Big.Int64())] = true
				return engine.Or(bitOf(t.Args[0], k), engine.BoolB(int(t.Args[1].Big.Int64()) == k))
			case t.Op == "list" && len(t.Args) == 0:
				return engine.False
			}
			Failf("the bit mask is built as %s", clip(t.String(), 200))
			return engine.False
		}
		for _, f := range names {
			r := engine.False
			for _, a := range res {
				r = engine.Or(r, engine.And(a.G, bitOf(a.T, fields[f])))
			}
			conds[fields[f]] = r
			var opt *engine.Term
			walkTerms(r, func(x *engine.Term) {
				if x.Op == "field" && x.Sym == f {
					opt = x
				}
			})
			if opt == nil {
				Failf("option %s does not decide about bit %d", f, fields[f])
			}
			want := engine.TruthB(opt)
			for _, g := range [][2]engine.B{{r, want}, {want, r}} {
				if ok, pos, neg := engine.Entails(c.P, engine.And(s.Out.Returns(), g[0]), g[1]); !ok {
					Failf("bit %d and option %s differ\n%s", fields[f], f, showModel(pos, neg))
				}
			}
		}
		for k := range seen {
			if _, ok := conds[k]; !ok {
				Failf("bit %d is set by no option", k)
			}
		}
	})
	for _, b := range bits {
		g := c.Sum(":"+maskType+"."+b.getter, Opt{Names: []string{"bm"}})
		g.ResultB("reads its own bit, absent bytes mean not allowed", 0, "", "!("+maskBit("bm", b.n)+")")
	}
}

func init() {
	register(&Prop{ID: "P17", Min: 17, Note: "capability tables, primitives, and the gates in the virtual machine", Run: func(c *Ctx) {
		c.capTable("TransactionCapabilitiesBitMaskWithCapabilities", "TransactionCapabilitiesBitMask", "WithTransactionCanDoAnything", txBits)
		c.capTable("AddressCapabilitiesBitMaskWithCapabilities", "AddressCapabilitiesBitMask", "WithAddressCanReceiveAnything", addrBits)
		set := c.Sum(":BitMaskSetBit", Opt{Names: []string{"bm", "bit"}})
		set.ob("the bit is added to its byte", func() {
			got, want := set.Scope.Term("final(ret0[bit / 8])"), set.Scope.Term("ret0[bit / 8] | (1 << (bit % 8))")
			if got != want {
				Failf("the byte of the bit becomes %s", clip(got.String(), 300))
			}
		})
		set.ob("the other bits are kept, missing bytes start as zero", func() {
			for _, a := range set.Out.Result(0) {
				t := a.T
				if t.Op == "fold" {
					last := t.Args[len(t.Args)-1]
					if ok := last.String() == "cat(acc, list(0))"; !ok {
						Failf("the mask grows by %s", last)
					}
					t = t.Args[0]
				}
				for t.Op == "cat" && zeroBytes(t.Args[1:]) {
					if d := engine.Sub(engine.Len(t), set.Scope.Term("bit / 8")); d.Op != "int" || d.Big.Sign() <= 0 {
						Failf("the mask grows to %s bytes, which may not include the byte of the bit", clip(engine.Len(t).String(), 200))
					}
					t = t.Args[0]
				}
				if t != set.Scope.Term("bm") {
					Failf("the mask starts from %s", clip(t.String(), 200))
				}
			}
		})
		has := c.Sum(":BitMaskHasBit", Opt{Names: []string{"bm", "bit"}})
		has.ResultB("reads the bit", 0, "", "bit / 8 < len(bm) && (bm[bit / 8] & (1 << (bit % 8))) != 0")
		c.exec("ExecFuncBalancedMana").RequireIf("burning mana allowed by its own flag", "vmParams.WorkingSet.TotalManaIn != vmParams.WorkingSet.TotalManaOut", capBurnMana)
		c.ntBalance().RequireIf("burning native tokens allowed by its own flag", "!("+capBurnNT+")", "!some(t, I(), !fnd(t_k) && !has(O(), t_k)) && !some(t, I(), !fnd(t_k) && has(O(), t_k) && !(at(O(), t_k) == t))")
		c.stvf("account destroy", tAcc, "destroy", "").Require("account destruction allowed by its own flag", capDestroyAcc)
		c.stvf("anchor destroy", tAnc, "destroy", "").Exact("anchor destruction decided by its own flag", "", capDestroyAnc)
		c.foundry("destroy").Require("foundry destruction allowed by its own flag", capDestroyFnd)
		c.stvf("nft destroy", tNFT, "destroy", "").Exact("NFT destruction decided by its own flag", "", capDestroyNFT)
	}})
	restr := map[string]M{
		"restr": mac(`implies(is(a, iotago.AddressCapabilities),
			implies(CannotReceiveNativeTokens(a), !has(FeatureSet(o), iotago.FeatureNativeToken)) &&
			implies(CannotReceiveMana(a), StoredMana(o) == 0) &&
			implies(CannotReceiveOutputsWithTimelockUnlockCondition(a), !has(UnlockConditionSet(o), iotago.UnlockConditionTimelock)) &&
			implies(CannotReceiveOutputsWithExpirationUnlockCondition(a), !has(UnlockConditionSet(o), iotago.UnlockConditionExpiration)) &&
			implies(CannotReceiveOutputsWithStorageDepositReturnUnlockCondition(a), !has(UnlockConditionSet(o), iotago.UnlockConditionStorageDepositReturn)) &&
			implies(CannotReceiveAccountOutputs(a), Type(o) != iotago.OutputAccount) &&
			implies(CannotReceiveAnchorOutputs(a), Type(o) != iotago.OutputAnchor) &&
			implies(CannotReceiveNFTOutputs(a), Type(o) != iotago.OutputNFT) &&
			implies(CannotReceiveDelegationOutputs(a), Type(o) != iotago.OutputDelegation))`, "o", "a"),
		"exRet": mac("as(at(UnlockConditionSet(o), iotago.UnlockConditionExpiration), *iotago.ExpirationUnlockCondition, ReturnAddress)", "o"),
		"one":   mac("implies(is(a, iotago.AddressCapabilities) && CAN(a), x)", "o", "a"),
	}
	for k, v := range restr {
		synFns[k] = v
	}
	register(&Prop{ID: "P30", Min: 20, Note: "restricted addresses: every role, every capability", Run: func(c *Ctx) {
		c.basis()
		c.rule("AddressRestrictions", "restricted addresses in every role", "wfUC(o) && wfFT(o)", `implies(isUC(o, iotago.UnlockConditionAddress), restr(o, addrOf(o))) &&
			implies(isUC(o, iotago.UnlockConditionStateControllerAddress), restr(o, sctlOf(o))) &&
			implies(isUC(o, iotago.UnlockConditionGovernorAddress), restr(o, govOf(o))) &&
			implies(isUC(o, iotago.UnlockConditionExpiration), restr(o, exRet(o)))`)
		c.capTable("AddressCapabilitiesBitMaskWithCapabilities", "AddressCapabilitiesBitMask", "WithAddressCanReceiveAnything", addrBits)
		for _, b := range addrBits {
			g := c.Sum(":RestrictedAddress."+b.getter, Opt{Names: []string{"addr"}})
			g.ResultB("reads its own bit of the address", 0, "", "!("+maskBit("addr.AllowedCapabilities", b.n)+")")
		}
	}})
	register(&Prop{ID: "P16", Min: 8, Note: "implicit accounts", Run: func(c *Ctx) {
		c.basis("Basic")
		ws := c.workingSet()
		ws.ob("exactly the basic outputs on an implicit account creation address become implicit accounts", func() { implicitSet(ws) })
		id := c.Sum("vm:ImplicitAccountOutput.ChainID", Opt{Names: []string{"o"}})
		id.ob("an implicit account has no identifier of its own", func() {
			if ok, _, _ := engine.Entails(c.P, id.Out.Returns(), id.Scope.Bool("ret0 == iface(iotago.EmptyAccountID, iotago.AccountID)")); !ok {
				Failf("the identifier is %s", id.Scope.Term("ret0"))
			}
		})
		c.stvf("implicit destroy", tImp, "destroy", "").Rejects("implicit accounts cannot be destroyed", "true")
		im := c.stvf("implicit change", tImp, "change", "")
		im.Require("becomes an account", "is(next, *iotago.AccountOutput)")
		im.Require("becomes a block issuer with an expiry in range, under a commitment", "hasC() && hasBI(next) && exp(next) >= past()")
		im.Require("credit present and not negative", "bicOK(as(next, *iotago.AccountOutput, AccountID))")
		im.RequireIf("a staking feature meets the rules of a new one", "hasSt(next)", "stGen(next)")
		im.Require("issuer unlocked", "issuerOK(next)")
		mana := c.manaLock("implicit account", tImp)
		manaLocked(mana, "true")
		c.rule("ImplicitAccountCreationAddress", "implicit account creation addresses only on basic outputs", `wfUC(o) && implies(is(o, *iotago.AccountOutput) || is(o, *iotago.NFTOutput) || is(o, *iotago.DelegationOutput), isUC(o, iotago.UnlockConditionAddress)) &&
			implies(is(o, *iotago.AnchorOutput), isUC(o, iotago.UnlockConditionStateControllerAddress) && isUC(o, iotago.UnlockConditionGovernorAddress)) &&
			(is(o, *iotago.BasicOutput) || is(o, *iotago.FoundryOutput) || is(o, *iotago.AccountOutput) || is(o, *iotago.NFTOutput) || is(o, *iotago.DelegationOutput) || is(o, *iotago.AnchorOutput))`,
			`implies(is(o, *iotago.AccountOutput) || is(o, *iotago.NFTOutput) || is(o, *iotago.DelegationOutput), Type(addrOf(o)) != iotago.AddressImplicitAccountCreation) &&
			implies(is(o, *iotago.AnchorOutput), Type(sctlOf(o)) != iotago.AddressImplicitAccountCreation && Type(govOf(o)) != iotago.AddressImplicitAccountCreation)`)
	}})
}

func implicitSet(s *Sum) {
	n := 0
	for _, a := range engine.Unbox(s.Scope.Term("ret0.UTXOInputsSet")) {
		if ok, _, _ := engine.Sat(s.C.P, engine.And(a.G, s.Out.Succ())); !ok {
			continue
		}
		n++
		want := s.Scope.Term("mapfill(o, in.InputSet, true, o_k, UnlockConditionSet(o))")
		if a.T.Op != "mapfill" || want.Args[1] != a.T.Args[1] || want.Args[2] != a.T.Args[2] || a.T.B != want.B {
			Failf("the result %s does not hold every input under its identifier", clip(a.T.String(), 300))
		}
		el := want.Args[3].Args[0]
		sc := *s.Scope
		sc.Fns = synFns
		sc.Vars = map[string]*engine.Term{"o": el}
		impl := sc.Bool("is(o, *iotago.BasicOutput) && isUC(o, iotago.UnlockConditionAddress) && Type(addrOf(o)) == iotago.AddressImplicitAccountCreation")
		wf := sc.Bool("wfUC(o)")
		for _, v := range engine.Unbox(a.T.Args[3]) {
			g := engine.And(v.G, wf)
			switch {
			case v.T == el:
				if ok, pos, neg := engine.Entails(s.C.P, g, engine.Not(impl)); !ok {
					Failf("an implicit account is passed on as a plain output\n%s", showModel(pos, neg))
				}
			case v.T.Op == "&struct" && v.T.Args[0].Op == "struct" && v.T.Args[0].Sym == "vm.ImplicitAccountOutput":
				if ok, pos, neg := engine.Entails(s.C.P, g, impl); !ok {
					Failf("another output is passed on as an implicit account\n%s", showModel(pos, neg))
				}
				if ok, _, _ := engine.Entails(s.C.P, g, engine.EqB(v.T.Args[0].Args[0], el)); !ok {
					Failf("the implicit account wraps %s", v.T.Args[0].Args[0])
				}
			default:
				Failf("an input becomes %s", clip(v.T.String(), 200))
			}
		}
	}
	if n != 1 {
		Failf("%d results", n)
	}
}

// zeroBytes: all parts are bytes nothing has been written to.
func zeroBytes(ts []*engine.Term) bool {
	for _, t := range ts {
		if t.Op != "makeslice" && t.String() != "list(0)" {
			return false
		}
	}
	return true
}
