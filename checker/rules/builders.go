package rules

import (
	"fmt"
	"go/types"
	"strings"

	"verif/checker/engine"
)

// P37: builders.

// setter: what a fluent call of a builder changes. The arguments are a0, a1, …
//
//	F = expr        member F of the object being built
//	F += &T{…}#code the entry of the list F with that type code is replaced, or added when there is none
//	b.flag = expr   a member of the builder itself
type setter struct {
	typ, method string
	effects     []string
}

var outputSetters = []setter{
	{"*", "Amount", []string{"Amount = a0"}},
	{"*", "Mana", []string{"Mana = a0"}},
	{"*", "Address", []string{"UnlockConditions += &iotago.AddressUnlockCondition{Address: a0}#0"}},
	{"*", "StorageDepositReturn", []string{"UnlockConditions += &iotago.StorageDepositReturnUnlockCondition{ReturnAddress: a0, Amount: a1}#1"}},
	{"*", "Timelock", []string{"UnlockConditions += &iotago.TimelockUnlockCondition{Slot: a0}#2"}},
	{"*", "Expiration", []string{"UnlockConditions += &iotago.ExpirationUnlockCondition{ReturnAddress: a0, Slot: a1}#3"}},
	{"*", "StateController", []string{"UnlockConditions += &iotago.StateControllerAddressUnlockCondition{Address: a0}#4", "b.govCtrlReq = true"}},
	{"*", "Governor", []string{"UnlockConditions += &iotago.GovernorAddressUnlockCondition{Address: a0}#5", "b.govCtrlReq = true"}},
	{"*", "Sender", []string{"Features += &iotago.SenderFeature{Address: a0}#0"}},
	{"*", "Metadata", []string{"Features += &iotago.MetadataFeature{Entries: a0}#2"}},
	{"*", "StateMetadata", []string{"Features += &iotago.StateMetadataFeature{Entries: a0}#3", "b.stateCtrlReq = true"}},
	{"*", "Tag", []string{"Features += &iotago.TagFeature{Tag: a0}#4"}},
	{"*", "NativeToken", []string{"Features += a0#5"}},
	{"*", "BlockIssuer", []string{"Features += &iotago.BlockIssuerFeature{BlockIssuerKeys: a0, ExpirySlot: a1}#6"}},
	{"*", "ImmutableIssuer", []string{"ImmutableFeatures += &iotago.IssuerFeature{Address: a0}#1"}},
	{"*", "ImmutableMetadata", []string{"ImmutableFeatures += &iotago.MetadataFeature{Entries: a0}#2"}},
	{"*", "AccountID", []string{"AccountID = a0"}},
	{"*", "AnchorID", []string{"AnchorID = a0"}},
	{"*", "NFTID", []string{"NFTID = a0"}},
	{"*", "DelegationID", []string{"DelegationID = a0"}},
	{"*", "DelegatedAmount", []string{"DelegatedAmount = a0"}},
	{"*", "ValidatorAddress", []string{"ValidatorAddress = a0"}},
	{"*", "StartEpoch", []string{"StartEpoch = a0"}},
	{"*", "EndEpoch", []string{"EndEpoch = a0"}},
	{"*", "TokenScheme", []string{"TokenScheme = a0"}},
	{"*", "FoundriesToGenerate", []string{"FoundryCounter = OBJ.FoundryCounter + a0"}},
	{"AnchorOutputBuilder", "Amount", []string{"Amount = a0", "b.stateCtrlReq = true"}},
	{"AnchorOutputBuilder", "Metadata", []string{"Features += &iotago.MetadataFeature{Entries: a0}#2", "b.govCtrlReq = true"}},
	{"AccountOutputBuilder", "Staking", []string{"Features += &iotago.StakingFeature{StakedAmount: a0, FixedCost: a1, StartEpoch: a2, EndEpoch: ifte(len(a3) > 0, a3[0], iotago.MaxEpochIndex)}#7"}},
}

// outputConstructors: the members of the built object, by constructor.
var outputConstructors = map[string]string{
	"NewAccountOutputBuilder":    "Amount = a1; UnlockConditions = list(&iotago.AddressUnlockCondition{Address: a0})",
	"NewAnchorOutputBuilder":     "Amount = a2; UnlockConditions = list(&iotago.StateControllerAddressUnlockCondition{Address: a0}, &iotago.GovernorAddressUnlockCondition{Address: a1})",
	"NewBasicOutputBuilder":      "Amount = a1; UnlockConditions = list(&iotago.AddressUnlockCondition{Address: a0})",
	"NewDelegationOutputBuilder": "Amount = a2; ValidatorAddress = a0; UnlockConditions = list(&iotago.AddressUnlockCondition{Address: a1})",
	"NewFoundryOutputBuilder":    "Amount = a1; SerialNumber = a2; TokenScheme = a3; UnlockConditions = list(&iotago.ImmutableAccountUnlockCondition{Address: a0})",
	"NewNFTOutputBuilder":        "Amount = a1; UnlockConditions = list(&iotago.AddressUnlockCondition{Address: a0})",
}

func (c *Ctx) builderType(name string) *types.Named {
	for _, p := range c.P.Pkgs {
		if p.PkgPath == engine.RepoMod+"/builder" {
			if o := p.Types.Scope().Lookup(name); o != nil {
				if n, ok := o.Type().(*types.Named); ok {
					return n
				}
			}
		}
	}
	return nil
}

func structField(t types.Type, name string) *types.Var {
	st, ok := deref(t).Underlying().(*types.Struct)
	for i := 0; ok && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i)
		}
	}
	return nil
}

func argNames(n int) []string {
	r := []string{"b"}
	for i := 0; i < n; i++ {
		r = append(r, fmt.Sprintf("a%d", i))
	}
	return r
}

// setterRules: the call changes what it names and nothing else of the builder and the object obj it builds.
func (c *Ctx) setterRules(bt *types.Named, st setter, obj string, objT types.Type, o Opt) bool {
	name := bt.Obj().Name()
	sig := methodSig(bt, st.method)
	if sig == nil {
		return false
	}
	full := "b." + obj
	if o.Names == nil {
		o.Names = argNames(sig.Params().Len())
	}
	assume := "b != nil && " + full + " != nil"
	if o.Assume != "" {
		assume += " && " + o.Assume
	}
	o.Assume = assume
	s := c.Sum("builder:"+name+"."+st.method, o)
	if w, ok := strings.CutSuffix(obj, ".output"); ok { // a narrowed builder: the same builder is used
		s.Require("keeps the builder", "ret0."+w+" == b."+w)
	} else {
		s.Result("returns the builder", 0, "", "b")
	}
	set := map[string]bool{}
	for _, e := range st.effects {
		e = strings.ReplaceAll(e, "OBJ.", full+".")
		if l, v, ok := strings.Cut(e, " += "); ok {
			v, code, _ := strings.Cut(v, "#")
			set[l] = true
			l = full + "." + l
			has := "some(x, " + l + ", Type(x) == " + code + ")"
			s.RequireIf("adds the entry", "!"+has, "final("+l+") == append("+l+", list("+v+"))")
			s.RequireIf("replaces the entry", has, "final("+l+") == "+l+" && final("+l+"[first(x, "+l+", Type(x) == "+code+", x_i)]) == "+v)
			continue
		}
		f, v, _ := strings.Cut(e, " = ")
		set[f] = true
		p := full + "." + f
		if strings.HasPrefix(f, "b.") {
			p = f
			if w, ok := strings.CutSuffix(obj, ".output"); ok {
				p = "b." + w + strings.TrimPrefix(f, "b")
			}
		}
		s.Require("sets "+f, "final("+p+") == "+v)
	}
	ot := deref(objT).Underlying().(*types.Struct)
	for i := 0; i < ot.NumFields(); i++ {
		f := ot.Field(i)
		if !set[f.Name()] {
			s.Require("leaves "+f.Name(), "final("+full+"."+f.Name()+") == "+full+"."+f.Name())
		}
	}
	bs := bt.Underlying().(*types.Struct)
	for i := 0; i < bs.NumFields(); i++ {
		f := bs.Field(i).Name()
		if !set["b."+f] {
			s.Require("keeps b."+f, "final(b."+f+") == b."+f)
		}
	}
	s.NoPanic("never fails", "")
	return true
}

func methodSig(t *types.Named, m string) *types.Signature {
	o, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, t.Obj().Pkg(), m)
	if f, ok := o.(*types.Func); ok {
		return f.Type().(*types.Signature)
	}
	return nil
}

func init() {
	register(&Prop{ID: "P37", Min: 150, Note: "builders", Run: func(c *Ctx) {
		for _, n := range []string{"Account", "Anchor", "Basic", "Delegation", "Foundry", "NFT"} {
			bt := c.builderType(n + "OutputBuilder")
			if bt == nil || structField(bt, "output") == nil {
				c.Ob("type|"+n, n+"OutputBuilder", func() { Failf("output builder not found") })
				continue
			}
			ot := structField(bt, "output").Type()
			own := map[string]bool{}
			for i := len(outputSetters) - 1; i >= 0; i-- { // the more specific entries are last
				st := outputSetters[i]
				if st.typ == "*" && own[st.method] || st.typ != "*" && st.typ != bt.Obj().Name() {
					continue
				}
				own[st.method] = true
				c.setterRules(bt, st, "output", ot, Opt{})
			}

			// constructors
			ctor := "New" + bt.Obj().Name()
			sig := c.funcSig("builder", ctor)
			if sig == nil {
				c.Ob("constructor|"+ctor, ctor, func() { Failf("no constructor %s", ctor) })
				continue
			}
			s := c.Sum("builder:"+ctor, Opt{Names: argNames(sig.Params().Len())[1:]})
			given := map[string]string{}
			for _, e := range strings.Split(outputConstructors[ctor], "; ") {
				f, v, _ := strings.Cut(e, " = ")
				given[f] = v
			}
			os := deref(ot).Underlying().(*types.Struct)
			for i := 0; i < os.NumFields(); i++ {
				f := os.Field(i).Name()
				v := given[f]
				_, isList := os.Field(i).Type().Underlying().(*types.Slice)
				switch {
				case v != "":
					s.Require("sets "+f, "ret0.output."+f+" == "+v)
				case isList:
					s.Require("no "+f, "len(ret0.output."+f+") == 0")
				default:
					z := "zero(ret0.output." + f + ")"
					if b, ok := os.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
						z = "ret0.output." + f + " == 0"
					}
					s.Require("no "+f, z)
				}
				delete(given, f)
			}
			for f := range given {
				c.Ob("constructor|"+ctor+"|"+f, ctor, func() { Failf("no member %s", f) })
			}
			prev := structField(bt, "prev") != nil
			s = c.Sum("builder:"+ctor+"FromPrevious", Opt{Names: []string{"p"}, Opaque: []string{"Clone"}})
			s.Require("starts from a copy of the previous output", "ret0.output == Clone(p)")
			if prev {
				s.Require("remembers the previous output", "ret0.prev == p")
			}

			// Build
			imm := structField(ot, "ImmutableFeatures") != nil
			o := Opt{Names: []string{"b"}, Opaque: []string{"Equal"}, Events: true, Assume: "b != nil && b.output != nil"}
			s = c.Sum("builder:"+bt.Obj().Name()+".Build", o)
			ok := "true"
			if imm {
				ok = "(b.prev == nil || Equal(b.prev.ImmutableFeatures, b.output.ImmutableFeatures))"
			}
			if n == "Anchor" {
				ok += " && !(b.prev != nil && b.govCtrlReq && b.stateCtrlReq)"
			}
			s.Exact("builds", "", ok)
			s.Result("the output", 0, "", "b.output")
			for i := 0; i < os.NumFields(); i++ {
				f := os.Field(i).Name()
				v := "b.output." + f
				if _, isList := os.Field(i).Type().Underlying().(*types.Slice); isList {
					s.SortsAlso("sorts "+f, v, "Type(x) < Type(y)")
				}
				if n == "Anchor" && f == "StateIndex" {
					v = "ifte(b.prev != nil && b.stateCtrlReq, b.output.StateIndex + 1, b.output.StateIndex)"
				}
				s.Require("keeps "+f, "final(b.output."+f+") == "+v)
			}
			s.NoPanic("no panic", "")
		}
		c.narrowed()
		c.blockBuilders()
		c.txBuilder()
	}})
}

// accountTransitions: the narrowed builders of the account output.
func (c *Ctx) narrowed() {
	bt := c.builderType
	anchor, account := bt("AnchorOutputBuilder"), bt("AccountOutputBuilder")
	if anchor == nil || account == nil {
		return
	}
	ao := structField(anchor, "output").Type()
	for _, n := range []string{"AnchorStateTransition", "AnchorGovernanceTransition"} {
		t := bt(n)
		if t == nil {
			c.Ob("type|"+n, n, func() { Failf("%s not found", n) })
			continue
		}
		seen := map[string]bool{}
		for i := len(outputSetters) - 1; i >= 0; i-- {
			st := outputSetters[i]
			if st.typ != "*" && st.typ != "AnchorOutputBuilder" || seen[st.method] {
				continue
			}
			seen[st.method] = true
			c.setterRules(t, st, "builder.output", ao, Opt{})
		}
		c.Sum("builder:"+n+".Builder", Opt{Names: []string{"b"}}).Result("the builder", 0, "", "b.builder")
		open := strings.TrimPrefix(n, "Anchor")
		c.Sum("builder:AnchorOutputBuilder."+open, Opt{Names: []string{"b"}}).Require("of this builder", "ret0.builder == b")
	}
	for _, x := range []struct{ n, feat, get, code, zero, empty string }{
		{"BlockIssuerTransition", "BlockIssuerFeature", "BlockIssuer", "6", "len(ret0.feature.BlockIssuerKeys) == 0 && ret0.feature.ExpirySlot == 0", "&iotago.BlockIssuerFeature{BlockIssuerKeys: list()}"},
		{"StakingTransition", "StakingFeature", "Staking", "7", "ret0.feature.StakedAmount == 0 && ret0.feature.FixedCost == 0 && ret0.feature.StartEpoch == 0 && ret0.feature.EndEpoch == 0", "&iotago.StakingFeature{}"},
	} {
		t := bt(x.n)
		ft := c.namedType(x.feat)
		if t == nil || ft == nil || structField(t, "feature") == nil {
			c.Ob("type|"+x.n, x.n, func() { Failf("%s not found", x.n) })
			continue
		}
		for i := 0; i < ft.Underlying().(*types.Struct).NumFields(); i++ {
			f := ft.Underlying().(*types.Struct).Field(i).Name()
			m := f
			if f == "BlockIssuerKeys" {
				m = "Keys"
			}
			if !c.setterRules(t, setter{x.n, m, []string{f + " = a0"}}, "feature", ft, Opt{}) {
				c.Ob("setter|"+x.n+"|"+f, x.n, func() { Failf("no setter of %s", f) })
			}
		}
		c.Sum("builder:"+x.n+".Builder", Opt{Names: []string{"b"}}).Result("the builder", 0, "", "b.builder")
		s := c.Sum("builder:AccountOutputBuilder."+x.n, Opt{Names: []string{"b"}, Assume: "b != nil && b.output != nil", Opaque: []string{x.get}})
		cur := x.get + "(FeatureSet(b.output))"
		l := "b.output.Features"
		has := "some(x, " + l + ", Type(x) == " + x.code + ")"
		s.Require("of this builder", "ret0.builder == b")
		s.RequireIf("the feature of the output", cur+" != nil", "ret0.feature == "+cur+" && final("+l+") == "+l)
		s.RequireIf("a new feature is empty", cur+" == nil", x.zero)
		s.RequireIf("a new feature is added to the output", cur+" == nil && !"+has, "final("+l+") == append("+l+", list("+x.empty+"))")
		s.NoPanic("never fails", "")
	}
	keys := "b.feature.BlockIssuerKeys"
	rm := c.Sum("builder:BlockIssuerTransition.RemoveKey", Opt{Names: []string{"b", "k"}, Assume: "b != nil && b.feature != nil"})
	removed := func(l, cond string) string {
		i := "first(x, " + l + ", " + cond + ", x_i)"
		return "append(" + l + "[0:" + i + "], " + l + "[" + i + "+1:])"
	}
	rm.RequireIf("removes the key", "some(x, "+keys+", Equal(x, k))", "final("+keys+") == "+removed(keys, "Equal(x, k)"))
	rm.RequireIf("keeps the other keys", "!some(x, "+keys+", Equal(x, k))", "final("+keys+") == "+keys)
	for n := 0; n <= 1; n++ {
		add := c.Sum("builder:BlockIssuerTransition.AddKeys", Opt{Names: []string{"b", "k"}, Assume: "b != nil && b.feature != nil", Lens: map[string]int{"k": n}, Case: fmt.Sprintf("%d keys", n)})
		for m := 0; m < 1<<n; m++ { // which of them are present already
			pre, app := "true", []string{}
			for i := 0; i < n; i++ {
				k := fmt.Sprintf("k[%d]", i)
				has := "some(x, " + keys + ", Equal(x, " + k + "))"
				if m>>i&1 == 1 {
					pre += " && " + has
				} else {
					pre += " && !" + has
					app = append(app, k)
				}
			}
			want := keys
			if len(app) > 0 {
				want = "append(" + keys + ", list(" + strings.Join(app, ", ") + "))"
			}
			add.RequireIf(fmt.Sprintf("adds the keys not present yet %d", m), pre, "final("+keys+") == "+want)
		}
		add.Require("keeps the expiry", "final(b.feature.ExpirySlot) == b.feature.ExpirySlot")
		add.Result("returns the transition", 0, "", "b")
	}
	s := c.Sum("builder:AccountOutputBuilder.RemoveFeature", Opt{Names: []string{"b", "a"}, Assume: "b != nil && b.output != nil"})
	l := "b.output.Features"
	s.Result("returns the builder", 0, "", "b")
	s.RequireIf("removes the feature", "some(x, "+l+", Type(x) == a)", "final("+l+") == "+removed(l, "Type(x) == a"))
	s.RequireIf("keeps the other features", "!some(x, "+l+", Type(x) == a)", "final("+l+") == "+l)
}

func (c *Ctx) funcSig(pkg, name string) *types.Signature {
	for _, p := range c.P.Pkgs {
		if p.PkgPath == engine.RepoMod+"/"+pkg {
			if f, ok := p.Types.Scope().Lookup(name).(*types.Func); ok {
				return f.Type().(*types.Signature)
			}
		}
	}
	return nil
}
