package rules

import (
	_ "embed"
	"go/types"
	"sort"
	"strings"

	"verif/checker/engine"
)

// P22: registration. P39: validators of nested addresses, canonical lists and metadata keys.

//go:embed serix_schema.txt
var serixSchema string

// bases are the protocol's object families.
var bases = []struct {
	Name, Method string
	Skip         string
}{
	{"Output", "Type", ""}, {"Address", "Type", ""}, {"Feature", "Type", ""}, {"UnlockCondition", "Type", ""}, {"Unlock", "Type", ""},
	{"Signature", "Type", ""}, {"Payload", "PayloadType", ""}, {"BlockBody", "Type", ""}, {"BlockIssuerKey", "Type", ""},
	{"ContextInput", "Type", ""}, {"Input", "Type", ""}, {"TokenScheme", "Type", ""}, {"ProtocolParameters", "", ""},
}

// family lists the registered concrete types of a base interface, by name.
func (s *Schema) family(base *types.Named) map[string]types.Type {
	r := map[string]types.Type{}
	bi := base.Underlying().(*types.Interface)
	for in, it := range s.IfaceT {
		if _, ok := it.Underlying().(*types.Interface); !ok || !types.Implements(it, bi) {
			continue
		}
		for cn := range s.Ifaces[in] {
			r[cn] = s.ConcT[cn]
		}
	}
	return r
}

func (c *Ctx) named(name string) *types.Named {
	for _, pk := range c.P.Pkgs {
		if pk.PkgPath != engine.RepoMod {
			continue
		}
		if tn, ok := pk.Types.Scope().Lookup(name).(*types.TypeName); ok {
			if nt, ok := tn.Type().(*types.Named); ok {
				return nt
			}
		}
	}
	Failf("type %s not found", name)
	return nil
}

// implementers lists the pointer types of the root package that implement a base interface.
func (c *Ctx) implementers(base *types.Named) map[string]types.Type {
	r := map[string]types.Type{}
	bi := base.Underlying().(*types.Interface)
	for _, pk := range c.P.Pkgs {
		if pk.PkgPath != engine.RepoMod {
			continue
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(nt) || nt.TypeParams().Len() > 0 {
				continue
			}
			if t := types.NewPointer(nt); types.Implements(t, bi) {
				r[tname(t)] = t
			}
		}
	}
	return r
}

func keysOf[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// jsonKey is the key the serializer derives for a field.
func jsonKey(f Field) string {
	if f.Key != "" {
		return f.Key
	}
	n := f.Var.Name()
	for _, k := range []string{"ID", "NFT", "URL", "HRP"} {
		n = strings.ReplaceAll(n, k, k[:1]+strings.ToLower(k[1:]))
	}
	return strings.ToLower(n[:1]) + n[1:]
}

func init() {
	register(&Prop{ID: "P22", Min: 150, Note: "registration and layout of every serialized type", Run: func(c *Ctx) {
		s := c.schema()
		c.Ob("registered once", "", func() {
			if len(s.Dups) > 0 {
				Failf("%s", strings.Join(s.Dups, "\n"))
			}
		})
		c.golden(s.lines(engine.RepoMod, engine.RepoMod+"/merklehasher"), serixSchema)
		for _, b := range bases {
			b := b
			base := c.named(b.Name)
			reg := s.family(base)
			impl := c.implementers(base)
			for _, n := range keysOf(impl) {
				n := n
				c.Ob("registered|"+b.Name+"|"+n, c.Pos(impl[n].(*types.Pointer).Elem().(*types.Named).Obj().Pos()), func() {
					if reg[n] == nil && n != "*iotago.MultiAddressReference" { // that one exists in memory only
						Failf("%s implements %s but is registered in no container of that family", n, b.Name)
					}
				})
			}
			c.Ob("codes|"+b.Name, c.Pos(base.Obj().Pos()), func() {
				if len(reg) == 0 {
					Failf("no %s is registered", b.Name)
				}
				by := map[string]string{}
				for _, n := range keysOf(reg) {
					st := s.Settings[strings.TrimPrefix(n, "*")]
					if st == nil || st.Code == "" {
						Failf("%s has no type code", n)
					}
					if o := by[st.Code]; o != "" {
						Failf("%s: %s has the type code %s of %s", st.Pos, n, st.Code, o)
					}
					by[st.Code] = n
				}
			})
			if b.Method == "" {
				continue
			}
			for _, n := range keysOf(reg) {
				n := n
				st := s.Settings[strings.TrimPrefix(n, "*")]
				pos := ""
				if st != nil {
					pos = st.Pos
				}
				c.Ob("kind|"+b.Name+"|"+n, pos, func() {
					if st == nil {
						Failf("%s has no type settings", n)
					}
					tc := c.P.TypeCode(reg[n], b.Method)
					if tc == nil {
						Failf("%s.%s is no constant", n, b.Method)
					}
					if w := strings.TrimPrefix(strings.TrimPrefix(st.Code, "u8:"), "u32:"); w != tc.String() {
						Failf("%s: %s is serialized with type code %s but %s reports %s", st.Pos, n, w, b.Method, tc)
					}
				})
			}
		}
		for _, pk := range []string{engine.RepoMod, engine.RepoMod + "/merklehasher"} {
			ss := c.structs(pk)
			for _, n := range keysOf(ss) {
				t := ss[n]
				c.Ob("keys|"+n, c.Pos(t.Obj().Pos()), func() {
					by := map[string]string{}
					c.addKeys(t, by)
				})
			}
		}
	}})
	register(&Prop{ID: "P39", Min: 14, Note: "nested addresses, canonical lists and metadata keys", Run: func(c *Ctx) {
		s := c.schema()
		val := func(typ string, names []string, opaque ...string) *Sum {
			return c.SumTerm("validator of "+typ, s.Valid["iotago."+typ], s.by["iotago."+typ], Opt{Names: append([]string{"ctx"}, names...), Opaque: opaque})
		}
		for _, x := range []string{"AddressesWithWeight", "BlockIssuerKeys", "BlockIDs", "TransactionIDs"} {
			val(x, []string{"l"}, "Compare").Exact("strictly ascending", "", "all(e, l, implies(e_i != 0, Compare(l[e_i-1], e) == -1))")
		}
		for _, x := range []string{"MetadataFeatureEntriesKey", "StateMetadataFeatureEntriesKey"} {
			val(x, []string{"k"}).Exact("printable ASCII without space", "", "all(b, k, 33 <= b && b <= 126)")
		}
		for x, f := range map[string]string{"StorageDepositReturnUnlockCondition": "ReturnAddress", "ExpirationUnlockCondition": "ReturnAddress", "StateControllerAddressUnlockCondition": "Address", "GovernorAddressUnlockCondition": "Address"} {
			val(x, []string{"u"}).Exact("no implicit account creation address", "u."+f+" != nil", "Type(u."+f+") != iotago.AddressImplicitAccountCreation")
		}
		val("SignedTransaction", []string{"t"}, "syntacticallyValidate").Exact("syntactic rules", "", "ok(syntacticallyValidate(t))")
		val("Block", []string{"b"}, "syntacticallyValidate").Exact("syntactic rules", "", "ok(syntacticallyValidate(b))")
		leaf := "is(X, *iotago.Ed25519Address) || is(X, *iotago.AccountAddress) || is(X, *iotago.NFTAddress) || is(X, *iotago.AnchorAddress)"
		known := leaf + " || is(X, *iotago.ImplicitAccountCreationAddress) || is(X, *iotago.MultiAddress) || is(X, *iotago.RestrictedAddress)"
		in := func(f, x string) string { return "(" + strings.ReplaceAll(f, "X", x) + ")" }
		val("MultiAddress", []string{"m"}).Exact("leaf members with weight and a reachable threshold", "len(m.Addresses) <= 10 && all(a, m.Addresses, "+in(known, "a.Address")+")",
			"all(a, m.Addresses, "+in(leaf, "a.Address")+" && a.Weight != 0) && m.Threshold >= 1 && m.Threshold <= sum(a, m.Addresses, true, a.Weight)")
		val("RestrictedAddress", []string{"r"}).Exact("no nested restricted or implicit address, no superfluous bytes", in(known, "r.Address"),
			"("+in(leaf, "r.Address")+" || is(r.Address, *iotago.MultiAddress)) && (len(r.AllowedCapabilities) == 0 || r.AllowedCapabilities[len(r.AllowedCapabilities)-1] != 0)")
	}})
}

func (c *Ctx) addKeys(t types.Type, by map[string]string) {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for _, f := range fields(st) {
		if f.Embedded {
			c.addKeys(f.Var.Type(), by)
			continue
		}
		k := jsonKey(f)
		if o := by[k]; o != "" {
			Failf("fields %s and %s are both written as %q", o, f.Var.Name(), k)
		}
		by[k] = f.Var.Name()
	}
}
