package rules

import (
	"go/types"
	"strings"

	"verif/checker/engine"
)

// P27: storage scores and deposits.

var storagePrices = map[string]string{
	"StakingFeature":                     "w.StorageScoreParameters.OffsetStakingFeature",
	"DelegationOutput":                   "w.StorageScoreParameters.OffsetDelegation",
	"Ed25519PublicKeyHashBlockIssuerKey": "w.StorageScoreParameters.OffsetEd25519BlockIssuerKey",
	"ImplicitAccountCreationAddress":     "w.OffsetImplicitAccountCreationAddress",
}

// storage is the storage score of expression e of type t.
func (l *layout) storage(t types.Type, e string) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		return l.storage(p.Elem(), e)
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		if !hasMethod(t, "StorageScore") {
			return ""
		}
		return "StorageScore(" + e + ", w, nil)"
	}
	var parts []string
	if nt, ok := t.(*types.Named); ok && nt.Obj().Pkg() != nil && nt.Obj().Pkg().Path() == engine.RepoMod {
		n := nt.Obj().Name()
		if p := storagePrices[n]; p != "" {
			parts = append(parts, p)
		}
		switch n {
		case "AccountOutput", "AnchorOutput", "BasicOutput", "DelegationOutput", "FoundryOutput", "NFTOutput":
			parts = append(parts, "w.OffsetOutput", "w.StorageScoreParameters.FactorData * wrap("+l.size(nt, e, "")+")")
		case "MultiAddress", "RestrictedAddress":
			return "" // their members can only be of kinds without a score of their own, which their validators ensure (P39)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		l.n++
		v := "v" + string(rune('a'+l.n%26)) + strings.Repeat("x", l.n/26)
		if sc := l.storage(u.Elem(), v); sc != "" {
			parts = append(parts, "sum("+v+", "+e+", true, "+sc+")")
		}
	case *types.Struct:
		for _, f := range fields(u) {
			if sc := l.storage(f.Var.Type(), e+"."+f.Var.Name()); sc != "" {
				parts = append(parts, sc)
			}
		}
	}
	if len(parts) == 0 {
		return ""
	}
	return "(" + strings.Join(parts, " + ") + ")"
}

func init() {
	register(&Prop{ID: "P27", Min: 50, Note: "storage scores of every stored part; minimum deposits", Run: func(c *Ctx) {
		s := c.schema()
		for _, nt := range c.methodTypes("StorageScore") {
			n := nt.Obj().Name()
			if n == "MultiAddressReference" {
				continue
			}
			l := &layout{s: s}
			spec := "0"
			c.Ob("price|"+n, c.Pos(nt.Obj().Pos()), func() {
				if sc := l.storage(nt, "x"); sc != "" {
					spec = sc
				}
			})
			names := []string{"x", "w", "f"}
			c.Sum(":"+n+".StorageScore", Opt{Names: names}).Result("score", 0, "f == nil", spec)
		}
		st := c.Sum(":NewStorageScoreStructure", Opt{Names: []string{"p"}})
		st.Result("offsets", 0, "", `&iotago.StorageScoreStructure{StorageScoreParameters: p,
			OffsetImplicitAccountCreationAddress: p.OffsetEd25519BlockIssuerKey + p.FactorData * (129 - 53),
			OffsetOutput: p.OffsetOutputOverhead + p.FactorData * (iotago.OutputIDLength + iotago.BlockIDLength + iotago.SlotIndexLength)}`)
		min := c.Sum(":StorageScoreStructure.MinDeposit", Opt{Names: []string{"s", "o"}})
		min.Result("score times cost", 0, "", "s.StorageScoreParameters.StorageCost * StorageScore(o, s, nil)")
		min.Exact("overflow is an error", "", "!ovfmul(s.StorageScoreParameters.StorageCost * StorageScore(o, s, nil))")
		cov := c.Sum(":StorageScoreStructure.CoversMinDeposit", Opt{Names: []string{"s", "o", "amt"}})
		cov.Exact("amount covers the deposit", "", "!ovfmul(s.StorageScoreParameters.StorageCost * StorageScore(o, s, nil)) && amt >= s.StorageScoreParameters.StorageCost * StorageScore(o, s, nil)")
		cov.Result("the deposit", 0, "", "s.StorageScoreParameters.StorageCost * StorageScore(o, s, nil)")
		ret := c.Sum(":StorageScoreStructure.MinStorageDepositForReturnOutput", Opt{Names: []string{"s", "a"}})
		ret.Result("deposit of a basic output to the sender", 0, "", "s.StorageScoreParameters.StorageCost * (s.OffsetOutput + s.StorageScoreParameters.FactorData * wrap(1 + 8 + 8 + 1 + 1 + Size(a) + 1) + StorageScore(a, s, nil))")
		for _, m := range []string{"StorageCost", "FactorData", "OffsetEd25519BlockIssuerKey", "OffsetStakingFeature", "OffsetDelegation"} {
			c.Sum(":StorageScoreStructure."+m, Opt{Names: []string{"s"}}).Result("parameter", 0, "", "s.StorageScoreParameters."+m)
		}
	}})
}
