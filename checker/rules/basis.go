package rules

// What the rules about outputs take for granted: the sets the chain rules read are built from
// the output's own lists, one entry per element under the element's own type.

var basisParts = map[string][3]bool{ // features, immutable features, unlock conditions
	"Basic": {true, false, true}, "Account": {true, true, true}, "Anchor": {true, true, true},
	"Foundry": {true, true, true}, "NFT": {true, true, true}, "Delegation": {false, false, true},
}

// basis checks the accessors of the given output kinds (all of them if none is named).
func (c *Ctx) basis(kinds ...string) {
	if len(kinds) == 0 {
		kinds = []string{"Basic", "Account", "Anchor", "Foundry", "NFT", "Delegation"}
	}
	for _, k := range kinds {
		p := basisParts[k]
		for i, m := range [][2]string{{"FeatureSet", "Features"}, {"ImmutableFeatureSet", "ImmutableFeatures"}, {"UnlockConditionSet", "UnlockConditions"}} {
			if p[i] {
				c.Sum(":"+k+"Output."+m[0], Opt{Names: []string{"o"}}).Result("the set of its own "+m[1], 0, "", m[0]+"(o)")
			}
		}
	}
	for _, l := range []string{"Features", "UnlockConditions"} {
		uniq := "all(f, l, !has(pre(mapfill(p, l, true, Type(p), 0)), Type(f)))"
		for _, m := range []string{"Set", "MustSet"} {
			s := c.Sum(":"+l+"."+m, Opt{Names: []string{"l"}})
			s.Exact("fails exactly on a repeated kind", "", uniq)
			s.Result("one entry per element, under the element's own type", 0, uniq, "mapfill(f, l, true, Type(f), f)")
		}
	}
}
