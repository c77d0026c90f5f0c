package rules

// P33: which protocol version, parameters and API are in force.

func init() {
	register(&Prop{ID: "P33", Min: 30, Note: "protocol versions", Run: func(c *Ctx) {
		vs := func(name string, names ...string) *Sum {
			return c.Sum(":ProtocolEpochVersions."+name, Opt{Names: append([]string{"p"}, names...)})
		}
		v := vs("VersionForEpoch", "e")
		v.Require("a version that has started", "some(x, p.versionsPerEpoch, x.StartEpoch <= e)")
		v.NoPanic("some version has started", "some(x, p.versionsPerEpoch, x.StartEpoch <= e)")
		v.Result("the latest version that has started", 0, "", "first(x, rev(p.versionsPerEpoch), x.StartEpoch <= e, x.Version)")
		ev := vs("EpochForVersion", "v")
		ev.ResultB("known versions", 1, "", "has(p.knownVersions, v)")
		ev.Result("start epoch", 0, "has(p.knownVersions, v)", "p.knownVersions[v]")
		add := func(kase, assume string) *Sum {
			return c.Sum(":ProtocolEpochVersions.Add", Opt{Names: []string{"p", "v", "e"}, Assume: assume, Case: kase, Events: true})
		}
		add("new version", "!has(p.knownVersions, v)").Sorts("kept in the order of the versions", "append(p.versionsPerEpoch, list(iotago.ProtocolEpochVersion{Version: v, StartEpoch: e}))", "x.Version < y.Version")
		add("new version", "!has(p.knownVersions, v)").Require("start epoch recorded", "has(final(p.knownVersions), v) && at(final(p.knownVersions), v) == e")
		k := add("known version", "has(p.knownVersions, v)")
		k.Require("the first start epoch stays", "at(final(p.knownVersions), v) == p.knownVersions[v]")
		k.Require("the order stays", "final(p.versionsPerEpoch) == p.versionsPerEpoch")
		c.Frozen("iotago.ProtocolEpochVersions", []string{"versionsPerEpoch", "knownVersions"}, ":NewProtocolEpochVersions", ":ProtocolEpochVersions.Add")
		vs("Slice").Result("all versions", 0, "", "p.versionsPerEpoch")

		// the provider
		opq := []string{"VersionForEpoch", "EpochForVersion", "iotago.V3API", "EpochFromSlot", "SlotFromTime", "ProtocolEpochVersions.Slice!"}
		prov := func(name string, names ...string) *Sum {
			return c.Sum(":EpochBasedProvider."+name, Opt{Names: append([]string{"p"}, names...), Opaque: opq})
		}
		params := func(v string) string { return "at(p.protocolParametersByVersion, " + v + ")" }
		latest := func(v string) string { return "(p.latestAPI != nil && p.latestAPI.Version() == " + v + ")" }
		comm := func(v string) string { return "(p.committedAPI != nil && p.committedAPI.Version() == " + v + ")" }
		made := func(v string) string {
			return "(has(p.protocolParametersByVersion, " + v + ") && " + params(v) + ".Version() == 3)"
		}
		back := func(v string) string {
			return "(has(p.protocolParametersByVersion, " + v + ") && " + params(v) + ".Version() != 3 && p.optsAPIForMissingVersionCallback != nil && ok(dyn(p.optsAPIForMissingVersionCallback, " + params(v) + "), 1))"
		}
		known := func(v string) string {
			return "(" + latest(v) + " || " + comm(v) + " || " + made(v) + " || " + back(v) + ")"
		}
		isAPI := func(ret, v string) string {
			return "(" + latest(v) + " && " + ret + " == p.latestAPI || " + comm(v) + " && " + ret + " == p.committedAPI || " +
				made(v) + " && " + ret + " == iotago.V3API(" + params(v) + ") || " +
				back(v) + " && " + ret + " == res(dyn(p.optsAPIForMissingVersionCallback, " + params(v) + "), 0))"
		}
		api := func(name, ver string, names ...string) {
			s := prov(name, names...)
			s.Exact("an API for the version exists", "p.latestAPI != nil", known(ver))
			s.RequireIf("the API is one for the version", "p.latestAPI != nil", isAPI("ret0", ver))
		}
		epoch := func(slot string) string {
			return "p.protocolVersions.VersionForEpoch(p.latestAPI.TimeProvider().EpochFromSlot(" + slot + "))"
		}
		api("APIForVersion", "v", "v")
		api("APIForSlot", epoch("s"), "s")
		api("APIForEpoch", "p.protocolVersions.VersionForEpoch(e)", "e")
		api("APIForTime", epoch("p.latestAPI.TimeProvider().SlotFromTime(t)"), "t")
		prov("APIForVersion", "v").Exact("unknown versions are errors", "", known("v"))
		prov("VersionForSlot", "s").Result("version of the slot's epoch", 0, "p.latestAPI != nil", epoch("s"))
		prov("LatestAPI").Result("latest", 0, "", "p.latestAPI")
		prov("CommittedAPI").Result("committed", 0, "", "p.committedAPI")
		pp := prov("ProtocolParameters", "v")
		pp.Result("parameters of the version", 0, "has(p.protocolParametersByVersion, v)", "p.protocolParametersByVersion[v]")
		pp.Result("none for unknown versions", 0, "!has(p.protocolParametersByVersion, v)", "nil")
		ph := prov("ProtocolParametersHash", "v")
		ph.Result("hash of the parameters", 0, "has(p.protocolParametersByVersion, v)", "res(p.protocolParametersByVersion[v].Hash(), 0)")
		ph.Result("announced hash", 0, "!has(p.protocolParametersByVersion, v) && has(p.futureProtocolParametersByVersion, v)", "p.futureProtocolParametersByVersion[v]")
		efv := prov("EpochForVersion", "v")
		efv.Result("epoch of the version", 0, "", "res(p.protocolVersions.EpochForVersion(v), 0)")
		efv.Require("known versions only", "ret1 == res(p.protocolVersions.EpochForVersion(v), 1)")
		c.Sum(":EpochBasedProvider.ProtocolEpochVersions", Opt{Names: []string{"p"}}).Result("all versions", 0, "", "p.protocolVersions.versionsPerEpoch")

		// updates
		ap := prov("AddProtocolParameters", "n")
		nv := "n.Version()"
		ap.Require("parameters recorded under their version", "has(final(p.protocolParametersByVersion), "+nv+") && at(final(p.protocolParametersByVersion), "+nv+") == n")
		ap.Require("no longer an announced version", "!has(final(p.futureProtocolParametersByVersion), "+nv+")")
		ap.RequireIf("the latest API stays for lower versions", "p.latestAPI != nil && p.latestAPI.Version() >= "+nv, "final(p.latestAPI) == p.latestAPI")
		ap.RequireIf("a higher version becomes the latest", "(p.latestAPI == nil || p.latestAPI.Version() < "+nv+") && "+nv+" == 3 && !"+comm(nv), "final(p.latestAPI) == iotago.V3API(n)")
		ap.Require("the committed API stays", "final(p.committedAPI) == p.committedAPI")
		sc := prov("SetCommittedSlot", "s")
		sc.Require("slot recorded", "final(p.committedSlot) == s")
		cv := epoch("s")
		sc.RequireIf("the committed API is never lowered", "p.latestAPI != nil && p.committedAPI != nil && p.committedAPI.ProtocolParameters().Version() >= "+cv, "final(p.committedAPI) == p.committedAPI")
		rises := "p.latestAPI != nil && (p.committedAPI == nil || p.committedAPI.ProtocolParameters().Version() < " + cv + ")"
		sc.RequireIf("the committed API follows the committed slot", rises, isAPI("final(p.committedAPI)", cv))
		sc.Accepts("known versions", "p.latestAPI != nil && "+known(cv))
		av := c.Sum(":EpochBasedProvider.AddVersion", Opt{Names: []string{"p", "v", "e"}, Opaque: append([]string{"Add"}, opq...), Events: true})
		av.Called("recorded with its epoch", "Add", "", "arg0 == p.protocolVersions && arg1 == v && arg2 == e")
		av.AtCall("recorded with its epoch only", "Add", "arg0 == p.protocolVersions && arg1 == v && arg2 == e")
		fv := c.Sum(":EpochBasedProvider.AddFutureVersion", Opt{Names: []string{"p", "v", "h", "e"}, Opaque: append([]string{"Add"}, opq...), Events: true})
		fv.Called("recorded with its epoch", "Add", "", "arg0 == p.protocolVersions && arg1 == v && arg2 == e")
		fv.AtCall("recorded with its epoch only", "Add", "arg0 == p.protocolVersions && arg1 == v && arg2 == e")
		fv.Require("announced hash recorded", "has(final(p.futureProtocolParametersByVersion), v) && at(final(p.futureProtocolParametersByVersion), v) == h")
		both := c.Sum(":EpochBasedProvider.AddProtocolParametersAtEpoch", Opt{Names: []string{"p", "n", "e"}, Opaque: append([]string{"AddVersion", "AddProtocolParameters"}, opq...), Events: true})
		both.Called("version recorded", "AddVersion", "", "arg0 == p && arg1 == n.Version() && arg2 == e")
		both.Called("parameters recorded", "AddProtocolParameters", "", "arg0 == p && arg1 == n")
		c.Frozen("iotago.EpochBasedProvider", []string{"protocolParametersByVersion"}, ":NewEpochBasedProvider", ":EpochBasedProvider.AddProtocolParameters")
		c.Frozen("iotago.EpochBasedProvider", []string{"futureProtocolParametersByVersion"}, ":NewEpochBasedProvider", ":EpochBasedProvider.AddProtocolParameters", ":EpochBasedProvider.AddFutureVersion")
		c.Frozen("iotago.EpochBasedProvider", []string{"protocolVersions"}, ":NewEpochBasedProvider")
		c.Frozen("iotago.EpochBasedProvider", []string{"committedSlot"}, ":NewEpochBasedProvider", ":EpochBasedProvider.SetCommittedSlot")
		c.Frozen("iotago.EpochBasedProvider", []string{"latestAPI"}, ":NewEpochBasedProvider", ":EpochBasedProvider.AddProtocolParameters")
		c.Frozen("iotago.EpochBasedProvider", []string{"committedAPI"}, ":NewEpochBasedProvider", ":EpochBasedProvider.SetCommittedSlot", ":EpochBasedProvider.AddVersion")

		// the hash over all versions
		h := c.Sum(":EpochBasedProvider.VersionsAndProtocolParametersHash", Opt{Names: []string{"p"}})
		l := "p.protocolVersions.versionsPerEpoch"
		h.Exact("every version has parameters or an announced hash", "", "all(x, "+l+", has(p.protocolParametersByVersion, x.Version) && ok(p.protocolParametersByVersion[x.Version].Hash(), 1) || !has(p.protocolParametersByVersion, x.Version) && has(p.futureProtocolParametersByVersion, x.Version))")
		hash := "ifte(has(p.protocolParametersByVersion, x.Version), res(p.protocolParametersByVersion[x.Version].Hash(), 0), p.futureProtocolParametersByVersion[x.Version])"
		h.Result("hash of versions, start epochs and parameter hashes", 0, "", "blake2b.Sum256(concat(x, "+l+", true, cat(bytelist(x.Version), le32(x.StartEpoch), "+hash+")))")

		for _, m := range []string{"APIForTime", "APIForSlot", "APIForEpoch", "LatestAPI", "CommittedAPI", "APIForVersion"} {
			c.Sum(":singleVersionProvider."+m, Opt{Names: []string{"t"}}).Result("the one API", 0, "", "t.api")
		}
		c.Sum(":singleVersionProvider.APIForVersion", Opt{Names: []string{"t"}}).Accepts("never fails", "true")
		c.Frozen("iotago.singleVersionProvider", []string{"api"}, ":SingleVersionProvider")
	}})
}
