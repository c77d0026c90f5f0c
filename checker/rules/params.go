package rules

import (
	"fmt"
	"go/types"
	"strings"

	"verif/checker/engine"
)

// P34: protocol parameters. P41: reference mana cost and congestion parameters.

// paramFields of the parameters, addressed from the value p: every scalar (or list) member.
func paramFields(t types.Type, path string, f func(path string, t types.Type)) {
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			paramFields(st.Field(i).Type(), path+"."+st.Field(i).Name(), f)
		}
		return
	}
	f(path, t)
}

func deepEq(q *eqSpec, t types.Type, a, b string) string {
	if st, ok := t.Underlying().(*types.Struct); ok {
		var parts []string
		for i := 0; i < st.NumFields(); i++ {
			n := st.Field(i).Name()
			parts = append(parts, deepEq(q, st.Field(i).Type(), a+"."+n, b+"."+n))
		}
		return strings.Join(parts, " && ")
	}
	return q.body(t, a, b)
}

// paramOptions: the parameters each option sets, in the order of its arguments.
var paramOptions = map[string]string{
	"WithVersion":                  "Version",
	"WithStorageOptions":           "StorageScoreParameters: StorageCost FactorData OffsetOutputOverhead OffsetEd25519BlockIssuerKey OffsetStakingFeature OffsetDelegation",
	"WithWorkScoreOptions":         "WorkScoreParameters: DataByte Block Input ContextInput Output NativeToken Staking BlockIssuer Allotment SignatureEd25519",
	"WithSupplyOptions":            "TokenSupply ManaParameters: BitsCount GenerationRate GenerationRateExponent DecayFactorsExponent DecayFactorEpochsSumExponent AnnualDecayFactorPercentage",
	"WithTimeProviderOptions":      "GenesisSlot GenesisUnixTimestamp SlotDurationInSeconds SlotsPerEpochExponent",
	"WithLivenessOptions":          "LivenessThresholdLowerBoundInSeconds LivenessThresholdUpperBoundInSeconds MinCommittableAge MaxCommittableAge EpochNearingThreshold",
	"WithCongestionControlOptions": "CongestionControlParameters: MinReferenceManaCost Increase Decrease IncreaseThreshold DecreaseThreshold SchedulerRate MaxBufferSize MaxValidationBufferSize",
	"WithStakingOptions":           "StakingUnbondingPeriod ValidationBlocksPerSlot PunishmentEpochs",
	"WithVersionSignalingOptions":  "VersionSignalingParameters: WindowSize WindowTargetRatio ActivationOffset",
	"WithRewardsOptions":           "RewardsParameters: ProfitMarginExponent PoolCoefficientExponent RewardToGenerationRatio RetentionPeriod",
	"WithTargetCommitteeSize":      "TargetCommitteeSize",
	"WithNetworkOptions":           "NetworkName Bech32HRP",
	"WithChainSwitchingThreshold":  "ChainSwitchingThreshold",
}

var derivedFns = []string{"iotago.deriveManaDecayFactors", "iotago.deriveManaDecayFactorEpochsSum", "iotago.deriveBootstrappingDuration", "iotago.deriveTargetRewardsRates", "iotago.manaSupplySanityCheck"}

func init() {
	register(&Prop{ID: "P34", Min: 100, Note: "protocol parameters", Run: func(c *Ctx) {
		basic := c.namedType("basicProtocolParameters")
		v3 := c.namedType("V3ProtocolParameters")
		if basic == nil || v3 == nil {
			c.Ob("types", "V3ProtocolParameters", func() { Failf("protocol parameter types not found") })
			return
		}
		var leaves []string
		paramFields(basic, "", func(p string, _ types.Type) { leaves = append(leaves, p) })

		// comparison
		q := &eqSpec{}
		s := c.Sum(":V3ProtocolParameters.Equals", Opt{Names: []string{"p", "o"}, Assume: "p != nil && o != nil"})
		s.ResultB("all parameters", 0, "", "is(o, *iotago.V3ProtocolParameters) && "+deepEq(q, basic, "p.basicProtocolParameters", "o.basicProtocolParameters"))
		c.Sum(":v3api.Equals", Opt{Names: []string{"v", "o"}, Opaque: []string{"Equals", "ProtocolParameters"}}).
			ResultB("the parameters", 0, "", "Equals(v.protocolParameters, ProtocolParameters(o))")

		// every parameter is part of the serialized form
		var walk func(t types.Type, path string)
		walk = func(t types.Type, path string) {
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				return
			}
			for i := 0; i < st.NumFields(); i++ {
				fl, tag := st.Field(i), st.Tag(i)
				p := path + "." + fl.Name()
				c.Ob("serialized|"+p, "basicProtocolParameters", func() {
					if !strings.Contains(tag, `serix:"`) {
						Failf("%s has no serix tag: it is left out of the serialized parameters and of their hash", p)
					}
				})
				walk(fl.Type(), p)
			}
		}
		walk(basic, "")
		c.Ob("serialized|basic parameters", "V3ProtocolParameters", func() {
			st := v3.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if types.Identical(st.Field(i).Type(), basic) {
					if !strings.Contains(st.Tag(i), `serix:"`) {
						Failf("the basic parameters have no serix tag")
					}
					return
				}
			}
			Failf("V3ProtocolParameters does not contain the basic parameters")
		})
		c.Sum(":V3ProtocolParameters.Hash", Opt{Names: []string{"p"}, Opaque: []string{"Bytes"}}).
			Exact("hash exists", "", "ok(Bytes(p), 1)").
			Result("hash of the serialized parameters", 0, "", "blake2b.Sum256(res(Bytes(p), 0))")

		// options
		seen := map[string]bool{}
		for _, fn := range c.optionsOf(v3) {
			name := fn.Name()
			sp, ok := paramOptions[name]
			if !ok { // another option
				continue
			}
			seen[name] = true
			var set []string
			group := ""
			for _, w := range strings.Fields(sp) {
				if g, ok := strings.CutSuffix(w, ":"); ok {
					group = "." + g
					continue
				}
				set = append(set, group+"."+w)
			}
			var outer []string
			for i := range set {
				outer = append(outer, fmt.Sprintf("a%d", i))
			}
			o := c.Sum(":"+name+"()", Opt{Outer: outer, Names: []string{"p"}, Assume: "p != nil"})
			if o.Fn != nil && fn.Type().(*types.Signature).Params().Len() != len(set) {
				c.Ob("option arguments|"+name, name, func() { Failf("%d arguments for %d parameters", fn.Type().(*types.Signature).Params().Len(), len(set)) })
				continue
			}
			arg := map[string]string{}
			for i, p := range set {
				arg[p] = outer[i]
			}
			for _, l := range leaves {
				path := "p.basicProtocolParameters" + l
				if a := arg[l]; a != "" {
					o.Require("sets "+l, "final("+path+") == "+a)
					delete(arg, l)
				} else {
					o.Require("leaves "+l, "final("+path+") == "+path)
				}
			}
			for p := range arg {
				c.Ob("option parameter|"+name+p, name, func() { Failf("no such parameter %s", p) })
			}
			o.NoPanic("never fails", "")
		}

		for name := range paramOptions {
			if !seen[name] {
				c.Ob("option|"+name, name, func() { Failf("no option %s", name) })
			}
		}

		// accessors
		it, _ := c.namedType("ProtocolParameters").Underlying().(*types.Interface)
		for i := 0; it != nil && i < it.NumMethods(); i++ {
			m := it.Method(i).Name()
			spec, pre := "p.basicProtocolParameters."+m, ""
			switch m {
			case "Bytes", "Hash", "Equals", "NetworkID": // above and P28
				continue
			case "GenesisBlockID":
				spec = "iotago.NewBlockID(p.basicProtocolParameters.GenesisSlot, iotago.EmptyIdentifier)"
			case "LivenessThresholdLowerBound", "LivenessThresholdUpperBound":
				spec = "p.basicProtocolParameters." + m + "InSeconds * 1000000000"
			case "StorageScoreParameters", "WorkScoreParameters", "ManaParameters", "CongestionControlParameters", "VersionSignalingParameters", "RewardsParameters":
				spec = "&" + spec
			}
			c.Sum(":V3ProtocolParameters."+m, Opt{Names: []string{"p"}, Assume: "p != nil", Opaque: []string{"iotago.NewBlockID"}}).
				Result("the parameter", 0, pre, spec).NoPanic("never fails", "")
		}
		c.Sum(":V3ProtocolParameters.ParamEpochDurationInSlots", Opt{Names: []string{"p"}, Assume: "p != nil"}).
			Result("slots per epoch", 0, "p.basicProtocolParameters.SlotsPerEpochExponent < 32", "1 << p.basicProtocolParameters.SlotsPerEpochExponent")
		nid := "unle64(blake2b.Sum256(p.basicProtocolParameters.NetworkName)[0:8])"
		c.Sum(":V3ProtocolParameters.NetworkID", Opt{Names: []string{"p"}, Assume: "p != nil"}).Result("from the network name", 0, "", nid)

		// the API made of the parameters
		opaque := []string{"CommonSerixAPI", "iotago.NewTimeProvider", "iotago.NewStorageScoreStructure", "iotago.NewManaDecayProvider", "MaxBlockWork", "RegisterTypeSettings", "RegisterInterfaceObjects", "RegisterValidator",
			"GenesisSlot", "GenesisUnixTimestamp", "SlotDurationInSeconds", "SlotsPerEpochExponent", "ManaParameters", "WorkScoreParameters", "StorageScoreParameters"}
		a := c.Sum(":V3API", Opt{Names: []string{"p"}, Opaque: opaque})
		tp := "iotago.NewTimeProvider(GenesisSlot(p), GenesisUnixTimestamp(p), SlotDurationInSeconds(p), SlotsPerEpochExponent(p))"
		for f, spec := range map[string]string{
			"protocolParameters":    "p",
			"timeProvider":          tp,
			"manaDecayProvider":     "iotago.NewManaDecayProvider(" + tp + ", SlotsPerEpochExponent(p), ManaParameters(p))",
			"storageScoreStructure": "iotago.NewStorageScoreStructure(StorageScoreParameters(p))",
			"maxBlockWork":          "res(MaxBlockWork(WorkScoreParameters(p)), 0)",
		} {
			a.Require(f+" from the parameters", "as(ret0, *iotago.v3api, "+f+") == "+spec)
		}
		a.Require("work score bounded", "ok(MaxBlockWork(WorkScoreParameters(p)), 1)")
		for m, f := range map[string]string{"ProtocolParameters": "protocolParameters", "TimeProvider": "timeProvider", "ManaDecayProvider": "manaDecayProvider", "StorageScoreStructure": "storageScoreStructure", "MaxBlockWork": "maxBlockWork", "Underlying": "serixAPI"} {
			c.Sum(":v3api."+m, Opt{Names: []string{"v"}}).Result("the member", 0, "", "v."+f)
		}
		c.Sum(":v3api.Version", Opt{Names: []string{"v"}}).Result("of the parameters", 0, "", "v.protocolParameters.basicProtocolParameters.Version")
		c.Frozen("iotago.v3api", []string{"protocolParameters", "timeProvider", "manaDecayProvider", "storageScoreStructure", "maxBlockWork", "serixAPI"}, "V3API")

		// derived parameters
		n := c.Sum(":NewV3SnapshotProtocolParameters", Opt{Names: []string{"opts"}, Opaque: append([]string{"iotago.timeSanityCheck", "iotago.congestionControlSanityCheck", "iotago.stakingSanityCheck"}, derivedFns...)})
		b := "ret0.basicProtocolParameters"
		mp := b + ".ManaParameters"
		n.Require("decay factors", mp+".DecayFactors == iotago.deriveManaDecayFactors("+mp+".AnnualDecayFactorPercentage, "+b+".SlotsPerEpochExponent, "+b+".SlotDurationInSeconds, "+mp+".DecayFactorsExponent)")
		n.Require("decay factor sum", mp+".DecayFactorEpochsSum == iotago.deriveManaDecayFactorEpochsSum("+mp+".AnnualDecayFactorPercentage, "+b+".SlotsPerEpochExponent, "+b+".SlotDurationInSeconds, "+mp+".DecayFactorEpochsSumExponent)")
		n.Require("bootstrapping duration", b+".RewardsParameters.BootstrappingDuration == iotago.deriveBootstrappingDuration("+mp+".AnnualDecayFactorPercentage, "+b+".SlotsPerEpochExponent, "+b+".SlotDurationInSeconds)")
		r := c.Sum(":deriveTargetRewardsRates", Opt{Names: []string{"p"}, Opaque: []string{"TokenSupply", "RewardsParameters", "ManaParameters", "SlotsPerEpochExponent", "SlotDurationInSeconds"}})
		prod := "TokenSupply(p) * RewardsParameters(p).RewardToGenerationRatio * ManaParameters(p).GenerationRate"
		r.Exact("no overflow", "", "!ovfmul(TokenSupply(p) * RewardsParameters(p).RewardToGenerationRatio) && !ovfmul("+prod+") && ManaParameters(p).GenerationRateExponent >= SlotsPerEpochExponent(p)")
		r.Result("final reward rate", 1, "", "("+prod+") >> (ManaParameters(p).GenerationRateExponent - SlotsPerEpochExponent(p))")
	}})

	register(&Prop{ID: "P41", Min: 15, Note: "mana cost", Run: func(c *Ctx) {
		m := c.Sum(":ManaCost", Opt{Names: []string{"rmc", "w"}})
		m.Exact("no overflow", "", "!ovfmul(rmc * w)")
		m.Result("cost times work", 0, "", "rmc * w")
		w := c.Sum(":Block.WorkScore", Opt{Names: []string{"b"}, Opaque: []string{"WorkScore", "ProtocolParameters", "WorkScoreParameters"}})
		ws := "WorkScore(b.Body, b.API.ProtocolParameters().WorkScoreParameters())"
		w.Exact("work score exists", "", "ok("+ws+", 1)")
		w.Result("work score of the body", 0, "", "res("+ws+", 0)")
		b := c.Sum(":Block.ManaCost", Opt{Names: []string{"b", "rmc"}, Opaque: []string{"WorkScore"}})
		b.Exact("no overflow", "", "ok(WorkScore(b), 1) && !ovfmul(rmc * res(WorkScore(b), 0))")
		b.Result("cost times work", 0, "", "rmc * res(WorkScore(b), 0)")

		pp := "p.basicProtocolParameters"
		names := Opt{Names: []string{"p"}, NoOvf: true, Assume: "p != nil"}
		cg := pp + ".CongestionControlParameters"
		rate := "(" + pp + ".SlotDurationInSeconds * " + cg + ".SchedulerRate)"
		c.Sum(":congestionControlSanityCheck", names).
			Require("decrease at most increase", cg+".DecreaseThreshold <= "+cg+".IncreaseThreshold").
			Exact("ordered", "", cg+".DecreaseThreshold <= "+cg+".IncreaseThreshold && "+cg+".IncreaseThreshold <= "+rate+" && "+cg+".DecreaseThreshold <= "+rate)
		c.Sum(":timeSanityCheck", names).
			Exact("ordered", pp+".SlotsPerEpochExponent < 32", pp+".LivenessThresholdLowerBoundInSeconds <= "+pp+".LivenessThresholdUpperBoundInSeconds && "+pp+".LivenessThresholdUpperBoundInSeconds < "+pp+".MinCommittableAge * "+pp+".SlotDurationInSeconds && "+
				pp+".MinCommittableAge < "+pp+".MaxCommittableAge && "+pp+".MaxCommittableAge < "+pp+".EpochNearingThreshold && "+pp+".EpochNearingThreshold < (1 << "+pp+".SlotsPerEpochExponent)")
		c.Sum(":stakingSanityCheck", names).
			Require("validation blocks", pp+".ValidationBlocksPerSlot <= 32").
			Require("pool coefficient", pp+".RewardsParameters.PoolCoefficientExponent <= 64")
		c.Sum(":manaSupplySanityCheck", Opt{Names: []string{"p"}, Assume: "p != nil"}).
			Require("decay sum fits", "!ovfmul("+pp+".ManaParameters.DecayFactorEpochsSum * "+pp+".ManaParameters.GenerationRate)")

		n := c.Sum(":NewV3SnapshotProtocolParameters", Opt{Names: []string{"opts"}, NoOvf: true, Opaque: append([]string{}, derivedFns[:4]...)})
		rp := "ret0.basicProtocolParameters"
		rc := rp + ".CongestionControlParameters"
		n.Require("congestion thresholds ordered", rc+".DecreaseThreshold <= "+rc+".IncreaseThreshold")
		n.Require("congestion thresholds within the rate", rc+".IncreaseThreshold <= "+rp+".SlotDurationInSeconds * "+rc+".SchedulerRate")
		n.Require("liveness thresholds ordered", rp+".LivenessThresholdLowerBoundInSeconds <= "+rp+".LivenessThresholdUpperBoundInSeconds")
		n.Require("committable ages ordered", rp+".MinCommittableAge < "+rp+".MaxCommittableAge && "+rp+".MaxCommittableAge < "+rp+".EpochNearingThreshold")
		n.Require("validation blocks", rp+".ValidationBlocksPerSlot <= 32")
		n = c.Sum(":NewV3SnapshotProtocolParameters", Opt{Names: []string{"opts"}, Opaque: append([]string{}, derivedFns[:4]...)})
		n.Require("decay sum fits", "!ovfmul("+rp+".ManaParameters.DecayFactorEpochsSum * "+rp+".ManaParameters.GenerationRate)")
	}})
	_ = engine.RepoMod
}

// namedType of the main package.
func (c *Ctx) namedType(name string) *types.Named {
	for _, p := range c.P.Pkgs {
		if p.PkgPath == engine.RepoMod {
			if o := p.Types.Scope().Lookup(name); o != nil {
				if n, ok := o.Type().(*types.Named); ok {
					return n
				}
			}
		}
	}
	return nil
}

// optionsOf lists the functions of the main package returning an option of t.
func (c *Ctx) optionsOf(t *types.Named) []*types.Func {
	var r []*types.Func
	for _, p := range c.P.Pkgs {
		if p.PkgPath != engine.RepoMod {
			continue
		}
		for _, n := range p.Types.Scope().Names() {
			fn, ok := p.Types.Scope().Lookup(n).(*types.Func)
			if !ok {
				continue
			}
			res := fn.Type().(*types.Signature).Results()
			if res.Len() != 1 {
				continue
			}
			sg, ok := res.At(0).Type().Underlying().(*types.Signature)
			if ok && sg.Params().Len() == 1 && sg.Results().Len() == 0 && types.Identical(deref(sg.Params().At(0).Type()), t) {
				r = append(r, fn)
			}
		}
	}
	return r
}
