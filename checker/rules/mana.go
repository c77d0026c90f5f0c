package rules

import (
	"fmt"
)

// P36: mana decay and generation.

func init() {
	register(&Prop{ID: "P36", Min: 40, Note: "mana", Run: func(c *Ctx) {
		opaque := []string{"decay", "generateMana", "iotago.fixedPointMultiplication32", "EpochFromSlot", "SlotsBeforeNextEpoch", "SlotsSinceEpochStart", "GenerateManaAndDecayBySlots", "DecayManaByEpochs", "MinDeposit", "BaseTokenAmount"}
		without := func(n ...string) []string {
			var out []string
			for _, o := range opaque {
				keep := true
				for _, x := range n {
					keep = keep && x != o
				}
				if keep {
					out = append(out, o)
				}
			}
			return out
		}
		sum := func(name string, names ...string) *Sum {
			return c.Sum(":ManaDecayProvider."+name, Opt{Names: append([]string{"p"}, names...), Opaque: without(name)})
		}

		e := sum("DecayManaByEpochs", "mana", "from", "to")
		dec := "p.decay(mana, to - from)"
		e.Exact("order of the epochs", "", "from <= to && ok("+dec+", 1)")
		e.Result("decayed over the epochs between", 0, "", "res("+dec+", 0)")

		b := sum("DecayManaBySlots", "mana", "from", "to")
		by := "p.DecayManaByEpochs(mana, p.timeProvider.EpochFromSlot(from), p.timeProvider.EpochFromSlot(to))"
		b.Exact("decays between the epochs of the slots", "", "ok("+by+", 1)")
		b.Result("decayed between the epochs of the slots", 0, "", "res("+by+", 0)")

		g := c.Sum(":ManaDecayProvider.GenerateManaAndDecayBySlots", Opt{Names: []string{"p", "amount", "from", "to"}, Opaque: without("GenerateManaAndDecayBySlots")})
		g.Require("order of the slots", "from <= to")
		diff := "(p.timeProvider.EpochFromSlot(to) - p.timeProvider.EpochFromSlot(from))"
		same := "p.generateMana(amount, to - from)"
		g.Exact("same epoch", "from <= to && "+diff+" == 0", "ok("+same+", 1)")
		g.Result("same epoch amount", 0, diff+" == 0", "res("+same+", 0)")
		first := "p.generateMana(amount, p.timeProvider.SlotsBeforeNextEpoch(from))"
		last := "p.generateMana(amount, p.timeProvider.SlotsSinceEpochStart(to))"
		d1 := "p.decay(res(" + first + ", 0), 1)"
		one := "res(" + d1 + ", 0) + res(" + last + ", 0)"
		g.Exact("next epoch", "from <= to && "+diff+" == 1", "ok("+first+", 1) && ok("+d1+", 1) && ok("+last+", 1) && !ovfadd("+one+")")
		g.Result("next epoch amount", 0, diff+" == 1", one)
		dn := "p.decay(res(" + first + ", 0), " + diff + ")"
		aux := "iotago.fixedPointMultiplication32(amount, p.decayFactorEpochsSum * p.generationRate, p.decayFactorEpochsSumExponent + p.generationRateExponent - p.slotsPerEpochExponent)"
		c0 := "res(" + aux + ", 0)"
		c2 := "p.decay(" + c0 + ", " + diff + " - 1)"
		mid := c0 + " - res(" + c2 + ", 0)"
		s1 := mid + " + res(" + last + ", 0)"
		s2 := s1 + " + res(" + dn + ", 0)"
		round := "(" + c0 + " >> p.decayFactorsExponent)"
		many := diff + " != 0 && " + diff + " != 1"
		g.RequireIf("later epochs", many, "ok("+first+", 1) && ok("+dn+", 1) && ok("+aux+", 1) && ok("+c2+", 1) && ok("+last+", 1)")
		g.RequireIf("later epochs, checked arithmetic", many, c0+" >= res("+c2+", 0) && !ovfadd("+s1+") && !ovfadd("+s2+") && "+s2+" >= "+round)
		g.Accepts("later epochs in range", many+" && from <= to && ok("+first+", 1) && ok("+dn+", 1) && ok("+aux+", 1) && ok("+c2+", 1) && ok("+last+", 1) && "+c0+" >= res("+c2+", 0) && !ovfadd("+s1+") && !ovfadd("+s2+") && "+s2+" >= "+round)
		g.Result("later epochs amount", 0, many, s2+" - "+round)

		m := sum("generateMana", "value", "slots")
		fp := "iotago.fixedPointMultiplication32(value, slots * p.generationRate, p.generationRateExponent)"
		m.Result("no time or no generation", 0, "slots == 0 || p.generationRate == 0", "0")
		m.Exact("generation", "slots != 0 && p.generationRate != 0", "ok("+fp+", 1)")
		m.Result("generated", 0, "slots != 0 && p.generationRate != 0", "res("+fp+", 0)")

		// the decay table: every table of up to three factors and every epoch difference that walks it up to three times
		for n := 0; n <= 3; n++ {
			table := "bytelist("
			for i := 0; i < n; i++ {
				if i > 0 {
					table += ", "
				}
				table += fmt.Sprintf("self.factor%d", i)
			}
			table += ")"
			_ = table
			for k := 0; k <= 3*n+1; k++ {
				d := c.Sum(":ManaDecayProvider.decay", Opt{Names: []string{"p", "value", "epochs"}, Opaque: []string{"iotago.fixedPointMultiplication32Splitted"},
					Args: map[string]string{"epochs": fmt.Sprint(k)}, Fields: map[string]string{"iotago.ManaDecayProvider.decayFactorsLength": fmt.Sprint(n)}, Case: fmt.Sprintf("%d factors, %d epochs", n, k)})
				if k == 0 || n == 0 {
					d.Result("unchanged", 0, "", "value")
					continue
				}
				hi, lo := "(value >> 32)", "(value & 4294967295)"
				oks := "true"
				for rest := k; rest > 0; {
					j := min(rest, n)
					rest -= j
					call := fmt.Sprintf("iotago.fixedPointMultiplication32Splitted(%s, %s, p.decayFactors[%d], p.decayFactorsExponent)", hi, lo, j-1)
					oks += " && ok(" + call + ", 2)"
					hi, lo = "res("+call+", 0)", "res("+call+", 1)"
				}
				d.Result("nothing stays nothing", 0, "value == 0", "0")
				d.Exact("decay steps", "value != 0", oks)
				d.Result("decayed", 0, "value != 0", "("+hi+" << 32) | "+lo)
			}
		}

		x := c.Sum(":fixedPointMultiplication32Splitted", Opt{Names: []string{"hi", "lo", "f", "s"}})
		x.Exact("scale", "", "s <= 32")
		low := "((hi*f) & ((1<<s)-1)) << (32-s) + (lo*f) >> s"
		x.Result("high word", 0, "", "((hi*f) >> s) + (("+low+") >> 32)")
		x.Result("low word", 1, "", "("+low+") & 4294967295")
		y := c.Sum(":fixedPointMultiplication32", Opt{Names: []string{"v", "f", "s"}, Opaque: []string{"iotago.fixedPointMultiplication32Splitted"}})
		small := "iotago.fixedPointMultiplication32Splitted(v >> 32, v & 4294967295, f, s)"
		big := "iotago.fixedPointMultiplication32Splitted(v >> 32, v & 4294967295, f, 32)"
		y.Exact("small scale", "s <= 32", "ok("+small+", 2)")
		y.Result("small scale product", 0, "s <= 32", "(res("+small+", 0) << 32) | res("+small+", 1)")
		y.Result("large scale product", 0, "s > 32", "((res("+big+", 0) << 32) | res("+big+", 1)) >> (s - 32)")

		n := c.Sum(":NewManaDecayProvider", Opt{Names: []string{"t", "e", "m"}})
		for f, v := range map[string]string{"timeProvider": "t", "slotsPerEpochExponent": "e", "bitsCount": "m.BitsCount", "generationRate": "m.GenerationRate", "generationRateExponent": "m.GenerationRateExponent",
			"decayFactors": "collect(d, m.DecayFactors, true, d)", "decayFactorsLength": "len(m.DecayFactors)", "decayFactorsExponent": "m.DecayFactorsExponent", "decayFactorEpochsSum": "m.DecayFactorEpochsSum", "decayFactorEpochsSumExponent": "m.DecayFactorEpochsSumExponent"} {
			n.Require("parameter "+f, "ret0."+f+" == "+v)
		}
		c.Frozen("iotago.ManaDecayProvider", []string{"timeProvider", "slotsPerEpochExponent", "bitsCount", "generationRate", "generationRateExponent", "decayFactors", "decayFactorsLength", "decayFactorsExponent", "decayFactorEpochsSum", "decayFactorEpochsSumExponent"}, ":NewManaDecayProvider")

		q := c.Sum(":PotentialMana", Opt{Names: []string{"p", "s", "output", "from", "to"}, Opaque: opaque})
		md := "s.MinDeposit(output)"
		amt := "output.BaseTokenAmount()"
		gen := "p.GenerateManaAndDecayBySlots(" + amt + " - res(" + md + ", 0), from, to)"
		q.Require("storage deposit known", "ok("+md+", 1)")
		q.Result("nothing above the storage deposit", 0, amt+" < res("+md+", 0)", "0")
		q.Exact("above the storage deposit", "ok("+md+", 1) && "+amt+" >= res("+md+", 0)", "ok("+gen+", 1)")
		q.Result("generated by the excess", 0, amt+" >= res("+md+", 0)", "res("+gen+", 0)")

		r := c.Sum(":RewardsParameters.TargetReward", Opt{Names: []string{"r", "epoch", "api"}, Opaque: append([]string{"ProtocolParameters", "ManaDecayProvider", "RewardsParameters"}, opaque...)})
		rp := "api.ProtocolParameters().RewardsParameters()"
		dr := "api.ManaDecayProvider().DecayManaByEpochs(" + rp + ".InitialTargetRewardsRate, 0, epoch)"
		r.Result("after bootstrapping", 0, "epoch > r.BootstrappingDuration", rp+".FinalTargetRewardsRate")
		r.Exact("bootstrapping decay", "epoch <= r.BootstrappingDuration", "ok("+dr+", 1)")
		r.Result("while bootstrapping", 0, "epoch <= r.BootstrappingDuration", "res("+dr+", 0)")
	}})
}
