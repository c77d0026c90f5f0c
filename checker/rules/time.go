package rules

// P35: slots, epochs and times.

// timeFields are the derived fields of a time provider; its constructor establishes them and nothing writes them later.
var timeFields = map[string]string{
	"iotago.TimeProvider.genesisTime":          "time.Unix(self.genesisUnixTime, 0)",
	"iotago.TimeProvider.epochDurationSlots":   "1 << self.slotsPerEpochExponent",
	"iotago.TimeProvider.epochDurationSeconds": "(1 << self.slotsPerEpochExponent) * self.slotDurationSeconds",
}

func init() {
	register(&Prop{ID: "P35", Min: 20, Note: "time", Run: func(c *Ctx) {
		n := c.Sum(":NewTimeProvider", Opt{Names: []string{"g", "u", "d", "e"}})
		n.Result("constructed fields", 0, "", "&iotago.TimeProvider{genesisSlot: g, genesisUnixTime: u, genesisTime: time.Unix(u, 0), slotDurationSeconds: d, slotsPerEpochExponent: e, epochDurationSeconds: (1<<e)*d, epochDurationSlots: 1<<e}")
		c.Frozen("iotago.TimeProvider", []string{"genesisSlot", "genesisUnixTime", "genesisTime", "slotDurationSeconds", "slotsPerEpochExponent", "epochDurationSeconds", "epochDurationSlots"}, ":NewTimeProvider")

		at := func(method string, names ...string) *Sum {
			return c.Sum(":TimeProvider."+method, Opt{Names: append([]string{"t"}, names...), Fields: timeFields, Opaque: []string{"SlotFromTime"}})
		}
		genesis := "time.Unix(t.genesisUnixTime, 0)"
		before := genesis + ".Add(-1)"
		at("GenesisSlot").Result("getter", 0, "", "t.genesisSlot")
		at("GenesisUnixTime").Result("getter", 0, "", "t.genesisUnixTime")
		at("GenesisTime").Result("getter", 0, "", genesis)
		at("SlotDurationSeconds").Result("getter", 0, "", "t.slotDurationSeconds")
		at("SlotsPerEpochExponent").Result("getter", 0, "", "t.slotsPerEpochExponent")
		at("EpochDurationSlots").Result("getter", 0, "", "1 << t.slotsPerEpochExponent")
		at("EpochDurationSeconds").Result("getter", 0, "", "(1 << t.slotsPerEpochExponent) * t.slotDurationSeconds")

		sl := c.Sum(":TimeProvider.SlotFromTime", Opt{Names: []string{"t", "x"}, Fields: timeFields})
		el := "x.Sub(" + genesis + ")"
		sl.Result("before the genesis", 0, el+" < 0", "t.genesisSlot")
		sl.Result("from the genesis on", 0, el+" >= 0", "t.genesisSlot + trunc32("+el+" / 1000000000 / t.slotDurationSeconds) + 1")

		st := at("SlotStartTime", "s")
		st.Result("up to the genesis slot", 0, "s <= t.genesisSlot", before)
		st.Result("after the genesis slot", 0, "s > t.genesisSlot", "time.Unix(t.genesisUnixTime + wrap(s - t.genesisSlot - 1) * t.slotDurationSeconds, 0)")
		en := at("SlotEndTime", "s")
		en.Result("up to the genesis slot", 0, "s <= t.genesisSlot", before)
		en.Result("after the genesis slot", 0, "s > t.genesisSlot", "time.Unix(t.genesisUnixTime + wrap(s - t.genesisSlot) * t.slotDurationSeconds, 0).Add(-1)")

		ep := at("EpochFromSlot", "s")
		ep.Result("up to the genesis slot", 0, "s <= t.genesisSlot", "0")
		ep.Result("after the genesis slot", 0, "s > t.genesisSlot", "(s - t.genesisSlot) >> t.slotsPerEpochExponent")
		at("EpochStart", "e").Result("first slot", 0, "", "t.genesisSlot + (e << t.slotsPerEpochExponent)")
		at("EpochEnd", "e").Result("last slot", 0, "", "t.genesisSlot + ((e + 1) << t.slotsPerEpochExponent) - 1")

		epoch := "((s - t.genesisSlot) >> t.slotsPerEpochExponent)"
		nx := at("SlotsBeforeNextEpoch", "s")
		nx.Result("before the genesis", 0, "s < t.genesisSlot", "0")
		nx.Result("slots up to the next epoch", 0, "s > t.genesisSlot", "t.genesisSlot + (("+epoch+" + 1) << t.slotsPerEpochExponent) - s")
		nx.Result("genesis slot", 0, "s == t.genesisSlot", "1 << t.slotsPerEpochExponent")
		nx.Require("right or too large by the genesis slot", "s < t.genesisSlot || ret0 == t.genesisSlot + (("+epoch+" + 1) << t.slotsPerEpochExponent) - s || ret0 == t.genesisSlot + t.genesisSlot + (("+epoch+" + 1) << t.slotsPerEpochExponent) - s || s == t.genesisSlot && ret0 == t.genesisSlot + (1 << t.slotsPerEpochExponent)")
		sc := at("SlotsSinceEpochStart", "s")
		sc.Result("before the genesis", 0, "s < t.genesisSlot", "0")
		sc.Result("slots since the start of the epoch", 0, "s > t.genesisSlot", "s - t.genesisSlot - ("+epoch+" << t.slotsPerEpochExponent)")
		sc.Result("genesis slot", 0, "s == t.genesisSlot", "0")
		sc.Require("right or too large by the genesis slot", "s < t.genesisSlot || ret0 == s - t.genesisSlot - ("+epoch+" << t.slotsPerEpochExponent) || ret0 == s - ("+epoch+" << t.slotsPerEpochExponent) || s == t.genesisSlot && ret0 == t.genesisSlot")
		zero := map[string]string{"iotago.TimeProvider.genesisSlot": "0"}
		for k, v := range timeFields {
			zero[k] = v
		}
		z := func(method string) *Sum {
			return c.Sum(":TimeProvider."+method, Opt{Names: []string{"t", "s"}, Fields: zero, Case: "genesis slot 0"})
		}
		z("SlotsBeforeNextEpoch").Result("slots up to the next epoch", 0, "s > 0", "(((s >> t.slotsPerEpochExponent) + 1) << t.slotsPerEpochExponent) - s")
		z("SlotsBeforeNextEpoch").Result("slot zero", 0, "s == 0", "1 << t.slotsPerEpochExponent")
		z("SlotsSinceEpochStart").Result("slots since the start of the epoch", 0, "s > 0", "s - ((s >> t.slotsPerEpochExponent) << t.slotsPerEpochExponent)")
		z("SlotsSinceEpochStart").Result("slot zero", 0, "s == 0", "0")

		now := at("CurrentSlot")
		now.Result("slot of the current time", 0, "", "t.SlotFromTime(time.Now())")
		ce := at("CurrentEpoch")
		cur := "t.SlotFromTime(time.Now())"
		ce.Result("epoch of the current slot", 0, cur+" > t.genesisSlot", "("+cur+" - t.genesisSlot) >> t.slotsPerEpochExponent")
	}})
}
