package rules

import "strings"

// txBuilder: the transaction builder.
func (c *Ctx) txBuilder() {
	bt := c.builderType("TransactionBuilder")
	if bt == nil {
		c.Ob("type|TransactionBuilder", "TransactionBuilder", func() { Failf("transaction builder not found") })
		return
	}
	es := "transaction.TransactionEssence."
	paths := []string{"api", "signer", "transaction", "transaction.API", "transaction.Outputs", "occurredBuildErr", "rewards", "inputs", "inputOwner"}
	for _, f := range []string{"NetworkID", "CreationSlot", "ContextInputs", "Inputs", "Allotments", "Capabilities", "Payload"} {
		paths = append(paths, es+f)
	}
	assume := "b != nil && b.transaction != nil && b.transaction.TransactionEssence != nil"
	leave := func(s *Sum, pre string, set ...string) {
		for _, p := range paths {
			in := false
			for _, q := range set {
				in = in || p == q
			}
			if !in {
				s.RequireIf("leaves "+p, pre, "final(b."+p+") == b."+p)
			}
		}
	}
	sum := func(m string, args ...string) *Sum {
		return c.Sum("builder:TransactionBuilder."+m, Opt{Names: append([]string{"b"}, args...), Assume: assume, Opaque: []string{"UTXOInput"}})
	}
	simple := func(m, path, val string) {
		s := sum(m, "a")
		s.Require("sets "+path, "final(b."+path+") == "+val)
		leave(s, "", path)
		s.Result("returns the builder", 0, "", "b")
		s.NoPanic("never fails", "")
	}
	simple("AddOutput", "transaction.Outputs", "append(b.transaction.Outputs, list(a))")
	simple("AddCommitmentInput", es+"ContextInputs", "append(b."+es+"ContextInputs, list(a))")
	simple("AddBlockIssuanceCreditInput", es+"ContextInputs", "append(b."+es+"ContextInputs, list(a))")
	simple("WithTransactionCapabilities", es+"Capabilities", "a")
	simple("SetCreationSlot", es+"CreationSlot", "a")
	simple("AddTaggedDataPayload", es+"Payload", "a")
	c.Sum("builder:TransactionBuilder.CreationSlot", Opt{Names: []string{"b"}, Assume: assume}).Result("the creation slot", 0, "", "b."+es+"CreationSlot")

	s := sum("AddInput", "in")
	s.Require("adds the input", "final(b."+es+"Inputs) == append(b."+es+"Inputs, list(UTXOInput(in.InputID)))")
	s.Require("remembers the output", "at(final(b.inputs), in.InputID) == in.Input")
	s.Require("remembers the owner", "at(final(b.inputOwner), in.InputID) == in.UnlockTarget")
	leave(s, "", es+"Inputs", "inputs", "inputOwner")
	s.Result("returns the builder", 0, "", "b")

	s = sum("AddRewardInput", "in", "m")
	s.Require("adds the reward input", "final(b."+es+"ContextInputs) == append(b."+es+"ContextInputs, list(in))")
	s.RequireIf("adds the reward", "!ovfadd(b.rewards + m)", "final(b.rewards) == b.rewards + m && final(b.occurredBuildErr) == b.occurredBuildErr")
	s.RequireIf("reports an overflow", "ovfadd(b.rewards + m)", "final(b.occurredBuildErr) != nil")
	leave(s, "", es+"ContextInputs", "rewards", "occurredBuildErr")
	s.Result("returns the builder", 0, "", "b")

	al := "b." + es + "Allotments"
	has := "some(x, " + al + ", x.AccountID == id)"
	s = sum("IncreaseAllotment", "id", "v")
	s.RequireIf("nothing to allot", "v == 0", "final("+al+") == "+al+" && final(b.occurredBuildErr) == b.occurredBuildErr")
	s.RequireIf("a new allotment", "v != 0 && !"+has, "final("+al+") == append("+al+", list(&iotago.Allotment{AccountID: id, Mana: v})) && final(b.occurredBuildErr) == b.occurredBuildErr")
	leave(s, "", es+"Allotments", "occurredBuildErr")
	s.Result("returns the builder", 0, "", "b")
	// an allotment present already
	one := c.Sum("builder:TransactionBuilder.IncreaseAllotment", Opt{Names: []string{"b", "id", "v"}, Assume: assume + " && x != nil && y != nil && x.AccountID != y.AccountID && v != 0", Lists: map[string][]string{al: {"x", "y"}}, Case: "two allotments"})
	for _, p := range [][2]string{{"x", "y"}, {"y", "x"}} {
		one.RequireIf("increases "+p[0], p[0]+".AccountID == id && !ovfadd("+p[0]+".Mana + v)", "final("+p[0]+".Mana) == "+p[0]+".Mana + v && final("+p[1]+".Mana) == "+p[1]+".Mana && final("+al+") == list(x, y) && final(b.occurredBuildErr) == b.occurredBuildErr")
		one.RequireIf("reports an overflow "+p[0], p[0]+".AccountID == id && ovfadd("+p[0]+".Mana + v)", "final(b.occurredBuildErr) != nil && final("+p[0]+".Mana) == "+p[0]+".Mana")
	}

	s = c.Sum("builder:NewTransactionBuilder", Opt{Names: []string{"api", "signer"}, Opaque: []string{"ProtocolParameters", "NetworkID"}})
	s.Require("empty transaction of the network", "ret0.api == api && ret0.signer == signer && ret0.transaction.API == api && ret0."+es+"NetworkID == NetworkID(ProtocolParameters(api)) && ret0.rewards == 0 && ret0.occurredBuildErr == nil")
	s.Require("nothing added", "len(ret0."+es+"Inputs) == 0 && len(ret0."+es+"ContextInputs) == 0 && len(ret0."+es+"Allotments) == 0 && len(ret0.transaction.Outputs) == 0 && ret0."+es+"Payload == nil && ret0."+es+"CreationSlot == 0")
	s.Require("no inputs", "!has(ret0.inputs, \"x\") && !has(ret0.inputOwner, \"x\")")

	// mana on the input side
	for m, f := range map[string]string{"AddPotentialMana": "PotentialMana TotalMana", "AddStoredMana": "StoredMana TotalMana", "AddUnboundPotentialMana": "UnboundPotentialMana UnboundMana", "AddUnboundStoredMana": "UnboundStoredMana UnboundMana", "AddRewards": "Rewards UnboundMana"} {
		s := c.Sum("builder:AvailableManaResult."+m, Opt{Names: []string{"a", "v"}, Assume: "a != nil"})
		f1, f2, _ := strings.Cut(f, " ")
		s.Exact("no overflow", "", "!ovfadd(a."+f1+" + v) && !ovfadd(a."+f2+" + v)")
		st := c.builderType("AvailableManaResult")
		if st == nil {
			continue
		}
		for _, g := range []string{"TotalMana", "UnboundMana", "PotentialMana", "StoredMana", "UnboundPotentialMana", "UnboundStoredMana", "Rewards", "AccountBoundMana"} {
			v := "a." + g
			if g == f1 || g == f2 {
				v += " + v"
			}
			s.Require(g, "final(a."+g+") == "+v)
		}
	}
	s = c.Sum("builder:AvailableManaResult.AddAccountBoundMana", Opt{Names: []string{"a", "id", "v"}, Assume: "a != nil"})
	cur := "ifte(has(a.AccountBoundMana, id), at(a.AccountBoundMana, id), 0)"
	s.Exact("no overflow", "", "!(has(a.AccountBoundMana, id) && ovfadd(at(a.AccountBoundMana, id) + v))")
	s.Require("adds", "at(final(a.AccountBoundMana), id) == "+cur+" + v")

	ops := []string{"iotago.PotentialMana", "DecayManaBySlots", "ManaDecayProvider", "StorageScoreStructure", "StoredMana", "CreationSlot", "iotago.AccountIDFromOutputID"}
	s = c.Sum("builder:TransactionBuilder.CalculateAvailableManaInputs", Opt{Names: []string{"b", "slot"}, Assume: "b != nil", Opaque: ops, NoOvf: true})
	pot := "res(iotago.PotentialMana(ManaDecayProvider(b.api), StorageScoreStructure(b.api), x, CreationSlot(x_k), slot), 0)"
	sto := "res(DecayManaBySlots(ManaDecayProvider(b.api), StoredMana(x), CreationSlot(x_k), slot), 0)"
	acc := "is(x, *iotago.AccountOutput)"
	tot := func(g, v string) string { return "sum(x, b.inputs, " + g + ", " + v + ")" }
	for f, v := range map[string]string{
		"PotentialMana":        tot("true", pot),
		"StoredMana":           tot("true", sto),
		"TotalMana":            tot("true", pot) + " + " + tot("true", sto),
		"UnboundPotentialMana": tot("!"+acc, pot),
		"UnboundStoredMana":    tot("!"+acc, sto),
		"UnboundMana":          tot("!"+acc, pot) + " + " + tot("!"+acc, sto) + " + b.rewards",
		"Rewards":              "b.rewards",
	} {
		s.Require(f, "ret0."+f+" == "+v)
	}
	id := "ifte(zero(as(x, *iotago.AccountOutput, AccountID)), iotago.AccountIDFromOutputID(x_k), as(x, *iotago.AccountOutput, AccountID))"
	s.Require("AccountBoundMana", "ret0.AccountBoundMana == mapsum(x, b.inputs, "+acc+", "+id+", "+pot+" + "+sto+")")
	s.Require("every mana calculation succeeds", "all(x, b.inputs, ok(iotago.PotentialMana(ManaDecayProvider(b.api), StorageScoreStructure(b.api), x, CreationSlot(x_k), slot), 1) && ok(DecayManaBySlots(ManaDecayProvider(b.api), StoredMana(x), CreationSlot(x_k), slot), 1))")

	s = c.Sum("builder:TransactionBuilder.BuildAndSwapToBlockBuilder", Opt{Names: []string{"b", "f"}, Assume: assume, Opaque: []string{"Build", "iotago.NewEmptyCommitment", "MustID", "ProtocolParameters", "Version", "NetworkID"}, Case: "no hook"})
	s.RequireIf("the block carries the transaction", "f == nil && ok(Build(b), 1)", "ret0.basicBlock.Payload == res(Build(b), 0) && ret0.err == nil")
	s.RequireIf("a failed build fails the block", "f == nil && !ok(Build(b), 1)", "ret0.err != nil")
	s.Require("a block of the same API", "ret0.protocolBlock.API == b.api && ret0.protocolBlock.Body == ret0.basicBlock")

	// the dry run
	s = c.Sum("builder:TransactionBuilder.MinRequiredAllottedMana", Opt{Names: []string{"b", "rmc", "id"}, Assume: assume + " && x != nil", Opaque: []string{"SigningMessage", "SignerUIDForAddress", "EmptySignatureForAddress", "Sign", "Bech32", "ManaCost", "iotago.NewEmptyCommitment", "MustID", "Version", "NetworkID"}, Lists: map[string][]string{al: {"x"}, "b." + es + "Inputs": nil}, Events: true})
	s.Always("leaves the allotments", "", "len(final("+al+")) == 1 && some(y, final("+al+"), y.AccountID == x.AccountID && y.Mana == x.Mana)")
	s.Always("leaves the outputs", "", "final(b.transaction.Outputs) == b.transaction.Outputs")

	c.remainingMana()
	c.surplusMana()
	c.txUnlocks()
}

// surplusMana: the mana left over ends up in allotments or in the chosen output.
func (c *Ctx) surplusMana() {
	al := "b.transaction.TransactionEssence.Allotments"
	left := "res(CalculateAvailableManaRemaining(b, slot), 0)"
	bound := left + ".AccountBoundMana"
	base := "b != nil && b.transaction != nil && b.transaction.TransactionEssence != nil && ok(CalculateAvailableManaRemaining(b, slot), 1) && k != l && !zero(k) && !zero(l) && m != 0 && n != 0 && b.occurredBuildErr == nil"
	two := map[string][]string{al: nil, bound: {"k=m", "l=n"}}
	some := func(id, mana string) string {
		return "some(x, final(" + al + "), x.AccountID == " + id + " && x.Mana == " + mana + ")"
	}
	opaque := []string{"CalculateAvailableManaRemaining"}
	none := func(id string) string { return "!some(x, final(" + al + "), x.AccountID == " + id + ")" }
	err := "final(b.occurredBuildErr)"
	unb := left + ".UnboundMana"
	s := c.Sum("builder:TransactionBuilder.AllotAllMana", Opt{Names: []string{"b", "slot", "a", "min"}, Assume: base, Opaque: opaque, Lists: two, NoOvf: true})
	s.RequireIf("allots all account bound mana", "a != k && a != l", some("k", "m")+" && "+some("l", "n"))
	s.RequireIf("allots all unbound mana", "a != k && a != l && "+unb+" != 0", some("a", unb))
	s.RequireIf("allots both to one account", "a == k", some("k", "m + "+unb)+" && "+some("l", "n"))
	s.RequireIf("reports too little mana", "a != k && a != l && "+unb+" < min", err+" != nil")
	s.RequireIf("reports too little mana of the account", "a == k && m + "+unb+" < min", err+" != nil")
	s.RequireIf("is content with enough", "a != k && a != l && "+unb+" >= min", err+" == nil")
	s.RequireIf("is content with enough of the account", "a == k && m + "+unb+" >= min", err+" == nil")

	s = c.Sum("builder:TransactionBuilder.AllotRemainingAccountBoundMana", Opt{Names: []string{"b", "slot", "f", "ign"}, Assume: base + " && f == nil", Opaque: opaque, Lists: two, NoOvf: true, Lens: map[string]int{"ign": 1}})
	s.RequireIf("allots all account bound mana", "ign[0] != k && ign[0] != l", some("k", "m")+" && "+some("l", "n")+" && "+err+" == nil")
	s.RequireIf("but of the accounts ignored", "ign[0] == k", none("k")+" && "+some("l", "n")+" && "+err+" == nil")

	failing := "b != nil && b.transaction != nil && b.transaction.TransactionEssence != nil && !ok(CalculateAvailableManaRemaining(b, slot), 1)"
	for m, names := range map[string][]string{"AllotAllMana": {"b", "slot", "a", "min"}, "AllotRemainingAccountBoundMana": {"b", "slot", "f", "ign"}} {
		s := c.Sum("builder:TransactionBuilder."+m, Opt{Names: names, Assume: failing, Opaque: opaque, Case: "failing"})
		s.Require("reports that the mana cannot be calculated", err+" != nil")
	}

	outs := "b.transaction.Outputs"
	uc := "UnlockConditionSet(o)"
	addr := "as(at(" + uc + ", 0), *iotago.AddressUnlockCondition, Address)"
	wf := "o != nil && implies(has(" + uc + ", 2), is(at(" + uc + ", 2), *iotago.TimelockUnlockCondition)) && implies(has(" + uc + ", 0), is(at(" + uc + ", 0), *iotago.AddressUnlockCondition) && iff(Type(" + addr + ") == 8, is(" + addr + ", *iotago.AccountAddress)))"
	lock := "(has(" + uc + ", 2) && as(at(" + uc + ", 2), *iotago.TimelockUnlockCondition, Slot) > b.transaction.TransactionEssence.CreationSlot + 2 * MaxCommittableAge(ProtocolParameters(b.api)) && has(" + uc + ", 0) && Type(" + addr + ") == 8)"
	lists := map[string][]string{al: nil, bound: two[bound], outs: {"o"}}
	ops := append([]string{"MaxCommittableAge", "ProtocolParameters"}, opaque...)
	for _, st := range []struct {
		m     string
		names []string
		extra string
		ops   []string
	}{
		{"StoreRemainingManaInOutputAndAllotRemainingAccountBoundMana", []string{"b", "slot", "idx"}, "", nil},
		{"AllotMinRequiredManaAndStoreRemainingManaInOutput", []string{"b", "slot", "rmc", "issuer", "idx"}, " && issuer != k && issuer != l && ok(MinRequiredAllottedMana(b, rmc, issuer), 1)", []string{"MinRequiredAllottedMana"}},
	} {
		ops := append(st.ops, ops...)
		anchor := "builder:TransactionBuilder." + st.m
		store := func(kase, assume, kind, mana string, allots string) {
			s := c.Sum(anchor, Opt{Names: st.names, Assume: base + st.extra + " && " + wf + " && is(o, *iotago." + kind + ")" + assume, Opaque: ops, Lists: lists, NoOvf: true, Args: map[string]string{"idx": "0"}, Case: kase})
			s.Require("stores the remaining mana", "final(as(o, *iotago."+kind+", Mana)) == as(o, *iotago."+kind+", Mana) + "+mana)
			s.Require("allots the rest", allots)
			s.Require("no error", err+" == nil")
			if st.ops != nil {
				need := "res(MinRequiredAllottedMana(b, rmc, issuer), 0)"
				s.RequireIf("allots what the block needs", need+" != 0", some("issuer", need))
				s.RequireIf("allots nothing more", need+" == 0", none("issuer"))
			}
		}
		all := some("k", "m") + " && " + some("l", "n")
		for _, kind := range []string{"BasicOutput", "AnchorOutput", "NFTOutput"} {
			store(kind, " && !"+lock, kind, unb, all)
			store("locked "+kind, " && "+lock+" && "+addr+" == k", kind, unb+" + m", none("k")+" && "+some("l", "n"))
		}
		if st.ops != nil { // the block issuer's own mana is allotted already
			need := "res(MinRequiredAllottedMana(b, rmc, issuer), 0)"
			s := c.Sum(anchor, Opt{Names: st.names, Assume: base + strings.ReplaceAll(st.extra, "issuer != k &&", "issuer == k &&") + " && " + wf + " && is(o, *iotago.BasicOutput) && !" + lock, Opaque: ops, Lists: lists, NoOvf: true, Args: map[string]string{"idx": "0"}, Case: "the issuer holds mana"})
			s.RequireIf("allots what the issuer holds", need+" <= m", some("k", "m")+" && "+some("l", "n"))
			s.RequireIf("allots what is missing", need+" > m", some("k", need)+" && "+some("l", "n"))
		}
		acc := "as(o, *iotago.AccountOutput, AccountID)"
		store("AccountOutput", " && "+acc+" == k", "AccountOutput", unb+" + m", none("k")+" && "+some("l", "n"))
		store("other AccountOutput", " && "+acc+" != k && "+acc+" != l", "AccountOutput", unb, all)
		s := c.Sum(anchor, Opt{Names: st.names, Assume: base + st.extra + " && o != nil && (is(o, *iotago.FoundryOutput) || is(o, *iotago.DelegationOutput))", Opaque: ops, Lists: lists, NoOvf: true, Args: map[string]string{"idx": "0"}, Case: "no mana"})
		s.Require("reports an output that holds no mana", err+" != nil")
		s = c.Sum(anchor, Opt{Names: st.names, Assume: base + st.extra + " && o != nil", Opaque: ops, Lists: lists, NoOvf: true, Args: map[string]string{"idx": "1"}, Case: "no output"})
		s.Require("reports a missing output", err+" != nil")
	}
}

// remainingMana: what every output and allotment takes from the available mana, decided from any balance.
func (c *Ctx) remainingMana() {
	outs, allots := "b.transaction.Outputs", "b.transaction.TransactionEssence.Allotments"
	in := "res(CalculateAvailableManaInputs(b, slot), 0)"
	opaque := []string{"CalculateAvailableManaInputs", "MaxCommittableAge", "ProtocolParameters", "StoredMana"}
	base := "b != nil && b.transaction != nil && b.transaction.TransactionEssence != nil"
	bal := in + ".AccountBoundMana"
	check := func(kase, assume, id, mana, bound string, lists map[string][]string) {
		s := c.Sum("builder:TransactionBuilder.CalculateAvailableManaRemaining", Opt{Names: []string{"b", "slot"}, Assume: base + assume, Opaque: opaque, Lists: lists, Case: kase})
		has := "(" + bound + " && has(" + bal + ", " + id + "))"
		short := "(" + has + " && at(" + bal + ", " + id + ") < " + mana + ")"
		s.Exact("enough mana", mana+" != 0", "ok(CalculateAvailableManaInputs(b, slot), 1) && (("+has+" && !"+short+") || ("+short+" && "+in+".UnboundMana >= "+mana+" - at("+bal+", "+id+")) || (!"+has+" && "+in+".UnboundMana >= "+mana+"))")
		s.RequireIf("takes nothing for no mana", mana+" == 0", "final("+in+".UnboundMana) == "+in+".UnboundMana && final("+bal+") == "+bal)
		s.RequireIf("unbound mana", mana+" != 0 && !"+has, "final("+in+".UnboundMana) == "+in+".UnboundMana - "+mana+" && final("+bal+") == "+bal)
		if bound != "false" {
			s.RequireIf("account bound mana", mana+" != 0 && "+has+" && !"+short, "final("+in+".UnboundMana) == "+in+".UnboundMana && at(final("+bal+"), "+id+") == at("+bal+", "+id+") - "+mana)
			s.RequireIf("account bound mana first", mana+" != 0 && "+short, "final("+in+".UnboundMana) == "+in+".UnboundMana - ("+mana+" - at("+bal+", "+id+")) && at(final("+bal+"), "+id+") == 0")
		}
		s.Result("the balance", 0, "", in)
		s.NoPanic("no panic", "")
	}
	check("an allotment", " && a != nil", "a.AccountID", "a.Mana", "true", map[string][]string{outs: nil, allots: {"a"}})
	acc := map[string][]string{outs: {"o"}, allots: nil}
	check("an account output", " && is(o, *iotago.AccountOutput) && o != nil", "as(o, *iotago.AccountOutput, AccountID)", "StoredMana(o)", "true", acc)
	uc := "UnlockConditionSet(o)"
	addr := "as(at(" + uc + ", 0), *iotago.AddressUnlockCondition, Address)"
	wf := " && !is(o, *iotago.AccountOutput) && o != nil && implies(has(" + uc + ", 2), is(at(" + uc + ", 2), *iotago.TimelockUnlockCondition)) && implies(has(" + uc + ", 0), is(at(" + uc + ", 0), *iotago.AddressUnlockCondition) && iff(Type(" + addr + ") == 8, is(" + addr + ", *iotago.AccountAddress)))"
	lock := "(has(" + uc + ", 2) && as(at(" + uc + ", 2), *iotago.TimelockUnlockCondition, Slot) > b.transaction.TransactionEssence.CreationSlot + 2 * MaxCommittableAge(ProtocolParameters(b.api)) && has(" + uc + ", 0) && Type(" + addr + ") == 8)"
	check("a locked output", wf+" && "+lock, addr, "StoredMana(o)", "true", acc)
	check("another output", wf+" && !"+lock, "0", "StoredMana(o)", "false", acc)
}

// txUnlocks: the unlocks of the built transaction, for one and two inputs of any kind.
func (c *Ctx) txUnlocks() {
	ins := "b.transaction.TransactionEssence.Inputs"
	opaque := []string{"OutputID", "SigningMessage", "SignerUIDForAddress", "Sign", "Bech32"}
	base := "b != nil && b.transaction != nil && b.transaction.TransactionEssence != nil && i != nil && is(i, *iotago.UTXOInput)"
	built := func(s *Sum) {
		s.Rejects("a recorded error", "b.occurredBuildErr != nil")
		s.Rejects("no signer", "b.occurredBuildErr == nil && b.signer == nil")
		s.Require("the transaction", "ret0.Transaction == b.transaction && ret0.API == b.api")
		s.Require("keeps the inputs and outputs", "final("+ins+") == list(i) && final(b.transaction.Outputs) == b.transaction.Outputs")
	}
	msg := "res(SigningMessage(b.transaction), 0)"
	raw := func(x string) string { return "at(b.inputOwner, " + x + ".OutputID())" }
	sign := func(o string) string { return "Sign(b.signer, " + o + ", " + msg + ")" }
	uid := func(o string) string { return "SignerUIDForAddress(b.signer, " + o + ")" }
	can := "b.occurredBuildErr == nil && b.signer != nil && ok(SigningMessage(b.transaction), 1)"
	sigUnlock := func(o string) string { return "&iotago.SignatureUnlock{Signature: res(" + sign(o) + ", 0)}" }

	for _, k := range []struct{ name, assume, owner string }{
		{"one input", " && !is(" + raw("i") + ", *iotago.RestrictedAddress)", raw("i")},
		{"one restricted input", " && is(" + raw("i") + ", *iotago.RestrictedAddress)", "as(" + raw("i") + ", *iotago.RestrictedAddress, Address)"},
	} {
		s := c.Sum("builder:TransactionBuilder.Build", Opt{Names: []string{"b"}, Assume: base + " && has(b.inputOwner, i.OutputID())" + k.assume, Opaque: opaque, Lists: map[string][]string{ins: {"i"}}, Case: k.name, Events: true})
		s.Exact("signed by its owner", "", can+" && !is("+k.owner+", iotago.ChainAddress) && is("+k.owner+", iotago.DirectUnlockableAddress) && ok("+uid(k.owner)+", 1) && ok("+sign(k.owner)+", 1)")
		s.Require("the owner's signature", "ret0.Unlocks == list("+sigUnlock(k.owner)+")")
		built(s)
		s.SortsAlso("sorts the allotments", "b.transaction.TransactionEssence.Allotments", "x.AccountID < y.AccountID")
		s.SortsAlso("sorts the context inputs", "b.transaction.TransactionEssence.ContextInputs", "Compare(x, y) < 0")
	}

	// a second input, after one unlocked by a signature
	ri, rj := raw("i"), raw("j")
	two := base + " && j != nil && is(j, *iotago.UTXOInput) && i.OutputID() != j.OutputID() && has(b.inputOwner, i.OutputID()) && has(b.inputOwner, j.OutputID()) && has(b.inputs, i.OutputID()) && has(b.inputs, j.OutputID())" +
		" && !is(" + ri + ", *iotago.RestrictedAddress) && !is(" + rj + ", *iotago.RestrictedAddress) && !is(" + ri + ", iotago.ChainAddress) && is(" + ri + ", iotago.DirectUnlockableAddress) && ok(" + uid(ri) + ", 1) && ok(" + sign(ri) + ", 1) && " + can
	in0 := "at(b.inputs, i.OutputID())"
	lists := map[string][]string{ins: {"i", "j"}}
	s := c.Sum("builder:TransactionBuilder.Build", Opt{Names: []string{"b"}, Assume: two + " && !is(" + rj + ", iotago.ChainAddress)", Opaque: append([]string{"ChainID"}, opaque...), Lists: lists, Case: "two direct inputs"})
	same := "res(" + uid(ri) + ", 0) == res(" + uid(rj) + ", 0)"
	s.Exact("unlocked by their owners", "", "is("+rj+", iotago.DirectUnlockableAddress) && ok("+uid(rj)+", 1) && ("+same+" || ok("+sign(rj)+", 1))")
	s.RequireIf("two signatures", "!("+same+")", "ret0.Unlocks == list("+sigUnlock(ri)+", "+sigUnlock(rj)+")")
	s.RequireIf("a reference to the signature of the same owner", same, "ret0.Unlocks == list("+sigUnlock(ri)+", &iotago.ReferenceUnlock{Reference: 0})")

	for _, k := range []struct{ kind, id, unlock string }{{"Account", "AccountID", "AccountUnlock"}, {"Anchor", "AnchorID", "AnchorUnlock"}, {"NFT", "NFTID", "NFTUnlock"}} {
		id := "as(" + in0 + ", *iotago." + k.kind + "Output, " + k.id + ")"
		s := c.Sum("builder:TransactionBuilder.Build", Opt{Names: []string{"b"}, Assume: two + " && is(" + rj + ", *iotago." + k.kind + "Address) && is(" + in0 + ", *iotago." + k.kind + "Output)", Opaque: opaque, Lists: lists, Case: "owned by a chain of kind " + k.kind})
		mine := "Key(fit32(" + rj + ")) == Key(ifte(zero(" + id + "), blake2b.Sum256(i.OutputID()), " + id + "))"
		s.Exact("only when the owning chain is unlocked", "", mine)
		s.Require("a reference to the owning chain", "ret0.Unlocks == list("+sigUnlock(ri)+", &iotago."+k.unlock+"{Reference: 0})")
	}
	for _, o := range []string{"Basic", "Foundry", "Delegation"} {
		s := c.Sum("builder:TransactionBuilder.Build", Opt{Names: []string{"b"}, Assume: two + " && is(" + rj + ", iotago.ChainAddress) && is(" + in0 + ", *iotago." + o + "Output)", Opaque: opaque, Lists: lists, Case: "no chain in a " + o + " output"})
		s.Rejects("no unlocked chain", "true")
	}

	unlocks := func(us ...string) string {
		return "same(ret0.Unlocks, list(" + strings.Join(us, ", ") + "))"
	}
	// a third input, after two that share a signer
	ro := raw("o")
	in1 := "at(b.inputs, j.OutputID())"
	three := two + " && " + same + " && !is(" + rj + ", iotago.ChainAddress) && is(" + rj + ", iotago.DirectUnlockableAddress) && ok(" + uid(rj) + ", 1) && o != nil && is(o, *iotago.UTXOInput) && o.OutputID() != i.OutputID() && o.OutputID() != j.OutputID() && has(b.inputOwner, o.OutputID()) && has(b.inputs, o.OutputID()) && !is(" + ro + ", *iotago.RestrictedAddress)"
	lists = map[string][]string{ins: {"i", "j", "o"}}
	s = c.Sum("builder:TransactionBuilder.Build", Opt{Names: []string{"b"}, Assume: three + " && !is(" + ro + ", iotago.ChainAddress)", Opaque: append([]string{"ChainID"}, opaque...), Lists: lists, Case: "three direct inputs"})
	again := "res(" + uid(ri) + ", 0) == res(" + uid(ro) + ", 0)"
	s.RequireIf("references lead to the signature", again, "ret0.Unlocks == list("+sigUnlock(ri)+", &iotago.ReferenceUnlock{Reference: 0}, &iotago.ReferenceUnlock{Reference: 0})")
	s.RequireIf("another owner signs", "!("+again+")", "ret0.Unlocks == list("+sigUnlock(ri)+", &iotago.ReferenceUnlock{Reference: 0}, "+sigUnlock(ro)+")")
	s = c.Sum("builder:TransactionBuilder.Build", Opt{Names: []string{"b"}, Assume: three + " && is(" + ro + ", *iotago.NFTAddress) && is(" + in0 + ", *iotago.BasicOutput) && is(" + in1 + ", *iotago.NFTOutput)", Opaque: opaque, Lists: lists, Case: "owned by a chain unlocked by reference"})
	id := "as(" + in1 + ", *iotago.NFTOutput, NFTID)"
	s.Exact("only when the owning chain is unlocked", "", "Key(fit32("+ro+")) == Key(ifte(zero("+id+"), blake2b.Sum256(j.OutputID()), "+id+"))")
	s.Require("a reference to the owning chain", unlocks(sigUnlock(ri), "&iotago.ReferenceUnlock{Reference: 0}", "&iotago.NFTUnlock{Reference: 1}"))

	// a chain owned by a chain
	nested := two + " && is(" + rj + ", *iotago.NFTAddress) && is(" + in0 + ", *iotago.NFTOutput) && !zero(as(" + in0 + ", *iotago.NFTOutput, NFTID)) && Key(fit32(" + rj + ")) == Key(as(" + in0 + ", *iotago.NFTOutput, NFTID)) && is(" + in1 + ", *iotago.AccountOutput) && !zero(as(" + in1 + ", *iotago.AccountOutput, AccountID)) && o != nil && is(o, *iotago.UTXOInput) && o.OutputID() != i.OutputID() && o.OutputID() != j.OutputID() && has(b.inputOwner, o.OutputID()) && has(b.inputs, o.OutputID()) && is(" + ro + ", *iotago.AccountAddress) && Key(fit32(" + ro + ")) == Key(as(" + in1 + ", *iotago.AccountOutput, AccountID)) && Key(fit32(" + ro + ")) != Key(fit32(" + rj + "))"
	s = c.Sum("builder:TransactionBuilder.Build", Opt{Names: []string{"b"}, Assume: nested, Opaque: opaque, Lists: lists, Case: "a chain owned by a chain"})
	s.Accepts("builds", "true")
	s.Require("each input references its owner", unlocks(sigUnlock(ri), "&iotago.NFTUnlock{Reference: 0}", "&iotago.AccountUnlock{Reference: 1}"))
}
