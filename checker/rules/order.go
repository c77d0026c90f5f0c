package rules

import (
	"go/types"
	"strings"

	"verif/checker/engine"
)

// P29: comparisons and sort orders.

// Sorts: the function sorts the specified list, and only by the specified "x before y".
func (s *Sum) Sorts(label, list, before string) *Sum { return s.sorts(label, list, before, false) }

// SortsAlso: the function sorts the specified list, whatever else it sorts.
func (s *Sum) SortsAlso(label, list, before string) *Sum { return s.sorts(label, list, before, true) }

func (s *Sum) sorts(label, list, before string, others bool) *Sum {
	s.ob(label, func() {
		n := 0
		want := s.Scope.Term(list)
		for _, ev := range s.Out.E.Events {
			if ev.Kind != "call" {
				continue
			}
			isSort := false
			for _, a := range engine.Unbox(ev.T) {
				isSort = isSort || a.T.Op == "call" && a.T.Sym == "sort"
			}
			if !isSort {
				continue
			}
			if others {
				if ok, _, _ := engine.Entails(s.C.P, engine.And(s.Assume, ev.G), engine.SameB(engine.Box(ev.Args[0]), want)); !ok {
					continue
				}
			}
			n++
			if ok, pos, neg := engine.Entails(s.C.P, engine.And(s.Assume, ev.G), engine.SameB(engine.Box(ev.Args[0]), want)); !ok {
				Failf("%s is sorted at %s instead of %s\n%s", clip(engine.Box(ev.Args[0]).String(), 200), s.C.Pos(ev.Pos), list, showModel(pos, neg))
			}
			if ok, pos, neg := engine.Entails(s.C.P, engine.And(s.Assume, s.Out.Succ()), ev.G); !ok {
				Failf("not always sorted\n%s", showModel(pos, neg))
			}
			for _, a := range ev.Args[1] {
				c := s.C.SumTerm(s.Name+" order", a.T, s.Out, Opt{Names: []string{"i", "j"}, Opaque: s.opt.Opaque})
				if c.Err != "" {
					Failf("%s", c.Err)
				}
				x, y := c.Scope.Vars["i"], c.Scope.Vars["j"]
				less := engine.False
				if c.Fn.Signature.Results().At(0).Type().String() == "bool" {
					less = engine.TruthB(engine.Box(c.Out.Result(0)))
					in := *s.Scope
					in.Vars = map[string]*engine.Term{"l": want, "i": x, "j": y}
					x, y = in.Term("l[i]"), in.Term("l[j]")
				} else {
					less = engine.LtB(engine.Box(c.Out.Result(0)), engine.Zero())
				}
				sc := *s.Scope
				sc.Vars = map[string]*engine.Term{"x": x, "y": y}
				spec := sc.Bool(before)
				if ok, pos, neg := engine.Entails(s.C.P, engine.And(c.Out.Returns(), sc.Bool("iff(Compare(x, y) < 0, Compare(x, y) == -1)")), engine.Xnor(less, spec)); !ok {
					Failf("sorted at %s by another order than %s\n%s", s.C.Pos(ev.Pos), before, showModel(pos, neg))
				}
			}
		}
		if n == 0 {
			Failf("nothing is sorted")
		}
	})
	return s
}

func init() {
	register(&Prop{ID: "P29", Min: 38, Note: "comparison keys and sort orders", Run: func(c *Ctx) {
		s := c.schema()
		key := map[string]string{} // how objects of a kind are ordered; by default by their type code
		for _, n := range []string{"BlockID", "CommitmentID", "SignedTransactionID", "TransactionID", "OutputID"} {
			key[n] = "cmp(x, y)"
		}
		key["Allotment"] = "cmp(x.AccountID, y.AccountID)"
		key["AddressWithWeight"] = "cmp(ID(x.Address), ID(y.Address))"
		key["BlockIssuanceCreditInput"] = "ifte(Type(y) == CODE, cmp(x.AccountID, as(y, *iotago.BlockIssuanceCreditInput, AccountID)), cmp(CODE, Type(y)))"
		key["RewardInput"] = "ifte(Type(y) == CODE, cmp(x.Index, as(y, *iotago.RewardInput, Index)), cmp(CODE, Type(y)))"
		key["Ed25519PublicKeyHashBlockIssuerKey"] = "ifte(Type(y) == CODE, cmp(x.PublicKeyHash, as(y, *iotago.Ed25519PublicKeyHashBlockIssuerKey, PublicKeyHash)), cmp(CODE, Type(y)))"
		key["Attestation"] = `ifte(x == nil && y == nil, 0, ifte(x == nil, -1, ifte(y == nil, 1,
			ifte(Slot(x.Header.SlotCommitmentID) != Slot(y.Header.SlotCommitmentID), cmp(Slot(x.Header.SlotCommitmentID), Slot(y.Header.SlotCommitmentID)),
			ifte(x.Header.IssuingTime.After(y.Header.IssuingTime), 1, ifte(x.Header.IssuingTime.Before(y.Header.IssuingTime), -1, cmp(x.BodyHash, y.BodyHash)))))))`
		for _, nt := range c.methodTypes("Compare") {
			n := nt.Obj().Name()
			spec, code := key[n], s.codeOf(nt)
			if spec == "" {
				spec = "cmp(CODE, Type(y))"
			}
			if code == "" && strings.Contains(spec, "CODE") {
				c.Ob("code|"+n, c.Pos(nt.Obj().Pos()), func() { Failf("%s has no registered type code", n) })
				continue
			}
			spec = strings.ReplaceAll(spec, "CODE", code)
			c.Sum(":"+n+".Compare", Opt{Names: []string{"x", "y"}, Opaque: []string{"Slot"}}).Result("order", 0, "", spec)
		}
		for n, o := range map[string]string{"Allotments": "x.AccountID < y.AccountID", "AddressesWithWeight": "ID(x.Address) < ID(y.Address)", "BlockIssuerKeys": "Compare(x, y) < 0", "ContextInputs": "Compare(x, y) < 0",
			"Features": "Type(x) < Type(y)", "UnlockConditions": "Type(x) < Type(y)", "BlockIDs": "x < y", "CommitmentIDs": "x < y", "SignedTransactionIDs": "x < y", "TransactionIDs": "x < y", "OutputIDs": "x < y"} {
			c.Sum(":"+n+".Sort", Opt{Names: []string{"l"}, Events: true}).Sorts("sorts itself", "l", o)
		}
	}})
}

// codeOf is the registered type code of a kind of object.
func (s *Schema) codeOf(nt *types.Named) string {
	for _, n := range []string{tname(nt), "*" + tname(nt)} {
		if st := s.Settings[n]; st != nil && st.Code != "" {
			return st.Code[strings.Index(st.Code, ":")+1:]
		}
	}
	return ""
}
