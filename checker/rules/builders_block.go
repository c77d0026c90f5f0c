package rules

import (
	"go/types"
	"strings"
)

// blockBuilders: the setters of the block builders.
func (c *Ctx) blockBuilders() {
	set := map[string]string{
		"ProtocolVersion":         "protocolBlock.Header.ProtocolVersion = a0",
		"IssuingTime":             "protocolBlock.Header.IssuingTime = a0.UTC()",
		"SlotCommitmentID":        "protocolBlock.Header.SlotCommitmentID = a0",
		"LatestFinalizedSlot":     "protocolBlock.Header.LatestFinalizedSlot = a0",
		"StrongParents":           "BODY.StrongParents = RemoveDupsAndSort(a0)",
		"WeakParents":             "BODY.WeakParents = RemoveDupsAndSort(a0)",
		"ShallowLikeParents":      "BODY.ShallowLikeParents = RemoveDupsAndSort(a0)",
		"Payload":                 "BODY.Payload = a0",
		"MaxBurnedMana":           "BODY.MaxBurnedMana = a0",
		"HighestSupportedVersion": "BODY.HighestSupportedVersion = a0",
		"ProtocolParametersHash":  "BODY.ProtocolParametersHash = a0",
	}
	for _, x := range []struct{ typ, body string }{{"BasicBlockBuilder", "basicBlock"}, {"ValidationBlockBuilder", "validationBlock"}} {
		bt := c.builderType(x.typ)
		if bt == nil || structField(bt, x.body) == nil || structField(bt, "protocolBlock") == nil || structField(bt, "err") == nil {
			c.Ob("type|"+x.typ, x.typ, func() { Failf("block builder not found") })
			continue
		}
		// everything a call could change
		var paths []string
		add := func(path string, t types.Type) {
			st := deref(t).Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				paths = append(paths, path+"."+st.Field(i).Name())
			}
		}
		add(x.body, structField(bt, x.body).Type())
		blk := structField(bt, "protocolBlock").Type()
		if h := structField(blk, "Header"); h != nil {
			add("protocolBlock.Header", h.Type())
		}
		paths = append(paths, "protocolBlock.Signature", "protocolBlock.Body", "protocolBlock.API", "protocolBlock", x.body)
		assume := "b != nil && b.protocolBlock != nil && b." + x.body + " != nil"
		opaque := []string{"RemoveDupsAndSort", "Sign", "ManaCost"}

		leave := func(s *Sum, pre string, but map[string]bool) {
			for _, p := range paths {
				if !but[p] {
					s.RequireIf("leaves "+p, pre, "final(b."+p+") == b."+p)
				}
			}
		}
		afterError := func(s *Sum) {
			s.RequireIf("keeps the error", "b.err != nil", "final(b.err) == b.err")
			for _, p := range paths {
				s.RequireIf("nothing after an error: "+p, "b.err != nil", "final(b."+p+") == b."+p)
			}
			s.Result("returns the builder", 0, "", "b")
		}
		for m, e := range set {
			sig := methodSig(bt, m)
			if sig == nil {
				continue
			}
			f, v, _ := strings.Cut(strings.ReplaceAll(e, "BODY", x.body), " = ")
			s := c.Sum("builder:"+x.typ+"."+m, Opt{Names: argNames(sig.Params().Len()), Assume: assume, Opaque: opaque})
			s.RequireIf("sets "+f, "b.err == nil", "final(b."+f+") == "+v+" && final(b.err) == nil")
			leave(s, "b.err == nil", map[string]bool{f: true})
			afterError(s)
			s.NoPanic("never fails", "")
		}

		// signing
		s := c.Sum("builder:"+x.typ+".SignWithSigner", Opt{Names: []string{"b", "id", "signer", "addr"}, Assume: assume, Opaque: opaque, Events: true})
		sig := "Sign(b.protocolBlock, signer, addr)"
		s.RequireIf("sets the issuer", "b.err == nil", "final(b.protocolBlock.Header.IssuerID) == id")
		s.RequireIf("sets the signature", "b.err == nil && ok("+sig+", 1)", "final(b.protocolBlock.Signature) == res("+sig+", 0)")
		s.RequireIf("reports a failed signature", "b.err == nil && !ok("+sig+", 1)", "final(b.err) != nil && final(b.protocolBlock.Signature) == b.protocolBlock.Signature")
		s.RequireIf("no other error", "b.err == nil && ok("+sig+", 1)", "final(b.err) == nil")
		s.AtCall("signs what it builds", "Sign", "now(b.protocolBlock.Header.IssuerID) == id")
		leave(s, "b.err == nil", map[string]bool{"protocolBlock.Header.IssuerID": true, "protocolBlock.Signature": true})
		afterError(s)

		s = c.Sum("builder:"+x.typ+".Sign", Opt{Names: []string{"b", "id", "key"}, Assume: assume + " && b.err == nil && is(Public(key), crypto_ed25519.PublicKey)", Opaque: append([]string{"iotago.NewInMemoryAddressSigner"}, opaque...), Events: true})
		s.Require("sets the issuer", "final(b.protocolBlock.Header.IssuerID) == id")
		s.AtCall("signs for the address of the key", "Sign", "content(arg2) == blake2b.Sum256(Public(key)) && now(b.protocolBlock.Header.IssuerID) == id")

		if methodSig(bt, "CalculateAndSetMaxBurnedMana") != nil {
			s := c.Sum("builder:"+x.typ+".CalculateAndSetMaxBurnedMana", Opt{Names: []string{"b", "rmc"}, Assume: assume, Opaque: opaque})
			cost := "ManaCost(b.protocolBlock, rmc)"
			s.RequireIf("sets the mana cost", "b.err == nil && ok("+cost+", 1)", "final(b."+x.body+".MaxBurnedMana) == res("+cost+", 0) && final(b.err) == nil")
			s.RequireIf("reports a failure", "b.err == nil && !ok("+cost+", 1)", "final(b.err) != nil && final(b."+x.body+".MaxBurnedMana) == b."+x.body+".MaxBurnedMana")
			leave(s, "b.err == nil", map[string]bool{x.body + ".MaxBurnedMana": true})
			afterError(s)
			s.NoPanic("never fails", "")
		}

		// Build
		s = c.Sum("builder:"+x.typ+".Build", Opt{Names: []string{"b"}, Assume: assume, Events: true})
		s.Exact("fails after an error", "", "b.err == nil")
		s.Result("the block", 0, "", "b.protocolBlock")
		for _, f := range []string{"StrongParents", "WeakParents", "ShallowLikeParents"} {
			s.SortsAlso("sorts "+f, "b."+x.body+"."+f, "x < y")
		}
		leave(s, "b.err == nil", nil)
		s.NoPanic("no panic", "")

		// new builders
		s = c.Sum("builder:New"+x.typ, Opt{Names: []string{"api"}, Opaque: []string{"iotago.NewEmptyCommitment", "MustID", "ProtocolParameters", "Version", "NetworkID"}})
		s.Require("the body of the block", "ret0.protocolBlock.Body == ret0."+x.body)
		s.Require("version and network of the API", "ret0.protocolBlock.Header.ProtocolVersion == Version(ProtocolParameters(api)) && ret0.protocolBlock.Header.NetworkID == NetworkID(ProtocolParameters(api))")
		s.Require("the API", "ret0.protocolBlock.API == api && ret0."+x.body+".API == api")
		s.Require("no parents", "len(ret0."+x.body+".StrongParents) == 0 && len(ret0."+x.body+".WeakParents) == 0 && len(ret0."+x.body+".ShallowLikeParents) == 0")
		s.Require("no error", "ret0.err == nil")
	}
}
