package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/engine"
)

// P26: work scores.

var outPrice = "w.Output"
var prices = map[string]string{
	"AccountOutput": outPrice, "AnchorOutput": outPrice, "BasicOutput": outPrice, "DelegationOutput": outPrice, "FoundryOutput": outPrice, "NFTOutput": outPrice,
	"NativeTokenFeature": "w.NativeToken", "SimpleTokenScheme": "w.NativeToken", "StakingFeature": "w.Staking", "BlockIssuerFeature": "w.BlockIssuer",
	"BlockIssuanceCreditInput": "w.ContextInput", "CommitmentInput": "w.ContextInput", "RewardInput": "w.ContextInput", "UTXOInput": "w.Input",
	"Ed25519Signature": "w.SignatureEd25519", "Allotment": "w.Allotment",
}

func hasMethod(t types.Type, name string) bool {
	for _, x := range []types.Type{t, types.NewPointer(t)} {
		ms := types.NewMethodSet(x)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return true
			}
		}
	}
	return false
}

// score is the work score of expression e of type t, and what must have succeeded to compute it.
func (l *layout) score(t types.Type, e string) (string, []string) {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		return l.score(p.Elem(), e)
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		if !hasMethod(t, "WorkScore") {
			return "", nil
		}
		return "res(WorkScore(" + e + ", w), 0)", []string{"ok(WorkScore(" + e + ", w), 1)"}
	}
	var parts, oks []string
	if nt, ok := t.(*types.Named); ok && nt.Obj().Pkg() != nil && nt.Obj().Pkg().Path() == engine.RepoMod {
		n := nt.Obj().Name()
		if p := prices[n]; p != "" {
			parts = append(parts, p)
		}
		switch n {
		case "SignedTransaction", "TaggedData", "CandidacyAnnouncement":
			parts = append(parts, "w.Block", "w.DataByte * trunc32("+l.size(nt, e, "")+")")
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		l.n++
		v := "v" + string(rune('a'+l.n%26)) + strings.Repeat("x", l.n/26)
		sc, ok := l.score(u.Elem(), v)
		if sc != "" {
			parts = append(parts, "sum("+v+", "+e+", true, "+sc+")")
			for _, o := range ok {
				oks = append(oks, "all("+v+", "+e+", "+o+")")
			}
		}
	case *types.Struct:
		for _, f := range fields(u) {
			if f.Optional { // priced as data only
				continue
			}
			sc, ok := l.score(f.Var.Type(), e+"."+f.Var.Name())
			if sc != "" {
				parts = append(parts, sc)
				oks = append(oks, ok...)
			}
		}
	}
	if len(parts) == 0 {
		return "", nil
	}
	return "(" + strings.Join(parts, " + ") + ")", oks
}

// checkedErrors requires that the error results of the named functions are looked at in every function of the
// repository for which in holds, and that numbers of the type named typ are combined only by those functions.
func (c *Ctx) checkedErrors(typ string, in func(*ssa.Function) bool, callee func(*ssa.CallCommon) bool, arithOK func(*ssa.Function) bool) {
	seen := map[string]bool{}
	for _, fn := range c.P.RepoFns {
		if !in(fn) {
			continue
		}
		fn := fn
		name := fn.RelString(nil)
		name = strings.ReplaceAll(name, engine.RepoMod+".", "")
		var bad []string
		n := 0
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.BinOp:
					if nt, ok := x.Type().(*types.Named); ok && nt.Obj().Name() == typ && nt.Obj().Pkg().Path() == engine.RepoMod {
						switch x.Op.String() {
						case "+", "-", "*", "<<":
							n++
							if !arithOK(fn) {
								bad = append(bad, c.Pos(x.Pos())+": unchecked "+x.Op.String()+" on "+typ)
							}
						}
					}
				case *ssa.Call:
					if !callee(&x.Call) {
						continue
					}
					n++
					used := false
					if res := x.Call.Signature().Results(); res.Len() == 1 {
						used = used || len(*x.Referrers()) > 0
					}
					for _, r := range *x.Referrers() {
						if _, ok := r.(*ssa.Return); ok { // return f(...)
							used = true
						}
						if e, ok := r.(*ssa.Extract); ok && e.Index == x.Call.Signature().Results().Len()-1 && len(*e.Referrers()) > 0 {
							used = true
						}
					}
					if !used {
						bad = append(bad, c.Pos(x.Pos())+": the error of "+calleeOf(&x.Call)+" is ignored")
					}
				}
			}
		}
		if n == 0 || seen[name] {
			continue
		}
		seen[name] = true
		c.Funcs[fn.String()] = true
		c.Ob("checked|"+name, c.Pos(fn.Pos()), func() {
			if len(bad) > 0 {
				Failf("%s", strings.Join(bad, "\n"))
			}
		})
	}
}

func calleeOf(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		if o := f.Origin(); o != nil {
			f = o
		}
		return f.Name()
	}
	return ""
}

func init() {
	register(&Prop{ID: "P26", Min: 60, Note: "work scores of every constituent; no unchecked work score arithmetic", Run: func(c *Ctx) {
		s := c.schema()
		for _, nt := range c.methodTypes("WorkScore") {
			n := nt.Obj().Name()
			if n == "Block" || n == "BasicBlockBody" || n == "ValidationBlockBody" || n == "Allotments" {
				continue
			}
			l := &layout{s: s}
			spec := "0"
			var oks []string
			c.Ob("price|"+n, c.Pos(nt.Obj().Pos()), func() {
				if sc, ok := l.score(nt, "x"); sc != "" {
					spec, oks = sc, ok
				}
			})
			sum := c.Sum(":"+n+".WorkScore", Opt{Names: []string{"x", "w"}})
			sum.Result("score", 0, "", spec)
			if len(oks) > 0 {
				sum.Require("every part's score is known", strings.Join(oks, " && "))
			} else if spec == "0" || strings.HasPrefix(spec, "(w.") && !strings.Contains(spec, " + ") {
				sum.Accepts("never fails", "w != nil")
			}
		}
		al := c.Sum(":Allotments.WorkScore", Opt{Names: []string{"x", "w"}})
		al.Result("score", 0, "", "w.Allotment * len(x)")
		bb := c.Sum(":BasicBlockBody.WorkScore", Opt{Names: []string{"x", "w"}})
		bb.Result("payload", 0, "x.Payload != nil", "res(WorkScore(x.Payload, w), 0)")
		bb.RequireIf("payload priced", "x.Payload != nil", "ok(WorkScore(x.Payload, w), 1)")
		bb.Result("no payload", 0, "x.Payload == nil", "w.Block")
		vb := c.Sum(":ValidationBlockBody.WorkScore", Opt{Names: []string{"x", "w"}})
		vb.Result("free", 0, "", "0")
		vb.Accepts("never fails", "x != nil")
		bl := c.Sum(":Block.WorkScore", Opt{Names: []string{"b"}})
		bl.Result("score of the body", 0, "", "res(WorkScore(b.Body, WorkScoreParameters(ProtocolParameters(b.API))), 0)")
		bl.Require("body priced", "ok(WorkScore(b.Body, WorkScoreParameters(ProtocolParameters(b.API))), 1)")
		mb := c.Sum(":WorkScoreParameters.MaxBlockWork", Opt{NoOvf: true, Names: []string{"w"}})
		mb.Result("covers every constituent", 0, "", `w.DataByte * iotago.MaxPayloadSize + w.Block + w.Input * iotago.MaxInputsCount + w.ContextInput * iotago.MaxContextInputsCount +
			w.Output * iotago.MaxOutputsCount + w.NativeToken * iotago.MaxOutputsCount + w.Staking * iotago.MaxOutputsCount + w.BlockIssuer * iotago.MaxOutputsCount +
			w.Allotment * iotago.MaxAllotmentCount + w.SignatureEd25519 * iotago.MaxInputsCount * 10`)
		add := c.Sum(":WorkScore.Add", Opt{Names: []string{"w", "in"}})
		add.Result("sum", 0, "", "w + sum(x, in, true, x)")
		mul := c.Sum(":WorkScore.Multiply", Opt{Names: []string{"w", "n"}})
		mul.Result("product", 0, "", "w * trunc32(n)")
		mul.Exact("overflow is an error", "", "!ovfmul(w * trunc32(n))")
		names := map[string]bool{"SafeAdd": true, "SafeMul": true, "WorkScore": true, "Add": true, "Multiply": true}
		c.checkedErrors("WorkScore", func(f *ssa.Function) bool {
			return c.Funcs[f.String()] // what the computation of a score reaches
		}, func(cc *ssa.CallCommon) bool {
			r := cc.Signature().Results()
			if !names[calleeOf(cc)] || r.Len() != 2 || r.At(1).Type().String() != "error" {
				return false
			}
			nt, ok := r.At(0).Type().(*types.Named)
			return ok && nt.Obj().Name() == "WorkScore"
		}, func(*ssa.Function) bool { return false })
	}})
}
