package rules

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/engine"
)

// P23: parsing arbitrary bytes and text never panics.

// isRaw: bytes or text of unknown content.
func isRaw(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return isByte(u.Elem())
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

// isMaker: functions that use bytes or text for something else than reading a value from them.
func isMaker(name string) bool {
	for _, p := range []string{"Must", "Encode", "Sign", "Unlock", "New", "Marshal"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// parsers: functions and methods of the packages that turn bytes or text into values and can fail.
func (c *Ctx) parsers(pkgs ...string) []*ssa.Function {
	var r []*ssa.Function
	for _, fn := range c.P.RepoFns {
		if fn.Pkg == nil || fn.Parent() != nil || fn.Synthetic != "" || fn.TypeParams().Len() > 0 {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(fn.Pkg.Pkg.Path(), engine.RepoMod), "/")
		in := false
		for _, p := range pkgs {
			in = in || p == rel
		}
		if !in || !fn.Object().Exported() {
			continue
		}
		sg := fn.Signature
		n := sg.Results().Len()
		if n == 0 || sg.Results().At(n-1).Type().String() != "error" || isMaker(fn.Name()) {
			continue
		}
		raw := sg.Recv() != nil && isRaw(sg.Recv().Type())
		for i := 0; i < sg.Params().Len(); i++ {
			raw = raw || isRaw(sg.Params().At(i).Type())
		}
		if raw {
			r = append(r, fn)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// asciiCase: changing the case of a text of ASCII characters keeps its length.
func asciiCase(p string) string {
	n := "strings.LastIndex(" + p + ", \"1\")"
	low, up := "len(strings.ToLower("+p+"))", "len(strings.ToUpper("+p+"))"
	ascii := "all(c, " + p + "[0:" + n + "], c >= 33 && c < 127) && all(c, " + p + "[" + n + ":], c >= 33 && c < 127)"
	same := low + " == len(" + p + ") && " + up + " == len(" + p + ") && all(c, " + p + ", c_k < " + low + " && c_k < " + up + ")"
	// what follows for the position n, which is less than the length
	pos := low + " >= " + n + " && " + low + " >= " + n + " + 1 && implies(" + n + " >= 0 && len(" + p + ") <= 90, " + low + " < " + n + " + 91)"
	return "implies(" + ascii + ", " + same + " && " + pos + ")"
}

func init() {
	register(&Prop{ID: "P23", Min: 60, Note: "parsers", Run: func(c *Ctx) {
		for _, fn := range c.parsers("", "hexutil", "bech32", "api") {
			rel := strings.TrimPrefix(strings.TrimPrefix(fn.Pkg.Pkg.Path(), engine.RepoMod), "/")
			a := rel + ":" + fn.Name()
			if rv := fn.Signature.Recv(); rv != nil {
				a = rel + ":" + deref(rv.Type()).(*types.Named).Obj().Name() + "." + fn.Name()
			}
			if os.Getenv("VDEBUG") != "" {
				fmt.Println(a)
			}
			pre := ""
			for _, p := range fn.Params {
				if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
					pre = asciiCase(p.Name())
				}
			}
			s := c.Sum(a, Opt{Bounds: true, NoOvf: true, Assume: pre, Opaque: []string{"base32.Decode", "bech32.Decode"}})
			s.NoPanic("never panics", "")
			s.InBounds("accesses in range", "")
		}
		readRules(c)
		// every length a text of at most 90 characters can have
		for k := 0; k <= 83; k++ {
			o := Opt{Names: []string{"dst", "src"}, Lens: map[string]int{"src": k, "dst": k * 5 / 8}, Bounds: true, NoOvf: true, Case: fmt.Sprint("length ", k)}
			s := c.Sum("bech32/internal/base32:Decode", o)
			s.NoPanic("never panics", "")
			s.InBounds("accesses in range", "")
		}
		s := c.Sum("bech32:Decode", Opt{Names: []string{"s"}, Events: true, NoOvf: true, Assume: asciiCase("s"), Opaque: []string{"base32.Decode"}})
		s.AtCall("room for all decoded bytes", "base32.Decode", "len(arg0) == len(arg1) * 5 / 8 && len(arg1) <= 83")
	}})
}

// readRules: identifiers are read from exactly as many bytes as they have, from a longer input only where the number
// of bytes used is reported, and then it is reported correctly.
func readRules(c *Ctx) {
	ids := map[string]int{"Identifier": 32, "AccountID": 32, "AnchorID": 32, "BlockID": 36, "CommitmentID": 36, "TransactionID": 36, "SignedTransactionID": 36, "OutputID": 38}
	names := make([]string, 0, len(ids))
	for n := range ids {
		names = append(names, n)
	}
	sort.Strings(names)
	hexed := func(x string) string { return "hexutil.Decode(" + x + ")" }
	same := func(x string, n int) string {
		var cs []string
		for i := 0; i < n; i++ {
			cs = append(cs, fmt.Sprintf("ret0[%d] == %s[%d]", i, x, i))
		}
		return strings.Join(cs, " && ")
	}
	for _, n := range names {
		l := ids[n]
		s := c.Sum(":"+n+"FromBytes", Opt{Names: []string{"b"}, NoOvf: true})
		s.Exact("needs all bytes", "", fmt.Sprintf("len(b) >= %d", l))
		s.Require("value", same("b", l))
		s.Result("bytes used", 1, fmt.Sprintf("len(b) >= %d", l), fmt.Sprint(l))
		s = c.Sum(":IsValid"+n, Opt{Names: []string{"b"}, NoOvf: true})
		s.Exact("exact length", "", fmt.Sprintf("len(b) == %d", l))
		s = c.Sum(":"+n+"FromHexString", Opt{Names: []string{"s"}, NoOvf: true})
		good := fmt.Sprintf("ok(%s, 1) && len(res(%s, 0)) == %d", hexed("s"), hexed("s"), l)
		s.Exact("exact length", "", good)
		s.Require("value", same("res("+hexed("s")+", 0)", l))
		s = c.Sum(":"+n+".UnmarshalText", Opt{Names: []string{"o", "text"}, NoOvf: true})
		s.Require("exact length", fmt.Sprintf("len(text) == %d", 2*l))
	}
	s := c.Sum(":OutputIDHex.SplitParts", Opt{Names: []string{"s"}, NoOvf: true})
	good := fmt.Sprintf("ok(%s, 1) && len(res(%s, 0)) == 38", hexed("s"), hexed("s"))
	s.Exact("exact length", "", good)
	s.Result("index", 1, good, "unle16(res("+hexed("s")+", 0)[36:38])")
	s = c.Sum(":HexOutputIDs.OutputIDs", Opt{Names: []string{"ids"}, NoOvf: true})
	s.Exact("exact lengths", "", fmt.Sprintf("all(i, ids, ok(%s, 1) && len(res(%s, 0)) == 38)", hexed("i"), hexed("i")))
	for _, n := range []string{"SlotIndex", "EpochIndex"} {
		s := c.Sum(":"+n+"FromBytes", Opt{Names: []string{"b"}, NoOvf: true})
		s.Exact("needs all bytes", "", "len(b) >= 4")
		s.Result("value", 0, "len(b) >= 4", "unle32(b[0:4])")
		s.Result("bytes used", 1, "len(b) >= 4", "4")
	}
	s = c.Sum(":VersionFromBytes", Opt{Names: []string{"b"}, NoOvf: true})
	s.Exact("needs all bytes", "", "len(b) >= 1")
	s.Result("value", 0, "len(b) >= 1", "b[0]")
	s.Result("bytes used", 1, "len(b) >= 1", "1")
	s = c.Sum(":MultiAddressReferenceFromBytes", Opt{Names: []string{"b"}, NoOvf: true})
	s.Exact("type and length", "", "len(b) >= 33 && b[0] == 40")
	s.Result("bytes used", 1, "len(b) >= 33 && b[0] == 40", "33")
	s.Require("identifier", "ret0.MultiAddressID == b[0:33]")
	s = c.Sum(":Ed25519Signature.Decode", Opt{Names: []string{"o", "b"}, NoOvf: true})
	s.Exact("needs all bytes", "", "len(b) >= 96")
	s.Result("bytes used", 0, "len(b) >= 96", "96")
}
