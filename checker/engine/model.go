package engine

import (
	"go/types"
	"net/textproto"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// errTerm builds a non-nil error carrying the sentinels found in its arguments.
func errTerm(args ...*Term) *Term {
	var s []*Term
	seen := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		switch t.Op {
		case "err", "list":
			for _, a := range t.Args {
				add(a)
			}
		case "iface":
			add(t.Args[0])
		case "gv":
			for _, a := range t.GV {
				add(a.T)
			}
		case "append":
			for _, a := range t.Args {
				add(a)
			}
		case "global", "res", "call", "elem":
			if t.Op == "global" || t.Typ != nil && isErrorType(t.Typ) {
				if !seen[t] {
					seen[t] = true
					s = append(s, t)
				}
			}
		}
	}
	for _, a := range args {
		add(a)
	}
	return mkT("err", "", s...)
}

var errType = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool { return types.Identical(t, errType) }

func box(v GVal) *Term { return opaqueBoxKeep(v) }

func opaqueBoxKeep(v GVal) *Term { return boxGV(v) }

var setAccessor = map[string]string{"Features": "FeatureSet", "ImmutableFeatures": "ImmutableFeatureSet", "UnlockConditions": "UnlockConditionSet"}

// model gives meaning to library functions the analysis does not inline.
func (f *frame) model(fn *ssa.Function, args []GVal, st State, x *ssa.Call) (GVal, State, bool) {
	e := f.e
	pk := fnPkg(fn)
	if pk == nil {
		return nil, st, false
	}
	name := fn.Name()
	if o := fn.Origin(); o != nil {
		name = o.Name()
	}
	path := pk.Path()
	rt := x.Type()
	recv := ""
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			recv = n.Obj().Name()
		}
	}
	ret := func(v GVal) (GVal, State, bool) { return v, st, true }
	if e.Bounds && recv == "" {
		ev := Event{G: And(e.ctx, st.G), Pos: x.Pos(), Fn: f.fn, Inst: x}
		switch {
		case path == "encoding/hex" && name == "Decode" && len(args) == 2:
			ev.Kind, ev.T, ev.Args = "hexdst", boxGV(args[0]), []GVal{args[1]}
			e.Events = append(e.Events, ev)
		case path == "crypto/ed25519" && name == "Verify" && len(args) == 3:
			ev.Kind, ev.T, ev.Args = "len32", boxGV(args[0]), []GVal{gv1(mkI(32))}
			e.Events = append(e.Events, ev)
		}
	}
	if name == "MustSet" && path == RepoMod && len(args) == 1 {
		// the set view of a feature / unlock condition list is identified with the owner's accessor
		return ret(map1(args[0], func(a *Term) *Term {
			if a.Op == "field" {
				if acc := setAccessor[a.Sym]; acc != "" {
					return mkTyped(x.Type(), "call", acc, a.Args[0])
				}
			}
			return mkTyped(x.Type(), "call", "MustSet", e.Freeze(st.Mem, a, 0))
		}))
	}
	if len(args) > 0 {
		if a := normGV(args[0]); len(a) == 1 && a[0].T.Op == "sink" {
			if strings.HasSuffix(path, "/stream") && name == "Write" && len(args) == 2 {
				cur, _, _ := f.sinkInvoke(a[0].T, "Bytes", nil, st, x)
				v := e.Freeze(st.Mem, boxGV(args[1]), 0)
				key := mkT("content", "sink", a[0].T)
				bt := types.NewSlice(types.Typ[types.Byte])
				part := v
				if bits, _, ok := intSize(x.Call.Args[1].Type()); ok {
					if bits == 8 {
						part = mkTyped(bt, "list", "", v)
					} else {
						part = mkT("le", strconv.Itoa(bits), v)
					}
				}
				st.Mem = st.Mem.set(key, map1(cur, func(c *Term) *Term { return mkCat(bt, c, part) }))
				return gv1(NilT), st, true
			}
			if v, s2, ok := f.sinkInvoke(a[0].T, name, args[1:], st, x); ok {
				return v, s2, true
			}
		}
	}
	if path == "strings" && recv == "Builder" && onlyBuilt(x.Call.Args[0]) {
		if a := normGV(args[0]); len(a) == 1 {
			sink := mkT("sink", "builder", a[0].T)
			key := mkT("content", "sink", sink)
			cur := gv1(mkTyped(types.Typ[types.String], "list", ""))
			if v, ok := st.Mem.m[key]; ok {
				cur = v
			}
			switch name {
			case "Grow":
				return nil, st, true
			case "Reset":
				st.Mem = st.Mem.set(key, gv1(mkTyped(types.Typ[types.String], "list", "")))
				return nil, st, true
			case "Len":
				return ret(map1(cur, mkLen))
			case "String":
				return ret(cur)
			case "Write", "WriteString", "WriteByte", "WriteRune":
				v := args[1]
				switch name {
				case "WriteByte":
					v = map1(v, func(b *Term) *Term { return mkTyped(types.Typ[types.String], "list", "", b) })
				case "WriteRune":
					v = map1(v, func(b *Term) *Term { return mkTyped(types.Typ[types.String], "utf8", "", b) })
				}
				st.Mem = st.Mem.set(key, map2(cur, v, func(a, b *Term) *Term { return mkCat(types.Typ[types.String], a, b) }))
				if name == "WriteByte" {
					return gv1(NilT), st, true
				}
				return gv1(tupleOf(map1t(args[1], mkLen), NilT)), st, true
			}
		}
	}
	switch {
	case path == "crypto" && recv == "Hash" && name == "New":
		return ret(gv1(mkT("sink", "h", mkT("at", f.path+"/"+x.Name()), boxGV(args[0]))))
	case path == "golang.org/x/crypto/blake2b" && name == "New256":
		return ret(gv1(tupleOf(mkT("sink", "h", mkT("at", f.path+"/"+x.Name()), mkI(17)), NilT)))
	case strings.HasSuffix(path, "/stream") && name == "NewByteBuffer":
		return ret(gv1(mkT("sink", "buffer", mkT("at", f.path+"/"+x.Name()))))
	case path == "encoding/binary" && (recv == "littleEndian" || recv == "bigEndian"):
		kind := map[string]string{"littleEndian": "le", "bigEndian": "be"}[recv]
		ops := args
		if len(ops) > 0 && x.Call.Args[0].Type() == fn.Signature.Recv().Type() {
			ops = ops[1:]
		}
		for _, w := range []string{"16", "32", "64"} {
			n, _ := strconv.Atoi(w)
			switch name {
			case "PutUint" + w:
				src := map1(ops[1], func(t *Term) *Term { return mkT(kind, w, t) })
				for _, d := range normGV(ops[0]) {
					lo, base := mkI(0), d.T
					if d.T.Op == "subof" {
						lo, base = d.T.Args[1], d.T.Args[0]
					}
					if base.Op == "sliceof" {
						base = base.Args[0]
					}
					v := mkTyped(d.T.Typ, "subof", "", base, lo, Add(lo, mkI(int64(n/8))))
					st = e.writeBytes(st, GVal{{d.G, v}}, boxGV(src))
				}
				if e.Bounds {
					e.Events = append(e.Events, Event{Kind: "minlen", G: And(e.ctx, st.G), T: boxGV(ops[0]), Args: []GVal{gv1(mkI(int64(n / 8)))}, Pos: x.Pos(), Fn: f.fn, Inst: x})
				}
				return gv1(NilT), st, true
			case "Uint" + w:
				if e.Bounds {
					e.Events = append(e.Events, Event{Kind: "minlen", G: And(e.ctx, st.G), T: boxGV(ops[0]), Args: []GVal{gv1(mkI(int64(n / 8)))}, Pos: x.Pos(), Fn: f.fn, Inst: x})
				}
				return ret(map1(ops[0], func(t *Term) *Term {
					v := mkSlice(nil, e.viewed(st.Mem, t), mkI(0), mkI(int64(n/8)))
					if v.Op == kind && v.Sym == w {
						return v.Args[0]
					}
					return mkTyped(rt, "un"+kind, w, v)
				}))
			case "AppendUint" + w:
				return ret(map2(ops[0], ops[1], func(a, b *Term) *Term { return mkCat(rt, e.viewed(st.Mem, a), mkT(kind, w, b)) }))
			}
		}
	case strings.HasSuffix(path, "/byteutils") && name == "ConcatBytes":
		l := boxGV(args[0])
		if l.Op == "list" {
			ts := make([]*Term, len(l.Args))
			for i, a := range l.Args {
				ts[i] = e.viewed(st.Mem, a)
			}
			return ret(gv1(mkCat(rt, ts...)))
		}
	case strings.HasSuffix(path, "/ierrors") || path == "errors" || path == "fmt" && name == "Errorf":
		switch name {
		case "New", "Errorf", "Wrap", "Wrapf", "WithMessage", "WithMessagef":
			var ts []*Term
			for _, a := range args {
				ts = append(ts, boxGV(a))
			}
			if alts := unbox(ts[0]); len(alts) > 1 && len(alts) <= 16 && strings.HasPrefix(name, "W") {
				return ret(map1(alts, func(t *Term) *Term { return errTerm(append([]*Term{t}, ts[1:]...)...) }))
			}
			return ret(gv1(errTerm(ts...)))
		case "WithStack":
			return ret(args[0])
		case "Join", "Chain":
			l := boxGV(args[0])
			if l.Op == "list" {
				allNil := True
				for _, a := range l.Args {
					allNil = And(allNil, EqB(a, NilT))
				}
				return ret(normGV(GVal{{allNil, NilT}, {Not(allNil), errTerm(l)}}))
			}
		case "Is":
			return ret(map2(args[0], args[1], func(a, b *Term) *Term {
				if a.Op == "nil" {
					return MkBool(False)
				}
				if a == b {
					return MkBool(True)
				}
				if a.Op == "err" {
					r := False
					for _, s := range a.Args {
						if s == b {
							return MkBool(True)
						}
						if s.Op != "global" {
							r = Or(r, TruthB(mkT("call", "ierrors.Is", s, b)))
						}
					}
					return MkBool(r)
				}
				if a.Op == "global" && b.Op == "global" {
					return MkBool(False)
				}
				return mkTyped(types.Typ[types.Bool], "call", "ierrors.Is", a, b)
			}))
		}
	case path == "fmt" && strings.HasPrefix(name, "Sprint"):
		if name == "Sprintf" {
			if t := sprintf(args); t != nil {
				return ret(gv1(t))
			}
		}
		return ret(gv1(mkT("str", `"fmt"`)))
	case strings.HasSuffix(path, "core/safemath"):
		two := func(val GVal, ovf func(a, b *Term) B) (GVal, State, bool) {
			o := pred2(args[0], args[1], ovf)
			er := boxGV(normGV(GVal{{o, errTerm(mkT("global", "safemath.ErrIntegerOverflow"))}, {Not(o), NilT}}))
			val = map1(val, func(t *Term) *Term { return t })
			return gv1(tupleOf(boxGV(val), er)), st, true
		}
		elemT := rt.(*types.Tuple).At(0).Type()
		switch name {
		case "SafeAdd":
			return two(f.arith2(args, elemT, Add), func(a, b *Term) B { return f.ovf("+", Add(unphi(a), unphi(b))) })
		case "SafeSub":
			return two(f.arith2(args, elemT, Sub), func(a, b *Term) B {
				if _, s, _ := intSize(elemT); !s {
					return LtB(unphi(a), unphi(b))
				}
				return f.ovf("-", Sub(unphi(a), unphi(b)))
			})
		case "SafeMul", "SafeMulUint64", "SafeMulInt64":
			return two(f.arith2(args, elemT, Mul), func(a, b *Term) B { return f.ovf("*", Mul(unphi(a), unphi(b))) })
		}
	case path == "bytes" || path == "cmp" || path == "strings" || strings.HasSuffix(path, "hive.go/lo"):
		switch name {
		case "Replace", "ReplaceAll":
			n := mkI(-1)
			if name == "Replace" && len(args) == 4 {
				n = boxGV(args[3])
			}
			if path == "strings" && n.Op == "int" {
				if t := strReplace(boxGV(args[0]), boxGV(args[1]), boxGV(args[2]), n.Big.Int64()); t != nil {
					return ret(gv1(t))
				}
			}
		case "Equal":
			if path == "bytes" {
				fz := func(v GVal) GVal { return map1(v, func(t *Term) *Term { return e.Freeze(st.Mem, t, 0) }) }
				return ret(boolV(pred2(fz(args[0]), fz(args[1]), EqB)))
			}
		case "Compare":
			fz := func(v GVal) GVal { return map1(v, func(t *Term) *Term { return e.Freeze(st.Mem, t, 0) }) }
			return ret(map2(fz(args[0]), fz(args[1]), func(a, b *Term) *Term {
				if a == b {
					return mkI(0)
				}
				return mkTyped(rt, "cmp", "", a, b)
			}))
		}
	case path == "math/big" && recv == "Int":
		val := func(v GVal) GVal { return bigVal(st.Mem, v) }
		setRes := func(v GVal) (GVal, State, bool) {
			for _, a := range normGV(args[0]) {
				k := mkT("bigval", "", a.T)
				nv := v
				if a.G != True {
					old, ok := st.Mem.m[k]
					if !ok {
						old = gv1(a.T)
					}
					nv = mergeGV([]B{a.G, Not(a.G)}, []GVal{v, old}, True)
				}
				st.Mem = st.Mem.set(k, nv)
				if a.T.Op == "lookup" { // the number lives in a map: write through
					for ck, cv := range st.Mem.m {
						if ck.Op != "content" || len(cv) != 1 || cv[0].T != a.T.Args[0] {
							continue
						}
						nc := gv1(mkMapset(cv[0].T, a.T.Args[1], boxGV(v)))
						if a.G != True {
							nc = mergeGV([]B{a.G, Not(a.G)}, []GVal{nc, cv}, True)
						}
						st.Mem = st.Mem.set(ck, nc)
					}
				}
				if e.RecordEvents {
					e.event(Event{Kind: "bigset", G: st.G, T: a.T, V: v, Pos: x.Pos(), Fn: f.fn, Inst: x, Mem: st.Mem})
				}
			}
			return args[0], st, true
		}
		switch name {
		case "Add":
			return setRes(map2(val(args[1]), val(args[2]), func(a, b *Term) *Term { return Add(unphi(a), unphi(b)) }))
		case "Sub":
			return setRes(map2(val(args[1]), val(args[2]), func(a, b *Term) *Term { return Sub(unphi(a), unphi(b)) }))
		case "Neg":
			return setRes(map1(val(args[1]), func(a *Term) *Term { return Sub(mkI(0), unphi(a)) }))
		case "Mul":
			return setRes(map2(val(args[1]), val(args[2]), func(a, b *Term) *Term { return Mul(unphi(a), unphi(b)) }))
		case "Set":
			return setRes(val(args[1]))
		case "SetUint64", "SetInt64":
			return setRes(args[1])
		case "Cmp":
			return ret(map2(val(args[0]), val(args[1]), func(a, b *Term) *Term {
				if a == b {
					return mkI(0)
				}
				return mkTyped(rt, "cmp", "", a, b)
			}))
		case "Sign":
			return ret(map1(val(args[0]), func(a *Term) *Term { return mkTyped(rt, "cmp", "", a, mkI(0)) }))
		case "BitLen", "Uint64", "Bytes", "String", "IsUint64":
			return ret(map1(val(args[0]), func(a *Term) *Term { return mkTyped(rt, "call", name, a) }))
		}
	case path == "encoding/hex" && name == "EncodedLen":
		return ret(map1(args[0], func(a *Term) *Term { return Add(a, a) }))
	case path == "math/big" && name == "NewInt":
		a := mkTyped(rt, "alloc", f.path+"/"+x.Name()+"/big")
		e.newAllocs[a] = true
		st.Mem = st.Mem.set(mkT("born", "", a), gv1(NilT))
		st.Mem = st.Mem.set(mkT("bigval", "", a), args[0])
		return gv1(a), st, true
	case path == "sync" || path == "sync/atomic":
		switch name {
		case "Do": // the first call; later ones return what it left behind
			if len(args) == 2 {
				st = f.callAlts(x, st, normGV(args[1]), nil, false)
				return gv1(NilT), st, true
			}
		case "Lock", "Unlock", "RLock", "RUnlock":
			if e.RecordEvents {
				e.event(Event{Kind: "lock", G: st.G, T: mkT("call", name, boxGV(args[0])), Pos: x.Pos(), Fn: f.fn, Inst: x, Mem: st.Mem})
			}
			return ret(gv1(NilT))
		}
	case path == "strconv" && (name == "Itoa" || (name == "FormatUint" || name == "FormatInt") && boxGV(args[1]) == mkI(10)):
		return ret(map1(args[0], decimal))
	case path == "net/url" && name == "Parse" && recv == "":
		if t := boxGV(args[0]); t.Op == "str" || t.Op == "strcat" {
			if plainPath(t) {
				return ret(gv1(tupleOf(mkTyped(rt.(*types.Tuple).At(0).Type(), "res", "0", mkT("call", "url.Parse", t)), NilT)))
			}
		}
	case path == "net/url" && recv == "URL" && name == "String":
		if u := boxGV(args[0]); u.Op == "res" && u.Args[0].Op == "call" && u.Args[0].Sym == "url.Parse" && plainPath(u.Args[0].Args[0]) {
			var q *Term
			for k, v := range st.Mem.m {
				if isAncestor(u, k) {
					if k.Op != "&field" || k.Sym != "RawQuery" || q != nil {
						q = nil
						break
					}
					q = boxGV(v)
				}
			}
			known := q != nil
			if known {
				for _, a := range unbox(q) {
					known = known && a.T.Op == "call" && a.T.Sym == "Encode"
				}
			}
			if known {
				return ret(unbox(mkStr(u.Args[0].Args[0], strLit("?"), q)))
			}
		}
	case path == "net/url" && recv == "Values" || path == "net/http" && recv == "Header":
		if name == "Add" || name == "Set" || name == "Get" {
			k := boxGV(args[1])
			if l, ok := litOf(k); ok && recv == "Header" {
				k = strLit(textproto.CanonicalMIMEHeaderKey(l))
			}
			mt, ok := args[0][0].T.Typ, false
			if mt == nil {
				mt = fn.Signature.Recv().Type()
			}
			vt := types.Type(types.NewSlice(stringType))
			var out GVal
			for _, me := range normGV(args[0]) {
				ct := boxGV(e.mapContent(st.Mem, me.T))
				old := mkLookup(ct, k, vt)
				if name == "Get" {
					ok = true
					out = append(out, GE{me.G, mkIndex(old, mkI(0), stringType)})
					continue
				}
				v := mkTyped(vt, "list", "", boxGV(args[2]))
				if name == "Add" && old.Op != "nil" && !(old.Op == "zero") {
					v = mkTyped(vt, "append", "", old, v)
					if old.Op == "list" {
						v = mkTyped(vt, "list", "", append(append([]*Term{}, old.Args...), boxGV(args[2]))...)
					}
				}
				nc := gv1(mkEntry(ct, k, v))
				if me.G != True {
					nc = mergeGV([]B{me.G, Not(me.G)}, []GVal{nc, gv1(ct)}, True)
				}
				ck := mkT("content", "", me.T)
				if ck.Typ == nil {
					ck.Typ = mt
				}
				st.Mem = st.Mem.set(ck, nc)
				if e.RecordEvents {
					e.event(Event{Kind: "call", G: st.G, T: mkT("call", recv+name, me.T, k, boxGV(args[2])), Args: args, Pos: x.Pos(), Fn: f.fn, Inst: x, Mem: st.Mem})
				}
			}
			if ok {
				return ret(normGV(out))
			}
			return ret(gv1(NilT))
		}
	case path == "sort" || path == "slices":
		switch name {
		case "Slice", "SliceStable", "Sort", "SortFunc", "SortStableFunc", "Strings", "Ints":
			if e.RecordEvents {
				e.event(Event{Kind: "call", G: st.G, T: mkT("call", "sort", boxGV(args[0])), Args: args, Pos: x.Pos(), Fn: f.fn, Inst: x, Mem: st.Mem})
			}
			return ret(gv1(NilT))
		}
	}
	return nil, st, false
}

func (f *frame) arith2(args []GVal, typ types.Type, op func(a, b *Term) *Term) GVal {
	return map2(args[0], args[1], func(a, b *Term) *Term {
		r := op(unphi(a), unphi(b))
		if r.Typ == nil {
			r.Typ = typ
		}
		return r
	})
}

// ovfB is the overflow atom of a computed value.
func ovfB(kind string, t *Term) B {
	if t.Op == "int" || kind == "+" && t.Op != "lin" {
		return False
	}
	return AtomVar(mkT("ovf", kind, t))
}

func (f *frame) ovf(kind string, t *Term) B {
	if f.e.NoOverflow {
		return False
	}
	return ovfB(kind, t)
}

// bigVal is the current number of a *big.Int.
func bigVal(m *Mem, v GVal) GVal {
	return map1(v, func(t *Term) *Term {
		if w, ok := m.m[mkT("bigval", "", t)]; ok {
			return boxGV(w)
		}
		if t.Op == "alloc" {
			return mkI(0)
		}
		if t.Op == "global" && strings.HasSuffix(t.Sym, "common.Big0") {
			return mkI(0)
		}
		if t.Op == "global" && strings.HasSuffix(t.Sym, "common.Big1") {
			return mkI(1)
		}
		return t
	})
}

// mkMapset is the map m with k bound to v; an immediately preceding binding of k is replaced.
func mkMapset(m, k, v *Term) *Term {
	if m.Op == "mapset" && m.Args[1] == k {
		m = m.Args[0]
	}
	return mkTyped(m.Typ, "mapset", "", m, k, v)
}

// onlyBuilt: the string builder is used for calls of its methods only.
func onlyBuilt(v ssa.Value) bool {
	a, ok := v.(*ssa.Alloc)
	if !ok || a.Referrers() == nil {
		return false
	}
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Call:
			f := r.Call.StaticCallee()
			if f == nil || f.Signature.Recv() == nil || len(r.Call.Args) == 0 || r.Call.Args[0] != v {
				return false
			}
			for _, o := range r.Call.Args[1:] {
				if o == v {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func map1t(v GVal, f func(*Term) *Term) *Term { return boxGV(map1(v, f)) }
