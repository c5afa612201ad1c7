package main

// Guarded value flow: calls.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (fr *gframe) callee(call *ssa.CallCommon, st *gstate) (gval, []gval) {
	e := fr.e
	var args []gval
	if call.IsInvoke() {
		recv := fr.value(call.Value, st)
		args = append(args, recv)
		for _, a := range call.Args {
			args = append(args, fr.value(a, st))
		}
		t := e.term("method", call.Method.FullName(), call.Method.Type())
		gvfMethods[t] = call.Method
		return e.leaf(t), args
	}
	for _, a := range call.Args {
		args = append(args, fr.value(a, st))
	}
	return fr.value(call.Value, st), args
}

var gvfMethods = map[*gterm]*types.Func{}

func sigOf(in ssa.CallInstruction) *types.Signature { return in.Common().Signature() }

func resultType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

// apply performs a call; the state is changed in place or replaced.
func (fr *gframe) apply(in ssa.CallInstruction, fnv gval, args []gval, st *gstate, g *dd) (gval, *gstate, *dd) {
	e := fr.e
	if b, ok := in.Common().Value.(*ssa.Builtin); ok {
		v, normal := fr.builtin(b.Name(), in, args, st, g)
		return v, st, normal
	}
	d := asDD(fnv)
	ls := e.leaves(d)
	if len(ls) == 1 && d.leaf != nil {
		return fr.apply1(in, ls[0], args, st, g)
	}
	if len(ls) > 12 {
		gfail("call of one of many functions in %s", fr.fn)
	}
	var rv gval
	var rst *gstate
	normal := e.F
	for i, x := range ls {
		x := x
		is := e.bind(d, func(y *gterm) *dd {
			if y == x {
				return e.T
			}
			return e.F
		})
		if e.and(g, is) == e.F {
			continue
		}
		v, nst, n := fr.apply1(in, x, args, st.clone(), e.and(g, is))
		if i == 0 || rst == nil {
			rv, rst = v, nst
		} else {
			rv, rst = e.iteV(is, v, rv), e.merge(is, nst, rst)
		}
		normal = e.or(normal, e.and(is, n))
	}
	if rst == nil {
		return e.botOfResult(sigOf(in)), st, e.F
	}
	return rv, rst, normal
}

func (e *gvf) botOfResult(sig *types.Signature) gval { return e.botTuple(sig.Results()) }

func (fr *gframe) apply1(in ssa.CallInstruction, fn *gterm, args []gval, st *gstate, g *dd) (gval, *gstate, *dd) {
	e := fr.e
	switch fn.op {
	case "func", "closure":
		return fr.callFunc(in, gvfFuncs[fn], fn, args, fn.vals, st, g)
	case "method":
		m := gvfMethods[fn]
		recv := asDD(args[0])
		ls := e.leaves(recv)
		if len(ls) > 8 {
			gfail("call on one of many values in %s", fr.fn)
		}
		var rv gval
		var rst *gstate
		normal := e.F
		for _, x := range ls {
			x := x
			is := e.bind(recv, func(y *gterm) *dd {
				if y == x {
					return e.T
				}
				return e.F
			})
			if e.and(g, is) == e.F || x == e.bot.leaf {
				continue
			}
			var v gval
			var nst *gstate
			n := e.T
			cst := st.clone()
			switch {
			case x.op == "nil":
				continue
			case x.op == "box":
				f := e.c.Prog.LookupMethod(x.typ, m.Pkg(), m.Name())
				if f == nil {
					gfail("no method %s", m.Name())
				}
				a := append([]gval{x.vals[0]}, args[1:]...)
				v, nst, n = fr.callFunc(in, f, e.funcTerm(f), a, nil, cst, e.and(g, is))
			case x.op == "error!":
				v, nst = e.opaque(resultType(sigOf(in)), e.term("errtext", m.Name(), nil)), cst
			default:
				a := append([]gval{e.leaf(x)}, args[1:]...)
				v, nst = fr.opaqueCall(m.Name(), sigOf(in), a, cst, e.and(g, is))
			}
			if rst == nil {
				rv, rst = v, nst
			} else {
				rv, rst = e.iteV(is, v, rv), e.merge(is, nst, rst)
			}
			normal = e.or(normal, e.and(is, n))
		}
		if rst == nil {
			return e.botOfResult(sigOf(in)), st, e.F
		}
		return rv, rst, normal
	case "nil":
		return e.botOfResult(sigOf(in)), st, e.F
	case "⊥":
		return e.botOfResult(sigOf(in)), st, e.F
	}
	a := append([]gval{e.leaf(fn)}, args...)
	v, nst := fr.opaqueCall("call", sigOf(in), a, st, g)
	return v, nst, e.T
}

func (fr *gframe) callFunc(in ssa.CallInstruction, f *ssa.Function, fn *gterm, args, free []gval, st *gstate, g *dd) (gval, *gstate, *dd) {
	e := fr.e
	if e.prim != nil {
		if v, ok := e.prim(fr, in, f, args, st, g); ok {
			return v, st, e.T
		}
	}
	if f.Blocks == nil || !e.c.inRepo(f) && f.Synthetic == "" || f.Pkg != nil && !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
		return fr.library(in, f, args, st, g)
	}
	if p := fnPkg(f); p != nil && !strings.HasPrefix(p.Path(), modPath) && f.Synthetic == "" {
		return fr.library(in, f, args, st, g)
	}
	n := 0
	for i, s := range e.stack {
		if s == f {
			n++
			if fn.op != "closure" && (n > 1 || !higherOrder(f)) || fn.op == "closure" && (e.stackT[i] == fn || n > 6) {
				// recursion
				e.generalise(f, i, args, st)
				name := e.recName(f)
				all := recArgs(f, args, free)
				if e.recPure {
					return fr.pureCall(name, sigOf(in), all, st), st, e.T
				}
				v, nst := fr.opaqueCall(name, sigOf(in), all, st, g)
				return v, nst, e.T
			}
		}
	}
	e.nextT = fn
	if n == 0 && e.gen[f] != nil {
		args, st = e.generalEntry(f, args, st)
	}
	r := e.call(f, args, free, st, g)
	return r.vals, r.st, r.normal
}

// What a recursive function starts from is known in the outermost call only.
// generalise makes norm start again, with symbols for what a recursive call
// changes.
type ggen struct {
	args map[int]bool
	mem  map[gloc]types.Type
	ver  map[*gterm]bool
}

type gvfAgain struct{}

func (e *gvf) generalise(f *ssa.Function, at int, args []gval, st *gstate) {
	if at == 0 {
		return // the arguments of the function itself are arbitrary
	}
	entry := e.entries[at]
	g := e.gen[f]
	if g == nil {
		g = &ggen{map[int]bool{}, map[gloc]types.Type{}, map[*gterm]bool{}}
	}
	again := false
	for i, a := range args {
		o, ok := entry.args[i].(*dd)
		if !ok || o == a || g.args[i] || !e.fixed(o) {
			continue
		}
		g.args[i], again = true, true
	}
	for l, c := range st.mem {
		if l.path == "·live" || l.root.op == "alloc" && !e.allocKnown(l.root, entry.st) || e.assignedOnce(l.root) {
			continue
		}
		if _, ok := g.mem[l]; ok {
			continue
		}
		var old *dd
		if o, ok := entry.st.mem[l]; ok {
			old = o.v
		} else if l.path == "·log" {
			old = e.leaf(e.term("maplog", "", nil))
		} else {
			old = e.defaultAt(l, c.typ, entry.st)
		}
		if old == c.v || !e.fixed(old) {
			continue
		}
		g.mem[l], again = c.typ, true
	}
	for x, v := range st.ver {
		if len(x.syms) > 0 || g.ver[x] || entry.st.ver[x] == v || x.op == "alloc" && !e.allocKnown(x, entry.st) {
			continue
		}
		if o := entry.st.ver[x]; o != nil && !e.fixed(o) {
			continue
		}
		g.ver[x], again = true, true
	}
	if again {
		if e.gen == nil {
			e.gen = map[*ssa.Function]*ggen{}
		}
		e.gen[f] = g
		panic(gvfAgain{})
	}
}

// fixed: some case of the value is known.
func (e *gvf) fixed(d *dd) bool {
	for _, x := range e.leaves(d) {
		switch x.op {
		case "const", "nil", "seq", "maplog", "mapput", "box", "cat":
			return true
		}
	}
	return false
}

func (e *gvf) generalEntry(f *ssa.Function, args []gval, st *gstate) ([]gval, *gstate) {
	g := e.gen[f]
	name := e.recName(f)
	st = st.clone()
	args = append([]gval{}, args...)
	count := map[string]int{}
	sym := func(kind string, t types.Type, init gval) *gterm {
		k := kind + ":"
		if t != nil {
			k += typeKey(t)
		}
		count[k]++
		return e.termv("G", fmt.Sprintf("%s %s %d", name, k, count[k]), t, nil, []gval{init})
	}
	for i := range args {
		if g.args[i] {
			t := f.Params[i].Type()
			args[i] = e.opaque(t, sym("p", t, args[i]))
		}
	}
	var ls []gloc
	for l := range g.mem {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if ls[i].root.id != ls[j].root.id {
			return ls[i].root.id < ls[j].root.id
		}
		return ls[i].path < ls[j].path
	})
	for _, l := range ls {
		var old *dd
		t := g.mem[l]
		if o, ok := st.mem[l]; ok {
			old = o.v
		} else if l.path == "·log" {
			old = e.leaf(e.term("maplog", "", nil))
		} else {
			old = e.defaultAt(l, t, st)
		}
		s := sym("m"+l.path, t, old)
		if t == nil {
			st.mem[l] = gcell{e.leaf(s), nil}
		} else {
			st.mem[l] = gcell{e.scalar(t, s), t}
		}
	}
	var vs []*gterm
	for x := range g.ver {
		vs = append(vs, x)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
	for _, x := range vs {
		old := st.ver[x]
		if old == nil {
			old = e.leaf(e.nilTerm())
		}
		st.ver[x] = e.leaf(sym("v", nil, old))
	}
	return args, st
}

// recArgs puts the arguments of a recursive call in an order that does not
// depend on that of the parameters, as far as their types differ.
func recArgs(f *ssa.Function, args, free []gval) []gval {
	all := append(append([]gval{}, args...), free...)
	var keys []string
	for i := range all {
		switch {
		case i < len(f.Params):
			keys = append(keys, typeKey(f.Params[i].Type()))
		case i-len(f.Params) < len(f.FreeVars):
			keys = append(keys, typeKey(f.FreeVars[i-len(f.Params)].Type()))
		default:
			keys = append(keys, "~")
		}
	}
	idx := make([]int, len(all))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(i, j int) bool { return keys[idx[i]] < keys[idx[j]] })
	out := make([]gval, len(all))
	for i, k := range idx {
		out[i] = all[k]
	}
	return out
}

// higherOrder: the function is given functions to call.
func higherOrder(f *ssa.Function) bool {
	for _, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

// assignedOnce: the local variable is assigned where it is declared, and
// its address goes nowhere but to closures.
func (e *gvf) assignedOnce(x *gterm) bool {
	a := gvfAllocs[x]
	if a == nil {
		return false
	}
	if e.once == nil {
		e.once = map[*ssa.Alloc]bool{}
	}
	if r, ok := e.once[a]; ok {
		return r
	}
	n := 0
	ok := true
	var uses func(v ssa.Value)
	uses = func(v ssa.Value) {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr != v {
					ok = false
				} else if v != ssa.Value(a) {
					ok = false // assigned in a closure
				} else {
					n++
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				f := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v {
						uses(f.FreeVars[i])
					}
				}
			default:
				ok = false
			}
		}
	}
	uses(a)
	e.once[a] = ok && n <= 1
	return e.once[a]
}

func (e *gvf) recName(f *ssa.Function) string {
	if e.recs == nil {
		e.recs = map[*ssa.Function]string{}
	}
	if n, ok := e.recs[f]; ok {
		return n
	}
	n := fmt.Sprintf("rec%d", len(e.recs))
	e.recs[f] = n
	return n
}

// pureCall is a term for the result of a call that has no effect.
func (fr *gframe) pureCall(name string, sig *types.Signature, args []gval, st *gstate) gval {
	e := fr.e
	var ds []*dd
	plain := true
	for i := range args {
		args[i] = e.contentRead(args[i], st, 3)
		d, ok := args[i].(*dd)
		if !ok || d.leaf == nil {
			plain = false
		}
		ds = append(ds, d)
	}
	_ = ds
	rt := resultType(sig)
	if plain {
		var ts []*gterm
		for _, d := range ds {
			ts = append(ts, d.leaf)
		}
		return e.opaque(rt, e.term("fn", name, nil, ts...))
	}
	return e.opaque(rt, e.termv("fn", name, nil, nil, args))
}

// liftPure distributes a call over the cases of its arguments.
func (fr *gframe) liftPure(name string, sig *types.Signature, args []gval, st *gstate) gval {
	e := fr.e
	var ds []*dd
	for i := range args {
		args[i] = e.contentRead(args[i], st, 3)
		d, ok := args[i].(*dd)
		if !ok || len(e.leaves(d)) > 6 {
			return fr.pureCall(name, sig, args, st)
		}
		ds = append(ds, d)
	}
	if sig.Results().Len() != 1 || e.expandable(sig.Results().At(0).Type()) {
		rt := resultType(sig)
		return e.bindV(rt, ds, func(ts []*gterm) gval {
			if v := e.foldTuple(name, ts); v != nil {
				return v
			}
			return e.opaque(rt, e.term("fn", name, nil, ts...))
		})
	}
	return e.bindN(ds, func(ts []*gterm) *dd {
		if v := e.foldLib(name, ts); v != nil {
			return v
		}
		return asDD(e.opaque(sig.Results().At(0).Type(), e.term("fn", name, nil, ts...)))
	})
}

// foldTuple evaluates library functions of several results on constants.
func (e *gvf) foldTuple(name string, ts []*gterm) gval {
	if len(ts) != 1 || ts[0].op != "const" || ts[0].c.Kind() != constant.String {
		return nil
	}
	s := constant.StringVal(ts[0].c)
	var r rune
	var n int
	switch name {
	case "unicode/utf8.DecodeRuneInString":
		r, n = utf8.DecodeRuneInString(s)
	case "unicode/utf8.DecodeLastRuneInString":
		r, n = utf8.DecodeLastRuneInString(s)
	default:
		return nil
	}
	return gtuple{e.leaf(e.konst(constant.MakeInt64(int64(r)), types.Typ[types.Rune])), e.leaf(e.intc(int64(n)))}
}

// foldRune evaluates library functions of one character on a constant.
func (e *gvf) foldRune(name string, ts []*gterm) *dd {
	if len(ts) != 1 || ts[0].op != "const" || ts[0].c.Kind() != constant.Int {
		return nil
	}
	n, _ := constant.Int64Val(ts[0].c)
	r := rune(n)
	b := func(x bool) *dd {
		if x {
			return e.T
		}
		return e.F
	}
	i := func(x int64) *dd { return e.leaf(e.konst(constant.MakeInt64(x), types.Typ[types.Rune])) }
	switch name {
	case "unicode.ToLower":
		return i(int64(unicode.ToLower(r)))
	case "unicode.ToUpper":
		return i(int64(unicode.ToUpper(r)))
	case "unicode.IsUpper":
		return b(unicode.IsUpper(r))
	case "unicode.IsLower":
		return b(unicode.IsLower(r))
	case "unicode/utf8.RuneLen":
		return e.leaf(e.intc(int64(utf8.RuneLen(r))))
	}
	return nil
}

// foldLib evaluates library functions on constants.
func (e *gvf) foldLib(name string, ts []*gterm) *dd {
	if v := e.foldRune(name, ts); v != nil {
		return v
	}
	var ss []string
	for _, t := range ts {
		if t.op != "const" || t.c.Kind() != constant.String {
			return nil
		}
		ss = append(ss, constant.StringVal(t.c))
	}
	b := func(x bool) *dd {
		if x {
			return e.T
		}
		return e.F
	}
	switch name {
	case "strings.HasPrefix":
		return b(strings.HasPrefix(ss[0], ss[1]))
	case "strings.HasSuffix":
		return b(strings.HasSuffix(ss[0], ss[1]))
	case "strings.Contains":
		return b(strings.Contains(ss[0], ss[1]))
	case "strings.ToLower":
		return e.leaf(e.strc(strings.ToLower(ss[0])))
	case "strings.ToUpper":
		return e.leaf(e.strc(strings.ToUpper(ss[0])))
	case "strings.TrimPrefix":
		return e.leaf(e.strc(strings.TrimPrefix(ss[0], ss[1])))
	case "strings.TrimSuffix":
		return e.leaf(e.strc(strings.TrimSuffix(ss[0], ss[1])))
	case "strings.TrimSpace":
		return e.leaf(e.strc(strings.TrimSpace(ss[0])))
	}
	return nil
}

// opaqueCall records a call whose effect is not known.
func (fr *gframe) opaqueCall(name string, sig *types.Signature, args []gval, st *gstate, g *dd) (gval, *gstate) {
	e := fr.e
	// a call with one of two strings is one of two calls
	for i, a := range args {
		d, ok := a.(*dd)
		if !ok || d.leaf != nil || i < sig.Params().Len() && sig.Variadic() && i >= sig.Params().Len()-1 {
			continue
		}
		ls := e.leaves(d)
		if len(ls) != 2 || !isStringTerm(ls[0]) || !isStringTerm(ls[1]) {
			continue
		}
		is := e.bind(d, func(x *gterm) *dd {
			if x == ls[0] {
				return e.T
			}
			return e.F
		})
		one := func(x *gterm, g *dd) (gval, *gstate) {
			as := append([]gval{}, args...)
			as[i] = e.leaf(x)
			return fr.opaqueCall(name, sig, as, st.clone(), g)
		}
		v1, s1 := one(ls[0], e.and(g, is))
		v2, s2 := one(ls[1], e.and(g, e.not(is)))
		*st = *e.merge(is, s1, s2)
		return e.iteV(is, v1, v2), st
	}
	var cs []gval
	for _, a := range args {
		if d, ok := a.(*dd); ok && d.leaf == nil && g != e.T && g != e.F {
			a = e.constrainV(a, g)
		}
		cs = append(cs, e.content(a, st, 3))
	}
	if e.loopD > 0 {
		cs = append(cs, e.leaf(e.term("I", fmt.Sprint(e.loopD-1), types.Typ[types.Int])))
	}
	ev := e.termv("ev", name, nil, nil, cs)
	// the how-manieth of its kind
	n := e.record(g, ev)
	res := e.termv("res", fmt.Sprintf("%s#%d", name, n), nil, []*gterm{ev}, nil)
	nst := st
	e.havoc(nst, args, res)
	return e.opaque(resultType(sig), res), nst
}

func isStringTerm(x *gterm) bool {
	if x == nil || x.typ == nil {
		return false
	}
	b, ok := x.typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// record an event; equal events under conditions that exclude each other
// are the same one.
func (e *gvf) record(g *dd, ev *gterm) int {
	if g == e.F {
		return 0
	}
	n := 0
	for i := range e.events {
		x := &e.events[i]
		if x.base != ev {
			continue
		}
		if e.and(x.guard, g) == e.F && x.frameOK(e) {
			x.guard = e.or(x.guard, g)
			return x.n
		}
		n++
	}
	t := ev
	if n > 0 {
		t = e.term("again", fmt.Sprint(n), nil, ev)
	}
	e.events = append(e.events, gevent{guard: g, t: t, base: ev, n: n, lvl: e.evLevel})
	return n
}

func (x *gevent) frameOK(e *gvf) bool { return x.lvl == e.evLevel }

// havoc forgets what is known of local objects that the arguments reach.
func (e *gvf) havoc(st *gstate, args []gval, res *gterm) {
	seen := map[*gterm]bool{}
	var roots []*gterm
	var visit func(v gval)
	visit = func(v gval) {
		switch v := v.(type) {
		case *gsv:
			for _, f := range v.f {
				visit(f)
			}
		case *dd:
			for _, x := range e.leaves(v) {
				switch x.op {
				case "fa", "alloc":
					r := e.locOf(x).root
					if r.op == "alloc" && !seen[r] {
						seen[r] = true
						roots = append(roots, r)
						for l, c := range st.mem {
							if l.root == r && l.path != "·live" && l.path != "·log" {
								visit(c.v)
							}
						}
					}
				case "box", "closure", "seq":
					for _, f := range x.vals {
						visit(f)
					}
				}
			}
		}
	}
	for _, a := range args {
		visit(a)
	}
	if len(roots) == 0 {
		return
	}
	for _, r := range roots {
		// what has not been written yet is written now
		if in := gvfAllocs[r]; in != nil && !e.assignedOnce(r) {
			e.spread(gloc{r, ""}, r.typ, st)
		}
	}
	for l, c := range st.mem {
		if !seen[l.root] || l.path == "·live" || e.assignedOnce(l.root) {
			continue
		}
		t := c.typ
		if t == nil {
			t = types.Typ[types.UnsafePointer]
		}
		x := e.term("after", l.path+":"+typeKey(t), t, res)
		st.mem[l] = gcell{e.scalar(t, x), c.typ}
	}
}

// spread gives every part of a place that has none a cell of its own.
func (e *gvf) spread(l gloc, t types.Type, st *gstate) {
	if e.expandable(t) {
		for _, p := range e.parts(t) {
			e.spread(gloc{l.root, l.path + p.key}, p.typ, st)
		}
		return
	}
	if _, ok := st.mem[l]; !ok {
		st.mem[l] = gcell{e.defaultAt(l, t, st), t}
	}
}

func (fr *gframe) builtin(name string, in ssa.CallInstruction, args []gval, st *gstate, g *dd) (gval, *dd) {
	e := fr.e
	cc := in.Common()
	switch name {
	case "append":
		t := cc.Args[0].Type()
		if len(args) == 1 {
			return args[0], e.T
		}
		b := asDD(args[1])
		if bt, ok := cc.Args[1].Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			b = asDD(e.convert(b, cc.Args[1].Type(), t))
		}
		return e.appendVals(t, asDD(args[0]), b), e.T
	case "len":
		return e.lenOf(asDD(args[0]), cc.Args[0].Type(), st), e.T
	case "cap":
		return e.bind(asDD(args[0]), func(x *gterm) *dd { return e.leaf(e.term("cap", "", types.Typ[types.Int], x)) }), e.T
	case "copy", "print", "println", "close":
		v, _ := fr.opaqueCall(name, cc.Signature(), args, st, g)
		if name == "copy" {
			e.bump(asDD(args[0]), asDD(e.opaque(types.Typ[types.Int], e.term("copied", "", nil))), args[1], st)
		}
		return v, e.T
	case "delete":
		fr.mapDelete(asDD(args[0]), args[1], st)
		return gtuple{}, e.T
	case "panic":
		return gtuple{}, e.F
	case "recover":
		return e.leaf(e.nilTerm()), e.T
	case "min", "max":
		r := asDD(args[0])
		for _, a := range args[1:] {
			c := asDD(e.bindN([]*dd{r, asDD(a)}, func(t []*gterm) *dd {
				if name == "min" {
					return e.less(t[0], t[1])
				}
				return e.less(t[1], t[0])
			}))
			r = e.ite(c, r, asDD(a))
		}
		return r, e.T
	}
	gfail("builtin %s", name)
	return nil, nil
}

func (e *gvf) lenOf(d *dd, t types.Type, st *gstate) *dd {
	if _, ok := t.Underlying().(*types.Map); ok {
		return e.bind(d, func(x *gterm) *dd {
			if x.op == "nil" {
				return e.leaf(e.intc(0))
			}
			if log := e.mapLog(x, st); log != nil {
				return e.leaf(e.term("maplen", "", types.Typ[types.Int], log))
			}
			if x.op == "alloc" {
				return e.leaf(e.intc(0))
			}
			return e.leaf(e.lenTerm(x, t))
		})
	}
	return e.length(d, t)
}

func (fr *gframe) mapDelete(m *dd, k gval, st *gstate) {
	e := fr.e
	for _, x := range e.leaves(m) {
		if x.op == "nil" || x == e.bot.leaf {
			continue
		}
		l := gloc{x, "·log"}
		old, ok := st.mem[l]
		if !ok {
			old = gcell{e.leaf(e.term("maplog", "", nil)), nil}
		}
		st.mem[l] = gcell{e.bind(old.v, func(o *gterm) *dd {
			return e.leaf(e.termv("mapdel", "", nil, []*gterm{o}, []gval{k}))
		}), types.Typ[types.UnsafePointer]}
	}
}

// bump says that elements of the sequence have changed.
func (e *gvf) bump(s *dd, how gval, what gval, st *gstate) {
	for _, x := range e.leaves(s) {
		if x.op == "nil" {
			continue // has no elements
		}
		old := st.ver[x]
		vals := []gval{how, what}
		if old != nil {
			vals = append(vals, old)
		}
		st.ver[x] = e.leaf(e.termv("upd", "", nil, nil, vals))
	}
}

var gvfPurePkg = map[string]bool{
	"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "path": true, "errors": true, "math": true, "bytes": true, "regexp": true, "html": true,
}

var gvfPureFn = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "path/filepath.Base": true, "path/filepath.Join": true, "path/filepath.Dir": true,
	"path/filepath.Ext": true, "path/filepath.Clean": true, "go/ast.NewIdent": true, "net/url.Parse": true,
	"(encoding/xml.StartElement).Copy": true,
}

func (fr *gframe) library(in ssa.CallInstruction, f *ssa.Function, args []gval, st *gstate, g *dd) (gval, *gstate, *dd) {
	e := fr.e
	name := f.String()
	sig := f.Signature
	switch name {
	case "fmt.Errorf", "errors.New":
		return e.leaf(e.term("error!", "", nil)), st, e.T
	case "(*bytes.Buffer).Reset":
	case "log.Printf", "log.Println", "log.Print", "(*log.Logger).Printf", "(*log.Logger).Println":
		return e.opaque(resultType(sig), e.term("unit", "", nil)), st, e.T
	case "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable", "sort.Strings":
		ev := e.termv("ev", name, nil, nil, []gval{e.content(args[0], st, 3)})
		_ = ev
		var extra []gval
		for _, a := range args[1:] {
			extra = append(extra, e.content(a, st, 3))
		}
		if ascending(in) {
			name, extra, args = "sort.Strings", nil, args[:1]
		}
		for _, x := range e.leaves(asDD(args[0])) {
			y := x
			order := name
			switch name {
			case "sort.Slice":
				order = "sort.Sort"
			case "sort.SliceStable":
				order = "sort.Stable"
			}
			tag, vals := order, extra
			if len(args) == 1 && x.op == "box" {
				if name == "sort.Strings" || typeKey(x.typ) == "sort.StringSlice" {
					tag = "sort.Strings"
				} else if less := e.sortLess(x); less != nil {
					vals = []gval{e.leaf(e.lambdaOf(x, less, []gval{x.vals[0]}, nil, nil, st))}
				} else {
					tag += " " + x.s
				}
			}
			for y.op == "box" {
				d, ok := y.vals[0].(*dd)
				if !ok || d.leaf == nil {
					break
				}
				y = d.leaf
			}
			if y.op == "nil" || y.op == "seq" && len(y.vals) == 0 {
				continue // nothing to sort
			}
			if old := st.ver[y]; old != nil {
				vals = append(append([]gval{}, vals...), old)
			}
			st.ver[y] = e.leaf(e.termv("sorted", tag, nil, nil, vals))
		}
		return gtuple{}, st, e.T
	}
	if e.dropEvent != nil && e.dropEvent(name) {
		return e.opaque(resultType(sig), e.term("unit", name, nil)), st, e.T
	}
	pure := gvfPureFn[name] || e.pureFn != nil && e.pureFn(name)
	if f.Pkg != nil && gvfPurePkg[f.Pkg.Pkg.Path()] && sig.Recv() == nil {
		pure = true
	}
	if v := e.cutCall(name, sig, args); v != nil {
		return v, st, e.T
	}
	if name == "fmt.Sprintf" && !e.keepFormats {
		if v := fr.formatted(args, st); v != nil {
			return v, st, e.T
		}
	}
	if pure {
		v := fr.liftPure(name, sig, append([]gval{}, args...), st)
		if t, ok := v.(gtuple); ok && name == "time.Parse" && len(t) == 2 {
			// the zero time accompanies an error
			failed := e.not(e.equal(t[1], e.zero(sig.Results().At(1).Type()), sig.Results().At(1).Type()))
			v = gtuple{e.iteV(failed, e.zero(sig.Results().At(0).Type()), t[0]), t[1]}
		}
		return v, st, e.T
	}
	v, nst := fr.opaqueCall(name, sig, args, st, g)
	return v, nst, e.T
}

// content describes a value without naming local objects: a pointer to one
// is described by what the object holds.
func (e *gvf) content(v gval, st *gstate, depth int) gval {
	return e.contentV(v, st, depth, map[*gterm]bool{})
}

// contentRead: the same for what is only read: a copy that has not been changed
// is the same as what it is a copy of.
func (e *gvf) contentRead(v gval, st *gstate, depth int) gval {
	old := e.copies
	e.copies = true
	defer func() { e.copies = old }()
	return e.content(v, st, depth)
}

func (e *gvf) contentV(v gval, st *gstate, depth int, busy map[*gterm]bool) gval {
	switch v := v.(type) {
	case *gsv:
		r := &gsv{typ: v.typ, f: make([]gval, len(v.f))}
		for i := range v.f {
			r.f[i] = e.contentV(v.f[i], st, depth, busy)
		}
		return r
	case gtuple:
		r := make(gtuple, len(v))
		for i := range v {
			r[i] = e.contentV(v[i], st, depth, busy)
		}
		return r
	case *dd:
		need := false
		for _, x := range e.leaves(v) {
			if e.hasLocal(x, st) {
				need = true
			}
		}
		if !need {
			return v
		}
		g := e.contentG
		if g == nil || v.leaf != nil {
			return e.bind(v, func(x *gterm) *dd { return e.contentT(x, st, depth, busy) })
		}
		defer func() { e.contentG = g }()
		return e.bind(v, func(x *gterm) *dd {
			if !e.hasLocal(x, st) {
				return e.leaf(x)
			}
			e.contentG = e.and(g, e.bind(v, func(y *gterm) *dd {
				if y == x {
					return e.T
				}
				return e.F
			}))
			return e.contentT(x, st, depth, busy)
		})
	}
	return v
}

func (e *gvf) hasLocal(x *gterm, st *gstate) bool {
	switch x.op {
	case "alloc", "closure":
		return true
	case "func":
		return e.describable(x)
	case "fa":
		return e.locOf(x).root.op == "alloc"
	case "box", "seq":
		for _, f := range x.vals {
			if e.valHasLocal(f, st) {
				return true
			}
		}
	case "spread":
		return e.hasLocal(x.args[0], st)
	}
	return st != nil && st.ver[x] != nil
}

func (e *gvf) valHasLocal(v gval, st *gstate) bool {
	switch v := v.(type) {
	case *gsv:
		for _, f := range v.f {
			if e.valHasLocal(f, st) {
				return true
			}
		}
	case *dd:
		for _, x := range e.leaves(v) {
			if e.hasLocal(x, st) {
				return true
			}
		}
	}
	return false
}

func (e *gvf) contentT(x *gterm, st *gstate, depth int, busy map[*gterm]bool) *dd {
	if st != nil && st.ver[x] != nil {
		ver := st.ver[x]
		y := e.contentT2(x, st, depth, busy)
		return e.bind(ver, func(vt *gterm) *dd {
			if vt.op == "nil" {
				return y
			}
			return e.bind(y, func(z *gterm) *dd {
				return e.leaf(e.termv("changed", "", x.typ, []*gterm{z}, []gval{e.contentV(e.leaf(vt), st, depth-1, busy)}))
			})
		})
	}
	return e.contentT2(x, st, depth, busy)
}

// copyOf: where the value that a local object is a copy of was read from.
func (e *gvf) copyOf(v gval) *gterm {
	sv, ok := v.(*gsv)
	if !ok {
		return nil
	}
	var first func(v gval) *gterm
	first = func(v gval) *gterm {
		switch v := v.(type) {
		case *gsv:
			for _, f := range v.f {
				if t := first(f); t != nil {
					return t
				}
			}
		case *dd:
			if v.leaf != nil {
				return v.leaf
			}
			return v.v.t
		}
		return nil
	}
	var ptr func(t *gterm) *gterm
	ptr = func(t *gterm) *gterm {
		switch {
		case t.op == "deref" && len(t.args) == 1 && len(t.vals) == 0:
			return t.args[0]
		case t.op == "elem" && len(t.vals) == 0:
			return e.term("ia", "", types.NewPointer(t.typ), t.args...)
		case t.op == "field" && len(t.args) == 1 && len(t.vals) == 0:
			if p := ptr(t.args[0]); p != nil {
				return e.term("fa", "/"+t.s, types.NewPointer(t.typ), p)
			}
		}
		return nil
	}
	key := v.key()
	for t := first(v); t != nil && t.op == "field" && len(t.args) == 1; {
		t = t.args[0]
		if t.op != "field" && t.op != "elem" && t.op != "deref" {
			return nil
		}
		if e.opaque(sv.typ, t).key() == key {
			return ptr(t)
		}
	}
	return nil
}

func (e *gvf) contentT2(x *gterm, st *gstate, depth int, busy map[*gterm]bool) *dd {
	switch x.op {
	case "alloc":
		if busy[x] || depth <= 0 {
			return e.leaf(e.term("obj…", "", x.typ))
		}
		busy[x] = true
		defer delete(busy, x)
		if _, ok := x.typ.Underlying().(*types.Map); ok {
			c, ok := st.mem[gloc{x, "·log"}]
			if !ok {
				return e.leaf(e.term("newmap", "", x.typ))
			}
			return e.bind(c.v, func(l *gterm) *dd { return e.leaf(e.termv("newmap", "", x.typ, []*gterm{l}, nil)) })
		}
		v := e.loadLoc(gloc{x, ""}, x.typ, st)
		if e.contentG != nil && e.contentG != e.T {
			v = e.constrainV(v, e.contentG)
		}
		if p := e.copyOf(v); p != nil && e.copies {
			return e.leaf(p)
		}
		v = e.contentV(v, st, depth-1, busy)
		return e.leaf(e.termv("obj", "", x.typ, nil, []gval{v}))
	case "fa":
		l := e.locOf(x)
		if l.root.op == "alloc" {
			if busy[l.root] || depth <= 0 {
				return e.leaf(e.term("obj…", "", x.typ))
			}
			busy[l.root] = true
			defer delete(busy, l.root)
			pt, ok := x.typ.(*types.Pointer)
			if !ok {
				return e.leaf(x)
			}
			w := e.loadLoc(l, pt.Elem(), st)
			if p := e.copyOf(w); p != nil && e.copies {
				return e.leaf(p)
			}
			v := e.contentV(w, st, depth-1, busy)
			return e.leaf(e.termv("obj", "", x.typ, nil, []gval{v}))
		}
	case "closure", "func":
		if x.op == "func" && !e.describable(x) {
			return e.leaf(x)
		}
		if busy[x] || depth <= 0 || e.lamD >= 2 {
			return e.leaf(e.term("closure…", "", x.typ))
		}
		busy[x] = true
		defer delete(busy, x)
		return e.leaf(e.lambda(x, st))
	case "box":
		return e.leaf(e.termv("box", x.s, x.typ, nil, []gval{e.contentV(x.vals[0], st, depth, busy)}))
	case "seq":
		var vs []gval
		for _, f := range x.vals {
			vs = append(vs, e.contentV(f, st, depth, busy))
		}
		return e.leaf(e.termv("seq", "", x.typ, nil, vs))
	case "spread":
		d := e.contentT(x.args[0], st, depth, busy)
		return e.bind(d, func(y *gterm) *dd { return e.leaf(e.term("spread", "", x.typ, y)) })
	}
	return e.leaf(x)
}

// describable: a function of the repository that stands for a function value
// is described by what it does, as a closure is.
func (e *gvf) describable(x *gterm) bool {
	f := gvfFuncs[x]
	if f == nil || len(f.Blocks) == 0 || len(f.Blocks) > 20 || !e.c.inRepo(f) {
		return false
	}
	if e.prim != nil && e.opaque1[f] {
		return false
	}
	return f.Parent() != nil || f.Synthetic != "" || f.Object() == nil || !f.Object().Exported()
}

// lambda describes a closure by what it does to arbitrary arguments.
func (e *gvf) lambda(x *gterm, st *gstate) *gterm {
	return e.lambdaOf(x, gvfFuncs[x], nil, x.vals, x.typ, st)
}

// lambdaOf describes a function by what it does to arbitrary arguments after
// the given ones.
func (e *gvf) lambdaOf(x *gterm, f *ssa.Function, pre, binds []gval, typ types.Type, st *gstate) *gterm {
	d := e.lamD
	saveEv, saveLvl := e.events, e.evLevel
	e.events = nil
	e.lamD++
	e.evLevel++
	defer func() { e.lamD--; e.events, e.evLevel = saveEv, saveLvl }()
	args := append([]gval{}, pre...)
	for i, p := range f.Params[len(pre):] {
		args = append(args, e.opaque(p.Type(), e.term("λ", fmt.Sprintf("%d.%d %s", d, i, typeKey(p.Type())), p.Type())))
	}
	for i, s := range e.stack {
		if s == f && e.stackT[i] == x {
			return e.term("closure…", "", typ)
		}
	}
	base := st.clone()
	e.nextT = x
	r := e.call(f, args, binds, base, e.T)
	only := func(v gval) gval {
		if r.normal == e.T {
			return v
		}
		return e.onlyIf(r.normal, v)
	}
	vals := []gval{e.tupleVal(only(e.content(r.vals, r.st, 2))), r.normal}
	for _, ev := range e.canonEvents(e.events) {
		vals = append(vals, ev.guard, e.leaf(ev.t))
	}
	for _, w := range e.writes(st, r.st) {
		vals = append(vals, e.leaf(e.strc(w.key)), only(w.v))
	}
	return e.termv("lambda", fmt.Sprintf("λ%d", d), typ, nil, vals)
}

// sortLess gives the order a sort.Interface over a slice uses, if its Len and
// Swap are those of the slice.
// ascending says that the call sorts strings in ascending order with a
// function that does no more than compare two of them.
func ascending(in ssa.CallInstruction) bool {
	args := in.Common().Args
	if len(args) != 2 {
		return false
	}
	mi, ok := args[0].(*ssa.MakeInterface)
	if !ok {
		return false
	}
	sl, ok := mi.X.Type().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	if b, ok := sl.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
		return false
	}
	mc, ok := args[1].(*ssa.MakeClosure)
	if !ok {
		return false
	}
	f, ok := mc.Fn.(*ssa.Function)
	if !ok || len(f.Blocks) != 1 || len(f.Params) != 2 {
		return false
	}
	ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return false
	}
	cmp, ok := ret.Results[0].(*ssa.BinOp)
	if !ok {
		return false
	}
	x, y := cmp.X, cmp.Y
	switch cmp.Op {
	case token.LSS:
	case token.GTR:
		x, y = y, x
	default:
		return false
	}
	elem := func(v ssa.Value, i *ssa.Parameter) bool {
		ld, ok := v.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			return false
		}
		ia, ok := ld.X.(*ssa.IndexAddr)
		if !ok || ia.Index != ssa.Value(i) {
			return false
		}
		// the slice that is sorted
		base, byRef := ia.X, false
		if ld, ok := base.(*ssa.UnOp); ok && ld.Op == token.MUL {
			base, byRef = ld.X, true
		}
		for k, fv := range f.FreeVars {
			if ssa.Value(fv) != base {
				continue
			}
			got := mi.X
			if byRef {
				ld, ok := got.(*ssa.UnOp)
				if !ok || ld.Op != token.MUL {
					return false
				}
				got = ld.X
			}
			return got == mc.Bindings[k]
		}
		return false
	}
	return elem(x, f.Params[0]) && elem(y, f.Params[1])
}

func (e *gvf) sortLess(box *gterm) *ssa.Function {
	n, ok := types.Unalias(box.typ).(*types.Named)
	if !ok || !isSlice(n) {
		return nil
	}
	get := func(name string) *ssa.Function {
		for i := 0; i < n.NumMethods(); i++ {
			if m := n.Method(i); m.Name() == name {
				f := e.c.Prog.FuncValue(m)
				if f != nil && len(f.Blocks) > 0 && len(f.Params) > 0 && isSlice(f.Params[0].Type()) {
					return f
				}
			}
		}
		return nil
	}
	ln, sw, less := get("Len"), get("Swap"), get("Less")
	if ln == nil || sw == nil || less == nil || len(ln.Blocks) != 1 || len(sw.Blocks) != 1 || len(sw.Params) != 3 || !e.c.inRepo(less) {
		return nil
	}
	ret, ok := ln.Blocks[0].Instrs[len(ln.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return nil
	}
	call, ok := ret.Results[0].(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := call.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" || call.Call.Args[0] != ssa.Value(ln.Params[0]) {
		return nil
	}
	elem := func(v ssa.Value) int {
		ia, ok := v.(*ssa.IndexAddr)
		if !ok || ia.X != ssa.Value(sw.Params[0]) {
			return 0
		}
		switch ia.Index {
		case sw.Params[1]:
			return 1
		case sw.Params[2]:
			return 2
		}
		return 0
	}
	var stored []int
	for _, in := range sw.Blocks[0].Instrs {
		switch in := in.(type) {
		case *ssa.UnOp:
			if in.Op != token.MUL || elem(in.X) == 0 || len(stored) > 0 {
				return nil
			}
		case *ssa.Store:
			to := elem(in.Addr)
			from, ok := in.Val.(*ssa.UnOp)
			if to == 0 || !ok || elem(from.X) != 3-to {
				return nil
			}
			stored = append(stored, to)
		case *ssa.IndexAddr, *ssa.Return, *ssa.DebugRef:
		default:
			return nil
		}
	}
	if len(stored) != 2 || stored[0] == stored[1] {
		return nil
	}
	return less
}

func isSlice(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// tupleVal makes one value of several.
func (e *gvf) tupleVal(v gval) gval {
	t, ok := v.(gtuple)
	if !ok {
		if v == nil {
			return e.leaf(e.term("tuple", "", nil))
		}
		return v
	}
	return e.leaf(e.termv("tuple", "", nil, nil, t))
}

// formatted: a constant format with simple verbs is a concatenation.
func (fr *gframe) formatted(args []gval, st *gstate) gval {
	e := fr.e
	fd, ok := args[0].(*dd)
	if !ok || fd.leaf == nil || fd.leaf.op != "const" {
		return nil
	}
	sd, ok := e.contentRead(args[1], st, 3).(*dd)
	if !ok || sd.leaf == nil || sd.leaf.op != "seq" && sd.leaf.op != "nil" {
		return nil
	}
	vals := sd.leaf.vals
	out := e.leaf(e.strc(""))
	add := func(d *dd) {
		out = e.bindN([]*dd{out, d}, func(a []*gterm) *dd { return e.leaf(e.catTerms(a[0], a[1])) })
	}
	f := constant.StringVal(fd.leaf.c)
	k := 0
	for len(f) > 0 {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			add(e.leaf(e.strc(f)))
			break
		}
		if i > 0 {
			add(e.leaf(e.strc(f[:i])))
		}
		if i+1 >= len(f) {
			return nil
		}
		verb := f[i+1]
		f = f[i+2:]
		if verb == '%' {
			add(e.leaf(e.strc("%")))
			continue
		}
		if k >= len(vals) {
			return nil
		}
		bd, ok := vals[k].(*dd)
		k++
		if !ok || len(e.leaves(bd)) > 6 {
			return nil
		}
		bad := false
		str := e.bind(bd, func(y *gterm) *dd {
			if y == nil || y.op != "box" {
				bad = true
				return e.bot
			}
			v, ok := y.vals[0].(*dd)
			t := y.typ
			b, ok2 := t.Underlying().(*types.Basic)
			if !ok || !ok2 || len(e.leaves(v)) > 6 || types.NewMethodSet(t).Len() > 0 {
				bad = true
				return e.bot
			}
			lib := func(name string) *dd {
				return e.bind(v, func(x *gterm) *dd {
					if d := e.foldLib(name, []*gterm{x}); d != nil {
						return d
					}
					return e.leaf(e.term("fn", name, types.Typ[types.String], x))
				})
			}
			switch {
			case b.Info()&types.IsString != 0 && (verb == 's' || verb == 'v'):
				return v
			case b.Info()&types.IsString != 0 && verb == 'q':
				return lib("strconv.Quote")
			case b.Kind() == types.Int && (verb == 'd' || verb == 'v'):
				return lib("strconv.Itoa")
			}
			bad = true
			return e.bot
		})
		if bad {
			return nil
		}
		add(str)
	}
	if k != len(vals) {
		return nil
	}
	return out
}

// cutCall: the ways to split a string at the first separator have one form.
func (e *gvf) cutCall(name string, sig *types.Signature, args []gval) gval {
	switch name {
	case "strings.Join":
		seq, ok := args[0].(*dd)
		sd, ok2 := args[1].(*dd)
		if !ok || !ok2 || seq.leaf == nil || seq.leaf.op != "seq" || sd.leaf == nil {
			return nil
		}
		out := e.leaf(e.strc(""))
		for i, v := range seq.leaf.vals {
			if isSpread(v) {
				return nil
			}
			if i > 0 {
				out = e.bind(out, func(x *gterm) *dd { return e.leaf(e.catTerms(x, sd.leaf)) })
			}
			out = e.bindN([]*dd{out, asDD(v)}, func(a []*gterm) *dd { return e.leaf(e.catTerms(a[0], a[1])) })
		}
		return out
	case "strings.Cut", "strings.SplitN", "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.Contains", "strings.ContainsRune":
	default:
		return nil
	}
	str, ok := args[0].(*dd)
	sd, ok2 := args[1].(*dd)
	if !ok || !ok2 || sd.leaf == nil || sd.leaf.op != "const" {
		return nil
	}
	sep := sd.leaf
	if sep.c.Kind() == constant.Int {
		n, _ := constant.Int64Val(sep.c)
		if n <= 0 || n >= 128 {
			return nil
		}
		sep = e.strc(string(rune(n)))
	}
	if len(constant.StringVal(sep.c)) == 0 {
		return nil
	}
	if name == "strings.SplitN" {
		n, ok := args[2].(*dd)
		if !ok || n.leaf == nil {
			return nil
		}
		if k, ok := gConstInt(n.leaf); !ok || k != 2 {
			return nil
		}
	}
	st := types.Typ[types.String]
	var parts [3]*dd // has, before, after
	f := func(i int) *dd {
		if parts[i] == nil {
			parts[i] = e.bind(str, func(x *gterm) *dd {
				if x.op == "const" {
					s := constant.StringVal(x.c)
					j := strings.Index(s, constant.StringVal(sep.c))
					switch {
					case i == 0 && j >= 0:
						return e.T
					case i == 0:
						return e.F
					case j < 0:
						return e.bot
					case i == 1:
						return e.leaf(e.strc(s[:j]))
					}
					return e.leaf(e.strc(s[j+len(constant.StringVal(sep.c)):]))
				}
				switch i {
				case 0:
					return e.boolVar(e.term("fn", "strings.Contains", types.Typ[types.Bool], x, sep))
				case 1:
					return e.leaf(e.term("before", "", st, x, sep))
				}
				return e.leaf(e.term("after", "", st, x, sep))
			})
		}
		return parts[i]
	}
	switch name {
	case "strings.Contains", "strings.ContainsRune":
		return f(0)
	case "strings.Cut":
		return gtuple{e.ite(f(0), f(1), str), e.ite(f(0), f(2), e.leaf(e.strc(""))), f(0)}
	case "strings.SplitN":
		t := sig.Results().At(0).Type()
		return e.ite(f(0), e.leaf(e.termv("seq", "", t, nil, []gval{f(1), f(2)})), e.leaf(e.termv("seq", "", t, nil, []gval{str})))
	}
	return e.bind(str, func(x *gterm) *dd {
		if x.op == "const" {
			return e.leaf(e.intc(int64(strings.Index(constant.StringVal(x.c), constant.StringVal(sep.c)))))
		}
		return e.leaf(e.term("idx", "", types.Typ[types.Int], x, sep))
	})
}
