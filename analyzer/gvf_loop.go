package main

// Guarded value flow: loops.  A loop is either unrolled, when its number of
// iterations is a constant of the program, or its body is evaluated once,
// for an arbitrary iteration I, from an arbitrary state C; what the loop
// does is then described by what one iteration does.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- substitution

type gsub struct {
	all   bool // look everywhere, not only where symbols of m occur
	eqs   bool // replace terms by the ones they are equal to
	bound map[string]bool
	e     *gvf
	m     map[*gterm]*dd
	syms  map[string]bool
	tm    map[*gterm]*dd
	bm    map[*gterm]*dd
	dm    map[*dd]*dd
	n     int
}

func (e *gvf) newSub(m map[*gterm]*dd) *gsub {
	s := &gsub{e: e, m: m, syms: map[string]bool{}, tm: map[*gterm]*dd{}, bm: map[*gterm]*dd{}, dm: map[*dd]*dd{}}
	for t := range m {
		for k := range t.syms {
			s.syms[k] = true
		}
	}
	return s
}

func (s *gsub) touches(m map[string]bool) bool {
	if s.all {
		return true
	}
	if len(m) > len(s.syms) {
		for k := range s.syms {
			if m[k] {
				return true
			}
		}
		return false
	}
	for k := range m {
		if s.syms[k] {
			return true
		}
	}
	return false
}

func (s *gsub) val(v gval) gval {
	switch v := v.(type) {
	case *dd:
		return s.dd(v)
	case *gsv:
		r := &gsv{typ: v.typ, f: make([]gval, len(v.f))}
		for i := range v.f {
			r.f[i] = s.val(v.f[i])
		}
		return r
	case gtuple:
		r := make(gtuple, len(v))
		for i := range v {
			r[i] = s.val(v[i])
		}
		return r
	}
	return v
}

func (s *gsub) dd(d *dd) *dd {
	if !s.touches(d.syms) {
		return d
	}
	if r := s.dm[d]; r != nil {
		return r
	}
	e := s.e
	var r *dd
	switch {
	case d.leaf != nil:
		r = s.term(d.leaf)
	case d.v.kind == 'b':
		hi, lo := s.dd(d.kids[1]), s.dd(d.kids[0])
		r = e.ite(s.truth(d.v.t), hi, lo)
	case d.v.kind == 'e':
		kids := make([]*dd, len(d.kids))
		for i := range d.kids {
			kids[i] = s.dd(d.kids[i])
		}
		if d.v.t.op == "typeof" {
			x := s.term(d.v.t.args[0])
			r = kids[len(kids)-1]
			for i, k := range d.keys {
				k := k
				r = e.ite(e.bind(x, func(y *gterm) *dd { return e.hasType(y, k.s) }), kids[i], r)
			}
			break
		}
		x := s.term(d.v.t)
		r = kids[len(kids)-1]
		for i, k := range d.keys {
			k := k
			r = e.ite(e.bind(x, func(y *gterm) *dd { return e.eqTerm(y, k, nil) }), kids[i], r)
		}
	default:
		x := s.term(d.v.t)
		r = s.dd(d.kids[len(d.kids)-1])
		for i := len(d.cuts) - 1; i >= 0; i-- {
			c := e.intc(d.cuts[i])
			r = e.ite(e.bind(x, func(y *gterm) *dd { return e.less(y, c) }), s.dd(d.kids[i]), r)
		}
	}
	if s.eqs {
		r = e.pullEqs(r)
	}
	s.dm[d] = r
	return r
}

// pullEqs: where a diagram tests whether two terms are equal, one of them
// takes the place of the other.
func (e *gvf) pullEqs(d *dd) *dd {
	for _, v := range e.varsOf(d) {
		if v.t.op != "eq" || v.kind != 'b' {
			continue
		}
		from, to := v.t.args[0], v.t.args[1]
		if len(from.syms) < len(to.syms) || len(from.syms) == len(to.syms) && from.id < to.id {
			from, to = to, from
		}
		q := e.newSub(map[*gterm]*dd{from: e.leaf(to)})
		q.all, q.bound = true, map[string]bool{}
		for _, t := range []*gterm{from, to} {
			for k := range t.syms {
				q.bound[symDepth(k)] = true
			}
		}
		hi, lo := q.dd(e.under(d, v, 1, nil, 0)), e.under(d, v, 0, nil, 0)
		if q.dd(lo) == hi {
			hi = lo
		}
		d = e.ite(e.boolVar(v.t), hi, lo)
	}
	return d
}

// truth of a boolean term.
func (s *gsub) truth(t *gterm) *dd {
	e := s.e
	if !s.touches(t.syms) {
		return e.boolVar(t)
	}
	if r := s.m[t]; r != nil {
		return r
	}
	if r := s.bm[t]; r != nil {
		return r
	}
	var r *dd
	switch t.op {
	case "lt", "eqi":
		n, _ := strconv.ParseInt(t.s, 10, 64)
		r = e.bindN([]*dd{s.term(t.args[0]), s.term(t.args[1])}, func(a []*gterm) *dd {
			b, k := e.lin(a[1])
			y := e.mkLin(b, k+n)
			if t.op == "lt" {
				return e.less(a[0], y)
			}
			return e.eqInt(a[0], y)
		})
	case "eq":
		r = e.bindN([]*dd{s.term(t.args[0]), s.term(t.args[1])}, func(a []*gterm) *dd { return e.eqTerm(a[0], a[1], nil) })
	default:
		r = e.bind(s.term(t), func(x *gterm) *dd {
			if x.op == "const" {
				if constant.BoolVal(x.c) {
					return e.T
				}
				return e.F
			}
			return e.boolVar(x)
		})
	}
	s.bm[t] = r
	return r
}

func (s *gsub) term(t *gterm) *dd {
	e := s.e
	if !s.touches(t.syms) {
		return e.leaf(t)
	}
	if r := s.m[t]; r != nil {
		return r
	}
	if r := s.tm[t]; r != nil {
		return r
	}
	if len(t.args) == 0 && len(t.vals) == 0 {
		return e.leaf(t)
	}
	if s.all && gvfBinder[t.op] && len(s.bound) > 0 {
		d := t.s
		if i := strings.IndexByte(d, ' '); i >= 0 {
			d = d[:i]
		}
		if s.bound[d] {
			return e.leaf(t)
		}
	}
	s.n++
	if s.n > 200000 {
		gfail("substitution too large")
	}
	vals := make([]gval, len(t.vals))
	for i, v := range t.vals {
		vals[i] = s.val(v)
	}
	var r *dd
	if len(t.args) == 0 {
		r = s.rebuild(t, nil, vals)
	} else {
		var as []*dd
		for _, a := range t.args {
			as = append(as, s.term(a))
		}
		r = e.bindN(as, func(a []*gterm) *dd { return s.rebuild(t, a, vals) })
	}
	s.tm[t] = r
	return r
}

func (s *gsub) rebuild(t *gterm, a []*gterm, vals []gval) *dd {
	e := s.e
	switch t.op {
	case "len":
		typ := types.Type(types.NewSlice(types.Typ[types.Int]))
		if t.s == "string" {
			typ = types.Typ[types.String]
		}
		return e.length(e.leaf(a[0]), typ)
	case "lin":
		b, n := e.lin(a[0])
		k, _ := constant.Int64Val(t.args[1].c)
		return e.leaf(e.mkLin(b, n+k))
	case "cat":
		r := a[0]
		for _, x := range a[1:] {
			r = e.catTerms(r, x)
		}
		return e.leaf(r)
	case "fn":
		if len(vals) == 0 {
			if v := e.foldLib(t.s, a); v != nil {
				return v
			}
		}
	case "seq":
		acc := e.leaf(e.termv("seq", "", t.typ, nil, nil))
		for _, v := range vals {
			v := v
			if d, ok := v.(*dd); ok {
				spread := true
				for _, x := range e.leaves(d) {
					if x.op != "spread" {
						spread = false
					}
				}
				if spread {
					acc = asDD(e.appendVals(t.typ, acc, e.bind(d, func(x *gterm) *dd { return e.leaf(x.args[0]) })))
					continue
				}
			}
			acc = e.bind(acc, func(x *gterm) *dd {
				return e.leaf(e.termv("seq", "", t.typ, nil, append(append([]gval{}, e.seqOf(x)...), v)))
			})
		}
		return acc
	case "elem":
		if v := e.seqElem(a[0], a[1]); v != nil {
			if d, ok := v.(*dd); ok {
				return d
			}
		}
		if a[0].op == "sub" && len(a[0].args) == 2 && len(vals) == 0 {
			bx, nx := e.lin(a[0].args[1])
			by, ny := e.lin(a[1])
			if by == nil {
				return e.leaf(e.elemTerm(a[0].args[0], e.mkLin(bx, nx+ny), t.typ, nil))
			}
			if bx == nil {
				return e.leaf(e.elemTerm(a[0].args[0], e.mkLin(by, nx+ny), t.typ, nil))
			}
		}
	case "unbox":
		if a[0].op == "box" && a[0].s == t.s {
			if d, ok := a[0].vals[0].(*dd); ok {
				return d
			}
		}
	case "spread":
		if a[0] == e.bot.leaf {
			return e.bot
		}
	}
	return e.leaf(e.termv(t.op, t.s, t.typ, a, vals))
}

// state substitutes in a memory state.
func (s *gsub) state(st *gstate) *gstate {
	n := newGState()
	for l, c := range st.mem {
		root := l.root
		if s.touches(root.syms) {
			d := s.term(root)
			if d.leaf == nil {
				// one of several places
				continue
			}
			root = d.leaf
			lc := s.e.locOf(root)
			n.mem[gloc{lc.root, lc.path + l.path}] = gcell{s.dd(c.v), c.typ}
			continue
		}
		n.mem[l] = gcell{s.dd(c.v), c.typ}
	}
	for k, v := range st.ver {
		if s.touches(k.syms) {
			d := s.term(k)
			if d.leaf == nil {
				continue
			}
			k = d.leaf
		}
		n.ver[k] = s.dd(v)
	}
	return n
}

// ---- loops

type gcarry struct {
	name string
	sym  *gterm
	phi  *ssa.Phi
	loc  gloc
	ver  *gterm
	typ  types.Type
	init gval
	next gval
	kind byte
	fin  *dd
}

type gexit struct {
	to   *ssa.BasicBlock
	k    int
	from *ssa.BasicBlock
	e    *gedge
	b    *dd
}

// iterate evaluates the body once.
func (fr *gframe) iterate(l *gloop, phis map[*ssa.Phi]gval, g *dd, st *gstate) (latch []*gedge, exits []gexit) {
	h := l.header
	clear := func() {
		for b := range l.blocks {
			for _, s := range b.Succs {
				for k, p := range s.Preds {
					if l.blocks[p] {
						delete(fr.in, [2]int{s.Index, k})
					}
				}
			}
		}
	}
	clear()
	for p, v := range phis {
		fr.env[p] = v
	}
	fr.body(h, g, st.clone())
	var rest []*ssa.BasicBlock
	for _, b := range fr.order {
		if l.blocks[b] && b != h {
			rest = append(rest, b)
		}
	}
	fr.region(rest, l)
	for k, p := range h.Preds {
		if l.blocks[p] {
			if x := fr.in[[2]int{h.Index, k}]; x != nil {
				latch = append(latch, x)
			}
		}
	}
	for _, b := range fr.order {
		if l.blocks[b] {
			continue
		}
		for k, p := range b.Preds {
			if l.blocks[p] {
				if x := fr.in[[2]int{b.Index, k}]; x != nil {
					exits = append(exits, gexit{b, k, p, x, nil})
				}
			}
		}
	}
	clear()
	return latch, exits
}

func (fr *gframe) joinEdges(es []*gedge) *gedge {
	e := fr.e
	r := &gedge{guard: es[0].guard, st: es[0].st, phi: es[0].phi, env: es[0].env}
	for _, x := range es[1:] {
		n := &gedge{guard: e.or(r.guard, x.guard), st: e.merge(x.guard, x.st, r.st)}
		if len(x.phi) > 0 {
			n.phi = map[*ssa.Phi]gval{}
			for p, v := range x.phi {
				n.phi[p] = e.iteV(x.guard, v, r.phi[p])
			}
		}
		if len(x.env) > 0 || len(r.env) > 0 {
			n.env = map[ssa.Value]gval{}
			for v := range r.env {
				n.env[v] = r.env[v]
			}
			for v, y := range x.env {
				if o := n.env[v]; o != nil {
					n.env[v] = e.iteV(x.guard, y, o)
				} else {
					n.env[v] = y
				}
			}
		}
		r = n
	}
	return r
}

// liveOut are values of the loop that are used after it.
func (fr *gframe) liveOut(l *gloop) []ssa.Value {
	var out []ssa.Value
	for _, b := range fr.order {
		if !l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if !l.blocks[r.Block()] {
					out = append(out, v)
					break
				}
			}
		}
	}
	return out
}

func (fr *gframe) loop(l *gloop) {
	e := fr.e
	h := l.header
	g0, st0 := fr.enter(h)
	if g0 == e.F || st0 == nil {
		return
	}
	st0 = st0.clone()
	// what the body uses matters only when the loop is entered
	if g0 != e.T {
		saved := map[ssa.Value]gval{}
		for b := range l.blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if fr.env[*op] == nil || saved[*op] != nil {
						continue
					}
					switch v := (*op).(type) {
					case *ssa.Parameter:
					case ssa.Instruction:
						if l.blocks[v.Block()] {
							continue
						}
					default:
						continue
					}
					saved[*op] = fr.env[*op]
					fr.env[*op] = e.constrainV(fr.env[*op], g0)
				}
			}
		}
		defer func() {
			for v, x := range saved {
				fr.env[v] = x
			}
		}()
	}
	init := map[*ssa.Phi]gval{}
	var phis []*ssa.Phi
	usesNext := false
	for _, in := range h.Instrs {
		switch in := in.(type) {
		case *ssa.Phi:
			init[in] = fr.env[in]
			phis = append(phis, in)
		case *ssa.Next:
			usesNext = true
		}
	}
	if !usesNext && fr.unroll(l, init, g0, st0) {
		return
	}
	fr.summarise(l, phis, init, g0, st0)
}

type gsnap struct {
	events []gevent
	allocN map[string]int
	lvl    int
	rets   int
	defers int
	loopD  int
}

func copyCounts(m map[string]int) map[string]int {
	out := make(map[string]int, len(m))
	for k, n := range m {
		out[k] = n
	}
	return out
}

func (fr *gframe) snap() gsnap {
	e := fr.e
	return gsnap{append([]gevent{}, e.events...), copyCounts(e.allocN), e.evLevel, len(fr.rets), len(fr.defers), e.loopD}
}

func (fr *gframe) restore(s gsnap) {
	e := fr.e
	e.events, e.allocN, e.evLevel, e.loopD = append([]gevent{}, s.events...), copyCounts(s.allocN), s.lvl, s.loopD
	fr.rets, fr.defers = fr.rets[:s.rets], fr.defers[:s.defers]
}

func (fr *gframe) unroll(l *gloop, init map[*ssa.Phi]gval, g0 *dd, st0 *gstate) bool {
	e := fr.e
	h := l.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	if l.blocks[h.Succs[0]] == l.blocks[h.Succs[1]] {
		return false
	}
	constCond := func(phis map[*ssa.Phi]gval, st *gstate) bool {
		s := fr.snap()
		defer fr.restore(s)
		for p, v := range phis {
			fr.env[p] = v
		}
		ok := true
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(gvfErr); !is {
						panic(r)
					}
					ok = false
				}
			}()
			for _, in := range h.Instrs {
				switch in.(type) {
				case *ssa.Call, *ssa.Store, *ssa.MapUpdate, *ssa.Defer:
					ok = false
					return
				}
			}
			fr.body(h, e.T, st.clone())
		}()
		for _, s := range h.Succs {
			for k, p := range s.Preds {
				if p == h {
					delete(fr.in, [2]int{s.Index, k})
				}
			}
		}
		if !ok {
			return false
		}
		c, isd := fr.env[iff.Cond].(*dd)
		if !isd {
			if k, isK := iff.Cond.(*ssa.Const); isK && k != nil {
				return false
			}
			return false
		}
		return c == e.T || c == e.F
	}
	if !constCond(init, st0) {
		return false
	}
	s := fr.snap()
	phis, g, st := init, g0, st0
	acc := map[[2]int][]*gedge{}
	tgt := map[[2]int]gexit{}
	var keys [][2]int
	live := fr.liveOut(l)
	for n := 0; ; n++ {
		if n > 80 {
			fr.restore(s)
			return false
		}
		if n > 0 && !constCond(phis, st) {
			fr.restore(s)
			return false
		}
		latch, exits := fr.iterate(l, phis, g, st)
		for _, x := range exits {
			k := [2]int{x.to.Index, x.k}
			if acc[k] == nil {
				keys = append(keys, k)
				tgt[k] = x
			}
			env := map[ssa.Value]gval{}
			for v, y := range x.e.env {
				env[v] = y
			}
			for _, v := range live {
				if fr.env[v] != nil {
					env[v] = fr.env[v]
				}
			}
			x.e.env = env
			acc[k] = append(acc[k], x.e)
		}
		if len(latch) == 0 {
			break
		}
		j := fr.joinEdges(latch)
		if j.guard == e.F {
			break
		}
		phis, g, st = j.phi, j.guard, j.st
		if phis == nil {
			phis = map[*ssa.Phi]gval{}
		}
	}
	for _, k := range keys {
		fr.in[k] = fr.joinEdges(acc[k])
	}
	return true
}

// symbols of this loop in a description
func (e *gvf) hasSym(m map[string]bool, prefix string) bool {
	for k := range m {
		if strings.HasPrefix(k, prefix) {
			return true
		}
	}
	return false
}

func (fr *gframe) nextOf(in *ssa.Next, st *gstate) gval {
	e := fr.e
	if e.loopD == 0 {
		gfail("iteration outside of a loop")
	}
	I := e.term("I", fmt.Sprint(e.loopD-1), types.Typ[types.Int])
	it := asDD(fr.value(in.Iter, st))
	if it.leaf == nil || it.leaf.op != "range" {
		gfail("iteration over one of several values")
	}
	x := it.leaf.args[0]
	if log := e.mapLog(x, st); log != nil {
		x = log
	}
	tup := in.Type().(*types.Tuple)
	more := e.boolVar(e.term("more", "", nil, x, I))
	part := func(i int, op string) gval {
		t := tup.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return e.leaf(e.nilTerm())
		}
		return e.opaque(t, e.term(op, "", t, x, I))
	}
	return gtuple{more, part(1, "iterkey"), part(2, "iterval")}
}

func (fr *gframe) summarise(l *gloop, phis []*ssa.Phi, init map[*ssa.Phi]gval, g0 *dd, st0 *gstate) {
	e := fr.e
	D := e.loopD
	if D > 9 {
		gfail("loops nested too deeply")
	}
	ds := fmt.Sprint(D)
	intT := types.Typ[types.Int]
	I := e.term("I", ds, intT)
	M := e.term("M", ds, intT)
	e.loopD++
	abort0 := fr.abort
	defer func() { e.loopD = D }()

	// the state that iterations hand on
	var carries []*gcarry
	names := map[string]int{}
	mkName := func(s string) string {
		names[s]++
		if names[s] > 1 {
			return fmt.Sprintf("%s#%d", s, names[s])
		}
		return s
	}
	byPhi := map[*ssa.Phi]*gcarry{}
	for _, p := range phis {
		t := p.Type()
		c := &gcarry{name: mkName("p:" + typeKey(t)), phi: p, typ: t, init: init[p], kind: 'p'}
		c.sym = e.term("C", ds+"."+c.name, t)
		byPhi[p] = c
		carries = append(carries, c)
	}
	value := map[*ssa.Phi]gval{}
	for _, p := range phis {
		value[p] = e.opaque(p.Type(), byPhi[p].sym)
	}
	st := st0.clone()
	memC := map[gloc]*gcarry{}
	kept := map[gloc]bool{}
	verC := map[*gterm]*gcarry{}
	dir, start := "while", gval(nil)
	var descPhi *ssa.Phi
	classified := false
	isLocal := func(r *gterm) bool { return r.op == "alloc" && !e.allocKnown(r, st0) }
	mine := func(m map[string]bool) bool {
		for k := range m {
			if symDepth(k) == ds {
				return true
			}
		}
		return false
	}
	var latch *gedge
	var exits []gexit
	base := fr.snap()
	var bodyEvents []gevent
	var elems []gwrite
	for round := 0; ; round++ {
		if round > 8 {
			gfail("loop does not stabilise in %s", fr.fn)
		}
		fr.restore(base)
		e.loopD = D + 1
		e.events = nil
		e.evLevel++
		var ls []*gedge
		fr.abort = e.F
		ls, exits = fr.iterate(l, value, e.T, st)
		if fr.abort != e.F {
			exits = append(exits, gexit{nil, 0, nil, &gedge{guard: fr.abort, st: st.clone()}, nil})
		}
		bodyEvents = e.events
		latch = nil
		if len(ls) > 0 {
			latch = fr.joinEdges(ls)
		}
		again := false
		if latch != nil {
			// what iterations change in memory
			var locs []gloc
			for k := range latch.st.mem {
				locs = append(locs, k)
			}
			sort.Slice(locs, func(i, j int) bool {
				if locs[i].path != locs[j].path {
					return locs[i].path < locs[j].path
				}
				return locs[i].root.id < locs[j].root.id
			})
			elems = nil
			for _, k := range locs {
				c := latch.st.mem[k]
				if k.path == "·live" || isLocal(k.root) || memC[k] != nil || kept[k] {
					continue
				}
				if mine(k.root.syms) {
					if _, ok := st.mem[k]; !ok && (c.typ == nil || c.v != e.defaultAt(k, c.typ, st)) {
						elems = append(elems, gwrite{"t:" + k.path, c.v, "", k.root, e.defaultAt(k, c.typ, st)})
					}
					continue
				}
				var old *dd
				if o, ok := st0.mem[k]; ok {
					old = o.v
				} else {
					old = e.defaultAt(k, c.typ, st0)
					if k.path == "·log" {
						old = e.leaf(e.term("maplog", "", nil))
					}
				}
				if old == c.v {
					continue
				}
				t := c.typ
				if t == nil {
					t = types.Typ[types.UnsafePointer]
				}
				nc := &gcarry{name: mkName("m:" + k.path + ":" + typeKey(t)), loc: k, typ: t, init: old, kind: 'm'}
				nc.sym = e.term("C", ds+"."+nc.name, t)
				memC[k] = nc
				carries = append(carries, nc)
				st.mem[k] = gcell{e.scalar(t, nc.sym), c.typ}
				again = true
			}
			var vs []*gterm
			for k := range latch.st.ver {
				vs = append(vs, k)
			}
			sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
			for _, k := range vs {
				v := latch.st.ver[k]
				if verC[k] != nil || v == st0.ver[k] {
					continue
				}
				if mine(k.syms) {
					elems = append(elems, gwrite{"v:", v, "", k, nil})
					continue
				}
				old := st0.ver[k]
				if old == nil {
					old = e.leaf(e.nilTerm())
				}
				nc := &gcarry{name: mkName("v:"), ver: k, typ: types.Typ[types.UnsafePointer], init: old, kind: 'v'}
				nc.sym = e.term("C", ds+"."+nc.name, nc.typ)
				verC[k] = nc
				carries = append(carries, nc)
				st.ver[k] = e.leaf(nc.sym)
				again = true
			}
		}
		if again {
			continue
		}
		if !classified {
			classified = true
			if latch == nil {
				break
			}
			changed := false
			// what only looked as though iterations change it
			for i := 0; i < len(carries); i++ {
				c := carries[i]
				if c.kind != 'm' {
					continue
				}
				x, ok := latch.st.mem[c.loc]
				o, had := st0.mem[c.loc]
				if !ok || !had || x.v.leaf != c.sym {
					continue
				}
				st.mem[c.loc] = o
				delete(memC, c.loc)
				kept[c.loc] = true
				carries = append(carries[:i:i], carries[i+1:]...)
				i--
				changed = true
			}
			var asc0, ascV, desc []*ssa.Phi
			for _, p := range phis {
				if !isIntType(p.Type()) {
					continue
				}
				d, ok := latch.phi[p].(*dd)
				if !ok || d.leaf == nil {
					continue
				}
				b, n := e.lin(d.leaf)
				if b != byPhi[p].sym {
					continue
				}
				iv := asDD(init[p])
				switch {
				case n == 1 && iv.leaf != nil && iv.leaf.op == "const":
					asc0 = append(asc0, p)
				case n == 1:
					ascV = append(ascV, p)
				case n == -1:
					desc = append(desc, p)
				}
			}
			drop := func(p *ssa.Phi) {
				for i, c := range carries {
					if c.phi == p {
						carries = append(carries[:i:i], carries[i+1:]...)
						break
					}
				}
			}
			switch {
			case len(asc0) > 0:
				dir = "+"
				for _, p := range asc0 {
					_, n := e.lin(asDD(init[p]).leaf)
					value[p] = e.leaf(e.mkLin(I, n))
					drop(p)
				}
				changed = true
			case len(desc) == 1 && asDD(init[desc[0]]).leaf != nil:
				dir, start = "-", init[desc[0]]
				descPhi = desc[0]
				value[desc[0]] = e.leaf(M)
				drop(desc[0])
				changed = true
			case len(ascV) == 1:
				dir, start = "+from", init[ascV[0]]
				value[ascV[0]] = e.leaf(M)
				drop(ascV[0])
				changed = true
			}
			// slices that lose their first element
			for _, p := range phis {
				d, ok := latch.phi[p].(*dd)
				if !ok || d.leaf == nil || d.leaf.op != "sub" || len(d.leaf.args) != 2 || d.leaf.args[0] != byPhi[p].sym {
					continue
				}
				if n, ok := gConstInt(d.leaf.args[1]); !ok || n != 1 || dir != "+" && dir != "while" {
					continue
				}
				iv, ok := init[p].(*dd)
				if !ok || iv.leaf == nil {
					continue
				}
				dir = "+"
				value[p] = e.leaf(e.term("sub", "", p.Type(), iv.leaf, I))
				drop(p)
				changed = true
			}
			for i := 0; i < len(carries); i++ {
				c := carries[i]
				if c.kind != 'm' || dir != "+" && dir != "while" || c.init == nil {
					continue
				}
				iv, ok := c.init.(*dd)
				x, ok2 := latch.st.mem[c.loc]
				if !ok || !ok2 || iv.leaf == nil || x.v.leaf == nil || x.v.leaf.op != "sub" || len(x.v.leaf.args) != 2 || x.v.leaf.args[0] != c.sym {
					continue
				}
				if n, ok := gConstInt(x.v.leaf.args[1]); !ok || n != 1 {
					continue
				}
				dir = "+"
				st.mem[c.loc] = gcell{e.leaf(e.term("sub", "", c.typ, iv.leaf, I)), x.typ}
				carries = append(carries[:i:i], carries[i+1:]...)
				i--
				changed = true
			}
			if changed {
				continue
			}
		}
		break
	}
	fr.restoreKeep(base)
	e.loopD = D + 1

	// conditions
	latchG := e.F
	if latch != nil {
		latchG = latch.guard
	}
	var normal *gexit
	var others []*gexit
	for i := range exits {
		x := &exits[i]
		if x.from == l.header && normal == nil {
			normal = x
		} else {
			others = append(others, x)
		}
	}
	if dir == "while" && normal != nil {
		// leaving before anything is done in an iteration is part of the
		// condition of the loop
		var rest []*gexit
		for _, x := range others {
			if fr.sameExit(normal, x, bodyEvents) {
				normal.e.guard = e.or(normal.e.guard, x.e.guard)
			} else {
				rest = append(rest, x)
			}
		}
		others = rest
	}
	contG := e.T
	if normal != nil {
		contG = e.not(normal.e.guard)
	}
	for _, c := range carries {
		switch c.kind {
		case 'p':
			c.next = e.opaque(c.typ, c.sym)
			if latch != nil {
				c.next = e.iteV(latchG, latch.phi[c.phi], c.next)
			}
		case 'm':
			c.next = e.scalar(c.typ, c.sym)
			if latch != nil {
				if x, ok := latch.st.mem[c.loc]; ok {
					c.next = e.iteV(latchG, x.v, c.next)
				}
			}
		case 'v':
			c.next = e.leaf(c.sym)
			if latch != nil {
				if x := latch.st.ver[c.ver]; x != nil {
					c.next = e.iteV(latchG, x, c.next)
				}
			}
		}
		if latch != nil {
			c.next = e.freeze(c.next, latch.st, isLocal)
		}
	}
	// a descending loop over 0 <= I <= start
	var toI *gsub
	domain := e.T
	var down *gterm // what it counts is this at the end
	var shift int64
	var rev *gterm
	if dir == "-" {
		if k, ok := e.atLeast(contG, M); ok {
			toI, shift = e.newSub(map[*gterm]*dd{M: e.leaf(e.mkLin(I, k))}), k
			b, n := e.lin(asDD(start).leaf)
			if b == nil || b.op == "len" && n >= k-1 {
				down = e.intc(k - 1)
			}
			domain = e.less(I, e.mkLin(b, n+1-k))
			contG = domain
			start = nil
		}
	}
	if dir == "-" && toI != nil && onlyCounts(descPhi, l) {
		dir = "+"
	}
	if dir == "-" && toI == nil {
		dir = "-m" // what it counts can become negative
	}
	if dir == "+" && start == nil && latch != nil {
		if r := fr.reflected(l, D, I, contG, latch, exits, carries, bodyEvents, elems); r != nil {
			toI, dir, domain = r, "-", contG
			for t := range r.m {
				if t.op == "-" {
					rev = t
				}
			}
		}
	}
	norm := func(d *dd) *dd {
		if toI == nil {
			return d
		}
		return e.and(domain, toI.dd(d))
	}
	if toI != nil {
		latchG = norm(latchG)
		for _, c := range carries {
			c.next = e.iteV(domain, toI.val(c.next), e.opaque(c.typ, c.sym))
		}
	}
	byName := map[string]*gcarry{}
	for _, c := range carries {
		byName["C"+ds+"."+c.name] = c
	}
	sameV := func(a, b gval) bool { return a.key() == b.key() }

	// recs are the recurrences a value depends on
	recs := func(vs ...gval) []gval {
		need := map[string]bool{}
		var work []gval
		work = append(work, vs...)
		for len(work) > 0 {
			v := work[len(work)-1]
			work = work[:len(work)-1]
			for k := range vsymsT(v) {
				if c := byName[k]; c != nil && !need[k] {
					need[k] = true
					work = append(work, c.next)
				}
			}
		}
		var cs []*gcarry
		for _, k := range sortedSyms(need) {
			cs = append(cs, byName[k])
		}
		return e.canonRecs(ds, vs, cs, byName)
	}
	withStart := func(vals []gval) []gval {
		if start != nil {
			return append(vals, start)
		}
		return vals
	}
	anyT := func(b *dd) *dd {
		if b == e.F {
			return e.F
		}
		w := withStart([]gval{b})
		r := recs(w...)
		tag := ds
		if len(r) > len(w) {
			tag += " " + dir
		}
		return e.boolVar(e.termv("any", tag, types.Typ[types.Bool], nil, r))
	}
	firstT := func(b *dd, d string) *gterm {
		return e.termv("first", ds+" "+d, intT, nil, recs(withStart([]gval{b})...))
	}
	flip := map[string]string{"+": "-", "-": "+", "while": "end", "+from": "-from", "-m": "+m"}

	var finalMemo map[*gcarry]gval
	var final func(c *gcarry) gval
	final = func(c *gcarry) gval {
		if v := finalMemo[c]; v != nil {
			return v
		}
		v := fr.finalOf(c, D, dir, I, anyT, firstT, flip[dir], recs, withStart)
		finalMemo[c] = v
		return v
	}
	upto := func(c *gcarry, F *gterm) gval {
		if sameV(c.next, e.opaque(c.typ, c.sym)) {
			return c.init
		}
		name := e.leaf(e.strc(c.name))
		t := e.termv("upto", ds+" "+dir, c.typ, []*gterm{F}, recs(withStart([]gval{name, c.init, c.next})...))
		return e.opaque(c.typ, t)
	}
	mkSub := func(i *gterm, f func(*gcarry) gval) *gsub {
		m := map[*gterm]*dd{I: e.leaf(i), M: e.leaf(e.mkLin(i, shift))}
		if rev != nil {
			m[rev] = e.leaf(e.mkLin(i, 1))
		}
		for _, c := range carries {
			v := f(c)
			if sv, ok := v.(*gsv); ok {
				for j, p := range e.parts(sv.typ) {
					addFieldSub(e, m, e.fieldTerm(c.sym, p.key, p.typ), sv.f[j])
				}
				continue
			}
			m[c.sym] = asDD(v)
		}
		return e.newSub(m)
	}
	live := fr.liveOut(l)
	gc := g0
	var out [][2]int
	edges := map[[2]int][]*gedge{}
	fr.abort = abort0
	emit := func(x *gexit, g *dd, s *gsub) {
		if x.to == nil {
			fr.abort = e.or(fr.abort, e.and(gc, g))
			return
		}
		ne := &gedge{guard: e.and(gc, g), st: s.state(x.e.st), env: map[ssa.Value]gval{}}
		if x.e.phi != nil {
			ne.phi = map[*ssa.Phi]gval{}
			for p, v := range x.e.phi {
				ne.phi[p] = s.val(v)
			}
		}
		for v, y := range x.e.env {
			ne.env[v] = s.val(y)
		}
		for _, v := range live {
			if y := fr.env[v]; y != nil {
				if _, ok := ne.env[v]; !ok {
					if x != normal && x.b != nil && x.b.leaf == nil {
						y = e.constrainV(y, x.b)
					}
					ne.env[v] = s.val(y)
				}
			}
		}
		if ne.guard != e.F {
			k := [2]int{x.to.Index, x.k}
			if edges[k] == nil {
				out = append(out, k)
			}
			edges[k] = append(edges[k], ne)
		}
	}
	evs := e.canonEvents(bodyEvents)
	sort.Slice(elems, func(i, j int) bool {
		if elems[i].name != elems[j].name {
			return elems[i].name < elems[j].name
		}
		return elems[i].root.id < elems[j].root.id
	})
	finish := func(restr func(*dd) *dd) {
		// events
		if len(evs) > 0 || len(elems) > 0 {
			var vals []gval
			var all []gval
			for _, ev := range evs {
				g, t := restr(norm(ev.guard)), gval(e.leaf(ev.t))
				if g == e.F {
					continue
				}
				if toI != nil {
					t = toI.val(t)
				}
				vals = append(vals, g, t)
			}
			for _, w := range elems {
				v := w.v
				if w.old != nil && restr(e.ite(latchG, asDD(v), w.old)) == restr(w.old) {
					continue // what was there
				}
				if toI != nil {
					v = toI.val(v)
				}
				if d, ok := v.(*dd); ok {
					v = restr(e.ite(latchG, d, e.bot))
				}
				root := gval(e.leaf(w.root))
				if toI != nil {
					root = toI.val(root)
				}
				vals = append(vals, e.leaf(e.strc(w.name)), root, v)
			}
			all = append(all, vals...)
			if len(vals) > 0 {
				all = append(all, contG)
				var B = e.F
				for _, x := range others {
					B = e.or(B, x.b)
				}
				all = append(all, B)
				ev := e.termv("loopev", ds+" "+dir, nil, nil, recs(withStart(all)...))
				e.loopD = D
				e.record(gc, ev)
				e.loopD = D + 1
			}
		}
		e.loopD = D
		B := e.F
		for _, x := range others {
			B = e.or(B, x.b)
		}
		if normal != nil {
			any := anyT(B)
			end := e.endTerm(ds, dir, I, contG, recs, withStart)
			s := mkSub(end, final)
			if down != nil {
				s.m[M] = e.leaf(down)
			}
			emit(normal, e.not(any), s)
			if any == e.F {
				return
			}
			fr.breaks(others, any, B, firstT(B, dir), mkSub, upto, toI, emit)
			return
		}
		if len(others) == 0 {
			return // never ends, or panics
		}
		fr.breaks(others, e.T, B, firstT(B, dir), mkSub, upto, toI, emit)
	}
	for _, x := range others {
		x.b = norm(x.e.guard)
	}
	// of several bounds that end the loop in the same way, one is the condition
	same := dir == "+" && normal != nil && start == nil && len(others) > 0
	for _, x := range others {
		same = same && fr.sameExit(normal, x, bodyEvents)
	}
	if same {
		x := others[0]
		stop := e.not(contG)
		for _, y := range others {
			stop = e.or(stop, y.b)
		}
		var best *dvar
		for _, v := range e.varsOf(stop) {
			if v.kind != 'b' || v.t.op != "lt" || v.t.s != "0" || v.t.args[0] != I || mine(v.t.args[1].syms) {
				continue
			}
			if e.under(stop, v, 0, nil, 0) == e.T && (best == nil || v.t.id < best.t.id) {
				best = v
			}
		}
		if best != nil {
			contG = e.mk(best, nil, nil, []*dd{e.F, e.T})
			x.b = e.and(contG, stop)
			others = others[:1]
		}
	}

	// What does not change from one iteration to the next is decided first.
	type lcase struct {
		v   *dvar
		b   int
		key *gterm
		n   int64
		g   *dd
	}
	contG0, b0, next0 := contG, map[*gexit]*dd{}, map[*gcarry]gval{}
	for _, x := range others {
		b0[x] = x.b
	}
	for _, c := range carries {
		next0[c] = c.next
	}
	nCases := 0
	var cases func(path []lcase, g *dd)
	cases = func(path []lcase, g *dd) {
		restr := func(d *dd) *dd {
			for _, p := range path {
				d = e.under(d, p.v, p.b, p.key, p.n)
			}
			return d
		}
		contG = restr(contG0)
		all := []*dd{contG}
		for _, x := range others {
			x.b = restr(b0[x])
			all = append(all, x.b)
		}
		for _, c := range carries {
			if d, ok := next0[c].(*dd); ok {
				d = restr(d)
				c.next = d
				all = append(all, d)
			}
		}
		for _, ev := range evs {
			all = append(all, restr(norm(ev.guard)))
		}
		var v *dvar
		if len(path) < 6 && nCases < 64 {
			for _, d := range all {
				for _, x := range e.varsOf(d) {
					if !mine(x.t.syms) && (v == nil || x.ord < v.ord) {
						v = x
					}
				}
			}
		}
		if v == nil {
			nCases++
			gc = e.and(g0, g)
			if gc != e.F {
				finalMemo = map[*gcarry]gval{}
				finish(restr)
			}
			return
		}
		keys, cuts := e.casesOf(v, all)
		switch v.kind {
		case 'b':
			t := e.mk(v, nil, nil, []*dd{e.F, e.T})
			cases(append(path[:len(path):len(path)], lcase{v: v, b: 1}), e.and(g, t))
			cases(append(path[:len(path):len(path)], lcase{v: v, b: 0}), e.and(g, e.not(t)))
		case 'e':
			rest := g
			for _, k := range keys {
				t := e.mk(v, []*gterm{k}, nil, []*dd{e.T, e.F})
				cases(append(path[:len(path):len(path)], lcase{v: v, key: k}), e.and(g, t))
				rest = e.and(rest, e.not(t))
			}
			cases(append(path[:len(path):len(path)], lcase{v: v}), rest)
		default:
			rest := g
			for _, n := range cuts {
				t := e.mk(v, nil, []int64{n}, []*dd{e.T, e.F})
				cases(append(path[:len(path):len(path)], lcase{v: v, n: n - 1}), e.and(rest, t))
				rest = e.and(rest, e.not(t))
			}
			cases(append(path[:len(path):len(path)], lcase{v: v, n: math.MaxInt64}), rest)
		}
	}
	cases(nil, e.T)
	e.loopD = D
	for _, k := range out {
		fr.in[k] = fr.joinEdges(edges[k])
	}
}

// onlyCounts: a counter is used for nothing but the number of iterations.
func onlyCounts(p *ssa.Phi, l *gloop) bool {
	if p == nil || p.Block() != l.header {
		return false
	}
	for _, r := range *p.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.BinOp:
			for _, q := range *r.Referrers() {
				switch q := q.(type) {
				case *ssa.If:
					if q.Block() != l.header {
						return false
					}
				case *ssa.Phi:
					if q != p {
						return false
					}
				case *ssa.DebugRef:
				default:
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// sameExit: leaving the loop at x is like leaving it at its head.
func (fr *gframe) sameExit(normal, x *gexit, evs []gevent) bool {
	e := fr.e
	if x.to == nil || x.to != normal.to {
		return false
	}
	for p, v := range x.e.phi {
		if w := normal.e.phi[p]; w == nil || w.key() != v.key() {
			return false
		}
	}
	for _, ev := range evs {
		if e.and(ev.guard, x.e.guard) != e.F {
			return false
		}
	}
	for k, c := range normal.e.st.mem {
		if d, ok := x.e.st.mem[k]; !ok || d.v != c.v {
			return false
		}
	}
	for k, c := range x.e.st.mem {
		if _, ok := normal.e.st.mem[k]; !ok && k.path != "·live" && (c.typ == nil || c.v != e.defaultAt(k, c.typ, normal.e.st)) {
			return false
		}
	}
	for k, v := range normal.e.st.ver {
		if x.e.st.ver[k] != v {
			return false
		}
	}
	for k, v := range x.e.st.ver {
		if normal.e.st.ver[k] != v {
			return false
		}
	}
	return true
}

// reflected: a loop that counts up over 0 <= I < n and uses only n-1-I is one
// that counts down.
func (fr *gframe) reflected(l *gloop, D int, I *gterm, contG *dd, latch *gedge, exits []gexit, carries []*gcarry, evs []gevent, elems []gwrite) *gsub {
	e := fr.e
	var lt, N *gterm
	for _, t := range e.leavesOfTests(contG) {
		if t.op == "lt" && t.args[0] == I && t.s == "0" && t.args[1].op == "len" && contG == e.less(I, t.args[1]) {
			lt, N = t, t.args[1]
		}
	}
	if lt == nil {
		return nil
	}
	rev := e.term("-", "", types.Typ[types.Int], N, I)
	J := e.term("J", fmt.Sprint(D), types.Typ[types.Int])
	s := e.newSub(map[*gterm]*dd{rev: e.leaf(e.mkLin(J, 1)), lt: e.less(J, N)})
	used, bad := false, false
	check := func(v gval) {
		if v == nil {
			return
		}
		for k := range vsymsT(s.val(v)) {
			switch k {
			case "J" + fmt.Sprint(D):
				used = true
			case "I" + fmt.Sprint(D), "M" + fmt.Sprint(D):
				bad = true
			}
		}
	}
	check(latch.guard)
	for _, c := range carries {
		check(c.next)
	}
	for _, ev := range evs {
		check(ev.guard)
		check(e.leaf(ev.t))
	}
	for _, w := range elems {
		check(w.v)
	}
	for i := range exits {
		x := &exits[i]
		if x.from == l.header {
			continue
		}
		check(x.e.guard)
		for _, v := range x.e.phi {
			check(v)
		}
		for _, v := range x.e.env {
			check(v)
		}
	}
	if !used || bad {
		return nil
	}
	return e.newSub(map[*gterm]*dd{rev: e.leaf(e.mkLin(I, 1)), lt: e.less(I, N)})
}

// atLeast: the condition is k <= x.
func (e *gvf) atLeast(d *dd, x *gterm) (int64, bool) {
	if d.leaf != nil || d.v.kind != 'i' || d.v.t != x || len(d.cuts) != 1 || d.kids[0] != e.F || d.kids[1] != e.T {
		return 0, false
	}
	return d.cuts[0], true
}

// under is d in one case of a variable.
func (e *gvf) under(d *dd, v *dvar, b int, key *gterm, n int64) *dd {
	memo := map[*dd]*dd{}
	var rec func(d *dd) *dd
	rec = func(d *dd) *dd {
		if d.leaf != nil {
			return d
		}
		if r := memo[d]; r != nil {
			return r
		}
		var r *dd
		if d.v == v {
			r = rec(cof(d, v, b, key, n))
		} else {
			kids := make([]*dd, len(d.kids))
			for i := range kids {
				kids[i] = rec(d.kids[i])
			}
			r = e.mk(d.v, d.keys, d.cuts, kids)
		}
		memo[d] = r
		return r
	}
	return rec(d)
}

// varsOf lists the variables that a diagram tests.
func (e *gvf) varsOf(d *dd) []*dvar {
	var out []*dvar
	seen := map[*dd]bool{}
	var rec func(d *dd)
	rec = func(d *dd) {
		if seen[d] || d.leaf != nil {
			return
		}
		seen[d] = true
		out = append(out, d.v)
		for _, k := range d.kids {
			rec(k)
		}
	}
	rec(d)
	return out
}

// casesOf lists the constants that diagrams compare a variable with.
func (e *gvf) casesOf(v *dvar, ds []*dd) (keys []*gterm, cuts []int64) {
	seen := map[*dd]bool{}
	sk, sc := map[*gterm]bool{}, map[int64]bool{}
	var rec func(d *dd)
	rec = func(d *dd) {
		if seen[d] || d.leaf != nil {
			return
		}
		seen[d] = true
		if d.v == v {
			for _, k := range d.keys {
				if !sk[k] {
					sk[k] = true
					keys = append(keys, k)
				}
			}
			for _, n := range d.cuts {
				if !sc[n] {
					sc[n] = true
					cuts = append(cuts, n)
				}
			}
		}
		for _, k := range d.kids {
			rec(k)
		}
	}
	for _, d := range ds {
		rec(d)
	}
	sort.Slice(cuts, func(i, j int) bool { return cuts[i] < cuts[j] })
	return keys, cuts
}

func addFieldSub(e *gvf, m map[*gterm]*dd, t *gterm, v gval) {
	if sv, ok := v.(*gsv); ok {
		for j, p := range e.parts(sv.typ) {
			addFieldSub(e, m, e.fieldTerm(t, p.key, p.typ), sv.f[j])
		}
		return
	}
	m[t] = asDD(v)
}

// gfact: what holds of the iteration in which a loop is left.
type gfact struct{ when, holds *dd }

// decide simplifies a condition with what is known where g holds.
func (e *gvf) decide(c, g *dd) *dd {
	if c.leaf != nil || len(e.facts) == 0 {
		return c
	}
	vars := map[*dvar]bool{}
	e.support(c, vars)
	known := g
	for _, f := range e.facts {
		vs := map[*dvar]bool{}
		e.support(f.holds, vs)
		for v := range vs {
			if vars[v] {
				known = e.and(known, e.or(e.not(f.when), f.holds))
				break
			}
		}
	}
	if known == g {
		return c
	}
	if known == e.F {
		return c
	}
	return e.constrain(c, known)
}

func (e *gvf) support(d *dd, vars map[*dvar]bool) {
	seen := map[*dd]bool{}
	var walk func(d *dd)
	walk = func(d *dd) {
		if d.leaf != nil || seen[d] {
			return
		}
		seen[d] = true
		vars[d.v] = true
		for _, k := range d.kids {
			walk(k)
		}
	}
	walk(d)
}

func (fr *gframe) breaks(others []*gexit, any, B *dd, F *gterm, mkSub func(*gterm, func(*gcarry) gval) *gsub, upto func(*gcarry, *gterm) gval, toI *gsub, emit func(*gexit, *dd, *gsub)) {
	e := fr.e
	s := mkSub(F, func(c *gcarry) gval { return upto(c, F) })
	sort.SliceStable(others, func(i, j int) bool { return others[i].b.id < others[j].b.id })
	if bf := s.dd(B); bf.leaf == nil {
		e.facts = append(e.facts, gfact{any, bf})
	}
	rest := any
	for i, x := range others {
		g := rest
		if i < len(others)-1 {
			c := s.dd(x.b)
			g = e.and(rest, c)
			rest = e.and(rest, e.not(c))
		}
		y := *x
		if toI != nil {
			ne := *x.e
			ne.st = toI.state(x.e.st)
			if x.e.phi != nil {
				ne.phi = map[*ssa.Phi]gval{}
				for p, v := range x.e.phi {
					ne.phi[p] = toI.val(v)
				}
			}
			y.e = &ne
		}
		if x.b.leaf == nil {
			// what is known of the iteration in which the loop is left
			ne := *y.e
			ne.st = e.constrainState(ne.st, x.b)
			if ne.phi != nil {
				m := map[*ssa.Phi]gval{}
				for p, v := range ne.phi {
					m[p] = e.constrainV(v, x.b)
				}
				ne.phi = m
			}
			m := map[ssa.Value]gval{}
			for p, v := range ne.env {
				m[p] = e.constrainV(v, x.b)
			}
			ne.env = m
			y.e = &ne
		}
		emit(&y, g, s)
	}
}

// restoreKeep restores all but what the last evaluation of the body computed.
func (fr *gframe) restoreKeep(s gsnap) {
	e := fr.e
	e.events, e.evLevel, e.loopD = append([]gevent{}, s.events...), s.lvl, s.loopD
	fr.rets, fr.defers = fr.rets[:s.rets], fr.defers[:s.defers]
}

// vsymsT: as vsyms, for any value.
func vsymsT(v gval) map[string]bool {
	if t, ok := v.(gtuple); ok {
		var s map[string]bool
		for _, x := range t {
			s = symUnion(s, vsymsT(x))
		}
		return s
	}
	return vsyms(v)
}

func gConstInt(t *gterm) (int64, bool) {
	if t.op != "const" {
		return 0, false
	}
	return constant.Int64Val(constant.ToInt(t.c))
}

// endTerm is the number of iterations of a loop that runs to its end.
func (e *gvf) endTerm(ds, dir string, I *gterm, contG *dd, recs func(...gval) []gval, withStart func([]gval) []gval) *gterm {
	if dir == "+" {
		for _, t := range e.leavesOfTests(contG) {
			if t.op == "lt" && t.args[0] == I && t.s == "0" && t.args[1].op == "len" && contG == e.less(I, t.args[1]) {
				return t.args[1]
			}
		}
	}
	return e.termv("end", ds+" "+dir, types.Typ[types.Int], nil, recs(withStart([]gval{contG})...))
}

// canonRecs gives the recurrences that values depend on names that do not
// depend on where the program keeps them, and adds the recurrences to the
// values.
func (e *gvf) canonRecs(ds string, vs []gval, cs []*gcarry, byName map[string]*gcarry) []gval {
	bind := func(m map[*gterm]*dd, c *gcarry, name string) {
		addFieldSub(e, m, c.sym, e.opaque(c.typ, e.term("C", name, c.typ)))
	}
	masks := map[*gterm]*dd{}
	for _, c := range cs {
		bind(masks, c, ds+".?"+typeKey(c.typ))
	}
	mask := e.newSub(masks)
	key := map[*gcarry]string{}
	for _, c := range cs {
		key[c] = typeKey(c.typ) + " " + c.init.key() + " " + mask.val(c.next).key()
	}
	sort.SliceStable(cs, func(i, j int) bool { return key[cs[i]] < key[cs[j]] })
	m := map[*gterm]*dd{}
	names := map[string]string{}
	for i, c := range cs {
		n := fmt.Sprintf("#%d:%s", i, typeKey(c.typ))
		names[c.name] = n
		bind(m, c, ds+"."+n)
	}
	s := e.newSub(m)
	var out []gval
	for _, v := range vs {
		if d, ok := v.(*dd); ok && d.leaf != nil && d.leaf.op == "const" && d.leaf.c.Kind() == constant.String {
			k := constant.StringVal(d.leaf.c)
			if c := byName["C"+ds+"."+k]; c != nil {
				n := names[k]
				if n == "" {
					n = "#:" + typeKey(c.typ)
				}
				out = append(out, e.leaf(e.strc(n)))
				continue
			}
		}
		out = append(out, s.val(v))
	}
	for _, c := range cs {
		out = append(out, e.leaf(e.strc(names[c.name])), c.init, s.val(c.next))
	}
	return out
}

// leavesOfTests lists the terms a diagram tests.
func (e *gvf) leavesOfTests(d *dd) []*gterm {
	var out []*gterm
	seen := map[*dd]bool{}
	var rec func(d *dd)
	rec = func(d *dd) {
		if seen[d] || d.leaf != nil {
			return
		}
		seen[d] = true
		out = append(out, d.v.t)
		for _, k := range d.kids {
			rec(k)
		}
	}
	rec(d)
	return out
}

// finalOf describes what a carried value is after the last iteration.
func (fr *gframe) finalOf(c *gcarry, D int, dir string, I *gterm, anyT func(*dd) *dd, firstT func(*dd, string) *gterm, back string,
	recs func(...gval) []gval, withStart func([]gval) []gval) gval {
	e := fr.e
	ds := fmt.Sprint(D)
	general := func() gval {
		name := e.leaf(e.strc(c.name))
		t := e.termv("fold", ds+" "+dir, c.typ, nil, recs(withStart([]gval{name, c.init, c.next})...))
		return e.opaque(c.typ, t)
	}
	if c.next.key() == e.opaque(c.typ, c.sym).key() {
		return c.init
	}
	next, ok := c.next.(*dd)
	if !ok {
		return general()
	}
	iv := asDD(c.init)
	hasC := func(m map[string]bool) bool { return e.hasSym(m, "C"+ds+".") }
	// truth values
	if b, isB := c.typ.Underlying().(*types.Basic); isB && b.Info()&types.IsBoolean != 0 {
		v := e.variable('b', c.sym)
		set := func(x *dd) *dd { return e.restrict(next, v, x) }
		n1, n0 := set(e.T), set(e.F)
		if hasC(n1.syms) || hasC(n0.syms) {
			return general()
		}
		setT := e.and(n1, n0)
		setF := e.and(e.not(n1), e.not(n0))
		if e.and(n0, e.not(n1)) != e.F {
			return general() // negated
		}
		switch {
		case setF == e.F:
			return e.or(iv, anyT(setT))
		case setT == e.F:
			return e.and(iv, e.not(anyT(setF)))
		}
		w := e.or(setT, setF)
		last := firstT(w, back)
		s := e.newSub(map[*gterm]*dd{I: e.leaf(last)})
		return e.ite(anyT(w), s.dd(setT), iv)
	}
	for _, t := range e.leavesOfTests(next) {
		if hasC(t.syms) {
			return general()
		}
	}
	appends, writes := true, true
	nspread := 0
	for _, x := range e.leaves(next) {
		if x == c.sym {
			continue
		}
		if x.op == "seq" && len(x.vals) > 0 && isSpread(x.vals[0]) && asDD(x.vals[0]).leaf.args[0] == c.sym {
			for _, v := range x.vals[1:] {
				if hasC(vsyms(v)) {
					appends = false
				}
			}
			nspread++
		} else {
			appends = false
		}
		if hasC(x.syms) {
			writes = false
		}
	}
	if appends && nspread > 0 {
		step := e.bind(next, func(x *gterm) *dd {
			if x == c.sym {
				return e.leaf(e.termv("seq", "", c.typ, nil, nil))
			}
			return e.leaf(e.termv("seq", "", c.typ, nil, x.vals[1:]))
		})
		step = e.deepUnder(step)
		if x := e.wholeOf(step, dir, I, c.typ); x != nil {
			return e.appendVals(c.typ, iv, e.leaf(x))
		}
		comp := e.termv("comp", ds+" "+dir, c.typ, nil, withStart([]gval{step}))
		return e.appendVals(c.typ, iv, e.leaf(e.termv("seq", "", c.typ, nil, []gval{e.leaf(e.term("spread", "", nil, comp))})))
	}
	if writes {
		w := e.bind(next, func(x *gterm) *dd {
			if x == c.sym {
				return e.F
			}
			return e.T
		})
		last := firstT(w, back)
		s := e.newSub(map[*gterm]*dd{I: e.leaf(last)})
		var ls []*gterm
		for _, x := range e.leaves(next) {
			if x != c.sym {
				ls = append(ls, x)
			}
		}
		sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
		v := s.term(ls[len(ls)-1])
		for i := len(ls) - 2; i >= 0; i-- {
			x := ls[i]
			is := e.bind(next, func(y *gterm) *dd {
				if y == x {
					return e.T
				}
				return e.F
			})
			v = e.ite(s.dd(is), s.term(x), v)
		}
		return e.ite(anyT(w), v, iv)
	}
	return general()
}

// wholeOf: an iteration that adds x[I], for every index of x, adds x.
func (e *gvf) wholeOf(step *dd, dir string, I *gterm, typ types.Type) *gterm {
	st, ok := typ.Underlying().(*types.Slice)
	if !ok || dir != "+" || step.leaf != nil || len(step.kids) != 2 {
		return nil
	}
	t := step.v.t
	if t.op != "lt" || t.args[0] != I || t.s != "0" || t.args[1].op != "len" {
		return nil
	}
	x := t.args[1].args[0]
	if e.hasSym(x.syms, I.op+I.s) {
		return nil
	}
	one := e.leaf(e.termv("seq", "", typ, nil, []gval{e.opaque(st.Elem(), e.elemTerm(x, I, nil, nil))}))
	if step != e.ite(e.less(I, t.args[1]), one, e.leaf(e.termv("seq", "", typ, nil, nil))) {
		return nil
	}
	return x
}

// deepUnder simplifies the elements of the sequences in a diagram by the tests
// under which they are reached.
func (e *gvf) deepUnder(d *dd) *dd {
	type asg struct {
		v      *dvar
		b      int
		key    *gterm
		not    []*gterm
		lo, hi int64
	}
	paths := 0
	narrow := func(d *dd, a asg) *dd {
		memo := map[*dd]*dd{}
		var rec func(d *dd) *dd
		rec = func(d *dd) *dd {
			if d.leaf != nil {
				return d
			}
			if r := memo[d]; r != nil {
				return r
			}
			var r *dd
			kids := make([]*dd, len(d.kids))
			if d.v != a.v || d.v.kind == 'i' {
				for i := range kids {
					kids[i] = rec(d.kids[i])
				}
			}
			switch {
			case d.v != a.v:
				r = e.mk(d.v, d.keys, d.cuts, kids)
			case d.v.kind == 'b':
				r = rec(d.kids[a.b])
			case d.v.kind == 'e' && a.key != nil:
				r = rec(cof(d, d.v, 0, a.key, 0))
			case d.v.kind == 'e':
				var ks []*gterm
				var kd []*dd
			next:
				for i, k := range d.keys {
					for _, n := range a.not {
						if n == k {
							continue next
						}
					}
					ks, kd = append(ks, k), append(kd, rec(d.kids[i]))
				}
				last := rec(d.kids[len(d.kids)-1])
				if len(ks) == 0 {
					r = last
				} else {
					r = e.mk(d.v, ks, nil, append(kd, last))
				}
			default:
				var cs []int64
				var kd []*dd
				for i := range kids {
					lo, hi := int64(math.MinInt64), int64(math.MaxInt64)
					if i > 0 {
						lo = d.cuts[i-1]
					}
					if i < len(d.cuts) {
						hi = d.cuts[i]
					}
					if hi <= a.lo || lo >= a.hi {
						continue
					}
					if len(kd) > 0 {
						cs = append(cs, lo)
					}
					kd = append(kd, kids[i])
				}
				if len(kd) == 1 {
					r = kd[0]
				} else {
					r = e.mk(d.v, nil, cs, kd)
				}
			}
			memo[d] = r
			return r
		}
		return rec(d)
	}
	var elem func(v gval, path []asg) gval
	elem = func(v gval, path []asg) gval {
		switch v := v.(type) {
		case *dd:
			for _, p := range path {
				v = narrow(v, p)
			}
			return v
		case *gsv:
			r := &gsv{typ: v.typ, f: make([]gval, len(v.f))}
			for i := range v.f {
				r.f[i] = elem(v.f[i], path)
			}
			return r
		}
		return v
	}
	var rec func(d *dd, path []asg) *dd
	rec = func(d *dd, path []asg) *dd {
		if d.leaf != nil {
			if d.leaf.op != "seq" || len(path) == 0 {
				return d
			}
			vals := make([]gval, len(d.leaf.vals))
			for i, v := range d.leaf.vals {
				vals[i] = elem(v, path)
			}
			return e.leaf(e.termv("seq", "", d.leaf.typ, d.leaf.args, vals))
		}
		if paths++; paths > 400 {
			return d
		}
		kids := make([]*dd, len(d.kids))
		for i, k := range d.kids {
			a := asg{v: d.v, lo: math.MinInt64, hi: math.MaxInt64}
			switch d.v.kind {
			case 'b':
				a.b = i
			case 'e':
				if i < len(d.keys) {
					a.key = d.keys[i]
				} else {
					a.not = d.keys
				}
			default:
				if i > 0 {
					a.lo = d.cuts[i-1]
				}
				if i < len(d.cuts) {
					a.hi = d.cuts[i]
				}
			}
			kids[i] = rec(k, append(path[:len(path):len(path)], a))
		}
		return e.mk(d.v, d.keys, d.cuts, kids)
	}
	return rec(d, nil)
}

// restrict replaces the test of a truth variable by a constant.
func (e *gvf) restrict(d *dd, v *dvar, x *dd) *dd {
	memo := map[*dd]*dd{}
	var rec func(d *dd) *dd
	rec = func(d *dd) *dd {
		if d.leaf != nil {
			return d
		}
		if r := memo[d]; r != nil {
			return r
		}
		var r *dd
		if d.v == v {
			if x == e.T {
				r = rec(d.kids[1])
			} else {
				r = rec(d.kids[0])
			}
		} else {
			kids := make([]*dd, len(d.kids))
			for i := range kids {
				kids[i] = rec(d.kids[i])
			}
			r = e.mk(d.v, d.keys, d.cuts, kids)
		}
		memo[d] = r
		return r
	}
	return rec(d)
}

// freeze describes objects made in an iteration by what they hold.
func (e *gvf) freeze(v gval, st *gstate, local func(*gterm) bool) gval {
	has := false
	var chk func(x *gterm) bool
	chk = func(x *gterm) bool {
		switch x.op {
		case "alloc":
			return local(x)
		case "fa":
			return local(e.locOf(x).root)
		case "seq", "box", "closure":
			for _, f := range x.vals {
				for _, y := range e.allLeaves(f) {
					if chk(y) {
						return true
					}
				}
			}
		}
		return false
	}
	for _, x := range e.allLeaves(v) {
		if chk(x) {
			has = true
		}
	}
	if !has {
		return v
	}
	return e.content(v, st, 3)
}

func (e *gvf) allLeaves(v gval) []*gterm {
	switch v := v.(type) {
	case *dd:
		return e.leaves(v)
	case *gsv:
		var out []*gterm
		for _, f := range v.f {
			out = append(out, e.allLeaves(f)...)
		}
		return out
	case gtuple:
		var out []*gterm
		for _, f := range v {
			out = append(out, e.allLeaves(f)...)
		}
		return out
	}
	return nil
}

// canonEvents puts events that exclude each other in a fixed order.
func (e *gvf) canonEvents(evs []gevent) []gevent {
	out := append([]gevent{}, evs...)
	for changed, n := true, 0; changed && n < 1000; n++ {
		changed = false
		for i := 0; i+1 < len(out); i++ {
			if out[i].t.id > out[i+1].t.id && e.and(out[i].guard, out[i+1].guard) == e.F {
				out[i], out[i+1] = out[i+1], out[i]
				changed = true
			}
		}
	}
	return out
}

// ---- normal forms

type gwrite struct {
	name string
	v    gval
	key  string
	root *gterm
	old  *dd
}

// writes lists the changes to memory that existed before.
func (e *gvf) writes(st0, st1 *gstate) []gwrite {
	var out []gwrite
	for l, c := range st1.mem {
		if l.path == "·live" {
			continue
		}
		if l.root.op == "alloc" && !e.allocKnown(l.root, st0) {
			continue
		}
		var old *dd
		if o, ok := st0.mem[l]; ok {
			old = o.v
		} else if l.path == "·log" {
			old = e.leaf(e.term("maplog", "", nil))
		} else {
			old = e.defaultAt(l, c.typ, st0)
		}
		if old == c.v {
			continue
		}
		name := fmt.Sprintf("%s%s", e.showT(l.root, 4), l.path)
		key := fmt.Sprintf("t%d%s", l.root.id, l.path)
		if l.root.op == "alloc" {
			name = "captured " + typeKey(l.root.typ) + l.path
			key = name
		}
		out = append(out, gwrite{name, e.content(c.v, st1, 3), key, l.root, nil})
	}
	for k, v := range st1.ver {
		if st0.ver[k] != v && k.op != "alloc" && k.op != "seq" && k.op != "make" {
			out = append(out, gwrite{"elements of " + e.showT(k, 4), e.content(v, st1, 3), fmt.Sprintf("v%d", k.id), nil, nil})
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].key != out[j].key {
			return out[i].key < out[j].key
		}
		return out[i].v.key() < out[j].v.key()
	})
	return out
}

// writeName: in the description of a loop, the constant that comes before the
// place and the value of a write.
func (e *gvf) writeName(v gval) string {
	if d, ok := v.(*dd); ok && d.leaf != nil && d.leaf.op == "const" && d.leaf.c.Kind() == constant.String {
		if s := constant.StringVal(d.leaf.c); strings.HasPrefix(s, "t:") || strings.HasPrefix(s, "v:") {
			return s
		}
	}
	return ""
}

// kept leaves out writes to new slices that nothing else can reach.
func (e *gvf) kept(ws []gwrite, n *gnorm) []gwrite {
	made := func(w gwrite) *gterm {
		if w.root == nil {
			return nil
		}
		t := w.root
		for (t.op == "ia" || t.op == "fa") && len(t.args) > 0 {
			t = t.args[0]
		}
		if t.op == "make" && t != w.root {
			return t
		}
		return nil
	}
	any := false
	for _, w := range ws {
		any = any || made(w) != nil
	}
	if !any {
		return ws
	}
	reach := map[*gterm]bool{}
	seen := map[*gterm]bool{}
	var val func(v gval)
	var term func(t *gterm)
	term = func(t *gterm) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "make":
			reach[t] = true
		case "elem", "deref", "len", "cap", "maplen":
			return // what it holds, not the slice itself
		}
		for _, a := range t.args {
			term(a)
		}
		for i, v := range t.vals {
			if t.op == "loopev" && i > 0 && e.writeName(t.vals[i-1]) != "" {
				continue // where a loop writes
			}
			val(v)
		}
	}
	val = func(v gval) {
		switch v := v.(type) {
		case gtuple:
			for _, x := range v {
				val(x)
			}
		case *gsv:
			for _, x := range v.f {
				val(x)
			}
		case *dd:
			for _, x := range e.leaves(v) {
				term(x)
			}
		}
	}
	if n.vals != nil {
		val(n.vals)
	}
	for _, ev := range n.events {
		term(ev.t)
	}
	for _, w := range ws {
		if made(w) == nil {
			val(w.v)
		}
	}
	var out []gwrite
	for _, w := range ws {
		if m := made(w); m == nil || reach[m] {
			out = append(out, w)
		}
	}
	return out
}

type gnorm struct {
	vals   gval
	normal *dd
	events []gevent
	writes []gwrite
	st     *gstate
}

// norm computes the normal form of a function for arbitrary arguments, or
// the given ones.
func (e *gvf) norm(f *ssa.Function, args []gval) (n *gnorm, err error) {
	e.gen = nil
	for i := 0; ; i++ {
		n, err, again := e.norm1(f, args)
		if !again {
			return n, err
		}
		if i > 20 {
			return nil, fmt.Errorf("recursion does not stabilise in %s", fname(f))
		}
	}
}

func (e *gvf) norm1(f *ssa.Function, args []gval) (n *gnorm, err error, again bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(gvfAgain); ok {
				again = true
				return
			}
			ge, ok := r.(gvfErr)
			if !ok {
				panic(r)
			}
			err = ge
		}
	}()
	if args == nil {
		args = e.params(f)
	}
	e.events, e.depth, e.loopD, e.lamD, e.stack, e.stackT, e.evLevel = nil, 0, 0, 0, nil, nil, 0
	e.entries = nil
	e.recs = nil
	e.contentG = nil
	e.steps = 0
	e.allocN = map[string]int{}
	st := newGState()
	e.nextT = nil
	r := e.call(f, args, nil, st, e.T)
	n = &gnorm{normal: r.normal, st: r.st}
	e.contentG = r.normal
	n.vals = e.content(r.vals, r.st, 3)
	e.contentG = nil
	if r.normal != e.T {
		n.vals = e.onlyIf(r.normal, n.vals)
	}
	n.events = e.canonEvents(e.events)
	n.writes = e.kept(e.writes(st, r.st), n)
	return n, nil, false
}

// equals rewrites a normal form: where two terms are known to be equal, one
// takes the place of the other.
func (e *gvf) equals(n *gnorm) (m *gnorm) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(gvfErr); !ok {
				panic(r)
			}
			m = n
		}
	}()
	s := e.newSub(nil)
	s.all, s.eqs = true, true
	m = &gnorm{normal: s.dd(n.normal), st: n.st}
	if n.vals != nil {
		m.vals = s.val(n.vals)
	}
	for _, x := range n.events {
		x.guard, x.t = s.dd(x.guard), s.oneTerm(x.t)
		m.events = append(m.events, x)
	}
	for _, w := range n.writes {
		w.v = s.val(w.v)
		m.writes = append(m.writes, w)
	}
	return m
}

func (s *gsub) oneTerm(t *gterm) *gterm {
	if d := s.term(t); d.leaf != nil {
		return d.leaf
	}
	return t
}

func (e *gvf) onlyIf(c *dd, v gval) gval {
	switch v := v.(type) {
	case *dd:
		return e.ite(c, v, e.bot)
	case *gsv:
		r := &gsv{typ: v.typ, f: make([]gval, len(v.f))}
		for i := range v.f {
			r.f[i] = e.onlyIf(c, v.f[i])
		}
		return r
	case gtuple:
		r := make(gtuple, len(v))
		for i := range v {
			r[i] = e.onlyIf(c, v[i])
		}
		return r
	}
	return v
}

func (e *gvf) params(f *ssa.Function) []gval {
	var args []gval
	if e.paramNames != nil {
		if args := e.paramNames(f); args != nil {
			return args
		}
	}
	for i, p := range f.Params {
		args = append(args, e.opaque(p.Type(), e.term("param", fmt.Sprintf("p%d", i), p.Type())))
	}
	return args
}

// diff reports how two normal forms differ.
func (e *gvf) diff(a, b *gnorm) string {
	dbgDiff(a, b)
	if a.normal != b.normal {
		return fmt.Sprintf("returns when %s, want %s", e.showN(a.normal, 14), e.showN(b.normal, 14))
	}
	if d := e.diffV("result", a.vals, b.vals); d != "" {
		return d
	}
	if len(a.events) != len(b.events) {
		return fmt.Sprintf("%d effects, want %d: %s / %s", len(a.events), len(b.events), e.showEvents(a.events), e.showEvents(b.events))
	}
	for i := range a.events {
		if a.events[i].t != b.events[i].t {
			return "effect: " + e.where(e.leaf(a.events[i].t), e.leaf(b.events[i].t))
		}
		if a.events[i].guard != b.events[i].guard {
			return fmt.Sprintf("effect %s when %s, want %s", e.showT(a.events[i].t, 8), e.showN(a.events[i].guard, 14), e.showN(b.events[i].guard, 14))
		}
	}
	if len(a.writes) != len(b.writes) {
		return fmt.Sprintf("changes %s, want %s", e.showWrites(a.writes), e.showWrites(b.writes))
	}
	for i := range a.writes {
		if a.writes[i].key != b.writes[i].key {
			return fmt.Sprintf("changes %s, want %s", a.writes[i].name, b.writes[i].name)
		}
		if d := e.diffV(a.writes[i].name, a.writes[i].v, b.writes[i].v); d != "" {
			return d
		}
	}
	return ""
}

func (e *gvf) showEvents(evs []gevent) string {
	var p []string
	for _, x := range evs {
		p = append(p, e.showN(x.guard, 5)+" → "+e.showT(x.t, 6))
	}
	return strings.Join(p, "; ")
}

func (e *gvf) showWrites(ws []gwrite) string {
	var p []string
	for _, w := range ws {
		p = append(p, w.name+" = "+e.showN(w.v, 6))
	}
	return "[" + strings.Join(p, "; ") + "]"
}

func (e *gvf) diffV(what string, a, b gval) string {
	if a == nil && b == nil {
		return ""
	}
	if a == nil || b == nil {
		return what + " missing"
	}
	if a.key() == b.key() {
		return ""
	}
	switch x := a.(type) {
	case gtuple:
		y, ok := b.(gtuple)
		if ok && len(x) == len(y) {
			for i := range x {
				if d := e.diffV(fmt.Sprintf("%s %d", what, i), x[i], y[i]); d != "" {
					return d
				}
			}
		}
	case *gsv:
		y, ok := b.(*gsv)
		if ok && len(x.f) == len(y.f) {
			for i := range x.f {
				if d := e.diffV(fmt.Sprintf("%s.%s", what, e.parts(x.typ)[i].key), x.f[i], y.f[i]); d != "" {
					return d
				}
			}
		}
	}
	sh := func(v gval) string {
		if t, ok := v.(gtuple); ok {
			v = e.tupleVal(t)
		}
		return e.showN(v, 16)
	}
	return fmt.Sprintf("%s is %s, want %s", what, sh(a), sh(b))
}
