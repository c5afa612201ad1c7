package main

// Guarded value flow: the abstract interpretation that computes, for a
// function, the canonical guarded values of its results, of the memory it
// changes, and the calls it makes, in the domain of gvf_dd.go.  Calls within
// the repository are analysed in place; a loop is analysed once, for an
// arbitrary iteration, and described by what one iteration does.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"golang.org/x/tools/go/types/typeutil"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type gtuple []gval

func (v gtuple) key() string {
	var p []string
	for _, x := range v {
		p = append(p, x.key())
	}
	return "(" + strings.Join(p, ";") + ")"
}

// loc is a place in memory: an object and a path within it.
type gloc struct {
	root *gterm
	path string
}

type gcell struct {
	v   *dd
	typ types.Type
}

type gstate struct {
	mem map[gloc]gcell
	ver map[*gterm]*dd // the elements of a sequence have been changed
}

func newGState() *gstate { return &gstate{mem: map[gloc]gcell{}, ver: map[*gterm]*dd{}} }

func (s *gstate) clone() *gstate {
	n := newGState()
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.ver {
		n.ver[k] = v
	}
	return n
}

type gevent struct {
	guard *dd
	t     *gterm
	base  *gterm // without the count of its kind
	n     int
	lvl   int
}

type gentry struct {
	args []gval
	st   *gstate
}

type gvf struct {
	*ddTab
	c      *Ctx
	depth  int
	stack  []*ssa.Function
	stackT []*gterm
	nextT  *gterm
	// entries: what the functions on the stack started from
	entries []gentry
	gen     map[*ssa.Function]*ggen
	recs    map[*ssa.Function]string
	once    map[*ssa.Alloc]bool
	// evLevel numbers the event lists being built
	evLevel int
	allocN  map[string]int // of each kind
	loopD   int
	lamD    int
	events  []gevent
	occ     map[string]int
	zeroes  map[string]*dd
	init    *gstate
	inited  map[*ssa.Package]bool
	mutG    map[*ssa.Global]bool
	root    *ssa.Function
	steps   int

	// How calls are treated: nil for the defaults.
	opaque1 map[*ssa.Function]bool
	// formatting functions are not turned into concatenations
	keepFormats bool
	paramNames  func(*ssa.Function) []gval
	prim        func(fr *gframe, call ssa.CallInstruction, f *ssa.Function, args []gval, st *gstate, g *dd) (gval, bool)
	// recPure: recursive calls have no effect.
	recPure bool
	// dropEvent: calls with this name are not recorded.
	dropEvent func(name string) bool
	pureFn    func(name string) bool
	inInit    string // the package whose variables are being initialised
	initN     int
	plain     bool // carrying a number or text through a loop is nothing unusual
	facts     []gfact
	copies    bool // unchanged copies are what they were copied from
	contentG  *dd  // when the value that is described is the result
	loopUsed  map[string]bool
}

func newGVF(c *Ctx) *gvf {
	e := &gvf{ddTab: newDDTab(), c: c, occ: map[string]int{}, zeroes: map[string]*dd{}, init: newGState(), inited: map[*ssa.Package]bool{}}
	e.mutG = map[*ssa.Global]bool{}
	for _, f := range c.Funcs {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						e.mutG[g] = true
					}
				}
			}
		}
	}
	return e
}

type gframe struct {
	e      *gvf
	fn     *ssa.Function
	env    map[ssa.Value]gval
	free   []gval
	in     map[[2]int]*gedge // (block index, predecessor position)
	rets   []gret
	defers []gdefer
	loops  map[*ssa.BasicBlock]*gloop
	rpo    map[*ssa.BasicBlock]int
	order  []*ssa.BasicBlock
	abort  *dd                // does not go on, because a call does not return
	failed *dd                // a panic has happened
	over   map[ssa.Value]bool // values that loop exits describe differently
	next   []*gterm           // iteration symbols of the loops being analysed
}

type gedge struct {
	guard *dd
	st    *gstate
	env   map[ssa.Value]gval // values that loop exits describe differently
	phi   map[*ssa.Phi]gval
}

type gret struct {
	guard *dd
	vals  []gval
	st    *gstate
}

type gdefer struct {
	guard *dd
	call  *ssa.Defer
	fnv   gval
	args  []gval
}

// ---- types

func fieldKeyOf(st *types.Struct, i int) string {
	f := st.Field(i)
	if f.Exported() {
		return f.Name()
	}
	ts := types.TypeString(f.Type(), func(p *types.Package) string { return p.Name() })
	n := 0
	for j := 0; j < i; j++ {
		if !st.Field(j).Exported() && types.TypeString(st.Field(j).Type(), func(p *types.Package) string { return p.Name() }) == ts {
			n++
		}
	}
	if n > 0 {
		return fmt.Sprintf("·%s#%d", ts, n)
	}
	return "·" + ts
}

// expandable types are handled field by field.
func (e *gvf) expandable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			p := n.Obj().Pkg().Path()
			if p == "encoding/xml" {
				switch n.Obj().Name() {
				case "Name", "Attr", "StartElement", "EndElement":
					return true
				}
				return false
			}
			return strings.HasPrefix(p, modPath) || p == "go/ast"
		}
		return true
	case *types.Array:
		return u.Len() <= 300
	}
	return false
}

type gpart struct {
	key string
	typ types.Type
}

func (e *gvf) parts(t types.Type) []gpart {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var p []gpart
		for i := 0; i < u.NumFields(); i++ {
			p = append(p, gpart{"/" + fieldKeyOf(u, i), u.Field(i).Type()})
		}
		return p
	case *types.Array:
		var p []gpart
		for i := int64(0); i < u.Len(); i++ {
			p = append(p, gpart{fmt.Sprintf("/[%d]", i), u.Elem()})
		}
		return p
	}
	return nil
}

func (e *gvf) nilTerm() *gterm { return e.term("nil", "", types.Typ[types.UntypedNil]) }

func (e *gvf) intc(n int64) *gterm { return e.konst(constant.MakeInt64(n), types.Typ[types.Int]) }

func (e *gvf) strc(s string) *gterm { return e.konst(constant.MakeString(s), types.Typ[types.String]) }

// zero value of a type that is not expandable.
func (e *gvf) zeroScalar(t types.Type) *dd {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.F
		case u.Info()&types.IsString != 0:
			return e.leaf(e.strc(""))
		case u.Info()&types.IsInteger != 0:
			return e.leaf(e.intc(0))
		case u.Info()&types.IsNumeric != 0:
			return e.leaf(e.konst(constant.ToFloat(constant.MakeInt64(0)), t))
		}
	case *types.Struct, *types.Array:
		return e.leaf(e.term("zero", types.TypeString(t, nil), t))
	}
	return e.leaf(e.nilTerm())
}

func (e *gvf) zero(t types.Type) gval {
	if e.expandable(t) {
		v := &gsv{typ: t}
		for _, p := range e.parts(t) {
			v.f = append(v.f, e.zero(p.typ))
		}
		return v
	}
	return e.zeroScalar(t)
}

// opaque makes the value of a term.
func (e *gvf) opaque(t types.Type, x *gterm) gval {
	if tup, ok := t.(*types.Tuple); ok {
		var v gtuple
		for i := 0; i < tup.Len(); i++ {
			v = append(v, e.opaque(tup.At(i).Type(), e.term("proj", fmt.Sprint(i), tup.At(i).Type(), x)))
		}
		return v
	}
	if e.expandable(t) {
		v := &gsv{typ: t}
		for _, p := range e.parts(t) {
			v.f = append(v.f, e.opaque(p.typ, e.fieldTerm(x, p.key, p.typ)))
		}
		return v
	}
	return e.scalar(t, x)
}

func (e *gvf) scalar(t types.Type, x *gterm) *dd {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 && x.op != "const" {
		return e.boolVar(x)
	}
	return e.leaf(x)
}

func (e *gvf) fieldTerm(x *gterm, key string, typ types.Type) *gterm {
	return e.term("field", strings.TrimPrefix(key, "/"), typ, x)
}

func asDD(v gval) *dd {
	switch v := v.(type) {
	case *dd:
		return v
	case nil:
		gfail("missing value")
	}
	gfail("a structure where a scalar is expected")
	return nil
}

// iteV chooses between values of the same type.
func (e *gvf) iteV(c *dd, a, b gval) gval {
	if c == e.T || a == nil && b == nil {
		return a
	}
	if c == e.F {
		return b
	}
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	switch x := a.(type) {
	case *dd:
		y, ok := b.(*dd)
		if !ok {
			gfail("mixed values")
		}
		return e.ite(c, x, y)
	case *gsv:
		y, ok := b.(*gsv)
		if !ok || len(y.f) != len(x.f) {
			if d, ok := b.(*dd); ok && d == e.bot {
				return x
			}
			gfail("mixed values")
		}
		r := &gsv{typ: x.typ, f: make([]gval, len(x.f))}
		for i := range x.f {
			r.f[i] = e.iteV(c, x.f[i], y.f[i])
		}
		return r
	case gtuple:
		y, ok := b.(gtuple)
		if !ok || len(y) != len(x) {
			gfail("mixed tuples")
		}
		r := make(gtuple, len(x))
		for i := range x {
			r[i] = e.iteV(c, x[i], y[i])
		}
		return r
	}
	gfail("unknown value")
	return nil
}

// ---- memory

// locOf splits a pointer term into object and path.
func (e *gvf) locOf(p *gterm) gloc {
	path := ""
	for p.op == "fa" {
		path = p.s + path
		p = p.args[0]
	}
	return gloc{p, path}
}

// defaultAt is what a place holds that has not been written.
func (e *gvf) defaultAt(l gloc, t types.Type, st *gstate) *dd {
	r := l.root
	switch r.op {
	case "alloc":
		if r.s != "" && strings.HasPrefix(r.s, "init") {
			if c, ok := e.init.mem[l]; ok {
				return c.v
			}
		}
		return e.zeroScalar(t)
	case "global":
		if c, ok := e.init.mem[l]; ok {
			return c.v
		}
	}
	var x *gterm
	if r.op == "ia" {
		x = e.elemTerm(r.args[0], r.args[1], nil, st)
	} else {
		x = e.term("deref", "", nil, r)
	}
	for _, k := range splitPath(l.path) {
		x = e.fieldTerm(x, k, nil)
	}
	return e.scalar(t, x)
}

// subElem: an element of the rest of a sequence is one of the sequence.
func (e *gvf) subElem(s, i *gterm) (*gterm, *gterm) {
	for s.op == "sub" && len(s.args) == 2 && len(s.vals) == 0 {
		b, n := e.lin(s.args[1])
		c, m := e.lin(i)
		switch {
		case c == nil:
			s, i = s.args[0], e.mkLin(b, n+m)
		case b == nil:
			s, i = s.args[0], e.mkLin(c, n+m)
		default:
			return s, i
		}
	}
	return s, i
}

func (e *gvf) elemTerm(s, i *gterm, typ types.Type, st *gstate) *gterm {
	s, i = e.subElem(s, i)
	if s.op == "const" && i.op == "const" && s.c.Kind() == constant.String {
		if n, ok := constant.Int64Val(i.c); ok && 0 <= n && n < int64(len(constant.StringVal(s.c))) {
			return e.konst(constant.MakeInt64(int64(constant.StringVal(s.c)[n])), typ)
		}
	}
	args := []*gterm{s, i}
	if st != nil {
		if v := st.ver[s]; v != nil {
			return e.termv("elem", "", typ, args, []gval{v})
		}
	}
	return e.term("elem", "", typ, args...)
}

func splitPath(p string) []string {
	if p == "" {
		return nil
	}
	out := strings.Split(p[1:], "/")
	for i := range out {
		out[i] = "/" + out[i]
	}
	return out
}

func (e *gvf) loadLoc(l gloc, t types.Type, st *gstate) gval {
	if e.expandable(t) {
		v := &gsv{typ: t}
		for _, p := range e.parts(t) {
			v.f = append(v.f, e.loadLoc(gloc{l.root, l.path + p.key}, p.typ, st))
		}
		return v
	}
	if c, ok := st.mem[l]; ok {
		return c.v
	}
	return e.defaultAt(l, t, st)
}

func (e *gvf) load(p *dd, t types.Type, st *gstate) gval {
	if p.leaf != nil {
		return e.loadTerm(p.leaf, t, st)
	}
	var parts []gpart
	if e.expandable(t) {
		parts = e.parts(t)
		v := &gsv{typ: t}
		for _, pt := range parts {
			fp := e.bind(p, func(x *gterm) *dd {
				if x.op == "nil" {
					return e.leaf(x)
				}
				return e.leaf(e.term("fa", pt.key, nil, x))
			})
			v.f = append(v.f, e.load(fp, pt.typ, st))
		}
		return v
	}
	return e.bind(p, func(x *gterm) *dd { return asDD(e.loadTerm(x, t, st)) })
}

func (e *gvf) loadTerm(x *gterm, t types.Type, st *gstate) gval {
	if x.op == "nil" {
		return e.botOf(t) // a nil pointer: panics
	}
	if x == e.bot.leaf {
		return e.botOf(t)
	}
	l := e.locOf(x)
	if l.root.op == "ia" {
		if v := e.seqElem(l.root.args[0], l.root.args[1]); v != nil {
			return e.selectPath(v, splitPath(l.path), t)
		}
	}
	return e.loadLoc(l, t, st)
}

func (e *gvf) botOf(t types.Type) gval {
	if e.expandable(t) {
		v := &gsv{typ: t}
		for _, p := range e.parts(t) {
			v.f = append(v.f, e.botOf(p.typ))
		}
		return v
	}
	return e.bot
}

func (e *gvf) selectPath(v gval, path []string, t types.Type) gval {
	for _, k := range path {
		sv, ok := v.(*gsv)
		if !ok {
			d := asDD(v)
			v = e.bind(d, func(x *gterm) *dd { return e.leaf(e.fieldTerm(x, k, nil)) })
			continue
		}
		found := false
		for i, p := range e.parts(sv.typ) {
			if p.key == k {
				v, found = sv.f[i], true
				break
			}
		}
		if !found {
			gfail("no part %s", k)
		}
	}
	return v
}

// seqElem is the element of a literal sequence, if it is known.
func (e *gvf) seqElem(s, i *gterm) gval {
	if s.op != "seq" || i.op != "const" {
		return nil
	}
	n, _ := constant.Int64Val(i.c)
	if n < 0 || n >= int64(len(s.vals)) {
		return nil
	}
	for k := int64(0); k <= n; k++ {
		if isSpread(s.vals[k]) {
			return nil
		}
	}
	return s.vals[n]
}

func isSpread(v gval) bool {
	d, ok := v.(*dd)
	return ok && d.leaf != nil && d.leaf.op == "spread"
}

func (e *gvf) storeLoc(l gloc, t types.Type, v gval, cond *dd, st *gstate) {
	if e.expandable(t) {
		sv, ok := v.(*gsv)
		for i, p := range e.parts(t) {
			var pv gval
			if ok {
				pv = sv.f[i]
			} else {
				pv = e.selectPath(v, []string{p.key}, p.typ)
			}
			e.storeLoc(gloc{l.root, l.path + p.key}, p.typ, pv, cond, st)
		}
		return
	}
	nv := asDD(v)
	if cond != e.T {
		old := asDD(e.loadLoc(l, t, st))
		nv = e.ite(cond, nv, old)
	}
	st.mem[l] = gcell{nv, t}
}

func (e *gvf) store(p *dd, t types.Type, v gval, st *gstate) {
	var leaves []*gterm
	for _, x := range e.leaves(p) {
		if x.op != "nil" && x != e.bot.leaf {
			leaves = append(leaves, x)
		}
	}
	if len(leaves) > 8 {
		gfail("too many targets")
	}
	for _, x := range leaves {
		x := x
		cond := e.bind(p, func(y *gterm) *dd {
			if y == x {
				return e.T
			}
			return e.F
		})
		e.storeLoc(e.locOf(x), t, v, cond, st)
	}
}

// merge joins two states; a holds under ga.
func (e *gvf) merge(ga *dd, a, b *gstate) *gstate {
	if a == b {
		return a
	}
	n := newGState()
	for k, x := range a.mem {
		y, ok := b.mem[k]
		yv := y.v
		if !ok {
			if k.root.op == "alloc" && !e.allocKnown(k.root, b) {
				n.mem[k] = x
				continue
			}
			yv = e.defaultAt(k, x.typ, b)
		}
		n.mem[k] = gcell{e.ite(ga, x.v, yv), x.typ}
	}
	for k, y := range b.mem {
		if _, ok := a.mem[k]; ok {
			continue
		}
		if k.root.op == "alloc" && !e.allocKnown(k.root, a) {
			n.mem[k] = y
			continue
		}
		n.mem[k] = gcell{e.ite(ga, e.defaultAt(k, y.typ, a), y.v), y.typ}
	}
	for k, x := range a.ver {
		y := b.ver[k]
		if y == nil {
			y = e.leaf(e.nilTerm())
		}
		n.ver[k] = e.ite(ga, x, y)
	}
	for k, y := range b.ver {
		if a.ver[k] == nil {
			n.ver[k] = e.ite(ga, e.leaf(e.nilTerm()), y)
		}
	}
	return n
}

func (e *gvf) allocKnown(a *gterm, st *gstate) bool {
	_, ok := st.mem[gloc{a, "·live"}]
	return ok
}

func (e *gvf) newAlloc(t types.Type, st *gstate, what string) *gterm {
	var n int
	if e.inInit != "" {
		what = "init " + e.inInit + " "
		e.initN++
		n = e.initN
	} else {
		k := what + " " + typeKey(t)
		e.allocN[k]++
		n = e.allocN[k]
	}
	a := e.term("alloc", fmt.Sprintf("%s%d %s", what, n, typeKey(t)), t)
	st.mem[gloc{a, "·live"}] = gcell{e.T, types.Typ[types.Bool]}
	return a
}

// ---- functions

type gresult struct {
	vals   gval // of one result, or gtuple
	st     *gstate
	normal *dd // the condition under which it returns
}

func (e *gvf) call(fn *ssa.Function, args, free []gval, st *gstate, g *dd) gresult {
	e.depth++
	if e.depth > 60 {
		gfail("calls nested too deeply at %s", fn)
	}
	e.stack = append(e.stack, fn)
	e.stackT = append(e.stackT, e.nextT)
	e.entries = append(e.entries, gentry{args, st.clone()})
	defer func() {
		e.entries = e.entries[:len(e.entries)-1]
		e.depth--
		e.stack = e.stack[:len(e.stack)-1]
		e.stackT = e.stackT[:len(e.stackT)-1]
	}()
	fr := &gframe{e: e, fn: fn, env: map[ssa.Value]gval{}, free: free, in: map[[2]int]*gedge{}, failed: e.F, abort: e.F}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = free[i]
	}
	fr.findLoops()
	fr.in[[2]int{0, -1}] = &gedge{guard: g, st: st.clone()}
	fr.region(fr.order, nil)
	res := gresult{normal: e.F, st: st}
	for i, r := range fr.rets {
		var v gval
		if len(r.vals) == 1 {
			v = r.vals[0]
		} else {
			v = gtuple(r.vals)
		}
		if i == 0 {
			res.vals, res.st = v, r.st
		} else {
			res.vals = e.iteV(r.guard, v, res.vals)
			res.st = e.merge(r.guard, r.st, res.st)
		}
		res.normal = e.or(res.normal, r.guard)
	}
	if len(fr.rets) == 0 {
		res.vals = e.botTuple(fn.Signature.Results())
	} else if len(fr.rets) > 1 {
		res.vals = e.constrainV(res.vals, res.normal)
	}
	return res
}

func (e *gvf) botTuple(t *types.Tuple) gval {
	if t.Len() == 1 {
		return e.botOf(t.At(0).Type())
	}
	var v gtuple
	for i := 0; i < t.Len(); i++ {
		v = append(v, e.botOf(t.At(i).Type()))
	}
	return v
}

type gloop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *gloop
}

func (fr *gframe) findLoops() {
	fr.loops = map[*ssa.BasicBlock]*gloop{}
	fr.rpo = map[*ssa.BasicBlock]int{}
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fr.fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fr.rpo[post[i]] = len(fr.order)
		fr.order = append(fr.order, post[i])
	}
	for _, h := range fr.order {
		var latches []*ssa.BasicBlock
		for _, p := range h.Preds {
			if _, ok := fr.rpo[p]; ok && h.Dominates(p) {
				latches = append(latches, p)
			} else if ok && fr.rpo[p] >= fr.rpo[h] {
				gfail("irreducible control flow in %s", fr.fn)
			}
		}
		if len(latches) == 0 {
			continue
		}
		l := &gloop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
		work := latches
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if l.blocks[b] {
				continue
			}
			l.blocks[b] = true
			for _, p := range b.Preds {
				if _, ok := fr.rpo[p]; ok {
					work = append(work, p)
				}
			}
		}
		fr.loops[h] = l
	}
}

// region evaluates blocks in order; in is the loop whose body they are.
func (fr *gframe) region(blocks []*ssa.BasicBlock, in *gloop) {
	done := map[*ssa.BasicBlock]bool{}
	for _, b := range blocks {
		if done[b] {
			continue
		}
		if l := fr.loops[b]; l != nil && l != in {
			fr.loop(l)
			for x := range l.blocks {
				done[x] = true
			}
			continue
		}
		fr.block(b, in)
	}
}

// constrainState: what memory holds when g is the case.
func (e *gvf) constrainState(st *gstate, g *dd) *gstate {
	r, memo := st, map[[2]int]*dd{}
	own := func() {
		if r == st {
			r = st.clone()
		}
	}
	for l, c := range st.mem {
		if c.v == nil || c.v.leaf != nil {
			continue
		}
		if v := e.constrain1(c.v, g, memo); v != c.v {
			own()
			r.mem[l] = gcell{v, c.typ}
		}
	}
	for x, v := range st.ver {
		if v == nil || v.leaf != nil {
			continue
		}
		if w := e.constrain1(v, g, memo); w != v {
			own()
			r.ver[x] = w
		}
	}
	return r
}

// enter joins the edges into b.
func (fr *gframe) enter(b *ssa.BasicBlock) (g *dd, st *gstate) {
	e := fr.e
	var edges []*gedge
	var poss []int
	if x := fr.in[[2]int{b.Index, -1}]; x != nil {
		edges, poss = append(edges, x), append(poss, -1)
	}
	for i := range b.Preds {
		if x := fr.in[[2]int{b.Index, i}]; x != nil && x.guard != e.F {
			edges, poss = append(edges, x), append(poss, i)
		}
	}
	if len(edges) == 0 {
		return e.F, nil
	}
	g, st = edges[0].guard, edges[0].st
	for _, x := range edges[1:] {
		st = e.merge(x.guard, x.st, st)
		g = e.or(g, x.guard)
	}
	if len(edges) == 1 && g.leaf == nil && len(b.Preds) == 1 {
		st = e.constrainState(st, g)
	}
	// values that differ by the edge they came by
	over := map[ssa.Value]bool{}
	for _, x := range edges {
		for v := range x.env {
			over[v] = true
		}
	}
	for v := range over {
		var r gval
		for _, x := range edges {
			y, ok := x.env[v]
			if !ok {
				y = fr.env[v]
			}
			if y == nil {
				continue
			}
			if r == nil {
				r = y
			} else {
				r = e.iteV(x.guard, y, r)
			}
		}
		fr.env[v] = r
		if fr.over == nil {
			fr.over = map[ssa.Value]bool{}
		}
		fr.over[v] = true
	}
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var r gval
		for k, x := range edges {
			var v gval
			if x.phi != nil && x.phi[phi] != nil {
				v = x.phi[phi]
			} else if poss[k] >= 0 {
				v = fr.valueOn(x, phi.Edges[poss[k]])
			}
			if r == nil {
				r = v
			} else {
				r = e.iteV(x.guard, v, r)
			}
		}
		if len(edges) > 1 {
			r = e.constrainV(r, g)
		}
		fr.env[phi] = r
	}
	return g, st
}

func (fr *gframe) valueOn(x *gedge, v ssa.Value) gval {
	if y, ok := x.env[v]; ok {
		return y
	}
	return fr.value(v, x.st)
}

// sendTo records the edge from b to its i-th successor.
func (fr *gframe) sendTo(b *ssa.BasicBlock, i int, g *dd, st *gstate) {
	if g == fr.e.F {
		return
	}
	s := b.Succs[i]
	n := 0
	for k := 0; k < i; k++ {
		if b.Succs[k] == s {
			n++
		}
	}
	for k, p := range s.Preds {
		if p == b {
			if n == 0 {
				x := &gedge{guard: g, st: st}
				for v := range fr.over {
					if x.env == nil {
						x.env = map[ssa.Value]gval{}
					}
					x.env[v] = fr.env[v]
				}
				// phis are evaluated on the edge, before the block changes the environment
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if x.phi == nil {
						x.phi = map[*ssa.Phi]gval{}
					}
					x.phi[phi] = fr.value(phi.Edges[k], st)
				}
				fr.in[[2]int{s.Index, k}] = x
				return
			}
			n--
		}
	}
}

func (fr *gframe) block(b *ssa.BasicBlock, in *gloop) {
	g, st := fr.enter(b)
	if g == fr.e.F || st == nil {
		return
	}
	fr.body(b, g, st.clone())
}

func (fr *gframe) body(b *ssa.BasicBlock, g *dd, st *gstate) {
	e := fr.e
	for _, in := range b.Instrs {
		e.steps++
		if e.steps > 400000 {
			gfail("too many steps")
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := e.decide(asDD(fr.value(in.Cond, st)), g)
			fr.sendTo(b, 0, e.and(g, c), st)
			fr.sendTo(b, 1, e.and(g, e.not(c)), st.clone())
			return
		case *ssa.Jump:
			fr.sendTo(b, 0, g, st)
			return
		case *ssa.Return:
			var vs []gval
			for _, r := range in.Results {
				vs = append(vs, fr.value(r, st))
			}
			fr.rets = append(fr.rets, gret{g, vs, st})
			return
		case *ssa.Panic:
			fr.abort = e.or(fr.abort, g)
			return
		case *ssa.RunDefers:
			for i := len(fr.defers) - 1; i >= 0; i-- {
				d := fr.defers[i]
				cg := e.and(g, d.guard)
				if cg == e.F {
					continue
				}
				_, nst, normal := fr.apply(d.call, d.fnv, d.args, st.clone(), cg)
				st = e.merge(d.guard, nst, st)
				ng := e.and(g, e.or(e.not(d.guard), normal))
				fr.abort = e.or(fr.abort, e.and(g, e.not(ng)))
				g = ng
			}
		default:
			ng := fr.instr(in, g, st)
			if ng != g {
				fr.abort = e.or(fr.abort, e.and(g, e.not(ng)))
			}
			g = ng
			if g == e.F {
				return
			}
		}
	}
}

func (e *gvf) event(g *dd, t *gterm) {
	if g != e.F {
		e.record(g, t)
	}
}

func (fr *gframe) value(v ssa.Value, st *gstate) gval {
	e := fr.e
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return e.zero(v.Type())
		}
		if v.Value.Kind() == constant.Bool {
			if constant.BoolVal(v.Value) {
				return e.T
			}
			return e.F
		}
		return e.leaf(e.konst(v.Value, v.Type()))
	case *ssa.Function:
		return e.leaf(e.funcTerm(v))
	case *ssa.Global:
		e.ensureInit(v.Pkg, v)
		return e.leaf(e.globalTerm(v))
	case *ssa.Builtin:
		return e.leaf(e.term("builtin", v.Name(), nil))
	}
	if x, ok := fr.env[v]; ok && x != nil {
		return x
	}
	gfail("no value for %s in %s", v.Name(), fr.fn)
	return nil
}

func (e *gvf) funcTerm(f *ssa.Function) *gterm {
	t := e.term("func", f.String(), f.Signature)
	gvfFuncs[t] = f
	return t
}

func (e *gvf) globalTerm(g *ssa.Global) *gterm {
	t := e.term("global", g.Pkg.Pkg.Path()+"."+g.Name(), g.Type())
	return t
}

var gvfAllocs = map[*gterm]*ssa.Alloc{}

var gvfFuncs = map[*gterm]*ssa.Function{}

func (e *gvf) ensureInit(p *ssa.Package, g *ssa.Global) {
	if p == nil || e.inited[p] || !strings.HasPrefix(p.Pkg.Path(), modPath) {
		return
	}
	e.inited[p] = true
	init := p.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	// The initialisation is straight-line code behind a guard.
	save := *e
	e.inInit, e.initN = p.Pkg.Path(), 0
	defer func() { e.inInit, e.initN = save.inInit, save.initN }()
	fr := &gframe{e: e, fn: init, env: map[ssa.Value]gval{}, in: map[[2]int]*gedge{}, failed: e.F, abort: e.F}
	e.events = nil
	e.loopD, e.lamD, e.stack, e.depth = 0, 0, nil, 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(gvfErr); !ok {
					panic(r)
				}
			}
		}()
		st := newGState()
		for _, b := range init.Blocks {
			if b.Comment != "init.start" {
				continue
			}
			for _, in := range b.Instrs {
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(gvfErr); !ok {
								panic(r)
							}
						}
					}()
					switch in := in.(type) {
					case *ssa.Jump, *ssa.If, *ssa.Return:
						return
					case *ssa.Call:
						if f := in.Call.StaticCallee(); f != nil && f.Name() == "init" {
							return
						}
					case *ssa.Store:
						// only if it has values
						if _, ok := fr.env[in.Val]; !ok {
							if _, isConst := in.Val.(*ssa.Const); !isConst {
								if _, isF := in.Val.(*ssa.Function); !isF {
									return
								}
							}
						}
					}
					fr.instr(in, e.T, st)
				}()
			}
		}
		for l, c := range st.mem {
			if l.root.op == "global" {
				if gl := e.globalOf(p, l.root); gl != nil && e.mutG[gl] {
					continue
				}
			}
			e.init.mem[l] = c
		}
		for k, v := range st.ver {
			e.init.ver[k] = v
		}
	}()
	e.events, e.loopD, e.lamD, e.stack, e.depth = save.events, save.loopD, save.lamD, save.stack, save.depth
}

func (e *gvf) globalOf(p *ssa.Package, t *gterm) *ssa.Global {
	name := t.s[strings.LastIndex(t.s, ".")+1:]
	g, _ := p.Members[name].(*ssa.Global)
	return g
}

// ---- instructions

func (fr *gframe) instr(in ssa.Instruction, g *dd, st *gstate) *dd {
	e := fr.e
	set := func(v gval) { fr.env[in.(ssa.Value)] = v }
	val := func(v ssa.Value) gval { return fr.value(v, st) }
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		what := "a"
		if fr.fn.Name() == "init" && fr.fn.Synthetic != "" {
			what = "init"
		}
		a := e.newAlloc(t, st, what)
		for l := range st.mem {
			if l.root == a && l.path != "·live" {
				delete(st.mem, l)
			}
		}
		gvfAllocs[a] = in
		set(e.leaf(a))
	case *ssa.Store:
		e.store(asDD(val(in.Addr)), in.Val.Type(), val(in.Val), st)
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			set(e.constrainV(e.load(asDD(val(in.X)), in.Type(), st), g))
		case token.NOT:
			set(e.not(asDD(val(in.X))))
		case token.SUB:
			set(e.lift1(val(in.X), func(x *gterm) *dd {
				if x.op == "const" {
					return e.leaf(e.konst(constant.UnaryOp(token.SUB, x.c, 0), in.Type()))
				}
				return e.leaf(e.term("neg", "", in.Type(), x))
			}))
		default:
			set(e.lift1(val(in.X), func(x *gterm) *dd { return e.leaf(e.term("unop", in.Op.String(), in.Type(), x)) }))
		}
	case *ssa.BinOp:
		set(e.binop(in.Op, val(in.X), val(in.Y), in.X.Type(), in.Type(), st))
	case *ssa.FieldAddr:
		str := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		k := "/" + fieldKeyOf(str, in.Field)
		set(e.lift1(val(in.X), func(x *gterm) *dd {
			if x.op == "nil" {
				return e.leaf(x)
			}
			return e.leaf(e.term("fa", k, in.Type(), x))
		}))
	case *ssa.Field:
		v := val(in.X)
		if sv, ok := v.(*gsv); ok {
			set(sv.f[in.Field])
			break
		}
		str := in.X.Type().Underlying().(*types.Struct)
		k := fieldKeyOf(str, in.Field)
		ft := str.Field(in.Field).Type()
		if e.expandable(ft) {
			gfail("nested field of opaque structure")
		}
		set(e.bind(asDD(v), func(x *gterm) *dd { return e.scalar(ft, e.fieldTerm(x, k, ft)) }))
	case *ssa.IndexAddr:
		x, i := val(in.X), val(in.Index)
		set(e.bindN([]*dd{asDD(x), asDD(i)}, func(t []*gterm) *dd {
			if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
				if t[1].op == "const" {
					return e.leaf(e.term("fa", fmt.Sprintf("/[%s]", t[1].s), in.Type(), t[0]))
				}
				return e.leaf(e.term("ia", "", in.Type(), t[0], t[1]))
			}
			if t[0].op == "nil" {
				return e.leaf(t[0])
			}
			x, i := e.subElem(t[0], t[1])
			return e.leaf(e.term("ia", "", in.Type(), x, i))
		}))
	case *ssa.Index:
		x, i := val(in.X), val(in.Index)
		if sv, ok := x.(*gsv); ok {
			set(e.svIndex(sv, asDD(i)))
			break
		}
		set(e.bindN([]*dd{asDD(x), asDD(i)}, func(t []*gterm) *dd {
			return e.scalar(in.Type(), e.elemTerm(t[0], t[1], in.Type(), nil))
		}))
	case *ssa.Lookup:
		if elem := boolSet(in.X); elem != nil {
			_, ok := e.mapGet(asDD(val(in.X)), val(in.Index), types.NewMap(in.X.Type().Underlying().(*types.Map).Key(), elem), st)
			if in.CommaOk {
				set(gtuple{ok, ok})
			} else {
				set(ok)
			}
			break
		}
		set(e.lookup(in, val(in.X), val(in.Index), st))
	case *ssa.MakeMap:
		typ := in.Type()
		if elem := boolSet(in); elem != nil {
			typ = types.NewMap(typ.Underlying().(*types.Map).Key(), elem)
		}
		a := e.newAlloc(typ, st, "map")
		set(e.leaf(a))
	case *ssa.MapUpdate:
		v := val(in.Value)
		if elem := boolSet(in.Map); elem != nil {
			v = e.zero(elem)
		}
		e.mapUpdate(asDD(val(in.Map)), val(in.Key), v, st, g)
	case *ssa.MakeSlice:
		set(e.bind(asDD(val(in.Len)), func(n *gterm) *dd {
			if n.op == "const" {
				if k, _ := constant.Int64Val(n.c); k == 0 {
					return e.leaf(e.termv("seq", "", in.Type(), nil, nil))
				}
			}
			return e.leaf(e.term("make", typeKey(in.Type()), in.Type(), n))
		}))
	case *ssa.Slice:
		set(fr.slice(in, st))
	case *ssa.MakeInterface:
		set(e.box(in.X.Type(), val(in.X)))
	case *ssa.ChangeInterface:
		set(val(in.X))
	case *ssa.ChangeType:
		set(e.retype(val(in.X), in.Type()))
	case *ssa.Convert:
		set(e.convert(val(in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert, *ssa.SliceToArrayPointer:
		gfail("unsupported conversion")
	case *ssa.TypeAssert:
		v, ng := e.typeAssert(in, asDD(val(in.X)), st, g)
		set(v)
		return ng
	case *ssa.Extract:
		v, ok := val(in.Tuple).(gtuple)
		if !ok || in.Index >= len(v) {
			gfail("not a tuple: %s", in.Tuple)
		}
		set(v[in.Index])
	case *ssa.MakeClosure:
		var vs []gval
		for _, b := range in.Bindings {
			vs = append(vs, val(b))
		}
		f := in.Fn.(*ssa.Function)
		t := e.termv("closure", f.String(), in.Type(), nil, vs)
		gvfFuncs[t] = f
		set(e.leaf(t))
	case *ssa.Range:
		set(e.lift1(val(in.X), func(x *gterm) *dd { return e.leaf(e.term("range", "", nil, x)) }))
	case *ssa.Next:
		set(fr.nextOf(in, st))
	case *ssa.Call:
		fnv, args := fr.callee(&in.Call, st)
		v, nst, normal := fr.apply(in, fnv, args, st, g)
		if nst != st {
			st.mem, st.ver = nst.mem, nst.ver
		}
		set(v)
		return e.and(g, normal)
	case *ssa.Defer:
		fnv, args := fr.callee(&in.Call, st)
		fr.defers = append(fr.defers, gdefer{g, in, fnv, args})
	default:
		gfail("unsupported instruction %T in %s", in, fr.fn)
	}
	return g
}

func (e *gvf) lift1(v gval, f func(*gterm) *dd) gval { return e.bind(asDD(v), f) }

func (e *gvf) svIndex(sv *gsv, i *dd) gval {
	if i.leaf != nil && i.leaf.op == "const" {
		n, _ := constant.Int64Val(i.leaf.c)
		if n >= 0 && int(n) < len(sv.f) {
			return sv.f[n]
		}
	}
	// choose by value
	var r gval
	for k := len(sv.f) - 1; k >= 0; k-- {
		if r == nil {
			r = sv.f[k]
			continue
		}
		c := e.bind(i, func(t *gterm) *dd { return e.eqInt(t, e.intc(int64(k))) })
		r = e.iteV(c, sv.f[k], r)
	}
	return r
}

func (e *gvf) binop(op token.Token, x, y gval, opnd, res types.Type, st *gstate) gval {
	switch op {
	case token.EQL:
		return e.equal(x, y, opnd)
	case token.NEQ:
		return e.not(e.equal(x, y, opnd))
	}
	return e.bindN([]*dd{asDD(x), asDD(y)}, func(t []*gterm) *dd {
		a, b := t[0], t[1]
		if a.op == "const" && b.op == "const" {
			switch op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				if constant.Compare(a.c, op, b.c) {
					return e.T
				}
				return e.F
			case token.SHL, token.SHR:
			case token.QUO, token.REM:
				if constant.Sign(b.c) != 0 && isIntType(opnd) {
					o := op
					if o == token.QUO {
						o = token.QUO_ASSIGN
					}
					return e.leaf(e.konst(constant.BinaryOp(a.c, o, b.c), res))
				}
			case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
				return e.leaf(e.konst(constant.BinaryOp(a.c, op, b.c), res))
			}
		}
		if isIntType(opnd) {
			switch op {
			case token.LSS:
				return e.less(a, b)
			case token.GTR:
				return e.less(b, a)
			case token.LEQ:
				return e.not(e.less(b, a))
			case token.GEQ:
				return e.not(e.less(a, b))
			case token.ADD, token.SUB:
				bx, nx := e.lin(a)
				by, ny := e.lin(b)
				if op == token.SUB {
					if by == nil {
						return e.leaf(e.mkLin(bx, nx-ny))
					}
					if bx == by {
						return e.leaf(e.mkLin(nil, nx-ny))
					}
					if bx == nil {
						break
					}
					return e.leaf(e.mkLin(e.term("-", "", res, bx, by), nx-ny))
				}
				if by == nil {
					return e.leaf(e.mkLin(bx, nx+ny))
				}
				if bx == nil {
					return e.leaf(e.mkLin(by, nx+ny))
				}
				if bx.id > by.id {
					bx, by = by, bx
				}
				return e.leaf(e.mkLin(e.term("add", "", res, bx, by), nx+ny))
			}
		}
		if b, ok := opnd.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && op == token.ADD {
			return e.leaf(e.catTerms(t[0], t[1]))
		}
		switch op {
		case token.GTR:
			return e.boolVar(e.term("<", "", res, b, a))
		case token.LSS:
			return e.boolVar(e.term("<", "", res, a, b))
		case token.GEQ:
			return e.not(e.boolVar(e.term("<", "", res, a, b)))
		case token.LEQ:
			return e.not(e.boolVar(e.term("<", "", res, b, a)))
		case token.MUL, token.AND, token.OR, token.XOR, token.ADD:
			if a.id > b.id {
				a, b = b, a
			}
		}
		return e.leaf(e.term(op.String(), "", res, a, b))
	})
}

// boolTerm gives the terms of a truth value T and F.
func (e *gvf) equal(x, y gval, t types.Type) *dd {
	if sx, ok := x.(*gsv); ok {
		sy, ok := y.(*gsv)
		if !ok {
			gfail("comparison of mixed values")
		}
		r := e.T
		pt := e.parts(sx.typ)
		for i := range sx.f {
			r = e.and(r, e.equal(sx.f[i], sy.f[i], pt[i].typ))
		}
		return r
	}
	if _, ok := y.(*gsv); ok {
		gfail("comparison of mixed values")
	}
	dx, dy := asDD(x), asDD(y)
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return e.ite(dx, dy, e.not(dy))
	}
	if dx == dy {
		return e.T
	}
	return e.bindN([]*dd{dx, dy}, func(ts []*gterm) *dd {
		a, b := ts[0], ts[1]
		if a.op == "box" && b.op == "box" {
			if a.s != b.s {
				return e.F
			}
			return e.equal(a.vals[0], b.vals[0], a.typ)
		}
		if b.op == "box" {
			a, b = b, a
		}
		if a.op == "box" && b.op != "nil" {
			// an interface value compared with one of a known type
			is := e.hasType(b, a.s)
			return e.and(is, e.equal(a.vals[0], e.unbox(b, a.s, a.typ), a.typ))
		}
		if i, ok := t.Underlying().(*types.Interface); ok && !types.Identical(i, errorIface) {
			if a.op == "nil" {
				return e.hasType(b, "nil")
			}
			if b.op == "nil" {
				return e.hasType(a, "nil")
			}
		}
		return e.eqTerm(a, b, t)
	})
}

var errorIface = types.Universe.Lookup("error").Type().Underlying()

func typeKey(t types.Type) string {
	if k, ok := typeKeys.At(t).(string); ok {
		return k
	}
	k := strings.ReplaceAll(types.TypeString(t, nil), specPath, modPath+"/")
	typeKeys.Set(t, k)
	return k
}

// identical types have one key, whatever their parameters are called
var typeKeys typeutil.Map

func (e *gvf) box(t types.Type, v gval) gval {
	if d, ok := v.(*dd); ok {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return e.leaf(e.termv("box", typeKey(t), t, nil, []gval{v}))
		}
		return e.bind(d, func(x *gterm) *dd {
			if x.op == "unbox" && x.s == typeKey(t) {
				return e.leaf(x.args[0])
			}
			return e.leaf(e.termv("box", typeKey(t), t, nil, []gval{e.leaf(x)}))
		})
	}
	if sv, ok := v.(*gsv); ok {
		// all fields of one unboxed value
		if src := e.unboxedFrom(sv, typeKey(t)); src != nil {
			return e.leaf(src)
		}
	}
	return e.leaf(e.termv("box", typeKey(t), t, nil, []gval{v}))
}

func (e *gvf) unboxedFrom(sv *gsv, tk string) *gterm {
	var src *gterm
	for i, p := range e.parts(sv.typ) {
		d, ok := sv.f[i].(*dd)
		if !ok || d.leaf == nil || d.leaf.op != "field" || "/"+d.leaf.s != p.key {
			return nil
		}
		u := d.leaf.args[0]
		if u.op != "unbox" || u.s != tk || src != nil && src != u.args[0] {
			return nil
		}
		src = u.args[0]
	}
	return src
}

// hasType reports whether the dynamic type of x is tk; that of a nil
// interface is "nil".
func (e *gvf) hasType(x *gterm, tk string) *dd {
	if x.op == "nil" && tk == "nil" {
		return e.T
	}
	if x.op == "box" {
		if x.s == tk {
			return e.T
		}
		return e.F
	}
	if x.op == "nil" {
		return e.F
	}
	if x.op == "error!" {
		return e.F
	}
	return e.eqConst(e.term("typeof", "", nil, x), e.term("type", tk, nil))
}

func (e *gvf) unbox(x *gterm, tk string, t types.Type) gval {
	if x.op == "box" && x.s == tk {
		return x.vals[0]
	}
	return e.opaque(t, e.term("unbox", tk, t, x))
}

func (e *gvf) typeAssert(in *ssa.TypeAssert, x *dd, st *gstate, g *dd) (gval, *dd) {
	T := in.AssertedType
	tk := typeKey(T)
	iface := types.IsInterface(T)
	ok := e.bind(x, func(t *gterm) *dd {
		if iface {
			if t.op == "nil" {
				return e.F
			}
			if t.op == "box" {
				if types.Implements(t.typ, T.Underlying().(*types.Interface)) {
					return e.T
				}
				return e.F
			}
			if in.X.Type().Underlying().(*types.Interface).NumMethods() > 0 && types.Implements(in.X.Type(), T.Underlying().(*types.Interface)) {
				return e.not(e.eqTerm(t, e.nilTerm(), nil))
			}
			return e.boolVar(e.term("implements", tk, nil, t))
		}
		return e.hasType(t, tk)
	})
	var v gval
	if iface {
		v = e.ite(ok, x, e.leaf(e.nilTerm()))
	} else {
		v = e.zero(T)
		for _, t := range e.leaves(x) {
			t := t
			if t == e.bot.leaf || e.hasType(t, tk) == e.F {
				continue
			}
			is := e.bind(x, func(y *gterm) *dd {
				if y == t {
					return e.T
				}
				return e.F
			})
			v = e.iteV(e.and(is, e.hasType(t, tk)), e.unbox(t, tk, T), v)
		}
	}
	if in.CommaOk {
		return gtuple{v, ok}, g
	}
	if ng := e.and(g, e.not(ok)); ng != e.F {
	}
	return v, e.and(g, ok)
}

func (e *gvf) retype(v gval, t types.Type) gval {
	if sv, ok := v.(*gsv); ok {
		return &gsv{typ: t, f: sv.f}
	}
	return v
}

func (e *gvf) convert(v gval, from, to types.Type) gval {
	if isIntType(from) && isIntType(to) {
		return v // widths are not modelled
	}
	fk, tk := convKind(from), convKind(to)
	if fk == "string" && tk == "string" {
		return v
	}
	d, ok := v.(*dd)
	if !ok {
		return e.retype(v, to)
	}
	return e.bind(d, func(x *gterm) *dd {
		if x.op == "conv" && x.s == tk+"->"+fk {
			return e.leaf(x.args[0])
		}
		if x.op == "const" && fk == "int" && tk == "string" {
			n, _ := constant.Int64Val(x.c)
			return e.leaf(e.strc(string(rune(n))))
		}
		if x.op == "const" && fk == "int" && tk == "float" {
			return e.leaf(e.konst(constant.ToFloat(x.c), to))
		}
		if fk == "string" && tk == "[]byte" && x.op == "const" && len(constant.StringVal(x.c)) <= 16 {
			var vs []gval
			for _, b := range []byte(constant.StringVal(x.c)) {
				vs = append(vs, e.leaf(e.konst(constant.MakeInt64(int64(b)), types.Typ[types.Uint8])))
			}
			return e.leaf(e.termv("seq", "", to, nil, vs))
		}
		return e.leaf(e.term("conv", fk+"->"+tk, to, x))
	})
}

func convKind(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return "string"
		case u.Info()&types.IsInteger != 0:
			return "int"
		case u.Info()&types.IsFloat != 0:
			return "float"
		}
	case *types.Slice:
		return "[]" + types.TypeString(u.Elem(), nil)
	}
	return types.TypeString(t, nil)
}

func (fr *gframe) slice(in *ssa.Slice, st *gstate) gval {
	e := fr.e
	x := asDD(fr.value(in.X, st))
	var lo, hi *dd
	if in.Low != nil {
		lo = asDD(fr.value(in.Low, st))
	}
	if in.High != nil {
		hi = asDD(fr.value(in.High, st))
	}
	if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		arr := p.Elem().Underlying().(*types.Array)
		return e.bind(x, func(t *gterm) *dd {
			if lo == nil && hi == nil && arr.Len() <= 300 {
				var vs []gval
				l := e.locOf(t)
				for i := int64(0); i < arr.Len(); i++ {
					vs = append(vs, e.loadLoc(gloc{l.root, fmt.Sprintf("%s/[%d]", l.path, i)}, arr.Elem(), st))
				}
				return e.leaf(e.termv("seq", "", in.Type(), nil, vs))
			}
			gfail("slice of an array")
			return nil
		})
	}
	if lo == nil {
		lo = e.leaf(e.intc(0))
	}
	ds := []*dd{x, lo}
	if hi != nil {
		ds = append(ds, hi)
	}
	return e.bindN(ds, func(t []*gterm) *dd {
		s := t[0]
		typ := in.Type()
		lo := t[1]
		var hi *gterm
		if len(t) > 2 {
			hi = t[2]
			if hi.op == "len" && hi.args[0] == s {
				hi = nil
			}
		}
		if hi != nil && lo.op == "const" && hi.op == "const" && constant.Compare(lo.c, token.EQL, hi.c) && convKind(typ) != "string" {
			return e.leaf(e.termv("seq", "", typ, nil, nil))
		}
		zero := lo.op == "const" && constant.Sign(lo.c) == 0
		if zero && hi == nil {
			return e.leaf(s)
		}
		if s.op == "const" && s.c.Kind() == constant.String {
			str := constant.StringVal(s.c)
			l, h := int64(0), int64(len(str))
			okc := true
			if lo.op == "const" {
				l, _ = constant.Int64Val(lo.c)
			} else {
				okc = false
			}
			if hi != nil {
				if hi.op == "const" {
					h, _ = constant.Int64Val(hi.c)
				} else {
					okc = false
				}
			}
			if okc && 0 <= l && l <= h && h <= int64(len(str)) {
				return e.leaf(e.strc(str[l:h]))
			}
		}
		// around a separator
		if zero && hi != nil && hi.op == "idx" && hi.args[0] == s {
			return e.leaf(e.term("before", "", typ, s, hi.args[1]))
		}
		if b, n := e.lin(lo); hi == nil && b != nil && b.op == "idx" && b.args[0] == s && n == int64(len(constant.StringVal(b.args[1].c))) {
			return e.leaf(e.term("after", "", typ, s, b.args[1]))
		}
		// slices of slices
		if s.op == "sub" && len(s.args) == 2 && hi == nil {
			bx, nx := e.lin(s.args[1])
			by, ny := e.lin(lo)
			if by == nil {
				return e.leaf(e.term("sub", "", typ, s.args[0], e.mkLin(bx, nx+ny)))
			}
			if bx == nil {
				return e.leaf(e.term("sub", "", typ, s.args[0], e.mkLin(by, nx+ny)))
			}
		}
		args := []*gterm{s, lo}
		if hi != nil {
			args = append(args, hi)
		}
		return e.leaf(e.term("sub", "", typ, args...))
	})
}

// ---- maps

func (e *gvf) mapLog(m *gterm, st *gstate) *gterm {
	if c, ok := st.mem[gloc{m, "·log"}]; ok {
		if c.v.leaf == nil {
			return nil
		}
		return c.v.leaf
	}
	if c, ok := e.init.mem[gloc{m, "·log"}]; ok && c.v.leaf != nil {
		return c.v.leaf
	}
	return nil
}

func (e *gvf) mapUpdate(m *dd, k, v gval, st *gstate, g *dd) {
	for _, x := range e.leaves(m) {
		x := x
		if x.op == "nil" || x == e.bot.leaf {
			continue
		}
		cond := e.bind(m, func(y *gterm) *dd {
			if y == x {
				return e.T
			}
			return e.F
		})
		l := gloc{x, "·log"}
		old, ok := st.mem[l]
		if !ok {
			if c, ok := e.init.mem[l]; ok {
				old = c
			} else {
				old = gcell{e.leaf(e.term("maplog", "", nil)), nil}
			}
		}
		nv := e.bind(old.v, func(o *gterm) *dd {
			return e.leaf(e.termv("mapput", "", nil, []*gterm{o}, []gval{k, v}))
		})
		st.mem[l] = gcell{e.ite(cond, nv, old.v), types.Typ[types.UnsafePointer]}
	}
}

func (e *gvf) lookup(in *ssa.Lookup, x, k gval, st *gstate) gval {
	if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
		// string index
		return e.bindN([]*dd{asDD(x), asDD(k)}, func(t []*gterm) *dd {
			return e.scalar(in.Type(), e.elemTerm(t[0], t[1], in.Type(), nil))
		})
	}
	mt := in.X.Type().Underlying().(*types.Map)
	v, ok := e.mapGet(asDD(x), k, mt, st)
	if in.CommaOk {
		return gtuple{v, ok}
	}
	return v
}

func (e *gvf) mapGet(m *dd, k gval, mt *types.Map, st *gstate) (gval, *dd) {
	var rv gval
	var rok *dd
	for i, x := range e.leaves(m) {
		x := x
		v, ok := e.mapGet1(x, k, mt, st)
		if i == 0 {
			rv, rok = v, ok
			continue
		}
		is := e.bind(m, func(y *gterm) *dd {
			if y == x {
				return e.T
			}
			return e.F
		})
		rv, rok = e.iteV(is, v, rv), e.ite(is, ok, rok)
	}
	return rv, rok
}

func (e *gvf) mapGet1(m *gterm, k gval, mt *types.Map, st *gstate) (gval, *dd) {
	if m.op == "nil" {
		return e.zero(mt.Elem()), e.F
	}
	l := gloc{m, "·log"}
	c, have := st.mem[l]
	if !have {
		c, have = e.init.mem[l]
	}
	var get func(log *gterm) (gval, *dd)
	get = func(log *gterm) (gval, *dd) {
		if log != nil && log.op == "mapput" {
			hit := e.equal(k, log.vals[0], mt.Key())
			if hit == e.T {
				return log.vals[1], e.T
			}
			v, ok := get(log.args[0])
			return e.iteV(hit, log.vals[1], v), e.or(hit, ok)
		}
		if log != nil && log.op != "maplog" {
			// a map whose contents at this point are described by the term
			if v := e.iterated(log, k, mt.Elem()); v != nil {
				return v, e.T
			}
			t := e.termv("lookup", "", nil, []*gterm{log}, []gval{k})
			ok := e.boolVar(e.term("has", "", nil, t))
			return e.iteV(ok, e.opaque(mt.Elem(), t), e.zero(mt.Elem())), ok
		}
		if m.op == "alloc" {
			return e.zero(mt.Elem()), e.F
		}
		if v := e.iterated(m, k, mt.Elem()); v != nil {
			return v, e.T
		}
		t := e.termv("lookup", "", nil, []*gterm{m}, []gval{k})
		ok := e.boolVar(e.term("has", "", nil, t))
		return e.iteV(ok, e.opaque(mt.Elem(), t), e.zero(mt.Elem())), ok
	}
	if !have {
		return get(nil)
	}
	var rv gval
	var rok *dd
	for i, x := range e.leaves(c.v) {
		x := x
		v, ok := get(x)
		if i == 0 {
			rv, rok = v, ok
			continue
		}
		is := e.bind(c.v, func(y *gterm) *dd {
			if y == x {
				return e.T
			}
			return e.F
		})
		rv, rok = e.iteV(is, v, rv), e.ite(is, ok, rok)
	}
	return rv, rok
}

// ---- sequences

func (e *gvf) seqOf(t *gterm) []gval {
	switch t.op {
	case "seq":
		return t.vals
	case "nil":
		return nil
	}
	return []gval{e.leaf(e.term("spread", "", nil, t))}
}

func (e *gvf) appendVals(typ types.Type, a, b *dd) gval {
	return e.bindN([]*dd{a, b}, func(t []*gterm) *dd {
		if t[1].op == "nil" || t[1].op == "seq" && len(t[1].vals) == 0 {
			return e.leaf(t[0])
		}
		vs := append(append([]gval{}, e.seqOf(t[0])...), e.seqOf(t[1])...)
		return e.leaf(e.termv("seq", "", typ, nil, vs))
	})
}

func (e *gvf) length(v *dd, t types.Type) *dd {
	return e.bind(v, func(x *gterm) *dd {
		switch x.op {
		case "nil":
			return e.leaf(e.intc(0))
		case "make":
			return e.leaf(x.args[0])
		case "const":
			if x.c.Kind() == constant.String {
				return e.leaf(e.intc(int64(len(constant.StringVal(x.c)))))
			}
		case "seq":
			n := int64(0)
			var rest []*gterm
			for _, v := range x.vals {
				if isSpread(v) {
					rest = append(rest, asDD(v).leaf.args[0])
				} else {
					n++
				}
			}
			if len(rest) == 0 {
				return e.leaf(e.intc(n))
			}
			if len(rest) == 1 {
				return e.leaf(e.mkLin(e.lenTerm(rest[0], t), n))
			}
		}
		return e.leaf(e.lenTerm(x, t))
	})
}

func (e *gvf) lenTerm(x *gterm, t types.Type) *gterm {
	if x.op == "conv" && (x.s == "string->[]byte" || x.s == "[]byte->string") {
		return e.lenTerm(x.args[0], types.Typ[types.String])
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return e.term("len", "string", types.Typ[types.Int], x)
	}
	return e.term("len", "", types.Typ[types.Int], x)
}

// sortTerms puts symbol names in order.
func sortedSyms(m map[string]bool) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

// iterated: what a map holds for the key of an iteration over it.
func (e *gvf) iterated(m *gterm, k gval, elem types.Type) gval {
	var key *gterm
	switch k := k.(type) {
	case *dd:
		key = k.leaf
	case *gsv:
		// every field is one of the same key
		for _, p := range k.f {
			d, ok := p.(*dd)
			if !ok || d.leaf == nil || len(d.leaf.args) == 0 {
				return nil
			}
			x := d.leaf.args[0]
			if key == nil {
				key = x
			}
			if x != key || key.op != "iterkey" || k.key() != e.opaque(k.typ, key).key() {
				return nil
			}
		}
	}
	if key == nil || key.op != "iterkey" || key.args[0] != m {
		return nil
	}
	return e.opaque(elem, e.term("iterval", "", elem, m, key.args[1]))
}

// boolSet: a local map of booleans that are all true is a set.
func boolSet(v ssa.Value) types.Type {
	m, ok := v.(*ssa.MakeMap)
	if !ok {
		return nil
	}
	if b, ok := m.Type().Underlying().(*types.Map).Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return nil
	}
	for _, r := range *m.Referrers() {
		switch r := r.(type) {
		case *ssa.MapUpdate:
			c, ok := r.Value.(*ssa.Const)
			if r.Map != v || !ok || c.Value == nil || !constant.BoolVal(c.Value) {
				return nil
			}
		case *ssa.Lookup, *ssa.DebugRef:
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "delete" {
				return nil
			}
		default:
			return nil
		}
	}
	return types.NewStruct(nil, nil)
}
