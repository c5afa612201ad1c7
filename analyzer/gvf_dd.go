package main

// Guarded value flow: canonical guarded values.
//
// A value is described by a decision diagram whose tests are conditions on
// terms (access paths, results of calls, ...) and whose leaves are terms.
// Diagrams are ordered, reduced and shared, so that two computations that
// decide the same way are described by the same diagram, however they are
// written.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"
)

type gterm struct {
	id   int
	op   string
	s    string
	args []*gterm
	vals []gval
	typ  types.Type
	c    constant.Value
	syms map[string]bool // loop and lambda symbols that occur in it
}

// gval is *dd or *gsv.
type gval interface{ key() string }

// gsv is a structure or array value, by element.
type gsv struct {
	typ types.Type
	f   []gval
}

func (v *gsv) key() string {
	var b strings.Builder
	b.WriteByte('{')
	for i, f := range v.f {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(f.key())
	}
	b.WriteByte('}')
	return b.String()
}

type dvar struct {
	ord  int
	kind byte // 'b' truth, 'e' equality with constants, 'i' integer intervals
	t    *gterm
}

// dd is a leaf, or a test of v.  For 'b' kids are [false, true]; for 'e'
// kids[i] belongs to keys[i] and the last one to all other values; for 'i'
// kids[i] belongs to values below cuts[i] (and not below cuts[i-1]).
type dd struct {
	id   int
	leaf *gterm
	v    *dvar
	keys []*gterm
	cuts []int64
	kids []*dd
	syms map[string]bool
}

func (d *dd) key() string { return fmt.Sprintf("d%d", d.id) }

type gvfErr struct{ msg string }

func (e gvfErr) Error() string { return e.msg }

func gfail(format string, args ...interface{}) {
	panic(gvfErr{fmt.Sprintf(format, args...)})
}

// ddTab holds the shared tables.
type ddTab struct {
	terms  map[string]*gterm
	termsN int
	vars   map[string]*dvar
	nodes  map[string]*dd
	ites   map[[3]int]*dd
	byID   []*dd
	tTrue  *gterm
	tFalse *gterm
	bot    *dd
	T, F   *dd
	limit  int
}

func newDDTab() *ddTab {
	t := &ddTab{terms: map[string]*gterm{}, vars: map[string]*dvar{}, nodes: map[string]*dd{}, ites: map[[3]int]*dd{}, limit: 400000}
	t.tTrue = t.konst(constant.MakeBool(true), types.Typ[types.Bool])
	t.tFalse = t.konst(constant.MakeBool(false), types.Typ[types.Bool])
	t.T, t.F = t.leaf(t.tTrue), t.leaf(t.tFalse)
	t.bot = t.leaf(t.term("⊥", "", nil))
	return t
}

func (t *ddTab) konst(c constant.Value, typ types.Type) *gterm {
	if typ != nil && c.Kind() == constant.Int {
		if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			c = constant.ToFloat(c)
		}
	}
	k := "const " + c.Kind().String() + " " + c.ExactString()
	if x := t.terms[k]; x != nil {
		return x
	}
	t.termsN++
	x := &gterm{id: t.termsN, op: "const", c: c, typ: typ, s: c.ExactString()}
	t.terms[k] = x
	return x
}

func (t *ddTab) term(op, s string, typ types.Type, args ...*gterm) *gterm {
	return t.termv(op, s, typ, args, nil)
}

func (t *ddTab) termv(op, s string, typ types.Type, args []*gterm, vals []gval) *gterm {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('\x00')
	b.WriteString(s)
	for _, a := range args {
		fmt.Fprintf(&b, " t%d", a.id)
	}
	for _, v := range vals {
		b.WriteByte(' ')
		b.WriteString(v.key())
	}
	k := b.String()
	if x := t.terms[k]; x != nil {
		return x
	}
	t.termsN++
	if t.termsN > t.limit {
		gfail("too many terms")
	}
	x := &gterm{id: t.termsN, op: op, s: s, typ: typ, args: args, vals: vals}
	if op == "I" || op == "C" || op == "λ" || op == "M" || op == "J" {
		x.syms = map[string]bool{op + s: true}
	}
	for _, a := range args {
		x.syms = symUnion(x.syms, a.syms)
	}
	for _, v := range vals {
		x.syms = symUnion(x.syms, vsyms(v))
	}
	if len(x.syms) > 0 && gvfBinder[op] {
		// binders: s names the depth they bind
		d := s
		if i := strings.IndexByte(d, ' '); i >= 0 {
			d = d[:i]
		}
		n := map[string]bool{}
		for k := range x.syms {
			if symDepth(k) != d {
				n[k] = true
			}
		}
		x.syms = n
	}
	t.terms[k] = x
	return x
}

var gvfBinder = map[string]bool{"any": true, "first": true, "comp": true, "upto": true, "end": true, "fold": true, "loopev": true, "lambda": true}

// symDepth is the binder a symbol belongs to.
func symDepth(k string) string {
	d := strings.TrimLeft(k, "ICMJλ")
	if strings.HasPrefix(k, "λ") {
		d = "λ" + d
	}
	if i := strings.IndexByte(d, '.'); i >= 0 {
		d = d[:i]
	}
	return d
}

func symUnion(a, b map[string]bool) map[string]bool {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	n := map[string]bool{}
	for k := range a {
		n[k] = true
	}
	for k := range b {
		n[k] = true
	}
	return n
}

func vsyms(v gval) map[string]bool {
	switch v := v.(type) {
	case *dd:
		return v.syms
	case *gsv:
		var s map[string]bool
		for _, f := range v.f {
			s = symUnion(s, vsyms(f))
		}
		return s
	}
	return nil
}

func (t *ddTab) leaf(x *gterm) *dd {
	k := fmt.Sprintf("l%d", x.id)
	if d := t.nodes[k]; d != nil {
		return d
	}
	d := &dd{id: len(t.byID), leaf: x, syms: x.syms}
	t.byID = append(t.byID, d)
	t.nodes[k] = d
	return d
}

func (t *ddTab) variable(kind byte, x *gterm) *dvar {
	k := fmt.Sprintf("%c%d", kind, x.id)
	if v := t.vars[k]; v != nil {
		return v
	}
	v := &dvar{ord: len(t.vars), kind: kind, t: x}
	t.vars[k] = v
	return v
}

// mk makes the reduced node.
func (t *ddTab) mk(v *dvar, keys []*gterm, cuts []int64, kids []*dd) *dd {
	switch v.kind {
	case 'b':
		if kids[0] == kids[1] {
			return kids[0]
		}
	case 'e':
		def := kids[len(kids)-1]
		var nk []*gterm
		var nc []*dd
		for i, k := range keys {
			if kids[i] != def {
				nk = append(nk, k)
				nc = append(nc, kids[i])
			}
		}
		if len(nk) == 0 {
			return def
		}
		sort.Sort(&byKeyID{nk, nc})
		keys, kids = nk, append(nc, def)
	case 'i':
		var nc []int64
		nk := []*dd{kids[0]}
		for i, c := range cuts {
			if kids[i+1] != nk[len(nk)-1] {
				nc = append(nc, c)
				nk = append(nk, kids[i+1])
			}
		}
		if len(nc) == 0 {
			return nk[0]
		}
		cuts, kids = nc, nk
	}
	var b strings.Builder
	fmt.Fprintf(&b, "n%d", v.ord)
	for _, k := range keys {
		fmt.Fprintf(&b, " k%d", k.id)
	}
	for _, c := range cuts {
		fmt.Fprintf(&b, " c%d", c)
	}
	for _, c := range kids {
		fmt.Fprintf(&b, " %d", c.id)
	}
	k := b.String()
	if d := t.nodes[k]; d != nil {
		return d
	}
	if len(t.byID) > t.limit {
		gfail("decision diagram too large")
	}
	d := &dd{id: len(t.byID), v: v, keys: keys, cuts: cuts, kids: kids, syms: v.t.syms}
	for _, c := range kids {
		d.syms = symUnion(d.syms, c.syms)
	}
	t.byID = append(t.byID, d)
	t.nodes[k] = d
	return d
}

type byKeyID struct {
	k []*gterm
	c []*dd
}

func (x *byKeyID) Len() int           { return len(x.k) }
func (x *byKeyID) Less(i, j int) bool { return x.k[i].id < x.k[j].id }
func (x *byKeyID) Swap(i, j int) {
	x.k[i], x.k[j] = x.k[j], x.k[i]
	x.c[i], x.c[j] = x.c[j], x.c[i]
}

// cof is d restricted to the case of v: index for 'b', key (nil for the
// others) for 'e', and a value for 'i'.
func cof(d *dd, v *dvar, b int, key *gterm, n int64) *dd {
	if d.leaf != nil || d.v != v {
		return d
	}
	switch v.kind {
	case 'b':
		return d.kids[b]
	case 'e':
		if key != nil {
			for i, k := range d.keys {
				if k == key {
					return d.kids[i]
				}
			}
		}
		return d.kids[len(d.kids)-1]
	}
	for i, c := range d.cuts {
		if n < c {
			return d.kids[i]
		}
	}
	return d.kids[len(d.kids)-1]
}

// ite: c must have boolean leaves (or ⊥, which chooses ⊥).
func (t *ddTab) ite(c, a, b *dd) *dd {
	if c == t.T {
		return a
	}
	if c == t.F {
		return b
	}
	if a == b {
		return a
	}
	if a == t.T && b == t.F {
		return c
	}
	if c.leaf != nil {
		if c == t.bot {
			return t.bot
		}
		gfail("condition %s is not a truth value", t.show(c))
	}
	k := [3]int{c.id, a.id, b.id}
	if d := t.ites[k]; d != nil {
		return d
	}
	v := c.v
	for _, x := range []*dd{a, b} {
		if x.leaf == nil && x.v.ord < v.ord {
			v = x.v
		}
	}
	d := t.split(v, []*dd{c, a, b}, func(x []*dd) *dd { return t.ite(x[0], x[1], x[2]) })
	t.ites[k] = d
	return d
}

// split distinguishes the cases of v that matter to the diagrams.
func (t *ddTab) split(v *dvar, ds []*dd, f func([]*dd) *dd) *dd {
	sub := func(b int, key *gterm, n int64) *dd {
		x := make([]*dd, len(ds))
		for i, d := range ds {
			x[i] = cof(d, v, b, key, n)
		}
		return f(x)
	}
	switch v.kind {
	case 'b':
		return t.mk(v, nil, nil, []*dd{sub(0, nil, 0), sub(1, nil, 0)})
	case 'e':
		seen := map[*gterm]bool{}
		var keys []*gterm
		for _, d := range ds {
			if d.leaf == nil && d.v == v {
				for _, k := range d.keys {
					if !seen[k] {
						seen[k] = true
						keys = append(keys, k)
					}
				}
			}
		}
		var kids []*dd
		for _, k := range keys {
			kids = append(kids, sub(0, k, 0))
		}
		kids = append(kids, sub(0, nil, 0))
		return t.mk(v, keys, nil, kids)
	}
	seen := map[int64]bool{}
	var cuts []int64
	for _, d := range ds {
		if d.leaf == nil && d.v == v {
			for _, c := range d.cuts {
				if !seen[c] {
					seen[c] = true
					cuts = append(cuts, c)
				}
			}
		}
	}
	sort.Slice(cuts, func(i, j int) bool { return cuts[i] < cuts[j] })
	var kids []*dd
	for _, c := range cuts {
		kids = append(kids, sub(0, nil, c-1))
	}
	kids = append(kids, sub(0, nil, math.MaxInt64))
	return t.mk(v, nil, cuts, kids)
}

// constrain is d where c holds; elsewhere it is what makes it simplest.  What
// it gives depends only on what d is where c holds.
func (t *ddTab) constrain(d, c *dd) *dd {
	return t.constrain1(d, c, map[[2]int]*dd{})
}

func (t *ddTab) constrain1(d, c *dd, memo map[[2]int]*dd) *dd {
	if c.leaf != nil || d.leaf != nil {
		return d
	}
	k := [2]int{d.id, c.id}
	if r := memo[k]; r != nil {
		return r
	}
	v := c.v
	if d.v.ord < v.ord {
		v = d.v
	}
	var alt *dd
	if c.v == v {
		for i, kid := range c.kids {
			if kid == t.F || kid == t.bot {
				continue
			}
			var key *gterm
			n := int64(0)
			if v.kind == 'e' && i < len(c.keys) {
				key = c.keys[i]
			} else if v.kind == 'i' {
				if i < len(c.cuts) {
					n = c.cuts[i] - 1
				} else {
					n = c.cuts[len(c.cuts)-1]
				}
			}
			alt = t.constrain1(cof(d, v, i, key, n), kid, memo)
			break
		}
		if alt == nil {
			return d
		}
	}
	r := t.split(v, []*dd{d, c}, func(ds []*dd) *dd {
		if ds[1] == t.F || ds[1] == t.bot {
			return alt
		}
		return t.constrain1(ds[0], ds[1], memo)
	})
	memo[k] = r
	return r
}

func (t *ddTab) constrainV(v gval, c *dd) gval {
	switch v := v.(type) {
	case *gsv:
		r := &gsv{typ: v.typ, f: make([]gval, len(v.f))}
		for i := range v.f {
			r.f[i] = t.constrainV(v.f[i], c)
		}
		return r
	case gtuple:
		r := make(gtuple, len(v))
		for i := range v {
			r[i] = t.constrainV(v[i], c)
		}
		return r
	case *dd:
		return t.constrain(v, c)
	}
	return v
}

func (t *ddTab) not(a *dd) *dd    { return t.ite(a, t.F, t.T) }
func (t *ddTab) and(a, b *dd) *dd { return t.ite(a, b, t.F) }
func (t *ddTab) or(a, b *dd) *dd  { return t.ite(a, t.T, b) }

// bind replaces the leaves.
func (t *ddTab) bind(d *dd, f func(*gterm) *dd) *dd {
	memo := map[*dd]*dd{}
	var rec func(d *dd) *dd
	rec = func(d *dd) *dd {
		if d.leaf != nil {
			if d == t.bot {
				return d
			}
			return f(d.leaf)
		}
		if r := memo[d]; r != nil {
			return r
		}
		var r *dd
		switch d.v.kind {
		case 'b':
			r = t.ite(t.mk(d.v, nil, nil, []*dd{t.F, t.T}), rec(d.kids[1]), rec(d.kids[0]))
		case 'e':
			r = rec(d.kids[len(d.kids)-1])
			for i, k := range d.keys {
				r = t.ite(t.mk(d.v, []*gterm{k}, nil, []*dd{t.T, t.F}), rec(d.kids[i]), r)
			}
		default:
			r = rec(d.kids[len(d.kids)-1])
			for i := len(d.cuts) - 1; i >= 0; i-- {
				r = t.ite(t.mk(d.v, nil, []int64{d.cuts[i]}, []*dd{t.T, t.F}), rec(d.kids[i]), r)
			}
		}
		memo[d] = r
		return r
	}
	return rec(d)
}

func (t *ddTab) bindN(ds []*dd, f func([]*gterm) *dd) *dd {
	acc := make([]*gterm, 0, len(ds))
	var rec func(i int) *dd
	rec = func(i int) *dd {
		if i == len(ds) {
			return f(append([]*gterm{}, acc...))
		}
		return t.bind(ds[i], func(x *gterm) *dd {
			acc = append(acc[:i], x)
			return rec(i + 1)
		})
	}
	return rec(0)
}

// leaves of a diagram.
func (t *ddTab) leaves(d *dd) []*gterm {
	var out []*gterm
	seen := map[*dd]bool{}
	var rec func(d *dd)
	rec = func(d *dd) {
		if seen[d] {
			return
		}
		seen[d] = true
		if d.leaf != nil {
			out = append(out, d.leaf)
			return
		}
		for _, k := range d.kids {
			rec(k)
		}
	}
	rec(d)
	return out
}

func (t *ddTab) boolVar(x *gterm) *dd {
	return t.mk(t.variable('b', x), nil, nil, []*dd{t.F, t.T})
}

// eqConst: the term equals the constant key.
func (t *ddTab) eqConst(x, k *gterm) *dd {
	return t.mk(t.variable('e', x), []*gterm{k}, nil, []*dd{t.T, t.F})
}

// below: the integer x is less than n.
func (t *ddTab) below(x *gterm, n int64) *dd {
	if x.op == "len" {
		if n <= 0 {
			return t.F
		}
		if n == 1 && x.s == "string" {
			return t.eqConst(x.args[0], t.konst(constant.MakeString(""), types.Typ[types.String]))
		}
		if y := x.args[0]; n == 1 && x.s == "" && y.op == "sub" && len(y.args) == 2 && len(y.vals) == 0 && y.args[1].op == "I" {
			return t.not(t.less(y.args[1], t.term("len", "", types.Typ[types.Int], y.args[0])))
		}
	}
	if n <= 0 && nonNegative(x) {
		return t.F
	}
	if x.op == "idx" && n < 0 {
		return t.F
	}
	if x.op == "idx" && n == 0 {
		return t.not(t.boolVar(t.term("fn", "strings.Contains", types.Typ[types.Bool], x.args[0], x.args[1])))
	}
	return t.mk(t.variable('i', x), nil, []int64{n}, []*dd{t.T, t.F})
}

// ---- showing

func (t *ddTab) show(v gval) string { return t.showN(v, 12) }

func (t *ddTab) showN(v gval, n int) string {
	if n == 0 {
		return "…"
	}
	switch v := v.(type) {
	case *gsv:
		var p []string
		for i, f := range v.f {
			name := fmt.Sprint(i)
			if st, ok := v.typ.Underlying().(*types.Struct); ok {
				name = st.Field(i).Name()
			}
			p = append(p, name+": "+t.showN(f, n-1))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case *dd:
		if v.leaf != nil {
			return t.showT(v.leaf, n-1)
		}
		var p []string
		x := t.showT(v.v.t, n-1)
		switch v.v.kind {
		case 'b':
			if v.kids[1] == t.T && v.kids[0] == t.F {
				return x
			}
			p = append(p, x+" ? "+t.showN(v.kids[1], n-1)+" : "+t.showN(v.kids[0], n-1))
		case 'e':
			for i, k := range v.keys {
				p = append(p, x+"=="+t.showT(k, n-1)+" ? "+t.showN(v.kids[i], n-1))
			}
			p = append(p, t.showN(v.kids[len(v.kids)-1], n-1))
		default:
			for i, c := range v.cuts {
				p = append(p, fmt.Sprintf("%s<%d ? %s", x, c, t.showN(v.kids[i], n-1)))
			}
			p = append(p, t.showN(v.kids[len(v.kids)-1], n-1))
		}
		return "(" + strings.Join(p, " : ") + ")"
	}
	return fmt.Sprint(v)
}

func (t *ddTab) showT(x *gterm, n int) string {
	if n <= 0 {
		return "…"
	}
	var as []string
	for _, a := range x.args {
		as = append(as, t.showT(a, n-1))
	}
	for _, v := range x.vals {
		as = append(as, t.showN(v, n-1))
	}
	switch x.op {
	case "const":
		if len(x.s) > 60 {
			return x.s[:60] + `…"`
		}
		return x.s
	case "field":
		return as[0] + "." + x.s
	case "deref":
		return "*" + as[0]
	case "elem":
		return as[0] + "[" + strings.Join(as[1:], ",") + "]"
	case "param":
		return x.s
	}
	s := x.op
	if x.s != "" {
		s += ":" + x.s
	}
	if len(as) > 0 {
		s += "(" + strings.Join(as, ", ") + ")"
	}
	return s
}

// ---- comparison of terms

func (t *ddTab) lin(x *gterm) (*gterm, int64) {
	if x.op == "const" {
		if n, ok := constant.Int64Val(constant.ToInt(x.c)); ok {
			return nil, n
		}
		gfail("constant %s out of range", x.s)
	}
	if x.op == "lin" {
		n, _ := constant.Int64Val(x.args[1].c)
		return x.args[0], n
	}
	return x, 0
}

func (t *ddTab) mkLin(x *gterm, n int64) *gterm {
	if x == nil {
		return t.konst(constant.MakeInt64(n), types.Typ[types.Int])
	}
	if n == 0 {
		return x
	}
	return t.term("lin", "", x.typ, x, t.konst(constant.MakeInt64(n), types.Typ[types.Int]))
}

func isIntType(typ types.Type) bool {
	b, ok := typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// less: x < y for integers.
func (t *ddTab) less(x, y *gterm) *dd {
	bx, nx := t.lin(x)
	by, ny := t.lin(y)
	switch {
	case bx == by:
		if nx < ny {
			return t.T
		}
		return t.F
	case by == nil: // bx + nx < ny
		return t.below(bx, ny-nx)
	case bx == nil: // nx < by + ny
		return t.not(t.below(by, nx-ny+1))
	}
	// bx + nx < by + ny
	k := ny - nx
	if bx.op == "first" && strings.HasSuffix(bx.s, " +") && k >= 0 && len(bx.vals) > 0 {
		// the first iteration for which something holds that implies I < by
		I := t.term("I", strings.TrimSuffix(bx.s, " +"), types.Typ[types.Int])
		if b, ok := bx.vals[0].(*dd); ok && t.and(b, t.not(t.less(I, by))) == t.F {
			return t.T
		}
	}
	return t.boolVar(t.term("lt", fmt.Sprint(k), types.Typ[types.Bool], bx, by))
}

func (t *ddTab) eqInt(x, y *gterm) *dd {
	bx, nx := t.lin(x)
	by, ny := t.lin(y)
	switch {
	case bx == by:
		if nx == ny {
			return t.T
		}
		return t.F
	case by == nil:
		return t.and(t.not(t.below(bx, ny-nx)), t.below(bx, ny-nx+1))
	case bx == nil:
		return t.eqInt(y, x)
	}
	if bx.id > by.id {
		bx, by, nx, ny = by, bx, ny, nx
	}
	return t.boolVar(t.term("eqi", fmt.Sprint(ny-nx), types.Typ[types.Bool], bx, by))
}

// nonNegative: numbers of iterations.
func nonNegative(x *gterm) bool {
	switch x.op {
	case "I":
		return true
	case "first":
		return !strings.HasSuffix(x.s, "m") && !strings.HasSuffix(x.s, "from")
	}
	return false
}

// isKey: the term stands for one value that no other key stands for.
func isKey(x *gterm) bool {
	switch x.op {
	case "const", "nil", "type":
		return true
	}
	return false
}

// nonNil: the term never is nil.
func nonNil(x *gterm) bool {
	switch x.op {
	case "alloc", "global", "fa", "ia", "box", "error!", "closure", "func", "newmap":
		return true
	}
	return false
}

func (t *ddTab) eqTerm(x, y *gterm, typ types.Type) *dd {
	if x == y {
		return t.T
	}
	if isKey(y) && !isKey(x) {
		x, y = y, x
	}
	if isKey(x) {
		if isKey(y) {
			return t.F
		}
		if x.op == "nil" {
			if nonNil(y) {
				return t.F
			}
			if y.op == "seq" {
				if len(y.vals) == 0 {
					return t.boolVar(t.term("isnil", "", types.Typ[types.Bool], y))
				}
				for _, v := range y.vals {
					if d, ok := v.(*dd); !ok || d.leaf == nil || d.leaf.op != "spread" {
						return t.F
					}
				}
			}
			return t.eqConst(y, x)
		}
		if x.op == "const" && (x.c.Kind() == constant.Int) && (isIntType(typ) || y.op == "len" || y.op == "lin") {
			return t.eqInt(y, x)
		}
		if x.op == "const" && x.c.Kind() == constant.Bool {
			d := t.boolVar(y)
			if constant.BoolVal(x.c) {
				return d
			}
			return t.not(d)
		}
		if y.op == "cat" && x.op == "const" {
			// a concatenation with a constant part
			s := constant.StringVal(x.c)
			for _, a := range y.args {
				if a.op == "const" {
					if l := constant.StringVal(a.c); l != "" && !strings.Contains(s, l) {
						return t.F
					}
				}
			}
		}
		if y.op == "box" {
			return t.F
		}
		return t.eqConst(y, x)
	}
	if typ != nil && isIntType(typ) {
		return t.eqInt(x, y)
	}
	if x.op == "alloc" && y.op == "alloc" {
		return t.F
	}
	if x.id > y.id {
		x, y = y, x
	}
	return t.boolVar(t.term("eq", "", types.Typ[types.Bool], x, y))
}

func (t *ddTab) catTerms(x, y *gterm) *gterm {
	var parts []*gterm
	add := func(p *gterm) {
		if p.op == "const" {
			if constant.StringVal(p.c) == "" {
				return
			}
			if n := len(parts); n > 0 && parts[n-1].op == "const" {
				parts[n-1] = t.konst(constant.BinaryOp(parts[n-1].c, token.ADD, p.c), types.Typ[types.String])
				return
			}
		}
		parts = append(parts, p)
	}
	for _, p := range []*gterm{x, y} {
		if p.op == "cat" {
			for _, a := range p.args {
				add(a)
			}
		} else {
			add(p)
		}
	}
	switch len(parts) {
	case 0:
		return t.konst(constant.MakeString(""), types.Typ[types.String])
	case 1:
		return parts[0]
	}
	return t.term("cat", "", types.Typ[types.String], parts...)
}
