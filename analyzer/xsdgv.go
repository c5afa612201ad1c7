package main

// Value graphs of package xsd: queries of element trees are steps of their
// own (C14 and C15 decide what they do), and so is the look-up of a type name.

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var treeQueries = map[string]bool{"Attr": true, "Resolve": true, "ResolveNS": true, "ResolveDefault": true, "Prefix": true, "Search": true, "SearchFunc": true, "Flatten": true}

// treePrims makes queries of element trees opaque and without effect.
func (e *gvf) treePrims() {
	old := e.prim
	e.prim = func(fr *gframe, in ssa.CallInstruction, f *ssa.Function, args []gval, st *gstate, g *dd) (gval, bool) {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == modPath+"/xmltree" && f.Signature.Recv() != nil && treeQueries[f.Name()] {
			switch f.Name() {
			case "Search", "Flatten":
				// C15 decides that they are what the reference says
				if ref := e.c.Spec["xmltree"].Func(f.Name()); ref != nil && f.Pkg.Pkg.Path() == modPath+"/xmltree" {
					r := e.call(ref, args, nil, st.clone(), g)
					return r.vals, true
				}
			case "SearchFunc":
				args = []gval{args[0], e.content(args[1], st, 2)}
			}
			if d, ok := args[0].(*dd); ok && e.valHasLocal(d, st) {
				args = append([]gval{e.contentRead(d, st, 3)}, args[1:]...)
			}
			// calls of an embedded scope's methods are the same for the element
			return fr.queryCall(f.Name(), sigOf(in), args), true
		}
		if isTypeLookup(f.Signature) && f.Signature.Recv() == nil {
			return fr.queryCall("parseType", sigOf(in), args), true
		}
		if old != nil {
			return old(fr, in, f, args, st, g)
		}
		return nil, false
	}
}

// isTypeLookup: func(xml.Name) xsd.Type
func isTypeLookup(s *types.Signature) bool {
	return s.Params().Len() == 1 && s.Results().Len() == 1 && typeKey(s.Params().At(0).Type()) == "encoding/xml.Name" && typeKey(s.Results().At(0).Type()) == modPath+"/xsd.Type"
}

// queryCall is a term for a query of a tree that nothing changes.
func (fr *gframe) queryCall(name string, sig *types.Signature, args []gval) gval {
	e := fr.e
	plain := true
	for _, a := range args {
		if d, ok := a.(*dd); !ok || d.leaf == nil && len(e.leaves(d)) > 6 {
			plain = false
		}
	}
	rt := resultType(sig)
	if plain && !strings.Contains(name, "ResolveNS") {
		var ds []*dd
		for _, a := range args {
			ds = append(ds, a.(*dd))
		}
		return e.bindV(rt, ds, func(ts []*gterm) gval { return e.opaque(rt, e.term("fn", name, nil, ts...)) })
	}
	return e.opaque(rt, e.termv("fn", name, nil, nil, args))
}

// bindV applies f to the cases of several values.
func (e *gvf) bindV(t types.Type, ds []*dd, f func([]*gterm) gval) gval {
	one := true
	for _, d := range ds {
		one = one && d.leaf != nil
	}
	if one {
		var ts []*gterm
		for _, d := range ds {
			ts = append(ts, d.leaf)
		}
		return f(ts)
	}
	for i, d := range ds {
		if d.leaf != nil {
			continue
		}
		var out gval
		for _, x := range e.leaves(d) {
			is := e.bind(d, func(y *gterm) *dd {
				if y == x {
					return e.T
				}
				return e.F
			})
			n := append([]*dd{}, ds...)
			n[i] = e.leaf(x)
			v := e.bindV(t, n, f)
			if out == nil {
				out = v
			} else {
				out = e.iteV(is, v, out)
			}
		}
		return out
	}
	return nil
}

// schemaPrims: besides queries of trees, reading the text of annotations and
// parsing dates and patterns are steps of their own.
func (c *Ctx) schemaPrims(e *gvf) {
	e.treePrims()
	old := e.prim
	e.prim = func(fr *gframe, in ssa.CallInstruction, f *ssa.Function, args []gval, st *gstate, g *dd) (gval, bool) {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == modPath+"/xmltree" && f.Name() == "Unmarshal" && f.Signature.Recv() == nil {
			res := e.termv("fn", "Unmarshal", nil, nil, args[:1])
			if d, ok := args[1].(*dd); ok && d.leaf != nil && d.leaf.op == "box" {
				if pt, ok := d.leaf.typ.Underlying().(*types.Pointer); ok {
					if p, ok := d.leaf.vals[0].(*dd); ok {
						e.store(p, pt.Elem(), e.opaque(pt.Elem(), e.termv("fn", "Unmarshalled "+typeKey(pt.Elem()), nil, nil, args[:1])), st)
						return e.opaque(resultType(sigOf(in)), res), true
					}
				}
			}
			e.havoc(st, args, res)
			return e.opaque(resultType(sigOf(in)), res), true
		}
		return old(fr, in, f, args, st, g)
	}
	e.setAttrPrim()
	oldPure := e.pureFn
	e.pureFn = func(name string) bool {
		switch name {
		case "time.Parse", "regexp.Compile", "(*regexp.Regexp).String", "strconv.ParseInt", "strconv.ParseUint", "strconv.Atoi", "strconv.ParseFloat", "strconv.ParseBool":
			return true
		}
		return oldPure != nil && oldPure(name)
	}
	c.aliasLinked()
}

// aliasLinked: the type that stands for a type not resolved yet is the
// unexported named type with the fields of xml.Name that is a Type.
func (c *Ctx) aliasLinked() {
	p := c.pkg("xsd")
	if p == nil {
		return
	}
	it, _ := p.Pkg.Scope().Lookup("Type").(*types.TypeName)
	if it == nil {
		return
	}
	iface, ok := it.Type().Underlying().(*types.Interface)
	if !ok {
		return
	}
	for _, n := range p.Pkg.Scope().Names() {
		tn, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.Exported() || tn.IsAlias() {
			continue
		}
		if b, ok := tn.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String && types.NewMethodSet(types.NewPointer(tn.Type())).Lookup(p.Pkg, "UnmarshalXML") != nil {
			typeKeys.Set(tn.Type(), modPath+"/xsd.annotation")
		}
		s, ok := tn.Type().Underlying().(*types.Struct)
		if ok && s.NumFields() == 2 && s.Field(0).Name() == "Space" && s.Field(1).Name() == "Local" && types.Implements(tn.Type(), iface) {
			typeKeys.Set(tn.Type(), modPath+"/xsd.linkedType")
		}
	}
}

// fieldsEq compares the fields of the struct that f returns (or that the
// pointer it returns points to) with what a reference says of each.
// Only the cases in which both return count; f must return whenever a
// reference does.
func (c *Ctx) fieldsEq(e *gvf, rule string, f *ssa.Function, fields []string, dir string, variants ...string) {
	for _, p := range f.Params {
		found := false
		for _, q := range c.Spec[dir].Func(variants[0]).Params {
			found = found || typeKey(p.Type()) == typeKey(q.Type())
		}
		if !found {
			c.undecided(rule, fname(f), f.Pos(), "parameter %s is not one of those of the reference definition", p.Name())
			return
		}
	}
	n, err := e.norm(f, nil)
	if err != nil {
		c.undecided(rule, fname(f), f.Pos(), "%v", err)
		return
	}
	type ref struct {
		name string
		n    *gnorm
	}
	var refs []ref
	for _, v := range variants {
		s := c.Spec[dir].Func(v)
		m, err := e.norm(s, nil)
		if err != nil {
			panic(fmt.Sprintf("reference definition %s.%s: %v", dir, v, err))
		}
		refs = append(refs, ref{v, m})
	}
	got := e.structOf(n)
	if got == nil {
		c.undecided(rule, fname(f), f.Pos(), "its result is not one struct")
		return
	}
	// the reference that agrees on most fields
	best, bestN := 0, -1
	for i, r := range refs {
		k := 0
		for _, fld := range fields {
			gv, want := e.fieldOf(got, fld), e.fieldOf(e.structOf(r.n), fld)
			if gv == nil || want == nil {
				continue
			}
			both := e.and(n.normal, r.n.normal)
			if e.onlyIf(both, gv).key() == e.onlyIf(both, want).key() {
				k++
			}
		}
		if k > bestN {
			best, bestN = i, k
		}
	}
	r := refs[best]
	both := e.and(n.normal, r.n.normal)
	for _, fld := range fields {
		what := fname(f) + " " + fld
		gv := e.fieldOf(got, fld)
		if gv == nil {
			c.Bad(rule, what, f.Pos(), "the result has no field %s", fld)
			continue
		}
		want := e.fieldOf(e.structOf(r.n), fld)
		a, b := e.onlyIf(both, gv), e.onlyIf(both, want)
		if a.key() == b.key() {
			c.OK(rule, what, f.Pos(), "field %s is what the reference definition %s.%s says", fld, dir, r.name)
			continue
		}
		if k := newShape(plainShapes(e.hardShapes(&gnorm{vals: gv, normal: e.T})), []map[string]bool{e.hardShapes(&gnorm{vals: want, normal: e.T})}); k != "" {
			c.undecided(rule, what, f.Pos(), "it uses a form of iteration that the reference definition does not use (%s)", k)
			continue
		}
		c.Bad(rule, what, f.Pos(), "field %s differs from the reference definition %s: %s", fld, r.name, cutMid(e.where(a, b), 18000))
	}
	// what loops write to elements of slices and maps
	gw, ww := e.elemWrites(n), e.elemWrites(r.n)
	var names []string
	for k := range gw {
		names = append(names, k)
	}
	for k := range ww {
		if gw[k] == nil {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	bad := 0
	if os.Getenv("DEBUG_EW") != "" {
		for _, k := range names {
			fmt.Println("EW", k, gw[k] != nil, ww[k] != nil)
			for i, m := range []map[string]gval{gw, ww} {
				if m[k] != nil {
					fmt.Println("   ", i, e.showN(m[k], 12))
				}
			}
		}
	}
	for _, k := range names {
		g, w := gw[k], ww[k]
		what := fname(f) + " elements"
		if g != nil && w != nil && e.onlyIf(both, g).key() == e.onlyIf(both, w).key() {
			continue
		}
		bad++
		switch {
		case g == nil:
			c.Bad(rule, what, f.Pos(), "does not change an element of a slice as the reference definition %s does: %s", r.name, cutMid(e.showN(w, 6), 600))
		case w == nil:
			c.Bad(rule, what, f.Pos(), "changes an element of a slice that the reference definition %s does not: %s", r.name, cutMid(e.showN(g, 6), 600))
		default:
			c.Bad(rule, what, f.Pos(), "changes an element of a slice to something else than the reference definition %s: %s", r.name, cutMid(e.where(e.onlyIf(both, g), e.onlyIf(both, w)), 1800))
		}
		break
	}
	if len(names) > 0 && bad == 0 {
		c.OK(rule, fname(f)+" elements", f.Pos(), "%d writes to elements of slices as in the reference definition %s.%s", len(names), dir, r.name)
	}
	if miss := e.and(r.n.normal, e.not(n.normal)); miss != e.F {
		if len(e.hardShapes(&gnorm{vals: miss, normal: e.T})) > 0 {
			c.undecided(rule, fname(f), f.Pos(), "when it returns")
			return
		}
		c.Bad(rule, fname(f), f.Pos(), "does not return a value when %s", cutMid(e.showN(miss, 12), 900))
	}
}

func (e *gvf) structOf(n *gnorm) *gsv {
	v := n.vals
	if t, ok := v.(gtuple); ok {
		if len(t) == 0 {
			return nil
		}
		v = t[0]
	}
	return e.objOf(v)
}

// objOf: the struct that a value is, or that a pointer to a new object points to.
func (e *gvf) objOf(v gval) *gsv {
	switch v := v.(type) {
	case *gsv:
		return v
	case *dd:
		var out gval
		for _, x := range e.leaves(v) {
			if x == e.bot.leaf {
				continue
			}
			if x.op != "obj" || len(x.vals) != 1 {
				return nil
			}
			sv, ok := x.vals[0].(*gsv)
			if !ok {
				return nil
			}
			x := x
			is := e.bind(v, func(y *gterm) *dd {
				if y == x {
					return e.T
				}
				return e.F
			})
			if out == nil {
				out = sv
			} else {
				out = e.iteV(is, sv, out)
			}
		}
		sv, _ := out.(*gsv)
		return sv
	}
	return nil
}

// byType names parameters by their types, if these are all different.
func (e *gvf) byType() {
	e.paramNames = func(f *ssa.Function) []gval {
		var args []gval
		seen := map[string]bool{}
		for _, p := range f.Params {
			k := typeKey(p.Type())
			if seen[k] {
				return nil
			}
			seen[k] = true
			args = append(args, e.opaque(p.Type(), e.term("param", k[strings.LastIndexByte(k, '/')+1:], p.Type())))
		}
		return args
	}
}

// opaqueNamed makes calls of the given functions opaque terms with the given
// names; their arguments are ordered by type.
func (e *gvf) opaqueNamed(m map[*ssa.Function]string) {
	old := e.prim
	e.prim = func(fr *gframe, in ssa.CallInstruction, f *ssa.Function, args []gval, st *gstate, g *dd) (gval, bool) {
		name := m[f]
		if name == "" {
			return old(fr, in, f, args, st, g)
		}
		idx := make([]int, len(args))
		for i := range idx {
			idx[i] = i
		}
		sort.SliceStable(idx, func(i, j int) bool {
			return typeKey(f.Params[idx[i]].Type()) < typeKey(f.Params[idx[j]].Type())
		})
		var as []gval
		for _, i := range idx {
			as = append(as, args[i])
		}
		return fr.queryCall(name, sigOf(in), as), true
	}
}

// fieldOf: "Name.Local", or all parts of "MinDate".
func (e *gvf) fieldOf(sv *gsv, name string) gval {
	want := "/" + strings.ReplaceAll(name, ".", "/")
	var v gval = sv
	for {
		s, ok := v.(*gsv)
		if !ok {
			return nil
		}
		var next gval
		for i, p := range e.parts(s.typ) {
			if want == p.key {
				return s.f[i]
			}
			if strings.HasPrefix(want, p.key+"/") {
				next, want = s.f[i], want[len(p.key):]
				break
			}
		}
		if next == nil {
			return nil
		}
		v = next
	}
}

// setAttrPrim: setting an attribute gives an element other attributes (C15
// decides which).
func (e *gvf) setAttrPrim() {
	old := e.prim
	e.prim = func(fr *gframe, in ssa.CallInstruction, f *ssa.Function, args []gval, st *gstate, g *dd) (gval, bool) {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == modPath+"/xmltree" && f.Signature.Recv() != nil && f.Name() == "SetAttr" {
			at, t := args[0].(*dd), f.Signature.Recv().Type().(*types.Pointer).Elem()
			if _, ok := t.Underlying().(*types.Struct); !ok {
				return old(fr, in, f, args, st, g)
			}
			el, ok := e.load(at, t, st).(*gsv)
			if !ok {
				return old(fr, in, f, args, st, g)
			}
			n := e.withField(el, "/StartElement/Attr", func(v gval, ft types.Type) gval {
				return e.opaque(ft, e.termv("fn", "SetAttr", ft, nil, append([]gval{v}, args[1:]...)))
			})
			e.store(at, t, n, st)
			return gtuple(nil), true
		}
		return old(fr, in, f, args, st, g)
	}
}

// withField is a copy of sv with one field changed.
func (e *gvf) withField(sv *gsv, key string, f func(gval, types.Type) gval) *gsv {
	n := &gsv{typ: sv.typ, f: append([]gval{}, sv.f...)}
	for i, p := range e.parts(sv.typ) {
		if p.key == key {
			n.f[i] = f(n.f[i], p.typ)
		} else if sub, ok := n.f[i].(*gsv); ok && strings.HasPrefix(key, p.key+"/") {
			n.f[i] = e.withField(sub, key[len(p.key):], f)
		}
	}
	return n
}

// genPrims: in the generators, calls are steps of their own that change
// nothing the analysed function looks at.
func (c *Ctx) genPrims(e *gvf, inline map[*ssa.Function]bool) {
	c.schemaPrims(e)
	old := e.prim
	e.prim = func(fr *gframe, in ssa.CallInstruction, f *ssa.Function, args []gval, st *gstate, g *dd) (gval, bool) {
		if v, ok := old(fr, in, f, args, st, g); ok {
			return v, true
		}
		if f.Pkg != nil && c.inRepo(f) && f.Parent() == nil && !inline[f] {
			var as []gval
			for _, a := range args {
				as = append(as, e.content(a, st, 2))
			}
			return fr.queryCall(fname(f), sigOf(in), as), true
		}
		return nil, false
	}
}

// elemWrites: the values that loops store in elements of slices, by where.
func (e *gvf) elemWrites(n *gnorm) map[string]gval {
	out := map[string]gval{}
	e.visitTerms(&gnorm{normal: e.T, events: n.events}, func(t *gterm) {
		if t.op != "loopev" {
			return
		}
		for i := 0; i+2 < len(t.vals); i++ {
			d, ok := t.vals[i].(*dd)
			if !ok || d.leaf == nil || d.leaf.op != "const" || d.leaf.c.Kind() != constant.String {
				continue
			}
			s := constant.StringVal(d.leaf.c)
			if strings.HasPrefix(s, "t:") {
				if w, ok := t.vals[i+2].(*dd); ok && (w == e.T || w == e.F || w.leaf == nil && e.boolLeaves(w)) {
					continue
				}
				out[s+" of "+e.showN(t.vals[i+1], 8)+t.vals[i+1].key()] = t.vals[i+2]
			}
		}
	})
	return out
}

// plainShapes: carrying a number, text or truth through a plain loop is no
// unusual way to find the value of a field.
func plainShapes(m map[string]bool) map[string]bool {
	out := map[string]bool{}
	for k := range m {
		switch k {
		case "int", "string", "bool", "float64", "fold +", "upto +":
		default:
			out[k] = true
		}
	}
	return out
}
