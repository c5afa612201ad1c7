package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C01"] = checkC01
	checks["C02"] = checkC02
}

type entrySpec struct {
	pkg, name string
	params    []int // protected parameters (the receiver is 0)
}

// paramIndex finds the parameters of fn whose type is one of those listed.
func (c *Ctx) runModRef(rule string, specs []entrySpec, setup func(*pts)) *pts {
	a := newPts(c)
	if setup != nil {
		setup(a)
	}
	type ent struct {
		fn   *ssa.Function
		desc string
	}
	var ents []ent
	for _, s := range specs {
		fn := c.MustFunc(s.pkg, s.name)
		if fn == nil {
			continue
		}
		regs := map[int]*region{}
		for _, i := range s.params {
			if i >= len(fn.Params) {
				c.Bad("anchor", s.pkg+"."+s.name, fn.Pos(), "parameter %d is missing", i)
				continue
			}
			regs[i] = newRegion("argument "+fn.Params[i].Name()+" of "+s.pkg+"."+s.name, true)
		}
		a.entry(fn, regs)
		ents = append(ents, ent{fn, s.pkg + "." + s.name})
	}
	a.solve()
	byEntry := map[string]int{}
	for _, w := range a.sortedWrites() {
		c.Bad(rule, fname(w.fn)+" "+w.what+" -> "+w.to.o.label, w.pos,
			"%s may write to memory that belongs to its caller: %s reaches %s", fname(w.fn), w.what, w.to.o.label)
		byEntry[w.to.o.reg.label]++
	}
	for _, e := range ents {
		c.OK(rule, e.desc, e.fn.Pos(), "every store, append, copy and map update reachable from here was checked against the memory reachable from its protected arguments")
	}
	writes := 0
	var names []string
	for _, fn := range a.order {
		names = append(names, fname(fn))
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Store, *ssa.MapUpdate:
					writes++
				case *ssa.Call:
					if bi, ok := i.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "append" || bi.Name() == "copy" || bi.Name() == "delete") {
						writes++
					}
				}
			}
		}
	}
	c.Note("write_instructions_checked", writes)
	c.Note("functions_reachable_from_entries", names)
	return a
}

func checkC01(c *Ctx) {
	c.Explanation = "Points-to (mod-ref) analysis over the SSA form: no store, append into spare capacity, copy, map update or " +
		"writing library call reachable from the parsing entry points may target memory reachable from the caller's documents, " +
		"or from the package-level bundled schemas. Decides aliasing for all inputs; flow-insensitive, so it over-approximates."
	c.Assumptions = []string{
		"functions of the standard library write only to the arguments listed in the analyzer's table",
		"no use of package unsafe in the analysed packages (checked)",
	}
	prot := newRegion("bundled schemas", true)
	ng := 0
	setup := func(a *pts) {
		p := c.pkg("xsd")
		if p == nil {
			return
		}
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			t := g.Type().(*types.Pointer).Elem()
			if isByteSlices(t) {
				o := a.site(g, "global "+g.Name())
				o.reg = prot
				ng++
			}
		}
	}
	c.runModRef("no-write-to-input", []entrySpec{
		{"xmltree", "Parse", []int{0}},
		{"xsd", "Imports", []int{0}},
		{"xsd", "Normalize", []int{0}},
		{"xsd", "Parse", []int{0}},
		{"wsdl", "Parse", []int{0}},
		{"xsdgen", "Config.GenCode", []int{1}},
	}, setup)
	c.Note("bundled_schema_variables", ng)
	if ng < 4 {
		c.Bad("no-write-to-input", "bundled schemas", token.NoPos, "found only %d package-level document variables", ng)
	}
	c.noUnsafe("no-unsafe", "xmltree", "xsd", "wsdl", "xsdgen", "wsdlgen", "internal/gen", "internal/dependency")
}

func isByteSlices(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	if b, ok := s.Elem().Underlying().(*types.Basic); ok {
		return b.Kind() == types.Byte
	}
	return isByteSlices(s.Elem())
}

func (c *Ctx) noUnsafe(rule string, pkgs ...string) {
	for _, rel := range pkgs {
		p := c.ByPath[modPath+"/"+rel]
		if p == nil {
			continue
		}
		bad := false
		for path := range p.Imports {
			if path == "unsafe" || path == "C" {
				c.Bad(rule, rel, token.NoPos, "package %s imports %s, which the analysis cannot see through", rel, path)
				bad = true
			}
		}
		if !bad {
			c.OK(rule, rel, token.NoPos, "does not import unsafe")
		}
	}
}

func checkC02(c *Ctx) {
	c.Explanation = "Points-to (mod-ref) analysis over the SSA form: no write reachable from a query or serialization entry point may " +
		"target memory reachable from the element tree or namespace scope it is given; plus a sharing rule on namespace scopes: a slice of " +
		"declarations that other scopes may share is only appended to without spare capacity, or is left without spare capacity when the function returns."
	c.Assumptions = []string{
		"functions of the standard library write only to the arguments listed in the analyzer's table",
		"callbacks supplied by the caller, and methods called by templates other than those listed as entry points, are outside the rule",
	}
	c.runModRef("read-only", []entrySpec{
		{"xmltree", "Equal", []int{0, 1}},
		{"xmltree", "Marshal", []int{0}},
		{"xmltree", "MarshalIndent", []int{0}},
		{"xmltree", "Encode", []int{1}},
		{"xmltree", "Unmarshal", []int{0}},
		{"xmltree", "Element.String", []int{0}},
		{"xmltree", "Element.Attr", []int{0}},
		{"xmltree", "Element.Flatten", []int{0}},
		{"xmltree", "Element.Search", []int{0}},
		{"xmltree", "Element.SearchFunc", []int{0}},
		{"xmltree", "Scope.JoinScope", []int{0, 1}},
		{"xmltree", "Scope.Resolve", []int{0}},
		{"xmltree", "Scope.ResolveNS", []int{0}},
		{"xmltree", "Scope.ResolveDefault", []int{0}},
		{"xmltree", "Scope.Prefix", []int{0}},
		{"xsd", "Schema.FindType", []int{0}},
		{"xsd", "XMLName", []int{0}},
		{"xsd", "Base", []int{0}},
	}, nil)
	c.scopeSharing()
	c.noUnsafe("no-unsafe", "xmltree", "xsd")
}

// scopeSharing: every append to a slice held by a Scope that the function did
// not create must find no spare capacity, or the function must clip the
// result before it returns.
func (c *Ctx) scopeSharing() {
	const rule = "scope-sharing"
	p := c.pkg("xmltree")
	if p == nil {
		return
	}
	tn := p.Type("Scope")
	if tn == nil {
		c.Bad("anchor", "xmltree.Scope", token.NoPos, "type not found")
		return
	}
	st, ok := tn.Type().Underlying().(*types.Struct)
	if !ok {
		c.Bad("anchor", "xmltree.Scope", token.NoPos, "not a struct")
		return
	}
	isScopeField := func(t types.Type, i int) bool {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		if !types.Identical(t, tn.Type()) {
			return false
		}
		_, sl := st.Field(i).Type().Underlying().(*types.Slice)
		return sl
	}
	stores := 0
	for _, fn := range c.Funcs {
		if p := fnPkg(fn); p == nil || p.Path() != modPath+"/xmltree" {
			continue
		}
		n := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && isScopeField(fa.X.Type(), fa.Field) {
						stores++
					}
				}
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				bi, ok := call.Call.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "append" {
					continue
				}
				// does the base come from a Scope's slice?
				src := scopeSource(call.Call.Args[0], isScopeField, map[ssa.Value]bool{})
				if src == nil {
					continue
				}
				n++
				construct := fname(fn) + " append #" + itoa(n)
				if noSpare(call.Call.Args[0], isScopeField, map[ssa.Value]bool{}) {
					c.OK(rule, construct, call.Pos(), "appends to a slice without spare capacity")
					continue
				}
				if clippedOnExit(fn, call, isScopeField) {
					c.OK(rule, construct, call.Pos(), "the result is stored, and clipped to its length on every path to a return")
					continue
				}
				c.Bad(rule, construct, call.Pos(), "appends to declarations that other scopes share, and leaves spare capacity behind: the next append overwrites a sibling's declarations")
			}
		}
	}
	c.Note("stores_to_scope_declarations", stores)
	if stores < 1 {
		c.Bad(rule, "instance count", token.NoPos, "no function stores the declarations of a Scope; the rule has nothing to check")
	}
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	var b []byte
	for n > 0 {
		b = append([]byte{byte('0' + n%10)}, b...)
		n /= 10
	}
	return string(b)
}

// scopeSource follows a slice back to the Scope field it was loaded from.
func scopeSource(v ssa.Value, isField func(types.Type, int) bool, seen map[ssa.Value]bool) ssa.Value {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok && isField(fa.X.Type(), fa.Field) {
			return v
		}
	case *ssa.Field:
		if isField(v.X.Type(), v.Field) {
			return v
		}
	case *ssa.Slice:
		return scopeSource(v.X, isField, seen)
	case *ssa.ChangeType:
		return scopeSource(v.X, isField, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if s := scopeSource(e, isField, seen); s != nil {
				return s
			}
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return scopeSource(v.Call.Args[0], isField, seen)
		}
	}
	return nil
}

// noSpare reports whether the slice certainly has no spare capacity that it
// shares with anything.
func noSpare(v ssa.Value, isField func(types.Type, int) bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Slice:
		return clippedSlice(v) || (v.High == nil && v.Max == nil && noSpare(v.X, isField, seen))
	case *ssa.ChangeType:
		return noSpare(v.X, isField, seen)
	case *ssa.Const:
		return true
	case *ssa.MakeSlice:
		return true
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !noSpare(e, isField, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		// appending to a slice without spare capacity gives a new array,
		// which nothing else shares yet
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return noSpare(v.Call.Args[0], isField, seen)
		}
		return false
	}
	return false
}

// clippedOnExit: the result of the append is stored in a field, and on every
// path from there to a return the same field is stored again, with a clipped
// slice.
func clippedOnExit(fn *ssa.Function, call *ssa.Call, isField func(types.Type, int) bool) bool {
	var stores []*ssa.Store
	work := []ssa.Value{call}
	seen := map[ssa.Value]bool{}
	for len(work) > 0 {
		v := work[0]
		work = work[1:]
		if seen[v] {
			continue
		}
		seen[v] = true
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Val == v {
					stores = append(stores, r)
				}
			case *ssa.Phi:
				work = append(work, r)
			case *ssa.ChangeType:
				work = append(work, r)
			case *ssa.Slice:
				if clippedSlice(r) {
					continue
				}
				work = append(work, r)
			case *ssa.Call:
				if b, ok := r.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
					continue
				}
				if b, ok := r.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(r.Call.Args) > 0 && r.Call.Args[0] == v {
					work = append(work, r)
					continue
				}
				return false
			case *ssa.DebugRef:
			case *ssa.IndexAddr, *ssa.Range:
			case *ssa.Return:
				return false
			default:
				return false
			}
		}
	}
	for _, s := range stores {
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok || !isField(fa.X.Type(), fa.Field) {
			return false
		}
		if !storedAgainBeforeReturn(s, fa) {
			return false
		}
	}
	return true
}

func storedAgainBeforeReturn(s *ssa.Store, fa *ssa.FieldAddr) bool {
	clip := func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok || st == s {
			return false
		}
		if !sameAddr(st.Addr, fa) {
			return false
		}
		sl, ok := st.Val.(*ssa.Slice)
		return ok && clippedSlice(sl)
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) bool
	walk = func(b *ssa.BasicBlock, from int) bool {
		for _, in := range b.Instrs[from:] {
			if clip(in) {
				return true
			}
			if _, ok := in.(*ssa.Return); ok {
				return false
			}
		}
		for _, succ := range b.Succs {
			if seen[succ] {
				continue
			}
			seen[succ] = true
			if !walk(succ, 0) {
				return false
			}
		}
		return true
	}
	b := s.Block()
	for i, in := range b.Instrs {
		if in == ssa.Instruction(s) {
			return walk(b, i+1)
		}
	}
	return false
}

var _ = strings.Contains

// runModRefInit is runModRef with the package initializers as entry points,
// whose allocations, and all package-level variables, are protected from
// everything but the initializers.
func (c *Ctx) runModRefInit(rule string, specs []entrySpec, prot *region, inits map[*ssa.Function]bool, ng *int) *pts {
	a := newPts(c)
	a.initFns = inits
	a.initReg = prot
	var ents []string
	for _, s := range specs {
		fn := c.Func(s.pkg, s.name)
		if fn == nil || fn.Blocks == nil {
			continue
		}
		a.entry(fn, nil)
		ents = append(ents, s.pkg+"."+s.name)
	}
	var fs []*ssa.Function
	for f := range inits {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		a.enter(f)
	}
	a.solve()
	for _, w := range a.sortedWrites() {
		c.Bad(rule, fname(w.fn)+" "+w.what+" -> "+w.to.o.label, w.pos,
			"%s may write to package-level state: %s reaches %s", fname(w.fn), w.what, w.to.o.label)
	}
	for _, e := range ents {
		c.OK(rule, e, token.NoPos, "no write reachable from here targets package-level state")
	}
	*ng = a.nprot
	return a
}
