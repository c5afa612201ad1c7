package main

// C09: text of a document reaches generated source only as part of a quoted
// literal, in a line comment that it cannot end, or as an identifier from
// which everything but letters, digits and underscores was removed.
//
// The sinks are the places where text becomes source: names of identifiers,
// texts of literals and comments in the syntax tree that is printed, texts
// that are parsed, templates that are executed into such texts. From each
// sink the text is followed backwards (through variables, fields, elements
// of slices and maps, parameters and results) to where it comes from. What
// comes from a document and was not made harmless on the way is reported.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"text/template/parse"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C09"] = checkC09
}

// what a text has to be
type tmode int

const (
	mCode  tmode = iota // complete tokens of Go source
	mIdent              // letters, digits, underscores
	mLine               // free of line feeds
)

func (m tmode) String() string { return [...]string{"code", "identifier", "line"}[m] }

type tlevel int

const (
	tSafe tlevel = iota
	tUnknown
	tBad
)

type tverdict struct {
	lv  tlevel
	why string
}

func (a tverdict) join(b tverdict) tverdict {
	if b.lv > a.lv {
		return b
	}
	return a
}

func bad(format string, args ...interface{}) tverdict {
	return tverdict{tBad, fmt.Sprintf(format, args...)}
}

func unknown(format string, args ...interface{}) tverdict {
	return tverdict{tUnknown, fmt.Sprintf(format, args...)}
}

// Sources of text, besides ssa.Values.
type (
	srcField struct{ key string } // any field of this name and type
	srcElem  struct{ of interface{} }
	srcRet   struct{ fn *ssa.Function } // the result of a method
	srcHole  struct{ src interface{} }
	srcFunc  struct { // the result of a function that a template calls
		fn   *ssa.Function
		name string
		args string // index of the arguments
	}
)

type tkey struct {
	src  interface{}
	mode tmode
}

type tfieldStore struct {
	val ssa.Value
	at  ssa.Instruction
}

type taint struct {
	c      *Ctx
	memo   map[tkey]tverdict
	active map[tkey]bool
	deps   int // depth

	stores   map[string][]tfieldStore // by field
	decoded  map[string]bool          // types that text of a document is decoded into
	elems    []telemStore
	conv     map[string]map[string]bool // fields of types that are converted to another
	globals  map[*ssa.Global][]ssa.Value
	dynCalls []ssa.CallInstruction
	funcMap  map[string][]*ssa.Function // functions of templates
	tmplArgs map[*ssa.Function][][]interface{}
	argIdx   map[string][]interface{}
	newIdent []ssa.Value

	tentative []tkey
	fieldAddr map[string][]*ssa.FieldAddr
	steps     int
}

type telemStore struct {
	base  ssa.Value
	val   ssa.Value
	key   ssa.Value
	at    ssa.Instruction
	roots map[interface{}]bool
}

func docPkg(path string) bool {
	switch path {
	case "encoding/xml", modPath + "/xmltree", modPath + "/xsd", modPath + "/wsdl":
		return true
	}
	return false
}

func codePkg(path string) bool {
	switch path {
	case modPath + "/xsdgen", modPath + "/wsdlgen", modPath + "/internal/gen":
		return true
	}
	return strings.HasPrefix(path, modPath+"/internal/") && !strings.HasSuffix(path, "/testutil")
}

func fnPkgPath(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// fieldID names a field by the type that declares it.
func fieldID(t types.Type, i int) string {
	t = deref(t)
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "?"
	}
	return types.TypeString(t, nil) + "." + st.Field(i).Name()
}

func fieldPkg(t types.Type) string {
	if n, ok := deref(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

func newTaint(c *Ctx) *taint {
	t := &taint{
		c: c, memo: map[tkey]tverdict{}, active: map[tkey]bool{},
		stores: map[string][]tfieldStore{}, decoded: map[string]bool{},
		conv:    map[string]map[string]bool{},
		globals: map[*ssa.Global][]ssa.Value{}, funcMap: map[string][]*ssa.Function{},
		tmplArgs: map[*ssa.Function][][]interface{}{},
		argIdx:   map[string][]interface{}{}, fieldAddr: map[string][]*ssa.FieldAddr{},
	}
	for _, f := range t.all() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				t.index(in)
			}
		}
	}
	for i := range t.elems {
		e := &t.elems[i]
		e.roots = map[interface{}]bool{}
		t.roots(e.base, e.roots)
	}
	return t
}

// all: every function of the repository, and the initializers of packages.
func (t *taint) all() []*ssa.Function {
	fns := append([]*ssa.Function{}, t.c.Funcs...)
	have := map[*ssa.Function]bool{}
	for _, f := range fns {
		have[f] = true
	}
	for _, p := range t.c.Pkgs {
		if sp := t.c.SSA[p.PkgPath]; sp != nil {
			for _, f := range t.c.withInits(sp) {
				if !have[f] {
					have[f] = true
					fns = append(fns, f)
				}
			}
		}
	}
	return fns
}

func (t *taint) index(in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Store:
		switch a := in.Addr.(type) {
		case *ssa.FieldAddr:
			k := fieldID(a.X.Type(), a.Field)
			t.stores[k] = append(t.stores[k], tfieldStore{in.Val, in})
		case *ssa.IndexAddr:
			t.elems = append(t.elems, telemStore{base: a.X, val: in.Val, at: in})
		case *ssa.Global:
			t.globals[a] = append(t.globals[a], in.Val)
		}
	case *ssa.MapUpdate:
		t.elems = append(t.elems, telemStore{base: in.Map, val: in.Value, key: in.Key, at: in})
	case *ssa.FieldAddr:
		k := fieldID(in.X.Type(), in.Field)
		t.fieldAddr[k] = append(t.fieldAddr[k], in)
	case *ssa.ChangeType:
		t.convert(in.X.Type(), in.Type())
	case ssa.CallInstruction:
		com := in.Common()
		if b, ok := com.Value.(*ssa.Builtin); ok && b.Name() == "copy" {
			t.elems = append(t.elems, telemStore{base: com.Args[0], val: nil, key: com.Args[1], at: in})
		}
		if com.StaticCallee() == nil && !com.IsInvoke() {
			t.dynCalls = append(t.dynCalls, in)
		}
		if f := com.StaticCallee(); f != nil {
			switch name := f.String(); {
			case name == "go/ast.NewIdent":
				t.newIdent = append(t.newIdent, com.Args[0])
			case strings.HasSuffix(name, "Unmarshal") || strings.Contains(name, ".Decode"):
				for _, a := range com.Args {
					if mi, ok := a.(*ssa.MakeInterface); ok {
						t.markDecoded(mi.X.Type(), map[string]bool{})
					}
				}
			}
		}
	}
}

func (t *taint) markDecoded(ty types.Type, seen map[string]bool) {
	switch u := ty.Underlying().(type) {
	case *types.Pointer:
		t.markDecoded(u.Elem(), seen)
	case *types.Slice:
		t.markDecoded(u.Elem(), seen)
	case *types.Array:
		t.markDecoded(u.Elem(), seen)
	case *types.Struct:
		s := types.TypeString(ty, nil)
		if seen[s] {
			return
		}
		seen[s] = true
		t.decoded[s] = true
		for i := 0; i < u.NumFields(); i++ {
			t.markDecoded(u.Field(i).Type(), seen)
		}
	}
}

func (t *taint) convert(from, to types.Type) {
	from, to = deref(from), deref(to)
	a, ok1 := from.Underlying().(*types.Struct)
	_, ok2 := to.Underlying().(*types.Struct)
	if !ok1 || !ok2 || types.Identical(from, to) {
		return
	}
	for i := 0; i < a.NumFields(); i++ {
		x, y := fieldID(from, i), fieldID(to, i)
		for _, p := range [][2]string{{x, y}, {y, x}} {
			if t.conv[p[0]] == nil {
				t.conv[p[0]] = map[string]bool{}
			}
			t.conv[p[0]][p[1]] = true
		}
	}
}

// roots: the places where the container v may have been made or kept.
func (t *taint) roots(v ssa.Value, out map[interface{}]bool) {
	if out[v] || len(out) > 4000 {
		return
	}
	switch v := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		out[v] = true
	case *ssa.Const:
	case *ssa.Phi:
		out[v] = true
		for _, e := range v.Edges {
			t.roots(e, out)
		}
	case *ssa.Slice:
		out[v] = true
		t.roots(v.X, out)
	case *ssa.ChangeType:
		t.roots(v.X, out)
	case *ssa.MakeInterface:
		t.roots(v.X, out)
	case *ssa.TypeAssert:
		out[v] = true
		t.roots(v.X, out)
	case *ssa.Field:
		t.rootField(fieldID(v.X.Type(), v.Field), out)
	case *ssa.FieldAddr:
		t.rootField(fieldID(v.X.Type(), v.Field), out)
	case *ssa.IndexAddr:
		out[v] = true
		t.roots(v.X, out)
	case *ssa.Lookup:
		// an element: containers in a container are one
		out[v] = true
		t.roots(v.X, out)
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return
		}
		out[v] = true
		switch a := v.X.(type) {
		case *ssa.FieldAddr:
			t.rootField(fieldID(a.X.Type(), a.Field), out)
		case *ssa.Global:
			if out[a] {
				return
			}
			out[a] = true
			for _, x := range t.globals[a] {
				t.roots(x, out)
			}
		default:
			if out[v.X] {
				return
			}
			t.roots(v.X, out)
			for _, s := range t.allocStores(v.X) {
				t.roots(s, out)
			}
		}
	case *ssa.Global:
		out[v] = true
	case *ssa.FreeVar:
		out[v] = true
		if mc := t.c.callers().closures[v.Parent()]; mc != nil {
			for i, fv := range v.Parent().FreeVars {
				if fv == v {
					t.roots(mc.Bindings[i], out)
				}
			}
		}
	case *ssa.Parameter:
		out[v] = true
		args, _ := t.callerArgs(v)
		for _, a := range args {
			t.roots(a, out)
		}
	case *ssa.Extract:
		out[v] = true
		switch tup := v.Tuple.(type) {
		case *ssa.Call:
			t.rootCall(tup, v.Index, out)
		case *ssa.Next:
			if rg, ok := tup.Iter.(*ssa.Range); ok {
				t.roots(rg.X, out)
			}
		case *ssa.Lookup:
			t.roots(tup.X, out)
		case *ssa.TypeAssert:
			t.roots(tup.X, out)
		}
	case *ssa.Call:
		out[v] = true
		t.rootCall(v, 0, out)
	}
}

func (t *taint) rootField(key string, out map[interface{}]bool) {
	k := srcField{key}
	if out[k] {
		return
	}
	out[k] = true
	for _, s := range t.stores[key] {
		t.roots(s.val, out)
	}
	for k2 := range t.conv[key] {
		t.rootField(k2, out)
	}
}

func (t *taint) rootCall(call *ssa.Call, i int, out map[interface{}]bool) {
	com := call.Common()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			t.roots(com.Args[0], out)
			// the elements of the second are copied: see elements
		}
		return
	}
	for _, f := range t.c.targets(com) {
		for _, r := range returnsOf(f) {
			if i < len(r.Results) {
				t.roots(r.Results[i], out)
			}
		}
	}
}

func returnsOf(f *ssa.Function) (out []*ssa.Return) {
	for _, b := range f.Blocks {
		if len(b.Instrs) > 0 {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				out = append(out, r)
			}
		}
	}
	return out
}

// allocStores: what is stored to a variable, by the function or by closures.
func (t *taint) allocStores(a ssa.Value) (out []ssa.Value) {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v {
					out = append(out, r.Val)
				}
			case *ssa.MakeClosure:
				for i, b := range r.Bindings {
					if b == v {
						visit(r.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			}
		}
	}
	if fv, ok := a.(*ssa.FreeVar); ok {
		if mc := t.c.callers().closures[fv.Parent()]; mc != nil {
			for i, x := range fv.Parent().FreeVars {
				if x == fv {
					return t.allocStores(mc.Bindings[i])
				}
			}
		}
	}
	visit(a)
	return out
}

// callerArgs: what is passed for a parameter; complete is false if callers
// outside the repository may pass something else.
func (t *taint) callerArgs(p *ssa.Parameter) (args []ssa.Value, complete bool) {
	f := p.Parent()
	i := -1
	for j, q := range f.Params {
		if q == p {
			i = j
		}
	}
	ix := t.c.callers()
	for _, site := range ix.sites[f] {
		if com := site.Common(); i < len(com.Args) {
			args = append(args, com.Args[i])
		}
	}
	complete = true
	if f.Parent() != nil || ix.escapes[f] || ix.closures[f] != nil {
		n := 0
		for _, d := range t.dynCalls {
			com := d.Common()
			if sig, ok := com.Value.Type().Underlying().(*types.Signature); ok && i < len(com.Args) &&
				len(com.Args) == len(f.Params) && types.Identical(sig.Params(), f.Signature.Params()) && types.Identical(sig.Results(), f.Signature.Results()) {
				args = append(args, com.Args[i])
				n++
			}
		}
		if n == 0 && len(args) == 0 {
			complete = false
		}
	}
	// calls of methods through interfaces
	if f.Signature.Recv() != nil && i > 0 {
		for _, s := range t.invokes(f) {
			if com := s.Common(); i-1 < len(com.Args) {
				args = append(args, com.Args[i-1])
			}
		}
	}
	return args, complete
}

func (t *taint) invokes(f *ssa.Function) (out []ssa.CallInstruction) {
	for _, g := range t.c.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !ci.Common().IsInvoke() || ci.Common().Method.Name() != f.Name() {
					continue
				}
				for _, x := range t.c.chaTargets(ci.Common()) {
					if x == f {
						out = append(out, ci)
					}
				}
			}
		}
	}
	return out
}

func textual(ty types.Type) bool {
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UntypedNil
	}
	return false
}

func harmless(ty types.Type) bool {
	if u, ok := ty.Underlying().(*types.Basic); ok {
		return u.Info()&(types.IsNumeric|types.IsBoolean) != 0
	}
	return false
}

// ok decides whether a text has to be harmless in the given mode.
func (t *taint) ok(src interface{}, m tmode) tverdict {
	k := tkey{src, m}
	if v, ok := t.memo[k]; ok {
		return v
	}
	if t.active[k] {
		return tverdict{}
	}
	t.steps++
	if t.steps > 200000 || t.deps > 300 {
		return unknown("the search was cut off")
	}
	t.active[k] = true
	t.deps++
	v := t.eval(src, m)
	t.deps--
	delete(t.active, k)
	t.memo[k] = v
	if v.lv == tSafe {
		t.tentative = append(t.tentative, k)
	}
	if len(t.active) == 0 {
		// safe as long as what it was assumed of turned out to be
		if v.lv != tSafe {
			for _, k := range t.tentative {
				delete(t.memo, k)
			}
		}
		t.tentative = nil
	}
	return v
}

func (t *taint) all2(m tmode, vs ...ssa.Value) (r tverdict) {
	for _, v := range vs {
		r = r.join(t.ok(v, m))
	}
	return r
}

func (t *taint) eval(src interface{}, m tmode) tverdict {
	switch s := src.(type) {
	case srcField:
		return t.field(s.key, m)
	case srcElem:
		return t.elements(s.of, m, false)
	case srcFunc:
		return t.tmplCall(s, m)
	case srcRet:
		var r tverdict
		for _, ret := range returnsOf(s.fn) {
			r = r.join(t.use(ret.Results[0], ret.Block(), nil, m))
		}
		return r
	case srcHole:
		return t.ok(s.src, m)
	case ssa.Value:
		return t.value(s, m)
	}
	return unknown("%T", src)
}

func where(v interface{}) string {
	if in, ok := v.(ssa.Instruction); ok && in.Parent() != nil {
		return in.Parent().RelString(nil)
	}
	return "?"
}

func (t *taint) value(v ssa.Value, m tmode) tverdict {
	if harmless(v.Type()) {
		if b, ok := v.Type().(*types.Named); !ok || b.NumMethods() == 0 {
			return tverdict{}
		}
	}
	if _, ok := v.Type().Underlying().(*types.Struct); ok {
		if docPkg(fieldPkg(v.Type())) {
			return bad("a value of type %s", shortField(types.TypeString(v.Type(), nil)))
		}
		return unknown("a value of type %s", shortField(types.TypeString(v.Type(), nil)))
	}
	switch v := v.(type) {
	case *ssa.Const:
		if m == mLine && v.Value != nil && v.Value.Kind() == constant.String && strings.Contains(constant.StringVal(v.Value), "\n") {
			return bad("a constant with a line feed")
		}
		return tverdict{}
	case *ssa.BinOp:
		if v.Op == token.ADD {
			return t.segments(t.concat(v), m)
		}
		return tverdict{}
	case *ssa.Phi:
		var r tverdict
		for i, e := range v.Edges {
			r = r.join(t.use(e, v.Block().Preds[i], v.Block(), m))
		}
		return r
	case *ssa.Parameter:
		f := v.Parent()
		if u, ok := t.tmplArgs[f]; ok {
			var r tverdict
			for i, p := range f.Params {
				if p != v {
					continue
				}
				for _, args := range u {
					if i < len(args) {
						r = r.join(t.ok(args[i], m))
					}
				}
			}
			return r
		}
		args, complete := t.callerArgs(v)
		r := t.all2(m, args...)
		if !complete {
			r = r.join(unknown("callers of %s", f.RelString(nil)))
		}
		return r
	case *ssa.FreeVar:
		if mc := t.c.callers().closures[v.Parent()]; mc != nil {
			for i, fv := range v.Parent().FreeVars {
				if fv == v {
					return t.ok(mc.Bindings[i], m)
				}
			}
		}
		return unknown("a captured variable")
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			return t.load(v, v.X, m)
		case token.ARROW:
			return unknown("a channel")
		}
		return tverdict{}
	case *ssa.Field:
		return t.field(fieldID(v.X.Type(), v.Field), m).join(t.fieldPkg(v.X.Type(), v.Field, v.Type(), m))
	case *ssa.ChangeType:
		return t.ok(v.X, m)
	case *ssa.ChangeInterface:
		return t.ok(v.X, m)
	case *ssa.MakeInterface:
		return t.boxed(v.X, m)
	case *ssa.TypeAssert:
		return t.ok(v.X, m)
	case *ssa.Convert:
		return t.convertText(v, m)
	case *ssa.Slice:
		if _, ok := v.X.(*ssa.Const); ok {
			return tverdict{}
		}
		if textual(v.X.Type()) {
			if m == mCode {
				return t.cut(v.X)
			}
			return t.ok(v.X, m)
		}
		return t.elements(v, m, false)
	case *ssa.Extract:
		return t.extract(v, m)
	case *ssa.Lookup:
		return t.elements(v.X, m, false)
	case *ssa.Call:
		return t.call(v, 0, m)
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return t.elements(v, m, false)
	case *ssa.Global:
		return t.all2(m, t.globals[v]...)
	}
	return unknown("%T in %s", v, where(v))
}

// cut: part of a text; it must be a part of something that has no structure.
func (t *taint) cut(v ssa.Value) tverdict {
	r := t.ok(v, mIdent)
	return r
}

func (t *taint) boxed(x ssa.Value, m tmode) tverdict {
	ty := x.Type()
	ms := t.c.Prog.MethodSets.MethodSet(ty)
	for _, name := range []string{"Error", "String"} {
		sel := ms.Lookup(nil, name)
		if sel == nil {
			continue
		}
		f := t.c.Prog.MethodValue(sel)
		if f == nil {
			return unknown("method %s", name)
		}
		if o, ok := f.Object().(*types.Func); ok && f.Synthetic != "" {
			if d := t.c.Prog.FuncValue(o); d != nil {
				f = d
			}
		}
		if f.Blocks == nil || !strings.HasPrefix(fnPkgPath(f), modPath) {
			return unknown("method %s", f.RelString(nil))
		}
		var r tverdict
		for _, ret := range returnsOf(f) {
			r = r.join(t.ok(ret.Results[0], m))
		}
		return r
	}
	if harmless(ty) {
		return tverdict{}
	}
	return t.ok(x, m)
}

func (t *taint) convertText(v *ssa.Convert, m tmode) tverdict {
	from := v.X.Type().Underlying()
	switch f := from.(type) {
	case *types.Basic:
		if f.Info()&types.IsInteger != 0 && textual(v.Type()) {
			return t.rune_(v.X, v.Block(), v.X)
		}
		return t.ok(v.X, m)
	case *types.Slice:
		if b, ok := f.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
			return t.elements(v.X, m, true)
		}
		return t.ok(v.X, m)
	}
	return unknown("a conversion in %s", where(v))
}

func (t *taint) extract(v *ssa.Extract, m tmode) tverdict {
	switch tup := v.Tuple.(type) {
	case *ssa.Call:
		return t.call(tup, v.Index, m)
	case *ssa.TypeAssert:
		return t.ok(tup.X, m)
	case *ssa.Lookup:
		return t.elements(tup.X, m, false)
	case *ssa.Next:
		rg, ok := tup.Iter.(*ssa.Range)
		if !ok {
			return unknown("an iterator")
		}
		if tup.IsString {
			return t.ok(rg.X, m)
		}
		if v.Index == 1 {
			return t.keys(rg.X, m)
		}
		return t.elements(rg.X, m, false)
	}
	return unknown("%T", v.Tuple)
}

func (t *taint) load(at ssa.Instruction, addr ssa.Value, m tmode) tverdict {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		return t.field(fieldID(a.X.Type(), a.Field), m).join(t.fieldPkg(a.X.Type(), a.Field, deref(a.Type()), m))
	case *ssa.IndexAddr:
		return t.elements(a.X, m, false)
	case *ssa.Global:
		return t.all2(m, t.globals[a]...)
	case *ssa.Alloc, *ssa.FreeVar:
		return t.all2(m, t.allocStores(a)...)
	case *ssa.Call:
		if f := a.Call.StaticCallee(); f != nil && fnPkgPath(f) == "flag" {
			return tverdict{} // of the user
		}
		return unknown("the result of %s", calleeName(a.Common()))
	}
	return unknown("a pointer in %s", where(at))
}

// fieldPkg: fields of the types that hold documents.
func (t *taint) fieldPkg(st types.Type, i int, ft types.Type, m tmode) tverdict {
	if docPkg(fieldPkg(st)) || t.decoded[types.TypeString(deref(st), nil)] {
		return bad("%s is text of a document", shortField(fieldID(st, i)))
	}
	return tverdict{}
}

func shortField(k string) string { return strings.ReplaceAll(k, modPath+"/", "") }

func (t *taint) field(key string, m tmode) tverdict {
	switch key {
	case "go/ast.BasicLit.Value", "go/ast.Comment.Text":
		if m == mCode {
			return tverdict{} // a sink of its own
		}
	case "go/ast.Ident.Name":
		if m == mCode {
			return tverdict{}
		}
		r := t.all2(m, t.newIdent...)
		for _, s := range t.stores[key] {
			r = r.join(t.ok(s.val, m))
		}
		return r
	}
	dot := strings.LastIndexByte(key, '.')
	if tn := key[:dot]; t.decoded[tn] {
		return bad("%s is text of a document", shortField(key))
	} else if i := strings.LastIndexByte(tn, '.'); i > 0 && !strings.ContainsAny(tn, "{ ") && docPkg(tn[:i]) {
		return bad("%s is text of a document", shortField(key))
	} else if i > 0 && !strings.ContainsAny(tn, "{ ") && !strings.HasPrefix(tn, modPath) {
		return unknown("field %s", key)
	}
	var r tverdict
	for _, s := range t.stores[key] {
		r = r.join(t.use(s.val, s.at.Block(), nil, m))
	}
	for k := range t.conv[key] {
		r = r.join(t.ok(srcField{k}, m))
	}
	return r
}

// keys and elements of containers.
func (t *taint) keys(v ssa.Value, m tmode) tverdict {
	rs := map[interface{}]bool{}
	t.roots(v, rs)
	if d := t.docRoot(rs); d != "" {
		return bad("%s is text of a document", d)
	}
	var r tverdict
	for _, e := range t.elems {
		if e.key != nil && e.val != nil && meets(rs, e.roots) {
			r = r.join(t.ok(e.key, m))
		}
	}
	return r.join(t.external(rs, m))
}

func meets(a, b map[interface{}]bool) bool {
	if len(b) < len(a) {
		a, b = b, a
	}
	for k := range a {
		if b[k] {
			return true
		}
	}
	return false
}

func (t *taint) docRoot(rs map[interface{}]bool) string {
	for k := range rs {
		if f, ok := k.(srcField); ok {
			tn := f.key[:strings.LastIndexByte(f.key, '.')]
			if t.decoded[tn] {
				return shortField(f.key)
			}
			if i := strings.LastIndexByte(tn, '.'); i > 0 && !strings.ContainsAny(tn, "{ ") && docPkg(tn[:i]) {
				return shortField(f.key)
			}
		}
	}
	return ""
}

// external: containers that come from functions of other packages.
func (t *taint) external(rs map[interface{}]bool, m tmode) (r tverdict) {
	for k := range rs {
		switch v := k.(type) {
		case *ssa.Call:
			r = r.join(t.externalCall(v, m))
		case *ssa.Extract:
			if c, ok := v.Tuple.(*ssa.Call); ok {
				r = r.join(t.externalCall(c, m))
			}
		case *ssa.Parameter:
			if _, complete := t.callerArgs(v); !complete {
				r = r.join(unknown("callers of %s", v.Parent().RelString(nil)))
			}
		}
	}
	return r
}

func (t *taint) externalCall(c *ssa.Call, m tmode) tverdict {
	com := c.Common()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" && len(com.Args) == 2 {
			if textual(com.Args[1].Type()) {
				return t.ok(com.Args[1], m)
			}
			return t.ok(srcElem{com.Args[1]}, m)
		}
		return tverdict{}
	}
	f := com.StaticCallee()
	if f == nil {
		if com.IsInvoke() && len(t.c.chaTargets(com)) > 0 {
			return tverdict{} // their returns are roots
		}
		return unknown("the result of a dynamic call in %s", where(c))
	}
	if f.Blocks != nil && strings.HasPrefix(fnPkgPath(f), modPath) {
		return tverdict{} // its returns are roots
	}
	switch f.String() {
	case "strings.Split", "strings.SplitN", "strings.SplitAfter":
		sep, _ := constString(com.Args[1])
		if m == mLine && sep == "\n" && f.Name() == "Split" {
			return tverdict{}
		}
		if m == mCode && sep != " " && sep != "\n" {
			return t.cut(com.Args[0])
		}
		return t.ok(com.Args[0], m)
	case "strings.Fields":
		if m == mLine {
			return tverdict{}
		}
		return t.ok(com.Args[0], m)
	case "strings.FieldsFunc":
		return t.cut(com.Args[0])
	case "(*bytes.Buffer).Bytes":
		return t.buffer(com.Args[0], m)
	case "golang.org/x/tools/imports.Process", "go/format.Source", "os.ReadFile", "io/ioutil.ReadFile":
		if f.Name() == "ReadFile" {
			return bad("the contents of a file")
		}
		if m == mCode {
			return tverdict{}
		}
	}
	if fnPkgPath(f) == "flag" {
		return tverdict{}
	}
	return unknown("the result of %s in %s", f.String(), where(c))
}

func (t *taint) elements(of interface{}, m tmode, runes bool) tverdict {
	var rs = map[interface{}]bool{}
	switch o := of.(type) {
	case srcField:
		t.rootField(o.key, rs)
	case srcElem:
		return t.elements(o.of, m, runes)
	case srcFunc:
		return t.tmplCall(o, m)
	case ssa.Value:
		t.roots(o, rs)
	default:
		return unknown("%T", of)
	}
	if d := t.docRoot(rs); d != "" {
		return bad("%s is text of a document", d)
	}
	var r tverdict
	for _, e := range t.elems {
		if !meets(rs, e.roots) {
			continue
		}
		switch {
		case e.val == nil: // copy
			r = r.join(t.ok(srcElem{e.key}, m))
		case runes:
			r = r.join(t.rune_(e.val, e.at.Block(), e.val))
		case isContainer(e.val.Type()):
			// containers in containers have the same roots
		default:
			r = r.join(t.use(e.val, e.at.Block(), nil, m))
		}
	}
	for k := range rs {
		if c, ok := k.(*ssa.Convert); ok {
			r = r.join(t.ok(c, m))
		}
	}
	return r.join(t.external(rs, m))
}

func isContainer(ty types.Type) bool {
	switch u := ty.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Array:
		_ = u
		return true
	}
	return false
}

// use: the value v where control is at block b; a test of v that dominates b
// may have established that v is harmless.
func (t *taint) use(v ssa.Value, b, to *ssa.BasicBlock, m tmode) tverdict {
	r := t.ok(v, m)
	if r.lv != tBad || b == nil {
		return r
	}
	switch t.tested(v, b, to, "go/token.IsIdentifier") {
	case 1:
		return tverdict{}
	case 2:
		return unknown("a text that is tested in %s", b.Parent().RelString(nil))
	}
	return r
}

// tested: 1 if the function is known to hold of v at b, 2 if some other
// predicate of the program is.
func (t *taint) tested(v ssa.Value, b, to *ssa.BasicBlock, name string) int {
	res := 0
	for x := b; x != nil; x = x.Idom() {
		d := x.Idom()
		if d == nil {
			break
		}
		_ = d
		for _, p := range x.Preds {
			iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
			if !ok || len(x.Preds) != 1 {
				continue
			}
			cond, want := iff.Cond, p.Succs[0] == x
			for {
				u, ok := cond.(*ssa.UnOp)
				if !ok || u.Op != token.NOT {
					break
				}
				cond, want = u.X, !want
			}
			call, ok := cond.(*ssa.Call)
			if !ok {
				continue
			}
			uses := false
			for _, a := range call.Call.Args {
				if a == v || sameTextVal(a, v) {
					uses = true
				}
			}
			if !uses {
				continue
			}
			f := call.Call.StaticCallee()
			switch {
			case f != nil && f.String() == name && want:
				return 1
			case f != nil && fnPkgPath(f) == "strings":
			case f != nil && f.String() == "strconv.CanBackquote":
			case f == nil, strings.HasPrefix(fnPkgPath(f), modPath), fnPkgPath(f) == "regexp", fnPkgPath(f) == "go/token", fnPkgPath(f) == "go/ast":
				res = 2
			}
		}
	}
	return res
}

// sameTextVal: two loads of one variable or field, or the same value.
func sameTextVal(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL {
		if x.X == y.X {
			return true
		}
		fx, ok1 := x.X.(*ssa.FieldAddr)
		fy, ok2 := y.X.(*ssa.FieldAddr)
		return ok1 && ok2 && fx.Field == fy.Field && sameTextVal(fx.X, fy.X)
	}
	fx, ok1 := a.(*ssa.Field)
	fy, ok2 := b.(*ssa.Field)
	if ok1 && ok2 {
		return fx.Field == fy.Field && sameTextVal(fx.X, fy.X)
	}
	return false
}

// A seg is a piece of a text that is put together: a constant, or a value
// with the verb that formats it.
type seg struct {
	text  string
	val   interface{} // ssa.Value or another source
	verb  string
	block *ssa.BasicBlock
	safe  bool
	cb    bool // may be put between back quotes
}

func (t *taint) concat(v ssa.Value) []seg {
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD && textual(x.Type()) {
			l, r := t.concat(x.X), t.concat(x.Y)
			for i := range l {
				if l[i].block == nil {
					l[i].block = x.Block()
				}
			}
			for i := range r {
				if r[i].block == nil {
					r[i].block = x.Block()
				}
			}
			return append(append([]seg{}, l...), r...)
		}
	case *ssa.Const:
		if s, ok := constString(x); ok {
			return []seg{{text: s}}
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.String() == "fmt.Sprintf" {
			if segs, ok := t.format(x.Call.Args[0], x.Call.Args[1]); ok {
				for i := range segs {
					segs[i].block = x.Block()
				}
				return segs
			}
		}
	}
	return []seg{{val: v}}
}

// format: the pieces of a formatted text.
func (t *taint) format(f, args ssa.Value) ([]seg, bool) {
	s, ok := constString(f)
	if !ok {
		// a constant and values that are added to it
		parts := t.concatConst(f)
		if parts == nil {
			return nil, false
		}
		s = *parts
	}
	vals, ok := varargs(args)
	if !ok {
		return nil, false
	}
	out, ok := formatSegs(s, func(i int) (interface{}, bool) {
		if i < len(vals) {
			return vals[i], true
		}
		return nil, false
	})
	return out, ok
}

func (t *taint) concatConst(f ssa.Value) *string {
	b, ok := f.(*ssa.BinOp)
	if !ok || b.Op != token.ADD {
		if s, ok := constString(f); ok {
			return &s
		}
		return nil
	}
	x, y := t.concatConst(b.X), t.concatConst(b.Y)
	if x == nil || y == nil {
		return nil
	}
	s := *x + *y
	return &s
}

func formatSegs(s string, arg func(int) (interface{}, bool)) (out []seg, ok bool) {
	n := 0
	text := ""
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			text += s[i : i+1]
			continue
		}
		i++
		flags := ""
		for i < len(s) && strings.IndexByte("+-# 0.0123456789", s[i]) >= 0 {
			flags += s[i : i+1]
			i++
		}
		if i < len(s) && s[i] == '[' {
			j := strings.IndexByte(s[i:], ']')
			if j < 0 {
				return nil, false
			}
			k := 0
			if _, err := fmt.Sscanf(s[i+1:i+j], "%d", &k); err != nil {
				return nil, false
			}
			n = k - 1
			i += j + 1
		}
		if i >= len(s) || s[i] == '*' {
			return nil, false
		}
		if s[i] == '%' {
			text += "%"
			continue
		}
		v, has := arg(n)
		n++
		if !has {
			return nil, false
		}
		out = append(out, seg{text: text}, seg{val: v, verb: flags + s[i:i+1]})
		text = ""
	}
	return append(out, seg{text: text}), true
}

// states of the scanner
const (
	lexCode = iota
	lexString
	lexRaw
	lexChar
	lexLine
	lexBlock
)

type lexer struct {
	state int
	last  string // the last two bytes
	lineN int    // bytes of the line comment so far
	start bool
}

func (l *lexer) scan(s string) {
	for i := 0; i < len(s); i++ {
		ch := s[i]
		switch l.state {
		case lexCode:
			switch ch {
			case '"':
				l.state = lexString
			case '`':
				l.state = lexRaw
			case '\'':
				l.state = lexChar
			case '/':
				if i+1 < len(s) && s[i+1] == '/' {
					l.state, l.lineN = lexLine, 0
					i++
				} else if i+1 < len(s) && s[i+1] == '*' {
					l.state = lexBlock
					i++
				}
			}
		case lexString, lexChar:
			q := byte('"')
			if l.state == lexChar {
				q = '\''
			}
			switch ch {
			case '\\':
				i++
			case q:
				l.state = lexCode
			}
		case lexRaw:
			if ch == '`' {
				l.state = lexCode
			}
		case lexLine:
			l.lineN++
			if ch == '\n' {
				l.state = lexCode
			}
		case lexBlock:
			if ch == '*' && i+1 < len(s) && s[i+1] == '/' {
				l.state = lexCode
				i++
			}
		}
	}
}

// segments decides whether a text that is put together is harmless.
func (t *taint) segments(segs []seg, m tmode) (r tverdict) {
	var l lexer
	for _, s := range segs {
		if s.val == nil {
			if m == mCode {
				l.scan(s.text)
			} else if m == mLine && strings.Contains(s.text, "\n") {
				r = r.join(bad("a constant with a line feed"))
			}
			continue
		}
		r = r.join(t.piece(s, m, &l))
	}
	return r
}

// piece: a value in a text.
func (t *taint) piece(s seg, m tmode, l *lexer) tverdict {
	quoted := false
	switch verb := s.verb; {
	case strings.HasSuffix(verb, "q"):
		quoted = true
		if strings.Contains(verb, "#") && m == mCode && l.state == lexCode {
			return tverdict{}
		}
	case verb == "", strings.HasSuffix(verb, "s"), strings.HasSuffix(verb, "v"):
		if strings.Contains(verb, "#") {
			quoted = true
		}
	case strings.HasSuffix(verb, "d"), strings.HasSuffix(verb, "t"), strings.HasSuffix(verb, "x"), strings.HasSuffix(verb, "X"),
		strings.HasSuffix(verb, "T"), strings.HasSuffix(verb, "b"), strings.HasSuffix(verb, "o"), strings.HasSuffix(verb, "f"), strings.HasSuffix(verb, "g"), strings.HasSuffix(verb, "e"), strings.HasSuffix(verb, "U"):
		return tverdict{}
	default:
		return unknown("verb %%%s", verb)
	}
	if quoted {
		switch {
		case m == mLine, m == mCode && (l.state == lexCode || l.state == lexLine):
			return tverdict{}
		case m == mIdent:
			return t.source(s, mIdent)
		}
		// in another literal
		if v := t.source(s, mIdent); v.lv != tSafe {
			v.why = "quoted inside another literal or comment: " + v.why
			return v
		}
		return tverdict{}
	}
	switch {
	case m != mCode:
		return t.source(s, m)
	case l.state == lexCode:
		return t.source(s, mCode)
	case l.state == lexLine:
		v := t.source(s, mLine)
		if v.lv == tSafe && l.lineN == 0 {
			if w := t.source(s, mIdent); w.lv == tBad {
				return bad("a comment that begins with it may be a directive: %s", w.why)
			}
		}
		return v
	case l.state == lexRaw:
		if x, ok := s.val.(ssa.Value); ok && s.block != nil && t.tested(x, s.block, nil, "strconv.CanBackquote") == 1 {
			return tverdict{}
		}
		v := t.source(s, mIdent)
		if v.lv == tBad {
			v.why = "between back quotes: " + v.why
		}
		return v
	}
	v := t.source(s, mIdent)
	if v.lv == tBad {
		v.why = "inside a literal or comment: " + v.why
	}
	return v
}

func (t *taint) source(s seg, m tmode) tverdict {
	if s.safe {
		return tverdict{}
	}
	if v, ok := s.val.(ssa.Value); ok {
		return t.use(v, s.block, nil, m)
	}
	return t.ok(s.val, m)
}

// rune_: whether a character that becomes part of a text is a letter, a digit
// or an underscore.
func (t *taint) rune_(v ssa.Value, b *ssa.BasicBlock, orig ssa.Value) tverdict {
	g := &runeGuard{t: t, seen: map[*ssa.BasicBlock]bool{}}
	if g.value(v, b) {
		return tverdict{}
	}
	if g.odd {
		return unknown("characters that are tested in %s", b.Parent().RelString(nil))
	}
	return tverdict{tBad, "characters of a text are kept that are not known to be letters, digits or underscores"}
}

type runeGuard struct {
	t    *taint
	seen map[*ssa.BasicBlock]bool
	odd  bool
	deep int
}

func identRune(k *ssa.Const) bool {
	if k.Value == nil || k.Value.Kind() != constant.Int {
		return false
	}
	n, ok := constant.Int64Val(k.Value)
	return ok && (n < 0 || n == '_' || unicode.IsLetter(rune(n)) || unicode.IsDigit(rune(n)))
}

// value: v is harmless where control is at b.
func (g *runeGuard) value(v ssa.Value, b *ssa.BasicBlock) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return identRune(x)
	case *ssa.Phi:
		if g.guarded(v, b, map[*ssa.BasicBlock]bool{}) {
			return true
		}
		for i, e := range x.Edges {
			if e == v {
				continue
			}
			if k, ok := e.(*ssa.Const); ok {
				if !identRune(k) {
					return false
				}
				continue
			}
			if g.deep > 8 {
				return false
			}
			g.deep++
			ok := g.edge(e, x.Block().Preds[i], x.Block()) || g.value(e, x.Block().Preds[i])
			g.deep--
			if !ok {
				return false
			}
		}
		return true
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			switch f.String() {
			case "unicode.ToUpper", "unicode.ToLower", "unicode.ToTitle":
				return g.value(x.Call.Args[0], b)
			}
		}
	case *ssa.Convert:
		return g.value(x.X, b)
	}
	return g.guarded(v, b, map[*ssa.BasicBlock]bool{})
}

// edge: v is harmless when control goes from p to b.
func (g *runeGuard) edge(v ssa.Value, p, b *ssa.BasicBlock) bool {
	if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
		if g.implies(iff.Cond, p.Succs[0] == b, v) {
			return true
		}
	}
	return g.guarded(v, p, map[*ssa.BasicBlock]bool{})
}

// guarded: every way to b has established that v is harmless.
func (g *runeGuard) guarded(v ssa.Value, b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return true
	}
	seen[b] = true
	if in, ok := v.(ssa.Instruction); ok && in.Block() == b {
		return false
	}
	if len(b.Preds) == 0 {
		return false
	}
	for _, p := range b.Preds {
		if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
			if g.implies(iff.Cond, p.Succs[0] == b, v) {
				continue
			}
		}
		if !g.guarded(v, p, seen) {
			return false
		}
	}
	return true
}

// implies: if cond is want, then v is harmless.
func (g *runeGuard) implies(cond ssa.Value, want bool, v ssa.Value) bool {
	if g.deep > 12 {
		return false
	}
	g.deep++
	defer func() { g.deep-- }()
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return g.implies(c.X, !want, v)
		}
	case *ssa.BinOp:
		x, y := c.X, c.Y
		if x != v {
			x, y = y, x
		}
		if x != v {
			return false
		}
		k, ok := y.(*ssa.Const)
		switch c.Op {
		case token.EQL, token.NEQ:
			return ok && identRune(k) && want == (c.Op == token.EQL)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			g.odd = true
		}
	case *ssa.Phi:
		for i, e := range c.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil {
				if constant.BoolVal(k.Value) != want {
					continue
				}
				if !g.edge(v, c.Block().Preds[i], c.Block()) {
					return false
				}
				continue
			}
			if !g.implies(e, want, v) && !g.edge(v, c.Block().Preds[i], c.Block()) {
				return false
			}
		}
		return true
	case *ssa.Call:
		f := c.Call.StaticCallee()
		arg := -1
		for i, a := range c.Call.Args {
			if a == v {
				arg = i
			}
		}
		if arg < 0 {
			return false
		}
		if f == nil {
			g.odd = true
			return false
		}
		switch f.String() {
		case "unicode.IsLetter", "unicode.IsDigit", "unicode.IsUpper", "unicode.IsLower":
			return want
		case "unicode.IsSpace", "unicode.IsPunct", "unicode.IsSymbol", "unicode.IsControl", "unicode.IsPrint", "unicode.IsGraphic", "unicode.IsNumber", "unicode.IsMark":
			return false
		case "strings.ContainsRune", "strings.IndexRune":
			if s, ok := constString(c.Call.Args[0]); ok && want && f.Name() == "ContainsRune" {
				for _, r := range s {
					if r != '_' && !unicode.IsLetter(r) && !unicode.IsDigit(r) {
						return false
					}
				}
				return true
			}
		}
		if f.Blocks == nil || !strings.HasPrefix(fnPkgPath(f), modPath) || arg >= len(f.Params) || f.Signature.Results().Len() != 1 {
			g.odd = true
			return false
		}
		for _, r := range returnsOf(f) {
			if k, ok := r.Results[0].(*ssa.Const); ok {
				if k.Value == nil || constant.BoolVal(k.Value) != want {
					continue
				}
				if !g.guarded(f.Params[arg], r.Block(), map[*ssa.BasicBlock]bool{}) {
					return false
				}
				continue
			}
			if !g.implies(r.Results[0], want, f.Params[arg]) && !g.guarded(f.Params[arg], r.Block(), map[*ssa.BasicBlock]bool{}) {
				return false
			}
		}
		return true
	}
	return false
}

// call: a result of a call.
func (t *taint) call(v *ssa.Call, res int, m tmode) tverdict {
	com := v.Common()
	if _, ok := com.Value.(*ssa.Builtin); ok {
		return t.elements(ssa.Value(v), m, false)
	}
	if com.IsInvoke() {
		fs := t.c.chaTargets(com)
		if len(fs) == 0 {
			return unknown("the result of %s in %s", calleeName(com), where(v))
		}
		var r tverdict
		for _, f := range fs {
			for _, ret := range returnsOf(f) {
				r = r.join(t.use(ret.Results[res], ret.Block(), nil, m))
			}
		}
		return r
	}
	f := com.StaticCallee()
	if f == nil {
		var r tverdict
		n := 0
		for _, g := range t.dynTargets(com) {
			n++
			for _, ret := range returnsOf(g) {
				r = r.join(t.use(ret.Results[res], ret.Block(), nil, m))
			}
		}
		if n == 0 {
			return unknown("the result of a dynamic call in %s", where(v))
		}
		return r
	}
	if f.Blocks != nil && strings.HasPrefix(fnPkgPath(f), modPath) {
		var r tverdict
		for _, ret := range returnsOf(f) {
			if res < len(ret.Results) {
				r = r.join(t.use(ret.Results[res], ret.Block(), nil, m))
			}
		}
		return r
	}
	return t.externalText(v, f, m)
}

func (t *taint) dynTargets(com *ssa.CallCommon) (out []*ssa.Function) {
	sig, ok := com.Value.Type().Underlying().(*types.Signature)
	if !ok {
		return nil
	}
	ix := t.c.callers()
	for _, f := range t.c.Funcs {
		if f.Parent() == nil && !ix.escapes[f] {
			continue
		}
		if f.Signature.Recv() == nil && types.Identical(sig.Params(), f.Signature.Params()) && types.Identical(sig.Results(), f.Signature.Results()) {
			out = append(out, f)
		}
	}
	return out
}

func (t *taint) externalText(v *ssa.Call, f *ssa.Function, m tmode) tverdict {
	com := v.Common()
	args := com.Args
	name := f.String()
	switch name {
	case "strconv.Quote", "strconv.QuoteToASCII", "strconv.QuoteToGraphic":
		if m == mIdent {
			r := t.ok(args[0], mIdent)
			if r.lv == tBad {
				r.why = "quoted text, taken apart or put inside a literal: " + r.why
			}
			return r
		}
		return tverdict{}
	case "strconv.Unquote":
		r := t.ok(args[0], mIdent)
		if r.lv == tBad {
			return bad("text that was unquoted in %s", where(v))
		}
		return r
	case "(reflect.StructTag).Get", "(reflect.StructTag).Lookup":
		return t.ok(args[0], mIdent)
	case "fmt.Sprintf":
		segs, ok := t.format(args[0], args[1])
		if !ok {
			if p, isp := args[0].(*ssa.Parameter); isp {
				return t.wrapped(p, args[1], m)
			}
			return unknown("a format in %s", where(v))
		}
		for i := range segs {
			segs[i].block = v.Block()
		}
		return t.segments(segs, m)
	case "fmt.Sprint", "fmt.Sprintln":
		vals, ok := varargs(args[0])
		if !ok {
			return t.elements(args[0], m, false)
		}
		var segs []seg
		for _, x := range vals {
			if mi, ok := x.(*ssa.MakeInterface); ok {
				if s, ok := constString(mi.X); ok {
					segs = append(segs, seg{text: s})
					continue
				}
			}
			segs = append(segs, seg{val: x, block: v.Block()})
		}
		return t.segments(segs, m)
	case "strings.Title", "strings.ToUpper", "strings.ToLower", "strings.ToTitle", "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight",
		"strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimFunc", "strings.TrimLeftFunc", "strings.TrimRightFunc", "path/filepath.Base", "path.Base":
		if m == mLine {
			return t.ok(args[0], m)
		}
		if name == "strings.TrimSpace" {
			return t.ok(args[0], m)
		}
		return t.cut(args[0])
	case "strings.Replace", "strings.ReplaceAll":
		if old, ok := constString(args[1]); ok && m == mLine && old == "\n" {
			if name == "strings.Replace" {
				if n, ok := constInt(args[3]); !ok || n >= 0 {
					return t.ok(args[0], m)
				}
			}
			return t.ok(args[2], m)
		}
		if m == mLine {
			return t.all2(m, args[0], args[2])
		}
		return t.all2(mIdent, args[0], args[2])
	case "strings.Repeat":
		return t.ok(args[0], m)
	case "strings.Join":
		r := t.elements(args[0], m, false)
		if m == mIdent {
			r = r.join(t.ok(args[1], m))
		}
		return r
	case "strings.Map":
		if r := t.mapped(args[0]); r.lv == tSafe {
			return r
		} else if q := t.ok(args[1], mIdent); q.lv != tSafe {
			if m == mLine {
				return t.ok(args[1], mLine)
			}
			return q.join(tverdict{r.lv, q.why})
		}
		return tverdict{}
	case "(*bytes.Buffer).String", "(*strings.Builder).String", "(*bytes.Buffer).Bytes":
		return t.buffer(args[0], m)
	case "(*bufio.Scanner).Text", "(*bufio.Scanner).Bytes":
		if m == mLine && t.lines(args[0]) {
			return tverdict{}
		}
		return t.scanned(args[0], m)
	case "go/token.Token.String", "(go/token.Token).String":
		return tverdict{}
	case "go/types.ExprString":
		if m == mCode {
			return tverdict{}
		}
		return unknown("printed code")
	case "os.Getenv":
		return tverdict{}
	}
	switch fnPkgPath(f) {
	case "strconv":
		return tverdict{} // FormatInt and so on
	case "flag":
		return tverdict{}
	case "go/format", "golang.org/x/tools/imports":
		if m == mCode {
			return tverdict{}
		}
	}
	if textual(v.Type()) || res2(v) {
		// made from its arguments
		var r tverdict
		switch fnPkgPath(f) {
		case "strings", "bytes", "regexp", "html", "path", "path/filepath", "net/url":
			for _, a := range args {
				if textual(a.Type()) {
					r = r.join(t.ok(a, mIdent))
				}
			}
			if r.lv == tSafe || r.lv == tUnknown {
				return r
			}
			if fnPkgPath(f) == "regexp" || m == mLine {
				return unknown("the result of %s in %s", name, where(v))
			}
			return r
		}
	}
	return unknown("the result of %s in %s", name, where(v))
}

func res2(v *ssa.Call) bool { _, ok := v.Type().(*types.Tuple); return ok }

// mapped: a function for strings.Map that keeps only harmless characters.
func (t *taint) mapped(fv ssa.Value) tverdict {
	var f *ssa.Function
	switch x := fv.(type) {
	case *ssa.Function:
		f = x
	case *ssa.MakeClosure:
		f = x.Fn.(*ssa.Function)
	}
	if f == nil || f.Blocks == nil {
		return unknown("a function that maps characters")
	}
	for _, r := range returnsOf(f) {
		if v := t.rune_(r.Results[0], r.Block(), nil); v.lv != tSafe {
			return v
		}
	}
	return tverdict{}
}

// wrapped: a format that is a parameter, with the values of another.
func (t *taint) wrapped(p *ssa.Parameter, args ssa.Value, m tmode) tverdict {
	f := p.Parent()
	q, ok := args.(*ssa.Parameter)
	if !ok || q.Parent() != f {
		return unknown("a format in %s", f.RelString(nil))
	}
	pi, qi := paramIndex(p), paramIndex(q)
	var r tverdict
	for _, site := range t.c.callers().sites[f] {
		com := site.Common()
		for _, text := range phiEdges(com.Args[pi]) {
			if s, ok := text.(*ssa.Parameter); ok {
				r = r.join(t.wrapped(s, com.Args[qi], m))
				continue
			}
			segs, ok := t.format(text, com.Args[qi])
			if !ok {
				r = r.join(t.addedFormat(text, com.Args[qi], site, m))
				continue
			}
			for i := range segs {
				segs[i].block = site.Block()
			}
			v := t.segments(segs, m)
			if v.lv != tSafe {
				v.why = site.Parent().RelString(nil) + ": " + v.why
			}
			r = r.join(v)
		}
	}
	if t.c.callers().escapes[f] {
		r = r.join(unknown("callers of %s", f.RelString(nil)))
	}
	return r
}

// addedFormat: a format that is not constant; text in it counts as code.
func (t *taint) addedFormat(text, args ssa.Value, at ssa.Instruction, m tmode) tverdict {
	r := t.ok(text, m)
	if r.lv == tBad {
		r.why = at.Parent().RelString(nil) + ": " + r.why
		return r
	}
	vals, ok := varargs(args)
	if ok && len(vals) == 0 {
		return r
	}
	return r.join(unknown("a format in %s", at.Parent().RelString(nil)))
}

func phiEdges(v ssa.Value) []ssa.Value {
	seen := map[ssa.Value]bool{}
	var out []ssa.Value
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if p, ok := v.(*ssa.Phi); ok {
			for _, e := range p.Edges {
				rec(e)
			}
			return
		}
		out = append(out, v)
	}
	rec(v)
	return out
}

func paramIndex(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if q == p {
			return i
		}
	}
	return -1
}

// scanner: what a bufio.Scanner reads.
func (t *taint) scanned(s ssa.Value, m tmode) tverdict {
	for _, v := range t.values(s) {
		call, ok := v.(*ssa.Call)
		if !ok || calleeName(call.Common()) == "" {
			return unknown("a scanner")
		}
		f := call.Call.StaticCallee()
		if f == nil || f.String() != "bufio.NewScanner" {
			return unknown("a scanner")
		}
		rd := call.Call.Args[0]
		for {
			switch x := rd.(type) {
			case *ssa.MakeInterface:
				rd = x.X
				continue
			case *ssa.ChangeInterface:
				rd = x.X
				continue
			}
			break
		}
		c2, ok := rd.(*ssa.Call)
		if !ok || c2.Call.StaticCallee() == nil || c2.Call.StaticCallee().String() != "strings.NewReader" {
			return unknown("what is scanned")
		}
		if r := t.ok(c2.Call.Args[0], m); r.lv != tSafe {
			return r
		}
	}
	return tverdict{}
}

// lines: a scanner that splits at line feeds.
func (t *taint) lines(s ssa.Value) bool {
	for _, v := range t.values(s) {
		if v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			if ci, ok := r.(ssa.CallInstruction); ok {
				if f := ci.Common().StaticCallee(); f != nil && f.String() == "(*bufio.Scanner).Split" {
					g, ok := ci.Common().Args[1].(*ssa.Function)
					if x, isc := ci.Common().Args[1].(*ssa.ChangeType); isc {
						g, ok = x.X.(*ssa.Function)
					}
					if !ok || (g.String() != "bufio.ScanLines" && g.String() != "bufio.ScanWords") {
						return false
					}
				}
			}
		}
	}
	return true
}

func (t *taint) values(v ssa.Value) (out []ssa.Value) {
	for _, e := range phiEdges(v) {
		if u, ok := e.(*ssa.UnOp); ok && u.Op == token.MUL {
			out = append(out, t.allocStores(u.X)...)
			continue
		}
		out = append(out, e)
	}
	return out
}

// buffer: what was written to a buffer.
func (t *taint) buffer(b ssa.Value, m tmode) tverdict {
	w := &bufWrites{t: t, m: m, seen: map[ssa.Value]bool{}, up: map[ssa.Value]bool{}}
	w.find(b)
	return w.r
}

type bufWrites struct {
	t        *taint
	m        tmode
	seen, up map[ssa.Value]bool
	r        tverdict
}

// find goes from an address to the variable that holds the buffer.
func (w *bufWrites) find(v ssa.Value) {
	if w.up[v] {
		return
	}
	w.up[v] = true
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.Global:
		w.visit(v)
	case *ssa.Parameter:
		args, complete := w.t.callerArgs(x)
		if !complete {
			w.r = w.r.join(unknown("a buffer of callers of %s", x.Parent().RelString(nil)))
		}
		for _, a := range args {
			w.find(a)
		}
		w.visit(v)
	case *ssa.FieldAddr:
		for _, fa := range w.t.fieldAddr[fieldID(x.X.Type(), x.Field)] {
			w.visit(fa)
		}
	case *ssa.FreeVar:
		if mc := w.t.c.callers().closures[x.Parent()]; mc != nil {
			for i, fv := range x.Parent().FreeVars {
				if fv == x {
					w.find(mc.Bindings[i])
				}
			}
		}
	case *ssa.UnOp:
		for _, s := range w.t.values(x) {
			w.find(s)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			w.find(e)
		}
	case *ssa.MakeInterface:
		w.find(x.X)
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			switch f.String() {
			case "bytes.NewBufferString", "bytes.NewBuffer":
				w.r = w.r.join(w.t.ok(x.Call.Args[0], w.m))
				w.visit(v)
				return
			}
			if f.Blocks != nil && strings.HasPrefix(fnPkgPath(f), modPath) {
				for _, r := range returnsOf(f) {
					w.find(r.Results[0])
				}
				w.visit(v)
				return
			}
		}
		w.r = w.r.join(unknown("a buffer from %s", calleeName(x.Common())))
	default:
		w.r = w.r.join(unknown("a buffer in %s", where(v)))
	}
}

// visit follows the address of a buffer to the writes.
func (w *bufWrites) visit(v ssa.Value) {
	if w.seen[v] || v.Referrers() == nil {
		return
	}
	w.seen[v] = true
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.MakeInterface:
			w.visit(r)
		case *ssa.ChangeInterface:
			w.visit(r)
		case *ssa.Phi:
			w.visit(r)
		case *ssa.TypeAssert:
			w.visit(r)
		case *ssa.Store:
			if r.Val == v {
				if al, ok := r.Addr.(*ssa.Alloc); ok {
					for _, q := range *al.Referrers() {
						if u, ok := q.(*ssa.UnOp); ok && u.Op == token.MUL {
							w.visit(u)
						}
					}
				} else if fa, ok := r.Addr.(*ssa.FieldAddr); ok {
					for _, fa := range w.t.fieldAddr[fieldID(fa.X.Type(), fa.Field)] {
						for _, q := range *fa.Referrers() {
							if u, ok := q.(*ssa.UnOp); ok && u.Op == token.MUL {
								w.visit(u)
							}
						}
					}
				} else {
					w.r = w.r.join(unknown("a buffer is stored in %s", where(r)))
				}
			}
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == v {
					w.visit(r.Fn.(*ssa.Function).FreeVars[i])
				}
			}
		case ssa.CallInstruction:
			w.call(r, v)
		}
	}
}

func (w *bufWrites) call(ci ssa.CallInstruction, v ssa.Value) {
	com := ci.Common()
	m := w.m
	if com.IsInvoke() {
		if com.Value == v {
			switch com.Method.Name() {
			case "Write", "WriteString":
				w.r = w.r.join(w.t.use(com.Args[0], ci.Block(), nil, m))
				return
			}
		}
		w.r = w.r.join(unknown("a buffer is passed to %s", calleeName(com)))
		return
	}
	f := com.StaticCallee()
	if f == nil {
		w.r = w.r.join(unknown("a buffer is passed to a function value in %s", where(ci)))
		return
	}
	idx := -1
	for i, a := range com.Args {
		if a == v {
			idx = i
		}
	}
	if idx < 0 {
		return
	}
	if f.Blocks != nil && strings.HasPrefix(fnPkgPath(f), modPath) {
		if idx < len(f.Params) {
			w.visit(f.Params[idx])
		}
		return
	}
	recv := f.Signature.Recv() != nil
	switch name := f.Name(); {
	case recv && idx == 0:
		switch name {
		case "WriteString", "Write":
			segs := w.t.concat(com.Args[1])
			for i := range segs {
				if segs[i].block == nil {
					segs[i].block = ci.Block()
				}
			}
			w.r = w.r.join(w.t.segments(segs, m))
		case "WriteRune", "WriteByte":
			w.r = w.r.join(w.char(com.Args[1], ci))
		case "Reset", "String", "Bytes", "Len", "Truncate", "Grow", "Cap", "Read", "ReadString", "ReadByte", "WriteTo":
		default:
			w.r = w.r.join(unknown("%s of a buffer in %s", name, where(ci)))
		}
	case f.String() == "fmt.Fprintf":
		segs, ok := w.t.format(com.Args[1], com.Args[2])
		if !ok {
			if p, isp := com.Args[1].(*ssa.Parameter); isp {
				w.r = w.r.join(w.t.wrapped(p, com.Args[2], m))
				return
			}
			w.r = w.r.join(unknown("a format in %s", where(ci)))
			return
		}
		for i := range segs {
			segs[i].block = ci.Block()
		}
		w.r = w.r.join(w.t.segments(segs, m))
	case f.String() == "fmt.Fprint", f.String() == "fmt.Fprintln":
		vals, ok := varargs(com.Args[1])
		if !ok {
			w.r = w.r.join(w.t.elements(com.Args[1], m, false))
			return
		}
		for _, x := range vals {
			w.r = w.r.join(w.t.use(x, ci.Block(), nil, m))
		}
	case f.String() == "io.WriteString":
		segs := w.t.concat(com.Args[1])
		for i := range segs {
			if segs[i].block == nil {
				segs[i].block = ci.Block()
			}
		}
		w.r = w.r.join(w.t.segments(segs, m))
	case f.String() == "go/format.Node", f.String() == "go/printer.Fprint", f.String() == "(*go/printer.Config).Fprint":
		if m == mIdent {
			// printed code, taken apart; of names and types at most
			return
		}
	case strings.HasSuffix(f.String(), "template.Template).Execute"):
		w.r = w.r.join(w.t.execute(ci, m))
	case idx > 0 || !recv:
		switch f.String() {
		case "bytes.NewReader", "bufio.NewReader", "bufio.NewScanner", "go/parser.ParseFile":
		default:
			w.r = w.r.join(unknown("a buffer is passed to %s", f.String()))
		}
	}
}

func (w *bufWrites) char(v ssa.Value, at ssa.Instruction) tverdict {
	if k, ok := v.(*ssa.Const); ok {
		if n, _ := constInt(k); w.m == mLine && n == '\n' {
			return bad("a line feed")
		}
		return tverdict{}
	}
	if w.m == mLine {
		return unknown("single characters in %s", where(at))
	}
	return w.t.rune_(v, at.Block(), v)
}

// A tmplUse is a template with the data it is executed on.
type tmplUse struct {
	text string
	data ssa.Value
	site ssa.Instruction
}

// templates: the texts and data of a call of Execute.
func (t *taint) templates(ci ssa.CallInstruction) (out []tmplUse, ok bool) {
	com := ci.Common()
	ok = true
	var texts []ssa.Value
	seen := map[ssa.Value]bool{}
	var find func(v ssa.Value)
	find = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				find(e)
			}
		case *ssa.Extract:
			find(x.Tuple)
		case *ssa.UnOp:
			switch a := x.X.(type) {
			case *ssa.Global:
				for _, s := range t.globals[a] {
					find(s)
				}
			default:
				for _, s := range t.allocStores(a) {
					find(s)
				}
			}
		case *ssa.Call:
			f := x.Call.StaticCallee()
			switch {
			case f == nil:
				ok = false
			case f.Name() == "Parse" && f.Signature.Recv() != nil:
				texts = append(texts, x.Call.Args[1])
			case f.Name() == "Must":
				find(x.Call.Args[0])
			case f.Blocks != nil && strings.HasPrefix(fnPkgPath(f), modPath):
				for _, r := range returnsOf(f) {
					find(r.Results[0])
				}
			case f.Name() == "Funcs", f.Name() == "Option", f.Name() == "Delims":
				find(x.Call.Args[0])
			default:
				ok = false
			}
		case *ssa.Const:
		default:
			ok = false
		}
	}
	find(com.Args[0])
	var pairs func(text, data ssa.Value, site ssa.Instruction, n int)
	pairs = func(text, data ssa.Value, site ssa.Instruction, n int) {
		if n > 8 {
			ok = false
			return
		}
		for _, x := range phiEdges(text) {
			if s := t.concatConst(x); s != nil {
				out = append(out, tmplUse{*s, data, site})
				continue
			}
			var p *ssa.Parameter
			elem := false
			switch y := x.(type) {
			case *ssa.Parameter:
				p = y
			case *ssa.UnOp:
				if ia, isIA := y.X.(*ssa.IndexAddr); isIA {
					if q, isP := ia.X.(*ssa.Parameter); isP {
						p, elem = q, true
					}
				}
			}
			if p == nil {
				ok = false
				continue
			}
			ix := t.c.callers()
			if ix.escapes[p.Parent()] {
				ok = false
			}
			dp, dataIsParam := data.(*ssa.Parameter)
			if dataIsParam && dp.Parent() != p.Parent() {
				ok = false
				continue
			}
			for _, s := range ix.sites[p.Parent()] {
				d := data
				if dataIsParam {
					d = s.Common().Args[paramIndex(dp)]
				}
				a := s.Common().Args[paramIndex(p)]
				if !elem {
					pairs(a, d, s, n+1)
					continue
				}
				vs, known := varargs(a)
				if !known {
					ok = false
				}
				for _, v := range vs {
					pairs(v, d, s, n+1)
				}
			}
		}
	}
	for _, x := range texts {
		pairs(x, com.Args[2], ci, 0)
	}
	return out, ok && len(texts) > 0
}

// findTemplates records what templates pass to functions.
func (t *taint) findTemplates() (n int) {
	for _, e := range t.elems {
		if e.val == nil || e.key == nil || !strings.HasSuffix(types.TypeString(e.base.Type(), nil), "template.FuncMap") {
			continue
		}
		name, ok := constString(e.key)
		if !ok {
			continue
		}
		v := e.val
		for {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
				continue
			case *ssa.ChangeType:
				v = x.X
				continue
			case *ssa.MakeClosure:
				v = x.Fn
				continue
			}
			break
		}
		if f, ok := v.(*ssa.Function); ok {
			t.funcMap[name] = append(t.funcMap[name], f)
			if f.Blocks != nil {
				if t.tmplArgs[f] == nil {
					t.tmplArgs[f] = [][]interface{}{}
				}
				for _, site := range t.c.callers().sites[f] {
					var args []interface{}
					for _, a := range site.Common().Args {
						args = append(args, a)
					}
					t.tmplArgs[f] = append(t.tmplArgs[f], args)
				}
			}
		}
	}
	for _, f := range t.all() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || !strings.HasSuffix(g.String(), "template.Template).Execute") || !codePkg(fnPkgPath(f)) {
					continue
				}
				uses, _ := t.templates(ci)
				for _, u := range uses {
					n++
					w := &tmplWalk{t: t, reg: true}
					w.run(u)
				}
			}
		}
	}
	return n
}

func (t *taint) execute(ci ssa.CallInstruction, m tmode) (r tverdict) {
	uses, ok := t.templates(ci)
	if !ok {
		r = unknown("a template in %s", where(ci))
	}
	for _, u := range uses {
		w := &tmplWalk{t: t, m: m}
		w.run(u)
		if w.r.lv != tSafe {
			w.r.why = where(u.site) + ": " + w.r.why
		}
		r = r.join(w.r)
	}
	return r
}

type tmplVal struct {
	src  interface{}
	typ  types.Type
	segs []seg
	text *string
}

type tmplWalk struct {
	t    *taint
	m    tmode
	reg  bool
	r    tverdict
	root tmplVal
	vars map[string]tmplVal
}

func (w *tmplWalk) run(u tmplUse) {
	tr := parse.New("t")
	tr.Mode = parse.SkipFuncCheck
	tree, err := tr.Parse(u.text, "", "", map[string]*parse.Tree{})
	if err != nil {
		w.r = unknown("a template that does not parse")
		return
	}
	data := u.data
	for {
		if mi, ok := data.(*ssa.MakeInterface); ok {
			data = mi.X
			continue
		}
		break
	}
	w.root = tmplVal{src: data, typ: data.Type()}
	w.vars = map[string]tmplVal{"$": w.root}
	if tree.Root != nil {
		var l lexer
		w.list(tree.Root, w.root, &l)
	}
}

func (w *tmplWalk) list(n *parse.ListNode, dot tmplVal, l *lexer) {
	if n == nil {
		return
	}
	for _, x := range n.Nodes {
		switch x := x.(type) {
		case *parse.TextNode:
			if w.m == mCode {
				l.scan(string(x.Text))
			}
		case *parse.ActionNode:
			v := w.pipe(x.Pipe, dot)
			if len(x.Pipe.Decl) == 0 && !w.reg {
				w.hole(v, l, x.String())
			}
		case *parse.IfNode:
			w.pipe(x.Pipe, dot)
			a := *l
			w.list(x.List, dot, l)
			w.list(x.ElseList, dot, &a)
		case *parse.WithNode:
			v := w.pipe(x.Pipe, dot)
			a := *l
			w.list(x.List, v, l)
			w.list(x.ElseList, dot, &a)
		case *parse.RangeNode:
			v := w.pipe(x.Pipe, dot)
			el := w.elem(v)
			decl := x.Pipe.Decl
			if len(decl) > 0 {
				w.vars[decl[len(decl)-1].Ident[0]] = el
			}
			if len(decl) > 1 {
				w.vars[decl[0].Ident[0]] = tmplVal{src: ssa.NewConst(constant.MakeInt64(0), types.Typ[types.Int]), typ: types.Typ[types.Int]}
			}
			a := *l
			w.list(x.List, el, l)
			w.list(x.ElseList, dot, &a)
		case *parse.CommentNode:
		default:
			w.r = w.r.join(unknown("a template with %T", x))
		}
	}
}

func (w *tmplWalk) elem(v tmplVal) tmplVal {
	if v.typ == nil {
		return tmplVal{}
	}
	switch u := v.typ.Underlying().(type) {
	case *types.Slice:
		return tmplVal{src: srcElem{v.src}, typ: u.Elem()}
	case *types.Array:
		return tmplVal{src: srcElem{v.src}, typ: u.Elem()}
	case *types.Map:
		return tmplVal{src: srcElem{v.src}, typ: u.Elem()}
	}
	return tmplVal{}
}

func (w *tmplWalk) chain(v tmplVal, names []string) tmplVal {
	for _, n := range names {
		if v.typ == nil {
			return tmplVal{}
		}
		if mp, ok := v.typ.Underlying().(*types.Map); ok {
			v = tmplVal{src: srcElem{v.src}, typ: mp.Elem()}
			continue
		}
		obj, index, _ := types.LookupFieldOrMethod(v.typ, true, nil, n)
		if obj == nil {
			// unexported names need the package
			return tmplVal{}
		}
		switch o := obj.(type) {
		case *types.Var:
			st := v.typ
			for _, i := range index[:len(index)-1] {
				st = deref(st).Underlying().(*types.Struct).Field(i).Type()
			}
			v = tmplVal{src: srcField{fieldID(st, index[len(index)-1])}, typ: o.Type()}
		case *types.Func:
			f := w.t.c.Prog.FuncValue(o)
			sig := o.Type().(*types.Signature)
			if f == nil || f.Blocks == nil || sig.Results().Len() == 0 {
				return tmplVal{}
			}
			v = tmplVal{src: srcRet{f}, typ: sig.Results().At(0).Type()}
		}
	}
	return v
}

func (w *tmplWalk) pipe(p *parse.PipeNode, dot tmplVal) tmplVal {
	var v tmplVal
	for i, c := range p.Cmds {
		var prev *tmplVal
		if i > 0 {
			x := v
			prev = &x
		}
		v = w.command(c, dot, prev)
	}
	for _, d := range p.Decl {
		w.vars[d.Ident[0]] = v
	}
	return v
}

func (w *tmplWalk) arg(n parse.Node, dot tmplVal) tmplVal {
	switch x := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.FieldNode:
		return w.chain(dot, x.Ident)
	case *parse.VariableNode:
		return w.chain(w.vars[x.Ident[0]], x.Ident[1:])
	case *parse.ChainNode:
		return w.chain(w.arg(x.Node, dot), x.Field)
	case *parse.PipeNode:
		return w.pipe(x, dot)
	case *parse.StringNode:
		s := x.Text
		return tmplVal{src: ssa.NewConst(constant.MakeString(s), types.Typ[types.String]), typ: types.Typ[types.String], text: &s}
	case *parse.NumberNode, *parse.BoolNode, *parse.NilNode:
		return tmplVal{src: ssa.NewConst(constant.MakeInt64(0), types.Typ[types.Int]), typ: types.Typ[types.Int]}
	case *parse.IdentifierNode:
		return w.function(x.Ident, nil)
	}
	return tmplVal{}
}

func (w *tmplWalk) command(c *parse.CommandNode, dot tmplVal, prev *tmplVal) tmplVal {
	id, ok := c.Args[0].(*parse.IdentifierNode)
	if !ok {
		return w.arg(c.Args[0], dot)
	}
	var args []tmplVal
	for _, a := range c.Args[1:] {
		args = append(args, w.arg(a, dot))
	}
	if prev != nil {
		args = append(args, *prev)
	}
	return w.function(id.Ident, args)
}

func (w *tmplWalk) function(name string, args []tmplVal) tmplVal {
	str := types.Typ[types.String]
	var srcs []interface{}
	for _, a := range args {
		srcs = append(srcs, a.src)
	}
	if fs := w.t.funcMap[name]; len(fs) > 0 {
		f := fs[0]
		var typ types.Type = str
		if f.Signature.Results().Len() > 0 {
			typ = f.Signature.Results().At(0).Type()
		}
		key := fmt.Sprintf("%s %v", name, srcs)
		if w.reg {
			w.t.argIdx[key] = srcs
			for _, f := range fs {
				if f.Blocks != nil {
					w.t.tmplArgs[f] = append(w.t.tmplArgs[f], srcs)
				}
			}
		}
		if len(fs) > 1 {
			return tmplVal{}
		}
		return tmplVal{src: srcFunc{f, name, key}, typ: typ}
	}
	switch name {
	case "printf":
		if len(args) > 0 && args[0].text != nil {
			segs, ok := formatSegs(*args[0].text, func(i int) (interface{}, bool) {
				if i+1 < len(args) && args[i+1].src != nil {
					return args[i+1].src, true
				}
				return nil, false
			})
			if ok {
				return tmplVal{segs: segs, typ: str}
			}
		}
	case "print":
		var segs []seg
		for _, a := range args {
			if a.text != nil {
				segs = append(segs, seg{text: *a.text})
			} else if a.src != nil {
				segs = append(segs, seg{val: a.src})
			} else {
				return tmplVal{}
			}
		}
		return tmplVal{segs: segs, typ: str}
	case "len", "not", "eq", "ne", "lt", "le", "gt", "ge":
		return tmplVal{src: ssa.NewConst(constant.MakeInt64(0), types.Typ[types.Int]), typ: types.Typ[types.Int]}
	case "index", "slice":
		if len(args) == 2 {
			return w.elem(args[0])
		}
	}
	return tmplVal{}
}

func (w *tmplWalk) hole(v tmplVal, l *lexer, text string) {
	if v.segs != nil {
		for _, s := range v.segs {
			if s.val == nil {
				if w.m == mCode {
					l.scan(s.text)
				}
				continue
			}
			w.add(w.t.piece(s, w.m, l), text)
		}
		return
	}
	if v.src == nil || v.typ == nil {
		w.add(unknown("not followed"), text)
		return
	}
	ms := types.NewMethodSet(v.typ)
	for _, name := range []string{"Error", "String"} {
		if sel := ms.Lookup(nil, name); sel != nil {
			if f := w.t.c.Prog.FuncValue(sel.Obj().(*types.Func)); f != nil && f.Blocks != nil {
				w.add(w.t.piece(seg{val: srcRet{f}}, w.m, l), text)
			} else {
				w.add(unknown("method %s", name), text)
			}
			return
		}
	}
	switch {
	case harmless(v.typ):
	case textual(v.typ):
		w.add(w.t.piece(seg{val: v.src}, w.m, l), text)
	case isContainer(v.typ):
		w.add(w.t.piece(seg{val: srcElem{v.src}}, w.m, l), text)
	default:
		if docPkg(fieldPkg(v.typ)) {
			w.add(bad("a value of type %s", shortField(types.TypeString(v.typ, nil))), text)
			return
		}
		w.add(unknown("a value of type %s", shortField(types.TypeString(v.typ, nil))), text)
	}
}

func (w *tmplWalk) add(v tverdict, text string) {
	if v.lv != tSafe {
		v.why = text + ": " + v.why
	}
	w.r = w.r.join(v)
}

// tmplCall: the result of a function that a template calls.
func (t *taint) tmplCall(s srcFunc, m tmode) (r tverdict) {
	if s.fn.Blocks != nil && strings.HasPrefix(fnPkgPath(s.fn), modPath) {
		for _, ret := range returnsOf(s.fn) {
			r = r.join(t.use(ret.Results[0], ret.Block(), nil, m))
		}
		return r
	}
	args := t.argIdx[s.args]
	one := func(i int, m tmode) tverdict {
		if i >= len(args) || args[i] == nil {
			return unknown("an argument of %s", s.name)
		}
		return t.ok(args[i], m)
	}
	switch s.fn.String() {
	case "strconv.Quote", "strconv.QuoteToASCII":
		if m == mIdent {
			return one(0, mIdent)
		}
		return tverdict{}
	case "strings.Title", "strings.ToUpper", "strings.ToLower":
		if m == mLine {
			return one(0, mLine)
		}
		return one(0, mIdent)
	case "strings.TrimSpace":
		return one(0, m)
	case "strings.Split":
		if m == mLine {
			if v, ok := args[1].(ssa.Value); ok {
				if sep, ok := constString(v); ok && sep == "\n" {
					return tverdict{}
				}
			}
		}
		return one(0, m)
	case "strings.Join":
		if len(args) == 2 {
			return t.ok(srcElem{args[0]}, m)
		}
	}
	if strings.HasPrefix(s.fn.String(), "strconv.") {
		return tverdict{}
	}
	for i := range args {
		r = r.join(one(i, mIdent))
	}
	return r
}

// checkC09 goes over the sinks.
func checkC09(c *Ctx) {
	t := newTaint(c)
	n := t.findTemplates()
	names := counter{}
	kinds := map[string]int{}
	sink := func(kind string, at ssa.Instruction, v tverdict) {
		kinds[kind]++
		f := at.Parent().RelString(nil)
		cons := names.name(shortField(f) + " " + kind)
		switch v.lv {
		case tBad:
			c.Bad("sink", cons, at.Pos(), "text of a document gets into the source as it is: %s", v.why)
		case tUnknown:
			c.undecided("sink", cons, at.Pos(), "%s", v.why)
		default:
			c.OK("sink", cons, at.Pos(), "only constants, identifiers, quoted text or single lines")
		}
	}
	code := func(kind string, at ssa.Instruction, v ssa.Value) {
		segs := t.concat(v)
		for i := range segs {
			if segs[i].block == nil {
				segs[i].block = at.Block()
			}
		}
		sink(kind, at, t.segments(segs, mCode))
	}
	fns := t.all()
	sort.SliceStable(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	for _, f := range fns {
		if !codePkg(fnPkgPath(f)) || f.Synthetic != "" && f.Name() != "init" {
			continue
		}
		if isExportedFn(f) && (f.Name() == "NameOf" || f.Name() == "LookupName") && fnPkgPath(f) == modPath+"/xsdgen" {
			for _, r := range returnsOf(f) {
				if len(r.Results) > 0 && textual(r.Results[0].Type()) {
					code("result", r, r.Results[0])
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					fa, ok := in.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					switch fieldID(fa.X.Type(), fa.Field) {
					case "go/ast.Ident.Name":
						code("identifier", in, in.Val)
					case "go/ast.BasicLit.Value":
						code("literal", in, in.Val)
					case "go/ast.Comment.Text":
						code("comment", in, in.Val)
					}
				case ssa.CallInstruction:
					com := in.Common()
					g := com.StaticCallee()
					if g == nil {
						continue
					}
					switch g.String() {
					case "go/ast.NewIdent":
						code("identifier", in, com.Args[0])
					case "go/parser.ParseExpr":
						code("parsed", in, com.Args[0])
					case "go/parser.ParseExprFrom", "go/parser.ParseFile":
						code("parsed", in, com.Args[2])
					case "go/format.Source":
						code("output", in, com.Args[0])
					case "golang.org/x/tools/imports.Process":
						code("output", in, com.Args[1])
					case "os.WriteFile", "io/ioutil.WriteFile":
						code("output", in, com.Args[1])
					}
				}
			}
		}
	}
	c.Note("sinks", kinds)
	c.Note("templates", n)
	c.Note("values_followed", t.steps)
	c.Explanation = "Taint analysis, backwards from the places where text becomes Go source (names of identifiers, literals and comments of the syntax tree, parsed texts, templates, the output) through variables, fields, containers, parameters and results."
	c.Assumptions = append(c.Assumptions,
		"The user's own options, flags and functions are trusted; go/printer prints a tree as the tree says.",
		"Fields are not told apart by object; what reaches a field of one object counts for all.")
	c.Min("sink", 12)
}
