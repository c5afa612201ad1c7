package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C11: the methods that generators write type-check.
//
// The texts of methods are put together by functions of package xsdgen with
// the function builder of package gen.  For each built-in type, constants
// (texts, formats, the built-in type) are propagated along every path of
// these functions, with unknown conditions taken both ways, to the places
// where a method is completed.  What stays unknown (the name of a type, the
// type of an item) becomes a placeholder.  What results is type-checked.

func init() {
	needSpec["C11"] = true
	checks["C11"] = checkC11
}

func checkC11(c *Ctx) {
	c.Explanation = "Constants (texts, formats and, one after the other, every built-in type) are propagated along the paths of the functions of xsdgen that put methods together, to the places where a method is completed; gaps are filled with placeholders; the methods are type-checked together with the types they belong to. The client and the functions of a service, which wsdlgen has as templates, are filled with placeholders in eight regimes and type-checked."
	c.Assumptions = []string{
		"generated source finds the packages of the standard library under their usual names (imports.Process)",
		"a name that is a parameter of a generator is a valid identifier (C09) other than those in the texts",
		"the values given to the templates of methods of complex types are those that C20 describes",
	}
	x := &c11{c: c, importer: importer.ForCompiler(token.NewFileSet(), "source", nil)}
	x.run()
	c.clientCode(false)
}

type c11 struct {
	c        *Ctx
	importer types.Importer
	consts   []builtinConst
	builtin  types.Type
	needs    *ssa.Function
	needsB   map[string]bool
	goType   map[string]string // constant → Go type
	byVal    map[string]builtinConst
	relevant map[*ssa.Function]bool
	helpers  map[string]c11Helper // constant → helper type
	helperFn string               // source of the helper functions and types
}

type c11Helper struct {
	name string
	val  cv
}

// values

type cv interface{}

type (
	cHole struct { // unknown
		id  string
		typ types.Type
	}
	cPart struct {
		lit  string
		hole string // not a constant
	}
	cText   []cPart
	cConst  struct{ v constant.Value }
	cB      struct{ k builtinConst } // a built-in type
	cName   struct{ k builtinConst } // its XML name
	cExpr   struct{ s string }       // a Go type
	cNil    struct{}
	cStruct struct{ f []cv }
	cSlice  struct{ e []cv }
	cMap    struct{ k, v []cv }
	cTuple  []cv
	cRange  struct {
		m *cMap
		i int
	}
	cDecl    struct{ d *c11Decl }
	cClosure struct {
		f *ssa.Function
		b []cv
	}
	cBuilder struct { // *gen.Function
		name, recv    cv
		args, returns []cv
		body          cv
		tmpl          string
	}
	cObj  struct{ v cv }
	cAddr struct {
		o    *cObj
		path []int
	}
)

type c11Decl struct {
	name, recv    cText
	args, returns []cText
	body          cText
	tmpl          string
	pos           token.Pos
}

type c11Path struct {
	decls    []*c11Decl
	array    bool // an array type is made
	isArray  bool // the type was found to be an array type
	looked   bool // whether there are methods already was looked at
	problem  string
	pos      token.Pos
	cut      bool
	regs     []c11Helper
	regKeys  []string
	decision []bool
}

type c11Run struct {
	name  string // the name of the type, if it is known
	x     *c11
	b     *builtinConst
	p     *c11Path
	next  int
	steps int
}

type c11Stop struct{}

func (r *c11Run) undecided(pos token.Pos, f string, args ...interface{}) {
	if r.p.problem == "" {
		r.p.problem = fmt.Sprintf(f, args...)
		r.p.pos = pos
	}
}

func lit(s string) cText { return cText{{lit: s}} }

func (t cText) konst() (string, bool) {
	var b strings.Builder
	for _, p := range t {
		if p.hole != "" {
			return "", false
		}
		b.WriteString(p.lit)
	}
	return b.String(), true
}

func (r *c11Run) text(v cv) cText {
	switch v := v.(type) {
	case cText:
		return v
	case cConst:
		if v.v.Kind() == constant.String {
			return lit(constant.StringVal(v.v))
		}
		return lit(v.v.ExactString())
	case cExpr:
		return lit(v.s)
	case cHole:
		return cText{{hole: v.id}}
	case cB:
		return lit(v.k.name)
	}
	return cText{{hole: fmt.Sprintf("%T", v)}}
}

func hole(typ types.Type, f string, args ...interface{}) cHole {
	id := fmt.Sprintf(f, args...)
	if len(id) > 300 {
		id = id[:140] + "…" + id[len(id)-140:]
	}
	return cHole{id, typ}
}

func cid(v cv) string {
	switch v := v.(type) {
	case cHole:
		return v.id
	case cText:
		var b strings.Builder
		for _, p := range v {
			b.WriteString(p.lit + p.hole)
		}
		return strconv.Quote(b.String())
	case cConst:
		return v.v.ExactString()
	case cB:
		return v.k.name
	case cName:
		return "name of " + v.k.name
	case cExpr:
		return v.s
	case cNil:
		return "nil"
	}
	return fmt.Sprintf("%T", v)
}

func copyVal(v cv) cv {
	if s, ok := v.(*cStruct); ok {
		n := &cStruct{make([]cv, len(s.f))}
		for i := range s.f {
			n.f[i] = copyVal(s.f[i])
		}
		return n
	}
	return v
}

func zeroVal(t types.Type) cv {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &cStruct{make([]cv, u.NumFields())}
		for i := range s.f {
			s.f[i] = zeroVal(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if u.Len() > 1000 {
			return hole(t, "array")
		}
		s := &cStruct{make([]cv, u.Len())}
		for i := range s.f {
			s.f[i] = zeroVal(u.Elem())
		}
		return s
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return lit("")
		case u.Info()&types.IsBoolean != 0:
			return cConst{constant.MakeBool(false)}
		case u.Info()&types.IsNumeric != 0:
			return cConst{constant.MakeInt64(0)}
		}
	case *types.Slice:
		return &cSlice{}
	}
	return cNil{}
}

// fields of an unknown structure
func expand(v cv, t types.Type) *cStruct {
	if s, ok := v.(*cStruct); ok {
		return s
	}
	h, _ := v.(cHole)
	if h.id == "" {
		h.id = cid(v)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &cStruct{make([]cv, u.NumFields())}
		for i := range s.f {
			s.f[i] = fieldOf(h, u, i)
		}
		return s
	case *types.Array:
		s := &cStruct{make([]cv, u.Len())}
		for i := range s.f {
			s.f[i] = hole(u.Elem(), "%s[%d]", h.id, i)
		}
		return s
	}
	return nil
}

func fieldOf(h cHole, u *types.Struct, i int) cv {
	if u.Field(i).Type().String() == "[]*go/ast.FuncDecl" {
		return hole(u.Field(i).Type(), methodsMark)
	}
	return hole(u.Field(i).Type(), "%s.%s", h.id, u.Field(i).Name())
}

// the methods that the description of a type has already
const methodsMark = "(methods so far)"

func (a *cAddr) load() cv {
	v := a.o.v
	for _, i := range a.path {
		s, ok := v.(*cStruct)
		if !ok || i >= len(s.f) {
			return cHole{id: cid(v) + "[]"}
		}
		v = s.f[i]
	}
	return copyVal(v)
}

func (a *cAddr) store(v cv) {
	v = copyVal(v)
	if len(a.path) == 0 {
		a.o.v = v
		return
	}
	p := a.o.v
	for _, i := range a.path[:len(a.path)-1] {
		s, ok := p.(*cStruct)
		if !ok || i >= len(s.f) {
			return
		}
		p = s.f[i]
	}
	if s, ok := p.(*cStruct); ok && a.path[len(a.path)-1] < len(s.f) {
		s.f[a.path[len(a.path)-1]] = v
	}
}

// ensure that what an address leads to is a structure
func (a *cAddr) structAt(t types.Type) {
	v := a.load()
	if _, ok := v.(*cStruct); ok {
		return
	}
	if s := expand(v, t); s != nil {
		a.store(s)
	}
}

// decide an unknown condition
func (r *c11Run) decide() bool {
	if r.next < len(r.p.decision) {
		r.next++
		return r.p.decision[r.next-1]
	}
	if len(r.p.decision) > 60 {
		r.p.cut = true
		panic(c11Stop{})
	}
	r.p.decision = append(r.p.decision, true)
	r.next++
	return true
}

// paths propagates constants along the paths of f.
func (x *c11) paths(f *ssa.Function, b *builtinConst) (out []*c11Path, problem string) {
	return x.pathsWith(f, b, "", nil)
}

// pathsWith does so for a type of the given name, and given arguments.
func (x *c11) pathsWith(f *ssa.Function, b *builtinConst, name string, given map[int]cv) (out []*c11Path, problem string) {
	var todo []bool
	for n := 0; ; n++ {
		if n > 6000 {
			return out, "too many paths"
		}
		r := &c11Run{x: x, b: b, name: name, p: &c11Path{decision: append([]bool{}, todo...)}}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(c11Stop); !ok {
						panic(e)
					}
				}
			}()
			args := make([]cv, len(f.Params))
			for i, p := range f.Params {
				args[i] = hole(p.Type(), "%s", p.Name())
				if v, ok := given[i]; ok {
					args[i] = v
				}
			}
			r.call(f, args, nil, 0)
		}()
		if !r.p.cut {
			out = append(out, r.p)
		}
		todo = r.p.decision
		for len(todo) > 0 && !todo[len(todo)-1] {
			todo = todo[:len(todo)-1]
		}
		if len(todo) == 0 {
			return out, ""
		}
		todo = append(append([]bool{}, todo[:len(todo)-1]...), false)
	}
}

type c11Frame struct {
	f     *ssa.Function
	env   map[ssa.Value]cv
	depth int
}

func (r *c11Run) call(f *ssa.Function, args, binds []cv, depth int) cv {
	fr := &c11Frame{f, map[ssa.Value]cv{}, depth}
	for i, p := range f.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, p := range f.FreeVars {
		if i < len(binds) {
			fr.env[p] = binds[i]
		}
	}
	blk := f.Blocks[0]
	var prev *ssa.BasicBlock
	visits := map[*ssa.BasicBlock]int{}
	for {
		var next *ssa.BasicBlock
		var phis []cv
		for _, in := range blk.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, p := range blk.Preds {
				if p == prev {
					phis = append(phis, r.val(fr, ph.Edges[i]))
					break
				}
			}
		}
		for i, in := range blk.Instrs {
			r.steps++
			if r.steps > 200000 {
				r.p.cut = true
				panic(c11Stop{})
			}
			switch in := in.(type) {
			case *ssa.Phi:
				if i < len(phis) {
					fr.env[in] = phis[i]
				}
			case *ssa.If:
				if h, ok := r.val(fr, in.Cond).(cHole); ok && strings.Contains(h.id, methodsMark) {
					r.p.looked = true
				}
				k, ok := r.val(fr, in.Cond).(cConst)
				yes := false
				if ok && k.v.Kind() == constant.Bool {
					yes = constant.BoolVal(k.v)
				} else {
					visits[blk]++
					if visits[blk] > 2 {
						r.p.cut = true
						panic(c11Stop{})
					}
					yes = r.decide()
				}
				next = blk.Succs[1]
				if yes {
					next = blk.Succs[0]
				}
			case *ssa.Jump:
				next = blk.Succs[0]
			case *ssa.Panic:
				r.p.cut = true
				panic(c11Stop{})
			case *ssa.Return:
				t := make(cTuple, len(in.Results))
				for i, v := range in.Results {
					t[i] = r.val(fr, v)
				}
				if len(t) == 1 {
					return t[0]
				}
				return t
			default:
				r.instr(fr, in)
			}
		}
		if next == nil {
			r.p.cut = true
			panic(c11Stop{})
		}
		prev, blk = blk, next
	}
}

func (r *c11Run) val(fr *c11Frame, v ssa.Value) cv {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if _, ok := v.Type().Underlying().(*types.Struct); ok {
				return zeroVal(v.Type())
			}
			if _, ok := v.Type().Underlying().(*types.Slice); ok {
				return &cSlice{}
			}
			return cNil{}
		}
		if r.x.builtin != nil && types.Identical(v.Type(), r.x.builtin) {
			if k, ok := r.x.byVal[v.Value.ExactString()]; ok {
				return cB{k}
			}
		}
		if v.Value.Kind() == constant.String {
			return lit(constant.StringVal(v.Value))
		}
		return cConst{v.Value}
	case *ssa.Function:
		return cClosure{f: v}
	case *ssa.Global:
		return hole(v.Type(), "%s", v.Name())
	}
	if x, ok := fr.env[v]; ok {
		if _, unknown := x.(cHole); unknown && r.b != nil && types.Identical(v.Type(), r.x.builtin) {
			return cB{*r.b} // the type that is looked at
		}
		return x
	}
	return hole(v.Type(), "%s.%s", fr.f.Name(), v.Name())
}

func kbool(b bool) cv { return cConst{constant.MakeBool(b)} }

func (r *c11Run) instr(fr *c11Frame, in ssa.Instruction) {
	set := func(v cv) { fr.env[in.(ssa.Value)] = v }
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		if typeKey(t) == "go/ast.ArrayType" {
			r.p.array = true
		}
		set(&cAddr{o: &cObj{zeroVal(t)}})
	case *ssa.FieldAddr:
		st := in.X.Type().Underlying().(*types.Pointer).Elem()
		switch a := r.val(fr, in.X).(type) {
		case *cAddr:
			a.structAt(st)
			set(&cAddr{a.o, append(append([]int{}, a.path...), in.Field)})
		case cExpr:
			set(&cAddr{o: &cObj{lit(a.s)}})
		default:
			u := st.Underlying().(*types.Struct)
			if typeKey(st) == "go/ast.BasicLit" && u.Field(in.Field).Name() == "Value" {
				set(&cAddr{o: &cObj{lit("`x:\"y\"`")}})
				return
			}
			// a place of its own, read for the first time
			set(&cAddr{o: &cObj{fieldOf(cHole{id: cid(a)}, u, in.Field)}})
		}
	case *ssa.Field:
		st := in.X.Type()
		v := r.val(fr, in.X)
		if s := expand(v, st); s != nil && in.Field < len(s.f) {
			set(s.f[in.Field])
		} else {
			set(hole(in.Type(), "%s.%d", cid(v), in.Field))
		}
	case *ssa.IndexAddr:
		i, known := r.val(fr, in.Index).(cConst)
		n := -1
		if known {
			k, _ := constant.Int64Val(i.v)
			n = int(k)
		}
		switch a := r.val(fr, in.X).(type) {
		case *cAddr:
			if n >= 0 {
				a.structAt(in.X.Type().Underlying().(*types.Pointer).Elem())
				set(&cAddr{a.o, append(append([]int{}, a.path...), n)})
				return
			}
		case *cSlice:
			if n >= 0 && n < len(a.e) {
				set(&cAddr{o: &cObj{a.e[n]}})
				return
			}
		}
		set(&cAddr{o: &cObj{hole(deref(in.Type()), "%s[%s]", cid(r.val(fr, in.X)), cid(r.val(fr, in.Index)))}})
	case *ssa.Index:
		set(hole(in.Type(), "%s[%s]", cid(r.val(fr, in.X)), cid(r.val(fr, in.Index))))
	case *ssa.Store:
		if a, ok := r.val(fr, in.Addr).(*cAddr); ok {
			a.store(r.val(fr, in.Val))
		}
	case *ssa.UnOp:
		v := r.val(fr, in.X)
		switch in.Op {
		case token.MUL:
			if a, ok := v.(*cAddr); ok {
				set(a.load())
				return
			}
			set(hole(in.Type(), "*%s", cid(v)))
		case token.NOT:
			if k, ok := v.(cConst); ok && k.v.Kind() == constant.Bool {
				set(kbool(!constant.BoolVal(k.v)))
				return
			}
			set(hole(in.Type(), "!%s", cid(v)))
		default:
			set(hole(in.Type(), "%s%s", in.Op, cid(v)))
		}
	case *ssa.BinOp:
		set(r.binop(in, r.val(fr, in.X), r.val(fr, in.Y)))
	case *ssa.MakeInterface:
		set(r.val(fr, in.X))
	case *ssa.ChangeInterface:
		set(r.val(fr, in.X))
	case *ssa.ChangeType:
		set(r.val(fr, in.X))
	case *ssa.Convert:
		v := r.val(fr, in.X)
		switch v.(type) {
		case cText, cConst:
			set(v)
		default:
			set(hole(in.Type(), "%s", cid(v)))
		}
	case *ssa.MakeClosure:
		cl := cClosure{f: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			cl.b = append(cl.b, r.val(fr, b))
		}
		set(cl)
	case *ssa.MakeMap:
		set(&cMap{})
	case *ssa.MakeSlice:
		if k, ok := r.val(fr, in.Len).(cConst); ok && k.v.ExactString() == "0" {
			set(&cSlice{})
			return
		}
		set(hole(in.Type(), "%s.%s", fr.f.Name(), in.Name()))
	case *ssa.MapUpdate:
		m, k, v := r.val(fr, in.Map), r.val(fr, in.Key), r.val(fr, in.Value)
		if s, ok := v.(*cStruct); ok {
			r.register(in, k, s, in.Value.Type())
		}
		if m, ok := m.(*cMap); ok {
			for i := range m.k {
				if cid(m.k[i]) == cid(k) {
					m.v[i] = v
					return
				}
			}
			m.k, m.v = append(m.k, k), append(m.v, v)
		}
	case *ssa.Lookup:
		set(r.lookup(fr, in))
	case *ssa.Range:
		if m, ok := r.val(fr, in.X).(*cMap); ok {
			set(&cRange{m: m})
			return
		}
		set(hole(in.Type(), "range %s", cid(r.val(fr, in.X))))
	case *ssa.Next:
		if it, ok := r.val(fr, in.Iter).(*cRange); ok {
			if it.i < len(it.m.k) {
				set(cTuple{kbool(true), it.m.k[it.i], it.m.v[it.i]})
				it.i++
			} else {
				set(cTuple{kbool(false), cNil{}, cNil{}})
			}
			return
		}
		t := in.Type().(*types.Tuple)
		id := cid(r.val(fr, in.Iter))
		set(cTuple{hole(t.At(0).Type(), "next %s", id), hole(t.At(1).Type(), "key of %s", id), hole(t.At(2).Type(), "value of %s", id)})
	case *ssa.Extract:
		switch v := r.val(fr, in.Tuple).(type) {
		case cTuple:
			if in.Index < len(v) {
				set(v[in.Index])
				return
			}
		}
		set(hole(in.Type(), "%s#%d", cid(r.val(fr, in.Tuple)), in.Index))
	case *ssa.TypeAssert:
		set(r.assert(fr, in))
	case *ssa.Slice:
		v := r.val(fr, in.X)
		if in.Low == nil && in.High == nil {
			if a, ok := v.(*cAddr); ok {
				if s, ok := a.load().(*cStruct); ok {
					set(&cSlice{s.f})
					return
				}
			}
			if s, ok := v.(*cSlice); ok {
				set(s)
				return
			}
		}
		set(hole(in.Type(), "%s[:]", cid(v)))
	case *ssa.Call:
		set(r.callInstr(fr, in))
	}
}

func (r *c11Run) binop(in *ssa.BinOp, x, y cv) cv {
	unknown := hole(in.Type(), "(%s%s%s)", cid(x), in.Op, cid(y))
	if in.Op == token.ADD {
		if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return append(append(cText{}, r.text(x)...), r.text(y)...)
		}
	}
	var a, b constant.Value
	switch x := x.(type) {
	case cConst:
		a = x.v
	case cB:
		a = x.k.val
	case cText:
		if s, ok := x.konst(); ok {
			a = constant.MakeString(s)
		}
	}
	switch y := y.(type) {
	case cConst:
		b = y.v
	case cB:
		b = y.k.val
	case cText:
		if s, ok := y.konst(); ok {
			b = constant.MakeString(s)
		}
	}
	if a != nil && b != nil {
		if a.Kind() != b.Kind() {
			return unknown
		}
		switch in.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a.Kind() == constant.Bool && in.Op != token.EQL && in.Op != token.NEQ {
				return unknown
			}
			return kbool(constant.Compare(a, in.Op, b))
		case token.ADD, token.SUB, token.MUL:
			return cConst{constant.BinaryOp(a, in.Op, b)}
		}
		return unknown
	}
	isNil := func(v cv) (yes, known bool) {
		switch v := v.(type) {
		case cNil:
			return true, true
		case cHole:
			return false, false
		case *cSlice:
			return len(v.e) == 0, true
		}
		return false, true
	}
	if in.Op == token.EQL || in.Op == token.NEQ {
		n1, k1 := isNil(x)
		n2, k2 := isNil(y)
		if k1 && k2 && (n1 || n2) {
			return kbool((n1 == n2) == (in.Op == token.EQL))
		}
		if nx, ok := x.(cName); ok {
			if ny, ok := y.(cName); ok {
				return kbool((nx.k.name == ny.k.name) == (in.Op == token.EQL))
			}
		}
	}
	return unknown
}

func (r *c11Run) builtinKey(k cv) *builtinConst {
	switch k := k.(type) {
	case cB:
		return &k.k
	case cName:
		return &k.k
	}
	return nil
}

// specName: the field of a description of a type that holds its name
func specParts(t types.Type) (name, methods int) {
	name, methods = -1, -1
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch f.Type().String() {
		case "string":
			if f.Name() == "name" {
				name = i
			}
		case "[]*go/ast.FuncDecl":
			methods = i
		}
	}
	return
}

// register notes a helper type.
func (r *c11Run) register(in *ssa.MapUpdate, k cv, s *cStruct, t types.Type) {
	n, m := specParts(t)
	if n < 0 || m < 0 {
		return
	}
	b := r.builtinKey(k)
	if b == nil {
		r.undecided(in.Pos(), "a helper type for something that is not a known built-in type")
		return
	}
	name, ok := r.text(s.f[n]).konst()
	if !ok {
		r.undecided(in.Pos(), "the name of the helper type of %s is not known", b.name)
		return
	}
	r.p.regs = append(r.p.regs, c11Helper{name, copyVal(s)})
	r.p.regKeys = append(r.p.regKeys, b.name)
}

func (r *c11Run) lookup(fr *c11Frame, in *ssa.Lookup) cv {
	m, k := r.val(fr, in.X), r.val(fr, in.Index)
	two := func(v cv, ok bool) cv {
		if in.CommaOk {
			return cTuple{v, kbool(ok)}
		}
		return v
	}
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok {
		return hole(in.Type(), "%s[%s]", cid(m), cid(k))
	}
	if mm, ok := m.(*cMap); ok {
		known := true
		for i := range mm.k {
			if cid(mm.k[i]) == cid(k) {
				return two(mm.v[i], true)
			}
			if _, ok := mm.k[i].(cHole); ok {
				known = false
			}
		}
		if _, ok := k.(cHole); !ok && known {
			return two(zeroVal(mt.Elem()), false)
		}
	}
	if n, ms := specParts(mt.Elem()); n >= 0 && ms >= 0 && r.x.helpers != nil && r.b != nil {
		b := r.builtinKey(k)
		if b == nil {
			b = r.b // the type that is looked at
		}
		if h, ok := r.x.helpers[b.name]; ok {
			return two(copyVal(h.val), true)
		}
		return two(zeroVal(mt.Elem()), false)
	}
	id := fmt.Sprintf("%s[%s]", cid(m), cid(k))
	if in.CommaOk {
		return cTuple{hole(mt.Elem(), "%s", id), hole(types.Typ[types.Bool], "%s?", id)}
	}
	return hole(mt.Elem(), "%s", id)
}

func (r *c11Run) assert(fr *c11Frame, in *ssa.TypeAssert) cv {
	v := r.val(fr, in.X)
	two := func(v cv, ok cv) cv {
		if in.CommaOk {
			return cTuple{v, ok}
		}
		return v
	}
	isB := r.x.builtin != nil && types.Identical(in.AssertedType, r.x.builtin)
	switch v := v.(type) {
	case cB:
		if _, ok := in.AssertedType.Underlying().(*types.Interface); !ok && !isB {
			return two(zeroVal(in.AssertedType), kbool(false))
		}
		return two(v, kbool(true))
	case cExpr:
		if in.AssertedType.String() == "*go/ast.Ident" {
			return two(v, kbool(!strings.HasPrefix(v.s, "[]") && !strings.HasPrefix(v.s, "*")))
		}
		return two(hole(in.AssertedType, "%s", v.s), kbool(strings.HasPrefix(v.s, "[]") && in.AssertedType.String() == "*go/ast.ArrayType"))
	case *cAddr, cDecl, *cSlice, cText:
		if !in.CommaOk {
			return v
		}
	}
	if isB && r.b != nil {
		if !in.CommaOk {
			return cB{*r.b}
		}
		return cTuple{cB{*r.b}, hole(types.Typ[types.Bool], "%s is built-in", cid(v))}
	}
	h := hole(in.AssertedType, "%s.(%s)", cid(v), in.AssertedType)
	if typeKey(deref(in.AssertedType)) == "go/ast.ArrayType" {
		r.p.isArray = true
	}
	return two(h, hole(types.Typ[types.Bool], "%s?", h.id))
}

func isBuilder(t types.Type) bool { return t.String() == "*"+genPkg+".Function" }

func (r *c11Run) list(v cv, pos token.Pos) []cv {
	switch v := v.(type) {
	case *cSlice:
		return v.e
	case cNil:
		return nil
	}
	r.undecided(pos, "a list that is not written out")
	return nil
}

func (r *c11Run) callInstr(fr *c11Frame, in *ssa.Call) cv {
	com := in.Common()
	var args []cv
	for _, a := range com.Args {
		args = append(args, r.val(fr, a))
	}
	ids := make([]string, len(args))
	for i := range args {
		ids[i] = cid(args[i])
	}
	unknown := func() cv {
		id := fmt.Sprintf("%s(%s)", com.Value.Name(), strings.Join(ids, ","))
		if t, ok := in.Type().(*types.Tuple); ok {
			out := make(cTuple, t.Len())
			for i := range out {
				out[i] = hole(t.At(i).Type(), "%s#%d", id, i)
			}
			return out
		}
		return hole(in.Type(), "%s", id)
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			switch v := args[0].(type) {
			case *cSlice:
				return cConst{constant.MakeInt64(int64(len(v.e)))}
			case cText:
				if s, ok := v.konst(); ok {
					return cConst{constant.MakeInt64(int64(len(s)))}
				}
			}
		case "append":
			x, ok1 := args[0].(*cSlice)
			y, ok2 := args[1].(*cSlice)
			if ok1 && ok2 {
				return &cSlice{append(append([]cv{}, x.e...), y.e...)}
			}
		}
		return unknown()
	}
	if com.IsInvoke() {
		if b, ok := r.val(fr, com.Value).(cB); ok && com.Method.Name() == "Name" {
			return cName{b.k}
		}
		return unknown()
	}
	g := com.StaticCallee()
	var binds []cv
	if cl, ok := r.val(fr, com.Value).(cClosure); ok && (g == nil || cl.f == g) {
		g, binds = cl.f, cl.b
	}
	if g == nil {
		return unknown()
	}
	pkg := fnPkg(g)
	if pkg == nil {
		return unknown()
	}
	if pkg.Path() == genPkg {
		return r.builder(g, args, in, unknown)
	}
	switch {
	case pkg.Path() == "fmt" && g.Name() == "Sprintf":
		return r.sprintf(args[0], args[1], in.Pos())
	case pkg.Path() == "strconv" && g.Name() == "Quote":
		return r.quoted(args[0])
	case pkg.Path() == "strings" && (g.Name() == "TrimSpace"):
		if s, ok := r.text(args[0]).konst(); ok {
			return lit(strings.TrimSpace(s))
		}
		return args[0]
	case pkg.Path() == "strings" && (g.Name() == "TrimPrefix" || g.Name() == "HasPrefix" || g.Name() == "TrimSuffix"):
		a, ok1 := r.text(args[0]).konst()
		b, ok2 := r.text(args[1]).konst()
		if ok1 && ok2 {
			switch g.Name() {
			case "TrimPrefix":
				return lit(strings.TrimPrefix(a, b))
			case "TrimSuffix":
				return lit(strings.TrimSuffix(a, b))
			}
			return kbool(strings.HasPrefix(a, b))
		}
		return unknown()
	case pkg.Path() == "strings" && g.Name() == "Join":
		sep, known := r.text(args[1]).konst()
		if s, ok := args[0].(*cSlice); ok && known {
			var out cText
			for i, e := range s.e {
				if i > 0 {
					out = append(out, cPart{lit: sep})
				}
				out = append(out, r.text(e)...)
			}
			return out
		}
		return unknown()
	}
	if sg := g.Signature; r.name != "" && sg.Params().Len() == 1 && typeKey(sg.Params().At(0).Type()) == "encoding/xml.Name" && resultIs(g, "string") {
		return lit(r.name)
	}
	// what is known about built-in types
	if len(args) == 1 {
		if b, ok := args[0].(cB); ok {
			switch {
			case g.Name() == "String":
				return lit(b.k.name)
			case resultIs(g, "go/ast.Expr") && r.x.goType[b.k.name] != "":
				return cExpr{r.x.goType[b.k.name]}
			case g.Signature.Results().Len() == 1 && typeKey(g.Signature.Results().At(0).Type()) == "encoding/xml.Name":
				return cName{b.k}
			}
		}
		if g == r.x.needs {
			b := r.b
			if k, ok := args[0].(cB); ok {
				b = &k.k
			}
			if b != nil {
				return kbool(r.x.needsB[b.name])
			}
		}
	}
	if pkg.Path() != modPath+"/xsdgen" || g.Blocks == nil || fr.depth > 6 || g.Signature.Results().Len() == 0 && !r.x.relevant[g] {
		return unknown()
	}
	inline := r.x.relevant[g]
	if !inline {
		known := false
		for _, a := range args {
			switch a.(type) {
			case cB, cText, cExpr, *cSlice:
				known = true
			}
		}
		inline = known && !r.x.c.callsItself(g)
	}
	if !inline {
		return unknown()
	}
	return r.call(g, args, binds, fr.depth+1)
}

// builder gives the meaning of the function builder of package gen.
func (r *c11Run) builder(g *ssa.Function, args []cv, in *ssa.Call, unknown func() cv) cv {
	if g.Signature.Recv() == nil {
		if g.Name() == "Func" && len(args) == 1 {
			return &cBuilder{name: args[0], recv: lit("")}
		}
		return unknown()
	}
	b, ok := args[0].(*cBuilder)
	if !ok {
		if isBuilder(g.Signature.Recv().Type()) && (g.Name() == "Decl" || g.Name() == "MustDecl") {
			r.undecided(in.Pos(), "a function that is put together in a way that is not followed")
		}
		return unknown()
	}
	switch g.Name() {
	case "Name":
		return b.name
	case "Args":
		b.args = r.list(args[1], in.Pos())
	case "Returns":
		b.returns = r.list(args[1], in.Pos())
	case "Receiver":
		b.recv = args[1]
	case "Comment":
	case "Body":
		b.body, b.tmpl = r.sprintf(args[1], args[2], in.Pos()), ""
	case "BodyTmpl":
		s, ok := r.text(args[1]).konst()
		if !ok {
			r.undecided(in.Pos(), "a template that is not a constant")
		}
		b.tmpl, b.body = s, lit("")
		if mi, ok := in.Call.Args[2].(*ssa.MakeInterface); ok && r.name != "" {
			data, ok := tmplData(args[2], mi.X.Type())
			if !ok {
				r.undecided(in.Pos(), "what a template is given is not known")
				return b
			}
			text, err := fill(s, data)
			if err != nil {
				r.undecided(in.Pos(), "%v", err)
				return b
			}
			b.tmpl, b.body = "", lit(text)
		}
	case "Decl", "MustDecl":
		var out cv = cNil{}
		if b.body != nil {
			d := &c11Decl{name: r.text(b.name), recv: r.text(b.recv), body: r.text(b.body), tmpl: b.tmpl, pos: in.Pos()}
			for _, a := range b.args {
				d.args = append(d.args, r.text(a))
			}
			for _, a := range b.returns {
				d.returns = append(d.returns, r.text(a))
			}
			r.p.decls = append(r.p.decls, d)
			out = cDecl{d}
		} else {
			r.p.cut = true // an error
			panic(c11Stop{})
		}
		if g.Name() == "Decl" {
			return cTuple{out, cNil{}}
		}
		return out
	default:
		r.undecided(in.Pos(), "a method of the function builder that is not known: %s", g.Name())
		return unknown()
	}
	return b
}

// tmplData is what is given to a template.
func tmplData(v cv, t types.Type) (interface{}, bool) {
	switch v := v.(type) {
	case *cAddr:
		return tmplData(v.load(), deref(t))
	case *cStruct:
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil, false
		}
		m := map[string]interface{}{}
		for i := 0; i < st.NumFields(); i++ {
			x, ok := tmplData(v.f[i], st.Field(i).Type())
			if !ok {
				continue // an error if it is used
			}
			m[st.Field(i).Name()] = x
		}
		return m, true
	case *cSlice:
		sl, ok := t.Underlying().(*types.Slice)
		if !ok {
			return nil, false
		}
		var out []interface{}
		for _, e := range v.e {
			x, ok := tmplData(e, sl.Elem())
			if !ok {
				return nil, false
			}
			out = append(out, x)
		}
		return out, true
	case *cMap:
		mt, ok := t.Underlying().(*types.Map)
		if !ok {
			return nil, false
		}
		m := map[string]interface{}{}
		for i := range v.k {
			kt, ok := v.k[i].(cText)
			if !ok {
				return nil, false
			}
			k, ok := kt.konst()
			if !ok {
				return nil, false
			}
			x, ok := tmplData(v.v[i], mt.Elem())
			if !ok {
				return nil, false
			}
			m[k] = x
		}
		return m, true
	case cText:
		s, ok := v.konst()
		return s, ok
	case cExpr:
		return v.s, true
	case cConst:
		if v.v.Kind() == constant.Bool {
			return constant.BoolVal(v.v), true
		}
		if n, ok := constant.Int64Val(v.v); ok && v.v.Kind() == constant.Int {
			return int(n), true
		}
	}
	return nil, false
}

func (r *c11Run) quoted(v cv) cText {
	if s, ok := r.text(v).konst(); ok {
		return lit(strconv.Quote(s))
	}
	return lit(`"x"`)
}

func (r *c11Run) sprintf(format, list cv, pos token.Pos) cv {
	f, ok := r.text(format).konst()
	if !ok {
		r.undecided(pos, "a format that is not a constant")
		return hole(types.Typ[types.String], "a format")
	}
	args := r.list(list, pos)
	var out cText
	n := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = append(out, cPart{lit: f[i:]})
			break
		}
		out = append(out, cPart{lit: f[i : i+j]})
		i += j + 1
		if i < len(f) && f[i] == '[' {
			k := strings.IndexByte(f[i:], ']')
			if k < 0 {
				r.undecided(pos, "a format that is not understood")
				return out
			}
			x, err := strconv.Atoi(f[i+1 : i+k])
			if err != nil {
				r.undecided(pos, "a format that is not understood")
				return out
			}
			n = x - 1
			i += k + 1
		}
		if i >= len(f) {
			out = append(out, cPart{lit: "%!(NOVERB)"})
			break
		}
		verb := f[i]
		i++
		if verb == '%' {
			out = append(out, cPart{lit: "%"})
			continue
		}
		if n < 0 || n >= len(args) {
			out = append(out, cPart{lit: "%!" + string(verb) + "(MISSING)"})
			continue
		}
		a := args[n]
		n++
		switch verb {
		case 's', 'v', 'd':
			out = append(out, r.text(a)...)
		case 'q':
			out = append(out, r.quoted(a)...)
		default:
			r.undecided(pos, "a format that is not understood: %%%c", verb)
			return out
		}
	}
	if n < len(args) && !strings.Contains(f, "%[") {
		out = append(out, cPart{lit: "%!(EXTRA)"})
	}
	return out
}

// render writes the code of methods, with the gaps filled.
func (d *c11Decl) render(gap map[string]string, tmplBody string) string {
	fill := func(t cText) string {
		var b strings.Builder
		for _, p := range t {
			b.WriteString(p.lit)
			if p.hole != "" {
				if s, ok := gap[p.hole]; ok {
					b.WriteString(s)
				} else {
					b.WriteString("Item")
				}
			}
		}
		return b.String()
	}
	fills := func(ts []cText) string {
		var ss []string
		for _, t := range ts {
			ss = append(ss, fill(t))
		}
		return strings.Join(ss, ", ")
	}
	recv := ""
	if s := fill(d.recv); s != "" {
		recv = "(" + s + ") "
	}
	body := fill(d.body)
	if d.tmpl != "" {
		body = tmplBody
	}
	return fmt.Sprintf("func %s%s(%s) (%s) {\n%s\n}\n", recv, fill(d.name), fills(d.args), fills(d.returns), body)
}

// receiver is the gap in the receiver, if there is one
func (d *c11Decl) receiver() string {
	for _, p := range d.recv {
		if p.hole != "" {
			return p.hole
		}
	}
	return ""
}

func (x *c11) run() {
	c := x.c
	x.consts, x.builtin = c.builtinConsts()
	if x.builtin == nil || len(x.consts) == 0 {
		c.Bad("anchor", "xsd.Builtin", token.NoPos, "the built-in types were not found")
		return
	}
	x.byVal = map[string]builtinConst{}
	for _, k := range x.consts {
		x.byVal[k.val.ExactString()] = k
	}
	x.foldTypes()
	// the functions that put methods together
	direct := map[*ssa.Function]bool{}
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range c.Funcs {
		if p := fnPkg(f); p == nil || p.Path() != modPath+"/xsdgen" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := call.Common().StaticCallee()
				if g == nil {
					continue
				}
				if callers[g] == nil {
					callers[g] = map[*ssa.Function]bool{}
				}
				callers[g][f] = true
				if p := fnPkg(g); p != nil && p.Path() == genPkg {
					if rv := g.Signature.Recv(); rv != nil && isBuilder(rv.Type()) || g.Name() == "Func" {
						direct[f] = true
					}
				}
			}
		}
	}
	x.relevant = map[*ssa.Function]bool{}
	var climb func(f *ssa.Function)
	climb = func(f *ssa.Function) {
		if x.relevant[f] {
			return
		}
		x.relevant[f] = true
		for g := range callers[f] {
			climb(g)
		}
		if p := f.Parent(); p != nil {
			climb(p)
		}
	}
	for f := range direct {
		climb(f)
	}
	roots := map[*ssa.Function]bool{}
	seen := map[*ssa.Function]bool{}
	var root func(f *ssa.Function)
	root = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		part := f.Parent() != nil || f.Signature.Results().Len() == 1 && isBuilder(f.Signature.Results().At(0).Type())
		self := false
		for i := 0; i < f.Signature.Params().Len(); i++ {
			t := f.Signature.Params().At(i).Type()
			n, m := specParts(t)
			self = self || n >= 0 && m >= 0 || t.String() == "*"+modPath+"/xsd.SimpleType" || t.String() == "*"+modPath+"/xsd.ComplexType"
			if t.String() == "string" || t.String() == "[]string" || isBuilder(t) || types.Identical(t, x.builtin) {
				part = true
			}
		}
		if f.Signature.Params().Len() > 0 && !self {
			part = true
		}
		up := callers[f]
		if f.Parent() != nil {
			up = map[*ssa.Function]bool{f.Parent(): true}
		}
		if part && len(up) > 0 {
			for g := range up {
				root(g)
			}
			return
		}
		roots[f] = true
	}
	for f := range direct {
		root(f)
	}
	var list []*ssa.Function
	for f := range roots {
		list = append(list, f)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].String() < list[j].String() })
	if len(list) == 0 {
		c.undecided("type-check", "xsdgen", token.NoPos, "no function puts methods together")
		return
	}
	x.helperTypes(list)
	for _, f := range list {
		x.methods(f)
	}
}

// foldTypes: the Go type of each built-in type, and whether it needs methods.
func (x *c11) foldTypes() {
	c := x.c
	x.goType, x.needsB = map[string]string{}, map[string]bool{}
	e := newGVF(c)
	c.normPrims(e)
	exprs := c.funcsWhere("xsdgen", func(f *ssa.Function) bool {
		s := f.Signature
		return s.Recv() == nil && s.Params().Len() == 1 && types.Identical(s.Params().At(0).Type(), x.builtin) && resultIs(f, "go/ast.Expr")
	})
	x.needs = c.methodsNeeded()
	for _, k := range x.consts {
		if len(exprs) == 1 {
			if n, err := e.norm(exprs[0], []gval{e.leaf(e.konst(k.val, x.builtin))}); err == nil {
				if s, why := e.goExpr(tupleOf(n.vals)[0], n.st, 0); why == "" {
					x.goType[k.name] = s
				}
			}
		}
		if x.goType[k.name] == "" {
			c.undecided("Go type", k.name, k.pos, "the Go type of %s was not found", k.name)
		}
		if x.needs != nil {
			if m, err := e.norm(x.needs, []gval{e.box(x.builtin, e.leaf(e.konst(k.val, x.builtin)))}); err == nil {
				x.needsB[k.name] = asDD(tupleOf(m.vals)[0]) == e.T
			}
		}
	}
}

// helperTypes: the functions without inputs make the types that others use.
func (x *c11) helperTypes(list []*ssa.Function) {
	c := x.c
	x.helpers = map[string]c11Helper{}
	var src strings.Builder
	n := 0
	for _, f := range list {
		if f.Signature.Params().Len() > 0 {
			continue
		}
		x.helpers, n = nil, n+1
		ps, problem := x.paths(f, nil)
		x.helpers = map[string]c11Helper{}
		if problem != "" {
			c.undecided("type-check", fname(f), f.Pos(), "%s", problem)
			continue
		}
		if len(ps) == 0 {
			c.undecided("type-check", fname(f), f.Pos(), "no path was followed to its end")
			continue
		}
		p := ps[0]
		if p.problem != "" {
			c.undecided("type-check", fname(f), p.pos, "%s", p.problem)
			continue
		}
		for i, h := range p.regs {
			k := p.regKeys[i]
			x.helpers[k] = h
			t := x.goType[k]
			if t == "" {
				continue
			}
			fmt.Fprintf(&src, "type %s %s\n", h.name, t)
		}
		for _, d := range p.decls {
			src.WriteString(d.render(nil, ""))
		}
		x.helperFn = src.String()
		if err := x.check(x.helperFn); err != nil {
			c.Bad("type-check", "helper types", f.Pos(), "the methods of the helper types and the helper functions are not valid Go: %v", err)
			x.helperFn = ""
			continue
		}
		for _, k := range p.regKeys {
			c.OK("type-check", "helper type of "+k, f.Pos(), "its methods type-check")
		}
		c.Note("helper types", p.regKeys)
	}
	if n == 0 {
		c.undecided("type-check", "helper types", token.NoPos, "no function makes the helper types")
	}
}

type c11Override struct {
	name    string
	b       string
	plural  bool
	deflt   string
	elem    bool
	trivial bool
}

// methods checks the methods that f puts together.
func (x *c11) methods(f *ssa.Function) {
	c := x.c
	if f.Signature.Params().Len() == 0 {
		return
	}
	for i, p := range f.Params {
		if sl, ok := p.Type().Underlying().(*types.Slice); ok {
			if st, ok := sl.Elem().Underlying().(*types.Struct); ok && fieldsNamed(st, "FieldName", "FromType", "ToType", "DefaultValue", "Type", "Tag", "Plural") {
				x.complexMethods(f, i, st)
				return
			}
		}
	}
	done := map[string]bool{}
	overwritten := map[*ssa.Function]bool{}
	ok, total := 0, 0
	for i := range x.consts {
		b := &x.consts[i]
		ps, problem := x.paths(f, b)
		if problem != "" {
			c.undecided("type-check", fname(f), f.Pos(), "%s: %s", b.name, problem)
			return
		}
		bad := ""
		var at token.Pos
		found, tmpl := 0, false
		for _, p := range ps {
			if p.problem != "" {
				c.undecided("type-check", fname(f)+" "+b.name, p.pos, "%s", p.problem)
				found = -1
				break
			}
			if len(p.decls) == 0 {
				continue
			}
			key := ""
			for _, d := range p.decls {
				tmpl = tmpl || d.tmpl != ""
				key += d.render(nil, d.tmpl)
			}
			if tmpl {
				// does not depend on the built-in type
				if done[key] {
					found++
					continue
				}
				done[key] = true
			}
			under := x.goType[b.name]
			switch {
			case p.array:
				under = "[]" + under
			case p.isArray:
				under = "[]Item"
			}
			if p.isArray && !p.looked && !overwritten[f] {
				overwritten[f] = true
				if x.callerLooks(f) {
					c.undecided("methods", fname(f), p.decls[0].pos, "what calls it looks at the methods there are")
					continue
				}
				c.Bad("methods", fname(f), p.decls[0].pos, "%s gives a type methods without looking whether it has some: a struct with methods of its own would have two of a name", fname(f))
			}
			for _, v := range x.variants(p, under) {
				if done[v] {
					found++
					continue
				}
				total++
				if err := x.check(v); err != nil {
					bad, at = err.Error(), p.decls[0].pos
					break
				}
				done[v] = true
				found++
			}
			if bad != "" {
				break
			}
		}
		name := fname(f) + " " + b.name
		switch {
		case bad != "":
			c.Bad("type-check", name, at, "the methods that %s writes for %s are not valid Go: %s", fname(f), b.name, bad)
		case found > 0:
			ok++
			c.OK("type-check", name, f.Pos(), "%d sets of methods type-check", found)
		}
	}
	if ok == 0 && total == 0 {
		c.undecided("type-check", fname(f), f.Pos(), "no method was found")
	}
	c.Note(fname(f), fmt.Sprintf("%d built-in types, %d different sets of methods", ok, len(done)))
}

// callerLooks: a caller of f looks at how many methods there are.
func (x *c11) callerLooks(f *ssa.Function) bool {
	for _, call := range x.c.callersOf(f) {
		for _, b := range call.Parent().Blocks {
			for _, in := range b.Instrs {
				if l, ok := in.(*ssa.Call); ok {
					if bi, ok := l.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && l.Call.Args[0].Type().String() == "[]*go/ast.FuncDecl" {
						return true
					}
				}
			}
		}
	}
	return false
}

// callersOf: the static calls of f.
func (c *Ctx) callersOf(f *ssa.Function) (out []ssa.CallInstruction) {
	for _, g := range c.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok && call.Common().StaticCallee() == f {
					out = append(out, call)
				}
			}
		}
	}
	return
}

// variants: the source of the methods of a path, for each regime that a
// template has.
func (x *c11) variants(p *c11Path, under string) (out []string) {
	recv := ""
	tmpl := false
	for _, d := range p.decls {
		if h := d.receiver(); h != "" {
			recv = h
		}
		tmpl = tmpl || d.tmpl != ""
	}
	gap := map[string]string{}
	if recv != "" {
		gap[recv] = "T0"
	}
	if !tmpl {
		var b strings.Builder
		fmt.Fprintf(&b, "type T0 %s\ntype Item struct{ X string }\n", under)
		for _, d := range p.decls {
			b.WriteString(d.render(gap, ""))
		}
		return []string{b.String()}
	}
	x.c.undecided("type-check", "templates", p.decls[0].pos, "a template whose data is not known")
	return nil
}

func fieldsNamed(st *types.Struct, names ...string) bool {
	for _, n := range names {
		ok := false
		for i := 0; i < st.NumFields(); i++ {
			ok = ok || st.Field(i).Name() == n
		}
		if !ok {
			return false
		}
	}
	return true
}

// complexMethods checks the methods of complex types: the function is
// evaluated for each regime.
func (x *c11) complexMethods(f *ssa.Function, param int, st *types.Struct) {
	c := x.c
	sets := map[string]bool{}
	ok := 0
	for _, name := range []string{"T0", "T"} {
		for _, r := range x.overrideRegimes() {
			var list []cv
			for i, o := range r {
				v := zeroVal(st).(*cStruct)
				go1, to := x.overrideTypes(o)
				for j := range v.f {
					switch st.Field(j).Name() {
					case "FieldName":
						v.f[j] = lit(o.field(i))
					case "FromType":
						v.f[j] = lit(go1)
					case "ToType":
						v.f[j] = lit(to)
					case "DefaultValue":
						v.f[j] = lit(o.deflt)
					case "Type":
						v.f[j] = hole(st.Field(j).Type(), "a type")
						for _, k := range x.consts {
							if k.name == o.b {
								v.f[j] = cB{k}
							}
						}
					case "Tag":
						v.f[j] = lit(fmt.Sprintf("xml:\"f%d\"", i))
					case "Plural":
						v.f[j] = kbool(o.plural && !o.trivial)
					}
				}
				list = append(list, v)
			}
			ps, problem := x.pathsWith(f, nil, name, map[int]cv{param: &cSlice{list}})
			if problem == "" {
				for _, p := range ps {
					if p.problem != "" {
						problem = p.problem
					}
				}
			}
			if problem != "" {
				c.undecided("type-check", fname(f), f.Pos(), "%s", problem)
				return
			}
			for _, p := range ps {
				if len(p.decls) == 0 {
					continue
				}
				var b strings.Builder
				fmt.Fprintf(&b, "type Item struct{ X string }\n")
				if name != "T" {
					fmt.Fprintf(&b, "type T string\n")
				}
				fmt.Fprintf(&b, "type %s struct {\n", name)
				for i, o := range r {
					t, _ := x.overrideTypes(o)
					if o.plural {
						t = "[]" + t
					}
					fmt.Fprintf(&b, "%s %s `xml:\"f%d\"`\n", o.field(i), t, i)
				}
				b.WriteString("}\n")
				for _, d := range p.decls {
					b.WriteString(d.render(nil, ""))
				}
				if sets[b.String()] {
					continue
				}
				sets[b.String()] = true
				if name == "T" && strings.Contains(fmt.Sprint(r), "userT") {
					continue // there is no such type beside it
				}
				if err := x.check(b.String()); err != nil {
					c.Bad("type-check", fname(f), p.decls[0].pos, "the methods that %s writes for a type named %s with the fields %s are not valid Go: %v", fname(f), name, describe(r), err)
					return
				}
			}
			ok++
		}
	}
	if len(sets) == 0 {
		c.undecided("type-check", fname(f), f.Pos(), "no method was found")
		return
	}
	c.OK("type-check", fname(f), f.Pos(), "the methods for %d kinds of fields type-check (%d different sets)", ok, len(sets))
	c.Note(fname(f), fmt.Sprintf("%d regimes, %d different sets of methods", ok, len(sets)))
}

func describe(r []c11Override) string {
	var ss []string
	for i, o := range r {
		s := o.field(i) + " " + o.b
		if o.plural {
			s += " (repeated)"
		}
		if o.deflt != "" {
			s += " (default)"
		}
		ss = append(ss, s)
	}
	return cutMid(strings.Join(ss, ", "), 200)
}

func (o c11Override) field(i int) string {
	if o.name != "" {
		return o.name
	}
	return fmt.Sprintf("F%d", i)
}

// overrideTypes: the type of a field (of its items), and the type that it is
// read and written as.
func (x *c11) overrideTypes(o c11Override) (from, to string) {
	if o.b == "userT" {
		return "T", "T"
	}
	from = x.goType[o.b]
	to = from
	if !o.trivial {
		to = x.helpers[o.b].name
	} else if o.plural {
		to = "[]" + from
	}
	return
}

func (x *c11) overrideRegimes() (out [][]c11Override) {
	var all []c11Override
	for _, k := range x.consts {
		if x.goType[k.name] == "" {
			continue
		}
		for _, plural := range []bool{false, true} {
			if x.needsB[k.name] && x.helpers[k.name].name == "" {
				continue
			}
			if x.needsB[k.name] {
				all = append(all, c11Override{b: k.name, plural: plural})
			}
			all = append(all, c11Override{b: k.name, plural: plural, deflt: "a\nb \"c\" \\ */ `", trivial: !x.needsB[k.name]})
		}
	}
	for _, o := range all {
		out = append(out, []c11Override{o})
	}
	// different kinds together
	out = append(out, all)
	n := len(all)
	for i := range all {
		out = append(out, []c11Override{all[i], all[(i*7+3)%n]}, []c11Override{all[i], {b: "String", name: "T", deflt: "x", trivial: true}})
	}
	out = append(out, []c11Override{{b: "userT", deflt: "x", trivial: true}})
	return out
}

// what encoding and encoding/xml want of methods
var methodSigs = map[string]string{
	"MarshalText":      "func() ([]byte, error)",
	"UnmarshalText":    "func([]byte) error",
	"MarshalXML":       "func(*encoding/xml.Encoder, encoding/xml.StartElement) error",
	"UnmarshalXML":     "func(*encoding/xml.Decoder, encoding/xml.StartElement) error",
	"MarshalXMLAttr":   "func(encoding/xml.Name) (encoding/xml.Attr, error)",
	"UnmarshalXMLAttr": "func(encoding/xml.Attr) error",
}

// check type-checks declarations, with the helper types.
func (x *c11) check(src string) error {
	if x.helperFn != "" && src != x.helperFn {
		src += x.helperFn
	}
	file, err := genFile("zz", src)
	if err != nil {
		return err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "", file, parser.SkipObjectResolution)
	if err != nil {
		return err
	}
	conf := types.Config{Importer: x.importer}
	pkg, err := conf.Check("zz", fset, []*ast.File{f}, nil)
	if err != nil {
		line := ""
		if te, ok := err.(types.Error); ok {
			if ls := strings.Split(string(file), "\n"); fset.Position(te.Pos).Line-1 < len(ls) {
				line = strings.TrimSpace(ls[fset.Position(te.Pos).Line-1])
			}
			return fmt.Errorf("%s: %s", te.Msg, line)
		}
		return err
	}
	for _, n := range pkg.Scope().Names() {
		tn, ok := pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		named, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		for i := 0; i < named.NumMethods(); i++ {
			m := named.Method(i)
			want := methodSigs[m.Name()]
			s := m.Type().(*types.Signature)
			got := types.TypeString(stripNames(s), nil)
			if want != "" && got != want {
				return fmt.Errorf("method %s has the signature %s, should be %s", m.Name(), got, want)
			}
			if _, ptr := s.Recv().Type().(*types.Pointer); !ptr && strings.HasPrefix(m.Name(), "Unmarshal") {
				return fmt.Errorf("method %s changes a copy of the value", m.Name())
			}
		}
	}
	return nil
}

func stripNames(s *types.Signature) *types.Signature {
	strip := func(t *types.Tuple) *types.Tuple {
		var vs []*types.Var
		for i := 0; i < t.Len(); i++ {
			vs = append(vs, types.NewParam(token.NoPos, nil, "", t.At(i).Type()))
		}
		return types.NewTuple(vs...)
	}
	return types.NewSignatureType(nil, nil, nil, strip(s.Params()), strip(s.Results()), s.Variadic())
}
