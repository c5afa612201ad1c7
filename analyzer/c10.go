package main

// C10: the built-in types are complete and named canonically.
//
// The constants of type Builtin are the finite domain: names, lookups and Go
// types are computed for each of them by constant propagation through the
// normal form of the functions involved.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	needSpec["C10"] = true
	checks["C10"] = checkC10
}

const xsdNS = "http://www.w3.org/2001/XMLSchema"

// what XML Schema Part 2 calls its built-in types, and the Go types that can
// hold every value (integers of unbounded size: what fits an int).
var builtinGo = map[string]string{
	"anyType": "text", "anySimpleType": "text",
	"string": "text", "normalizedString": "text", "token": "text", "language": "text", "Name": "text", "NCName": "text",
	"ID": "text", "IDREF": "text", "ENTITY": "text", "NMTOKEN": "text", "anyURI": "text", "duration": "text",
	"IDREFS": "list", "ENTITIES": "list", "NMTOKENS": "list", "NOTATION": "notation", "QName": "name",
	"boolean": "bool", "decimal": "float64", "double": "float64", "float": "float32",
	"dateTime": "time", "time": "time", "date": "time", "gYearMonth": "time", "gYear": "time", "gMonthDay": "time", "gDay": "time", "gMonth": "time",
	"hexBinary": "bytes", "base64Binary": "bytes",
	"byte": "int8", "short": "int16", "int": "int32", "long": "int64",
	"integer": "big", "nonPositiveInteger": "big", "negativeInteger": "big", "nonNegativeInteger": "ubig", "positiveInteger": "ubig",
	"unsignedByte": "uint8", "unsignedShort": "uint16", "unsignedInt": "uint32", "unsignedLong": "uint64",
}

// goTypes: the types that hold every value of a kind.
var goTypes = map[string]string{
	"text": "string", "list": "[]string", "notation": "string []string xml.Name", "name": "xml.Name",
	"bool": "bool", "float64": "float64", "float32": "float32 float64", "time": "time.Time", "bytes": "[]byte []uint8",
	"int8": "int8 int16 int32 int64 int", "int16": "int16 int32 int64 int", "int32": "int32 int64 int", "int64": "int64",
	"big": "int int64", "ubig": "int int64 uint uint64",
	"uint8":  "byte uint8 uint16 uint32 uint64 uint int16 int32 int64 int",
	"uint16": "uint16 uint32 uint64 uint int32 int64 int",
	"uint32": "uint32 uint64 uint int64", "uint64": "uint64",
}

type builtinConst struct {
	name string
	val  constant.Value
	pos  token.Pos
}

// builtinConsts are the constants of type xsd.Builtin, with their XML names.
func (c *Ctx) builtinConsts() (out []builtinConst, typ types.Type) {
	p := c.pkg("xsd")
	if p == nil {
		return
	}
	typ = c.namedType("xsd", "Builtin")
	if typ == nil {
		return
	}
	sc := p.Pkg.Scope()
	for _, n := range sc.Names() {
		k, ok := sc.Lookup(n).(*types.Const)
		if ok && k.Exported() && types.Identical(k.Type(), typ) {
			out = append(out, builtinConst{n, k.Val(), k.Pos()})
		}
	}
	sort.Slice(out, func(i, j int) bool { return constant.Compare(out[i].val, token.LSS, out[j].val) })
	return
}

// constVal is the constant that v is, or nil.
func constVal(v gval) constant.Value {
	if d, ok := v.(*dd); ok && d != nil && d.leaf != nil && d.leaf.op == "const" {
		return d.leaf.c
	}
	return nil
}

// xmlNameOf folds the name of a built-in.
func (c *Ctx) xmlNameOf(e *gvf, name *ssa.Function, k constant.Value, typ types.Type) (space, local string, v gval, err error) {
	n, err := e.norm(name, []gval{e.leaf(e.konst(k, typ))})
	if err != nil {
		return "", "", nil, err
	}
	v = n.vals
	if t, ok := v.(gtuple); ok && len(t) == 1 {
		v = t[0]
	}
	sv, ok := v.(*gsv)
	if !ok || len(sv.f) != 2 {
		return "", "", nil, fmt.Errorf("no name")
	}
	s, l := constVal(sv.f[0]), constVal(sv.f[1])
	if s == nil || l == nil {
		return "", "", nil, fmt.Errorf("not a constant: %s, %s", e.showN(sv.f[0], 4), e.showN(sv.f[1], 4))
	}
	return constant.StringVal(s), constant.StringVal(l), v, nil
}

func tupleOf(v gval) []gval {
	switch t := v.(type) {
	case gtuple:
		return t
	case nil:
		return nil
	}
	return []gval{v}
}

func checkC10(c *Ctx) {
	c.Explanation = "The names, lookups and Go types of all constants of type xsd.Builtin are computed by constant propagation through the normal forms (gated value graphs) of the functions involved and compared with the tables of XML Schema Part 2."
	c.Assumptions = []string{"the table of names and value spaces in analyzer/c10.go states what XML Schema Part 2 does"}
	ks, typ := c.builtinConsts()
	name := c.MustFunc("xsd", "Builtin.Name")
	parse := c.MustFunc("xsd", "ParseBuiltin")
	if name == nil || parse == nil || typ == nil {
		return
	}
	e := newGVF(c)
	c.normPrims(e)
	seen := map[string]string{}
	names := map[string]gval{}
	xmlName := map[string]string{} // constant → local name in the schema namespace
	folded := true
	for _, k := range ks {
		sp, lo, v, err := c.xmlNameOf(e, name, k.val, typ)
		if err != nil {
			c.undecided("name", k.name, k.pos, "%v", err)
			folded = false
			continue
		}
		names[k.name] = v
		key := "{" + sp + "}" + lo
		if other := seen[key]; other != "" {
			c.Bad("name", k.name, name.Pos(), "%s and %s are both named %s", other, k.name, key)
			continue
		}
		seen[key] = k.name
		if sp == xsdNS {
			xmlName[k.name] = lo
			if builtinGo[lo] == "" {
				c.Bad("name", k.name, name.Pos(), "is named %s, which is no type of XML Schema", lo)
				continue
			}
			if !strings.EqualFold(lo, k.name) {
				c.Bad("name", k.name, name.Pos(), "is named %s, the name of another type", lo)
				continue
			}
		} else if want := canonLocal(k.name); want != "" {
			c.Bad("name", k.name, name.Pos(), "is in namespace %s, not in that of XML Schema", sp)
			continue
		}
		c.OK("name", k.name, k.pos, "is named %s", key)
	}
	if folded {
		for _, lo := range sortedNames(builtinGo) {
			if k := seen["{"+xsdNS+"}"+lo]; k != "" {
				c.OK("complete", lo, name.Pos(), "constant %s", k)
			} else {
				c.Bad("complete", lo, name.Pos(), "no built-in has the name %s", lo)
			}
		}
	}

	// looking a name up finds the type it names
	for _, k := range ks {
		v := names[k.name]
		if v == nil {
			continue
		}
		n, err := e.norm(parse, []gval{v})
		if err != nil {
			c.undecided("lookup", k.name, parse.Pos(), "%v", err)
			continue
		}
		r := tupleOf(n.vals)
		if len(r) != 2 {
			c.undecided("lookup", k.name, parse.Pos(), "does not return a type and an error")
			continue
		}
		got := constVal(r[0])
		isNil := e.equal(r[1], e.leaf(e.nilTerm()), parse.Signature.Results().At(1).Type())
		switch {
		case n.normal == e.F || isNil == e.F:
			c.Bad("lookup", k.name, parse.Pos(), "the name of %s is not recognised", k.name)
		case got == nil || isNil != e.T || n.normal != e.T:
			c.undecided("lookup", k.name, parse.Pos(), "not a constant: %s", e.showN(n.vals, 6))
		case !constant.Compare(got, token.EQL, k.val):
			c.Bad("lookup", k.name, parse.Pos(), "the name of %s is taken for built-in number %s", k.name, got)
		default:
			c.OK("lookup", k.name, parse.Pos(), "its name finds %s", k.name)
		}
	}
	// and no other name finds any
	if len(names) == len(ks) {
		args := e.params(parse)
		n, err := e.norm(parse, args)
		if err != nil {
			c.undecided("other names", fname(parse), parse.Pos(), "%v", err)
		} else if r := tupleOf(n.vals); len(r) == 2 {
			any := e.F
			for _, k := range ks {
				any = e.or(any, e.equal(args[0], names[k.name], parse.Signature.Params().At(0).Type()))
			}
			isNil := e.equal(r[1], e.leaf(e.nilTerm()), parse.Signature.Results().At(1).Type())
			if bad := e.and(isNil, e.not(any)); bad == e.F {
				c.OK("other names", fname(parse), parse.Pos(), "every other name is an error")
			} else if d := e.onlyNames(bad); d {
				c.Bad("other names", fname(parse), parse.Pos(), "a name of no built-in is accepted: %s", e.showN(bad, 8))
			} else {
				c.undecided("other names", fname(parse), parse.Pos(), "accepts when %s", e.showN(bad, 8))
			}
		}
	}
	c.goTypesOf(e, ks, typ, xmlName)
	c.Note("builtins", len(ks))
}

// onlyNames: the condition compares strings with constants only.
func (e *gvf) onlyNames(d *dd) bool {
	for _, t := range e.condTerms(d) {
		if t.op == "other" {
			return false
		}
	}
	return true
}

// condTerms are the terms that a condition depends on.
func (e *gvf) condTerms(d *dd) (out []*gterm) {
	seen := map[*dd]bool{}
	var walk func(*dd)
	walk = func(x *dd) {
		if x == nil || seen[x] || x.leaf != nil {
			return
		}
		seen[x] = true
		out = append(out, x.v.t)
		if x.v.kind != 'e' {
			out = append(out, e.term("other", "", nil))
		}
		for _, y := range x.kids {
			walk(y)
		}
	}
	walk(d)
	return
}

// canonLocal is the XML Schema type that a constant stands for.
func canonLocal(n string) string {
	for lo := range builtinGo {
		if strings.EqualFold(lo, n) {
			return lo
		}
	}
	return ""
}

func sortedNames(m map[string]string) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return sortedSyms(b)
}

// goTypesOf checks the Go type of each built-in type.
func (c *Ctx) goTypesOf(e *gvf, ks []builtinConst, typ types.Type, xmlName map[string]string) {
	exprs := c.funcsWhere("xsdgen", func(f *ssa.Function) bool {
		s := f.Signature
		return s.Recv() == nil && s.Params().Len() == 1 && types.Identical(s.Params().At(0).Type(), typ) &&
			s.Results().Len() == 1 && s.Results().At(0).Type().String() == "go/ast.Expr"
	})
	if len(exprs) != 1 {
		c.undecided("Go type", "xsdgen", token.NoPos, "%d functions give a Go type for a built-in", len(exprs))
		return
	}
	f := exprs[0]
	needs := c.methodsNeeded()
	for _, k := range ks {
		n, err := e.norm(f, []gval{e.leaf(e.konst(k.val, typ))})
		if err != nil {
			c.undecided("Go type", k.name, f.Pos(), "%v", err)
			continue
		}
		r := tupleOf(n.vals)
		g, why := e.goExpr(r[0], n.st, 0)
		if why != "" {
			if strings.HasPrefix(why, "!") {
				c.Bad("Go type", k.name, f.Pos(), "%s", why[1:])
			} else {
				c.undecided("Go type", k.name, f.Pos(), "%s", why)
			}
			continue
		}
		want := goTypes[builtinGo[xmlName[k.name]]]
		if want == "" {
			if xmlName[k.name] != "" {
				continue // reported above
			}
			want = "string"
		}
		ok := false
		for _, w := range strings.Fields(want) {
			ok = ok || w == g
		}
		if !ok {
			c.Bad("Go type", k.name, f.Pos(), "%s is mapped to %s, which cannot hold its values; expected one of: %s", k.name, g, want)
			continue
		}
		c.OK("Go type", k.name, f.Pos(), "%s is mapped to %s", k.name, g)
		// encoding/xml cannot read these without help
		if needs == nil {
			continue
		}
		m, err := e.norm(needs, []gval{e.box(typ, e.leaf(e.konst(k.val, typ)))})
		if err != nil {
			c.undecided("methods", k.name, needs.Pos(), "%v", err)
			continue
		}
		got := asDD(tupleOf(m.vals)[0])
		special := g == "time.Time" || g == "[]byte" || g == "[]uint8"
		switch {
		case got != e.T && got != e.F:
			c.undecided("methods", k.name, needs.Pos(), "not a constant: %s", e.showN(got, 6))
		case (got == e.T) != special:
			c.Bad("methods", k.name, needs.Pos(), "%s is mapped to %s; that it needs methods of its own is said to be %v", k.name, g, got == e.T)
		default:
			c.OK("methods", k.name, needs.Pos(), "mapped to %s; needs methods: %v", g, special)
		}
	}
	if needs == nil {
		c.undecided("methods", "xsdgen", token.NoPos, "no single function says which built-ins need methods")
	}
}

// methodsNeeded is the predicate of types that looks at built-ins only.
func (c *Ctx) methodsNeeded() *ssa.Function {
	if f := c.Func("xsdgen", "nonTrivialBuiltin"); f != nil && len(f.Params) == 1 && resultIs(f, "bool") {
		return f
	}
	fs := c.funcsWhere("xsdgen", func(f *ssa.Function) bool {
		s := f.Signature
		return s.Recv() == nil && s.Params().Len() == 1 && s.Params().At(0).Type().String() == modPath+"/xsd.Type" && resultIs(f, "bool")
	})
	if len(fs) == 1 {
		return fs[0]
	}
	return nil
}

// goExpr writes out an expression of package go/ast.  A reason that starts
// with ! is a violation.
func (e *gvf) goExpr(v gval, st *gstate, depth int) (string, string) {
	d, ok := v.(*dd)
	if !ok || d.leaf == nil || depth > 6 {
		return "", "not a single expression: " + e.showN(v, 4)
	}
	x := d.leaf
	if x.op == "nil" {
		return "", "!it has no Go type"
	}
	if x.op != "box" || len(x.vals) != 1 {
		return "", "unknown expression " + e.showN(d, 4)
	}
	pt, ok := x.typ.Underlying().(*types.Pointer)
	if !ok {
		return "", "unknown expression " + e.showN(d, 4)
	}
	obj, _ := x.vals[0].(*dd)
	field := func(n string) gval {
		if obj != nil && obj.leaf != nil && obj.leaf.op == "obj" {
			if sv, ok := obj.leaf.vals[0].(*gsv); ok {
				if i := partIndex(e, pt.Elem(), n); i >= 0 {
					return sv.f[i]
				}
			}
			return nil
		}
		s, ok := pt.Elem().Underlying().(*types.Struct)
		for i := 0; ok && i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				p := e.bind(asDD(x.vals[0]), func(y *gterm) *dd { return e.leaf(e.term("fa", "/"+n, nil, y)) })
				return e.load(p, s.Field(i).Type(), st)
			}
		}
		return nil
	}
	switch typeKey(pt.Elem()) {
	case "go/ast.Ident":
		if k := constVal(field("Name")); k != nil {
			if s := constant.StringVal(k); s != "" {
				return s, ""
			}
			return "", "!its Go type has no name"
		}
	case "go/ast.ArrayType":
		l, ok := field("Len").(*dd)
		if !ok || l.leaf == nil || l.leaf.op != "nil" {
			return "", "an array type"
		}
		s, why := e.goExpr(field("Elt"), st, depth+1)
		return "[]" + s, why
	case "go/ast.StarExpr":
		s, why := e.goExpr(field("X"), st, depth+1)
		return "*" + s, why
	case "go/ast.SelectorExpr":
		s, why := e.goExpr(field("X"), st, depth+1)
		if why != "" {
			return "", why
		}
		t, why := e.goExpr(e.box(types.NewPointer(c10Ident(pt)), field("Sel")), st, depth+1)
		return s + "." + t, why
	}
	return "", "unknown expression " + e.showN(d, 4)
}

func c10Ident(pt *types.Pointer) types.Type {
	s := pt.Elem().Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "Sel" {
			return s.Field(i).Type().(*types.Pointer).Elem()
		}
	}
	return nil
}

func (c *Ctx) funcsWhere(rel string, ok func(*ssa.Function) bool) (out []*ssa.Function) {
	for _, f := range c.pkgFuncs(rel) {
		if f.Parent() == nil && ok(f) {
			out = append(out, f)
		}
	}
	return
}
