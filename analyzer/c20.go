package main

// C20: the fields of a generated struct.  C21: which types are generated.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	needSpec["C20"] = true
	checks["C20"] = checkC20
	needSpec["C21"] = true
	checks["C21"] = checkC21
}

const (
	genT     = modPath + "/xsdgen."
	cfgT     = "*" + genT + "Config"
	complexT = "*" + modPath + "/xsd.ComplexType"
	xtypeT   = modPath + "/xsd.Type"
	nameT    = "encoding/xml.Name"
)

// sigIs: parameters (with the receiver, in any order) and results.
func sigIs(f *ssa.Function, params []string, results ...string) bool {
	if len(f.Params) != len(params) || f.Signature.Results().Len() != len(results) {
		return false
	}
	for i, r := range results {
		if typeKey(f.Signature.Results().At(i).Type()) != r {
			return false
		}
	}
	want := map[string]int{}
	for _, p := range params {
		want[p]++
	}
	for _, p := range f.Params {
		want[typeKey(p.Type())]--
	}
	for _, n := range want {
		if n != 0 {
			return false
		}
	}
	return true
}

func sig(params []string, results ...string) func(*ssa.Function) bool {
	return func(f *ssa.Function) bool { return sigIs(f, params, results...) }
}

// codePrims: what other packages do are steps of their own, log messages are
// no effect.
func (c *Ctx) codePrims(e *gvf) {
	c.schemaPrims(e)
	old := e.prim
	e.prim = func(fr *gframe, in ssa.CallInstruction, f *ssa.Function, args []gval, st *gstate, g *dd) (gval, bool) {
		if f.Pkg == nil {
			return old(fr, in, f, args, st, g)
		}
		switch f.Pkg.Pkg.Path() {
		case modPath + "/xsdgen", modPath + "/wsdlgen":
			if isLogFunc(f) {
				return nil, true
			}
		case modPath + "/internal/dependency":
			v, _ := fr.opaqueCall(fname(f), sigOf(in), args, st, g)
			return v, true
		case modPath + "/internal/gen", modPath + "/xsd":
			if f.Parent() == nil {
				var as []gval
				for _, a := range args {
					as = append(as, e.content(a, st, 3))
				}
				return fr.queryCall(fname(f), sigOf(in), as), true
			}
		}
		return old(fr, in, f, args, st, g)
	}
}

func checkC20(c *Ctx) {
	c.Explanation = "The functions that choose the fields of a generated struct, their names, types and tags, and that merge the fields of base types into those of derived types are brought into a normal form (gated value graph, loops summarised, effects in order) and compared with the reference definitions in analyzer/spec/xsdgen."
	c.Assumptions = []string{"the reference definitions in analyzer/spec/xsdgen state the property", "built-in types are what C10 decides", "dependency graphs do what C18 decides", "log messages are not part of the generated code"}
	c.steps("fields", "xsdgen", "xsdgen", c.codeSteps(), func(e *gvf) { c.codePrims(e) })
}

func (c *Ctx) codeSteps() []step {
	ov := "[]" + genT + "fieldOverride"
	fd := "*go/ast.FuncDecl"
	ng := "*" + genT + "nameGenerator"
	return []step{
		{"BuiltinExpr", "", sig([]string{modPath + "/xsd.Builtin"}, "go/ast.Expr"), []string{"BuiltinExpr"}, false, false, true},
		{"NeedsMethods", "", sig([]string{xtypeT}, "bool"), []string{"NeedsMethods"}, false, false, true},
		{"ExprString", "", sig([]string{cfgT, xtypeT}, "string"), []string{"ExprString"}, false, false, true},
		{"GenComplexTypeMethods", "", sig([]string{cfgT, complexT, ov}, fd, fd, "error"), []string{"GenComplexTypeMethods"}, false, false, true},
		{"Public", "the name, transformed, as an exported identifier", sig([]string{cfgT, nameT}, "string"), []string{"Public"}, false, true, false},
		{"Expr", "the Go type of a schema type", sig([]string{cfgT, xtypeT}, "go/ast.Expr", "error"), []string{"Expr"}, false, true, false},
		{"FilterFields", "attributes and elements that no filter leaves out", sig([]string{cfgT, complexT}, "[]"+modPath+"/xsd.Attribute", "[]"+modPath+"/xsd.Element"), []string{"FilterFields"}, false, true, false},
		{"MergeAttributes", "attributes of the base that are not declared again", sig([]string{complexT, complexT}, "[]"+modPath+"/xsd.Attribute"), []string{"MergeAttributes"}, true, true, false},
		{"Unique", "a name that is not taken, and takes it", sig([]string{ng, "string"}, "go/ast.Expr"), []string{"Unique"}, true, true, false},
		{"FieldName", "the name of an attribute's or element's field", sig([]string{ng, nameT}, "go/ast.Expr"), []string{"Attribute", "Attribute2", "Element", "Element2"}, true, false, false},
		{"GenComplexType", "the fields of a struct, with their types and tags", sig([]string{cfgT, complexT}, "[]"+genT+"spec", "error"), []string{"GenComplexType", "GenComplexType2"}, true, true, false},
		{"ExpandComplexTypes", "fields of base types come first, unless declared again", sig([]string{cfgT, "[]" + xtypeT}, "[]"+xtypeT), []string{"ExpandComplexTypes"}, true, true, false},
	}
}

func checkC21(c *Ctx) {
	c.Explanation = "The functions that choose the types for which code is generated, and those that leave attributes and elements out, are brought into a normal form and compared with the reference definitions in analyzer/spec/xsdgen."
	c.Assumptions = []string{"the reference definitions in analyzer/spec/xsdgen state the property", "built-in types are what C10 decides", "log messages are not part of the generated code"}
	var steps []step
	for _, s := range c.codeSteps() {
		switch s.name {
		case "NeedsMethods", "FilterFields":
			steps = append(steps, s)
		}
	}
	tm := "map[" + nameT + "]" + xtypeT
	seen := "map[" + xtypeT + "]bool"
	steps = append(steps,
		step{"SortedNames", "the names, in order", sig([]string{tm}, "[]"+nameT), []string{"SortedNames", "SortedNames2"}, false, true, false},
		step{"Dedup", "the first type of each name", sig([]string{"[]" + xtypeT}, "[]"+xtypeT), []string{"Dedup"}, false, true, false},
		step{"Flatten1", "the type that stands for a type", sig([]string{cfgT, xtypeT, "func(" + xtypeT + ")", seen}, xtypeT), []string{"Flatten1"}, true, true, false},
		step{"Flatten", "types that no filter leaves out, and those they need", sig([]string{cfgT, tm}, "[]"+xtypeT), []string{"Flatten"}, true, true, false},
	)
	schemas := "[]" + modPath + "/xsd.Schema"
	steps = append(steps,
		step{"ExpandComplexTypes", "", sig([]string{cfgT, "[]" + xtypeT}, "[]"+xtypeT), []string{"ExpandComplexTypes"}, true, false, true},
		step{"GenTypeSpec", "", sig([]string{cfgT, xtypeT}, "[]"+genT+"spec", "error"), []string{"GenTypeSpec"}, true, false, true},
		step{"Gen", "the declarations of all types that are to be generated", sig([]string{cfgT, schemas, schemas}, "*"+genT+"Code", "error"), []string{"Gen"}, true, true, false},
		step{"GenAST", "the file of the declarations", sig([]string{"*" + genT + "Code"}, "*go/ast.File", "error"), []string{"GenAST", "GenAST2"}, true, true, false},
	)
	c.steps("types", "xsdgen", "xsdgen", steps, func(e *gvf) { c.codePrims(e) })
	c.overwrites()
	port, op := modPath+"/wsdl.Port", modPath+"/wsdl.Operation"
	pr := "*" + modPath + "/wsdlgen.printer"
	c.steps("ports", "wsdlgen", "wsdlgen", []step{
		{"AddHelpers", "", sig([]string{pr}), []string{"AddHelpers"}, true, false, true},
		{"Operation", "", sig([]string{pr, port, op}, "error"), []string{"Operation"}, true, false, true},
		{"Port", "code for every operation of a port", sig([]string{pr, port}, "error"), []string{"Port"}, true, true, false},
		{"File", "code for every port that no filter leaves out", sig([]string{pr}, "*go/ast.File", "error"), []string{"File"}, true, true, false},
	}, func(e *gvf) { c.codePrims(e) })
}

// overwrites: where the declaration of a type is kept by its Go name, there
// is none of that name yet.
func (c *Ctx) overwrites() {
	const what = "two types with one Go name"
	isDecls := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && typeKey(m.Elem()) == genT+"spec" && typeKey(m.Key()) == "string"
	}
	n, bad := 0, token.NoPos
	for _, f := range c.pkgFuncs("xsdgen") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				up, ok := in.(*ssa.MapUpdate)
				if !ok || !isDecls(up.Map.Type()) || !keyIsName(up.Key) || fromMap(up.Value, 0) {
					continue
				}
				n++
				tested := false
				for d := b; d != nil && !tested; d = d.Idom() {
					for _, in := range d.Instrs {
						if lk, ok := in.(*ssa.Lookup); ok && lk.CommaOk && isDecls(lk.X.Type()) && keyIsName(lk.Index) {
							tested = true
						}
					}
				}
				if !tested {
					bad = up.Pos()
				}
			}
		}
	}
	switch {
	case n == 0:
		c.undecided("overwrite", what, 0, "no declaration is kept by its name")
	case bad.IsValid():
		c.Bad("overwrite", what, bad, "the declaration of a type replaces, unseen, that of another type with the same Go name")
	default:
		c.OK("overwrite", what, bad, "each of %d declarations kept by name is looked up first", n)
	}
}

// keyIsName: a field of type string of a declaration.
func keyIsName(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.UnOp:
		fa, ok := v.X.(*ssa.FieldAddr)
		return ok && typeKey(fa.X.Type()) == "*"+genT+"spec"
	case *ssa.Field:
		return typeKey(v.X.Type()) == genT+"spec"
	}
	return false
}

// fromMap: a value that was looked up.
func fromMap(v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Lookup:
		return true
	case *ssa.Extract:
		return fromMap(v.Tuple, d+1)
	case *ssa.UnOp:
		if a, ok := v.X.(*ssa.Alloc); ok {
			n, m := 0, 0
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == a {
					n++
					if fromMap(st.Val, d+1) {
						m++
					}
				}
			}
			return n > 0 && n == m
		}
	}
	return false
}
