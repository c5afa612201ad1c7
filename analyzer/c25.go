package main

// C25: normalization rewrites each construct as documented.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	needSpec["C25"] = true
	checks["C25"] = checkC25
}

func checkC25(c *Ctx) {
	c.Explanation = "Normalize, Imports and the functions that rewrite a schema are brought into a normal form (gated value graph, loops over the elements summarised, effects in order) and compared with the reference definitions in analyzer/spec/xsd."
	c.Assumptions = []string{"the reference definitions in analyzer/spec/xsd state the property", "queries of element trees do what C14 and C15 decide", "dependency graphs do what C18 decides"}
	norm := c.MustFunc("xsd", "Normalize")
	imp := c.MustFunc("xsd", "Imports")
	if norm == nil || imp == nil {
		return
	}
	reach := c.reachFrom(norm)
	pass := func(ref string, consts ...string) func(*ssa.Function) bool {
		r := c.Spec["xsd"].Func(ref)
		return func(f *ssa.Function) bool {
			if f == norm || !reach[f] || len(f.Params) == 0 {
				return false
			}
			for i := range r.Params {
				if i >= len(f.Params) || !types.Identical(f.Params[i].Type(), r.Params[i].Type()) {
					return false
				}
			}
			return c.usesConsts(f, consts)
		}
	}
	result := func(key string, params ...string) func(*ssa.Function) bool {
		return func(f *ssa.Function) bool {
			if !reach[f] || f == norm || !resultIs(f, key) || len(f.Params) != len(params) {
				return false
			}
			for _, p := range params {
				if !hasParam(f, p) {
					return false
				}
			}
			return true
		}
	}
	el := "*" + modPath + "/xmltree.Element"
	c.steps("normal form", "xsd", "xsd", []step{
		{"AttrType", "an attribute without type gets anySimpleType", pass("AttrType", "attribute", "anySimpleType"), []string{"AttrType", "AttrType2"}, true, true, false},
		{"ElemType", "an element without type gets anyType", pass("ElemType", "element", "anyType"), []string{"ElemType", "ElemType2"}, true, true, false},
		{"NameTypes", "anonymous types get names of their own", pass("NameTypes", "_isAnonymous"), []string{"NameTypes"}, true, true, false},
		{"Choices", "members of a choice are optional", pass("Choices", "choice", "minOccurs"), []string{"Choices2", "Choices"}, true, true, false},
		{"Shorthand", "a complex type without content model restricts anyType", pass("Shorthand", "complexContent", "restriction"), []string{"Shorthand"}, true, true, false},
		{"CopyNames", "the anonymous type of an element gets its name", pass("CopyNames", "name", "type", "targetNamespace"), []string{"CopyNames"}, true, true, false},
		{"Groups", "a group's members take its place", pass("Groups", "group", "attributeGroup"), []string{"Groups"}, true, true, false},
		{"Deref", "what a reference stands for", result(el, el, el), []string{"Deref"}, false, true, false},
		{"Cycle", "an element that contains itself", result("bool", el, "map["+el+"]struct{}"), []string{"Cycle"}, false, true, false},
		{"Refs", "references are replaced by what they stand for", result("error", "[]"+el), []string{"Refs"}, true, true, false},
		{"Normalize", "all schemas, rewritten", func(f *ssa.Function) bool { return f == norm }, []string{"Schemas", "Schemas2", "Schemas3", "Schemas4"}, false, true, false},
		{"Imports", "the imports and includes", func(f *ssa.Function) bool { return f == imp }, []string{"Imports"}, false, true, false},
	}, func(e *gvf) { c.normPrims(e) })
}

func (c *Ctx) normPrims(e *gvf) {
	c.wsdlPrims(e)
	old := e.prim
	e.prim = func(fr *gframe, in ssa.CallInstruction, f *ssa.Function, args []gval, st *gstate, g *dd) (gval, bool) {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == modPath+"/internal/dependency" {
			v, _ := fr.opaqueCall(fname(f), sigOf(in), args, st, g)
			return v, true
		}
		if f.Pkg != nil && f.Pkg.Pkg.Path() == modPath+"/xmltree" && (f.Name() == "MarshalIndent" || f.Name() == "Marshal" || f.Name() == "JoinScope" || f.Name() == "String") {
			return fr.queryCall(f.Name(), sigOf(in), args), true
		}
		return old(fr, in, f, args, st, g)
	}
}
