package main

// C12: parsed schemas contain only resolved types.

import (
	"golang.org/x/tools/go/ssa"
)

func init() {
	needSpec["C12"] = true
	checks["C12"] = checkC12
}

func checkC12(c *Ctx) {
	c.Explanation = "Parse and the functions that link the types of schemas are brought into a normal form (gated value graph, loops summarised, effects in order) and compared with the reference definitions in analyzer/spec/xsd/resolve.go.txt."
	c.Assumptions = []string{"the reference definitions in analyzer/spec/xsd state the property", "queries of element trees do what C14 and C15 decide", "normalization does what C25 decides, declarations become the types that C17 decides"}
	parse := c.MustFunc("xsd", "Parse")
	norm := c.MustFunc("xsd", "Normalize")
	if parse == nil || norm == nil {
		return
	}
	reach := c.reachFrom(parse)
	const X = modPath + "/xsd."
	el := "*" + modPath + "/xmltree.Element"
	tm := "map[encoding/xml.Name]" + X + "Type"
	sig := func(result string, params ...string) func(*ssa.Function) bool {
		return func(f *ssa.Function) bool {
			if !reach[f] || f == parse || len(f.Params) != len(params) || f.Parent() != nil {
				return false
			}
			switch r := f.Signature.Results(); {
			case result == "":
				if r.Len() != 0 {
					return false
				}
			case result == "+":
				if r.Len() != 2 {
					return false
				}
			default:
				if !resultIs(f, result) {
					return false
				}
			}
			left := append([]string{}, params...)
			for _, p := range f.Params {
				ok := false
				for i, k := range left {
					if k == typeKey(p.Type()) {
						left = append(left[:i], left[i+1:]...)
						ok = true
						break
					}
				}
				if !ok {
					return false
				}
			}
			return true
		}
	}
	S := "*" + X + "Schema"
	and := func(a, b func(*ssa.Function) bool) func(*ssa.Function) bool {
		return func(f *ssa.Function) bool { return a(f) && b(f) }
	}
	or := func(a, b func(*ssa.Function) bool) func(*ssa.Function) bool {
		return func(f *ssa.Function) bool { return a(f) || b(f) }
	}
	consts := func(cs ...string) func(*ssa.Function) bool {
		return func(f *ssa.Function) bool { return c.usesConsts(f, cs) }
	}
	not := func(a func(*ssa.Function) bool) func(*ssa.Function) bool {
		return func(f *ssa.Function) bool { return !a(f) }
	}
	c.steps("linked", "xsd", "xsd", []step{
		{name: "Complex", is: and(sig("*"+X+"ComplexType", S, el), not(consts("_self"))), refs: []string{"Complex"}, effect: true, one: true, trust: true},
		{name: "Simple", is: sig("*"+X+"SimpleType", S, el), refs: []string{"Simple"}, effect: true, one: true, trust: true},
		{name: "Shorthand", is: and(sig("", el), consts("complexContent", "restriction")), refs: []string{"Shorthand"}, effect: true, one: true, trust: true},
		{name: "Schemas", is: func(f *ssa.Function) bool { return f == norm }, refs: []string{"Schemas"}, effect: true, one: true, trust: true},
		{name: "BuiltinSchema", what: "the built-in types", is: sig(X + "Schema"), refs: []string{"BuiltinSchema"}, one: true},
		{name: "Lookup", what: "the type that a reference stands for", is: or(sig("+", S, X+"linkedType", tm), sig("+", S, "encoding/xml.Name", tm)), refs: []string{"Lookup"}, one: true},
		{name: "Resolve", what: "references are replaced by the types they stand for", is: sig("error", S, tm), refs: []string{"Resolve"}, effect: true, one: true},
		{name: "Rooted", what: "a type is derived from a built-in type", is: sig("bool", X+"Type"), refs: []string{"Rooted", "Rooted2"}, one: true},
		{name: "Aliases", what: "elements name their types", is: sig("error", S, el, tm), refs: []string{"Aliases"}, effect: true, one: true},
		{name: "MixType", what: "mixed content is inherited", is: sig("", X+"Type", X+"Type", "int"), refs: []string{"MixType"}, effect: true, one: true},
		{name: "Mix", what: "mixed content is inherited", is: sig("", S), refs: []string{"Mix"}, effect: true, one: true},
		{name: "Self", what: "the type of a document", is: sig("*"+X+"ComplexType", S, el), refs: []string{"Self"}, effect: true, one: true},
		{name: "Types", what: "all declared types", is: sig("error", S, el), refs: []string{"Types"}, effect: true, one: true},
		{name: "Parse", what: "all schemas, linked", is: func(f *ssa.Function) bool { return f == parse }, refs: []string{"Parse", "Parse2", "Parse3", "Parse4"}, one: true},
	}, func(e *gvf) { c.normPrims(e) })
}
