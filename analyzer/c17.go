package main

// C17: facets and attributes are recorded in the matching fields.
// C16: occurrence constraints become plural and optional fields.

import (
	"golang.org/x/tools/go/ssa"
)

func init() {
	needSpec["C17"] = true
	checks["C17"] = checkC17
}

// schemaFuncs finds the functions of package xsd that make a value of the
// given type of an element tree.
func (c *Ctx) schemaFuncs(result string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.pkgFuncs("xsd") {
		sig := f.Signature
		if sig.Results().Len() != 1 || typeKey(sig.Results().At(0).Type()) != result {
			continue
		}
		for i := 0; i < sig.Params().Len(); i++ {
			if typeKey(sig.Params().At(i).Type()) == "*"+modPath+"/xmltree.Element" {
				out = append(out, f)
				break
			}
		}
	}
	return out
}

const xsdT = modPath + "/xsd."

// schemaSteps: the functions that make parts of a type, and those in the
// reference definitions that stand for them.
func (c *Ctx) schemaSteps() map[*ssa.Function]string {
	m := map[*ssa.Function]string{}
	for _, k := range []string{"Restriction", "Attribute"} {
		for _, f := range c.schemaFuncs(xsdT + k) {
			m[f] = k
		}
	}
	for _, f := range c.schemaFuncs(xsdT + "Element") {
		m[f] = "Element"
		e := newGVF(c)
		c.schemaPrims(e)
		if n, err := e.norm(f, nil); err == nil {
			if sv := e.structOf(n); sv != nil {
				if w, ok := e.onlyIf(n.normal, e.fieldOf(sv, "Wildcard")).(*dd); ok {
					for _, x := range e.leaves(w) {
						if x == e.tTrue {
							m[f] = "Wildcard"
						}
					}
				}
			}
		}
	}
	for _, f := range c.joins() {
		m[f] = "Join"
	}
	sp := c.Spec["xsd"]
	for k, v := range map[string]string{"element": "Element", "wildcard": "Wildcard", "attribute": "Attribute", "restriction": "Restriction", "join": "Join"} {
		m[sp.Func(k)] = v
	}
	return m
}

// joins: functions of two elements that return one.
func (c *Ctx) joins() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.pkgFuncs("xsd") {
		sig := f.Signature
		if sig.Recv() == nil && sig.Results().Len() == 1 && sig.Params().Len() == 2 &&
			typeKey(sig.Results().At(0).Type()) == xsdT+"Element" && typeKey(sig.Params().At(0).Type()) == xsdT+"Element" && typeKey(sig.Params().At(1).Type()) == xsdT+"Element" {
			out = append(out, f)
		}
	}
	return out
}

func checkC17(c *Ctx) {
	c.Explanation = "The functions that build types, elements, attributes and restrictions from a schema are brought into a normal form (gated value graph, loops over the children summarised), and each field of what they return is compared with the reference definitions in analyzer/spec/xsd."
	c.Assumptions = []string{"the reference definitions in analyzer/spec/xsd state the property", "queries of element trees do what C14 and C15 decide"}
	c.eachSchemaFunc(xsdT+"Restriction", nil, []string{"Restriction"}, "Precision", "Enum", "Min", "Max", "Length", "MinLength", "MaxLength", "MinDate", "MaxDate", "Pattern", "TotalDigits", "Doc")
	c.eachSchemaFunc(xsdT+"Attribute", nil, []string{"Attribute"}, "Name", "Type", "Plural", "Default", "Optional", "Attr", "Scope", "Doc")
	c.eachSchemaFunc(xsdT+"Element", nil, []string{"Element", "Wildcard"}, "Name", "Wildcard", "Type", "Abstract", "Nillable", "Default", "Attr", "Scope", "Doc")
	steps := c.schemaSteps()
	c.eachSchemaFunc("*"+xsdT+"SimpleType", steps, []string{"SimpleType"}, "Name", "Anonymous", "Base", "List", "Union", "Restriction", "Doc")
	c.eachSchemaFunc("*"+xsdT+"ComplexType", steps, []string{"ComplexType"}, "Name", "Anonymous", "Base", "Abstract", "Extends", "Mixed", "Attributes", "Elements", "Doc")
}

func (c *Ctx) eachSchemaFunc(result string, steps map[*ssa.Function]string, variants []string, fields ...string) {
	fs := c.schemaFuncs(result)
	c.Note("functions returning "+result, len(fs))
	if len(fs) == 0 {
		c.undecided("fields", result, 0, "no function of package xsd makes one of an element tree")
	}
	// of functions that call each other, one does the work
	for _, group := range c.callGroups(fs) {
		var best *Ctx
		bad := func(d *Ctx) (n int) {
			for _, o := range d.Obls {
				if o.Bad {
					n++
				}
			}
			return n + len(d.Undecided)
		}
		for _, f := range group {
			e := newGVF(c)
			c.schemaPrims(e)
			if steps != nil {
				e.opaqueNamed(steps)
			}
			e.byType()
			d := *c
			d.Obls, d.Undecided = nil, nil
			d.quiet = true
			d.fieldsEq(e, "fields", f, fields, "xsd", variants...)
			if best == nil || bad(&d) < bad(best) {
				best = &d
			}
		}
		c.adopt(best)
	}
}

// callGroups divides functions into those connected by calls.
func (c *Ctx) callGroups(fs []*ssa.Function) [][]*ssa.Function {
	grp := map[*ssa.Function]int{}
	for i, f := range fs {
		grp[f] = i
	}
	for _, f := range fs {
		for g := range c.reachFrom(f) {
			if j, ok := grp[g]; ok && j != grp[f] {
				i := grp[f]
				for x, k := range grp {
					if k == j {
						grp[x] = i
					}
				}
			}
		}
	}
	var out [][]*ssa.Function
	at := map[int]int{}
	for _, f := range fs {
		i, ok := at[grp[f]]
		if !ok {
			i = len(out)
			at[grp[f]] = i
			out = append(out, nil)
		}
		out[i] = append(out[i], f)
	}
	return out
}
