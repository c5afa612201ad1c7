package main

// C15: attribute and element queries match by name and namespace.

func init() {
	needSpec["C15"] = true
	checks["C15"] = checkC15
}

func checkC15(c *Ctx) {
	c.Explanation = "The exported queries of package xmltree are brought into a normal form (gated value graph with loops described by what one iteration does) and compared with reference definitions in Go that are type-checked against the same types."
	c.Assumptions = []string{"the reference definitions in analyzer/spec/xmltree state the property", "the caller's predicate is treated as unknown code"}
	n := 0
	for _, x := range []struct {
		name, what string
		refs       []string
	}{
		{"Element.Attr", "value of the first attribute that matches, or the empty string", []string{"Attr"}},
		{"Element.SetAttr", "replaces the value of the first attribute that matches, or adds one", []string{"SetAttr"}},
		{"Element.Search", "the descendants that match, in document order", []string{"Search", "Search1", "Search2", "Search3", "Search4", "Search5", "Search6"}},
		{"Element.SearchFunc", "the descendants for which the predicate holds, in document order", []string{"SearchFunc1", "SearchFunc2", "SearchFunc3", "SearchFunc4", "SearchFunc5", "SearchFunc6"}},
		{"Element.Flatten", "all descendants, in document order", []string{"Flatten", "Flatten1", "Flatten2", "Flatten3", "Flatten4", "Flatten5", "Flatten6"}},
	} {
		f := c.MustFunc("xmltree", x.name)
		if f == nil {
			continue
		}
		n++
		if x.name == "Element.Search" || x.name == "Element.Flatten" {
			e2 := newGVF(c)
			e2.opaqueFns(c.Func("xmltree", "Element.SearchFunc"))
			if c.sameRef(e2, "reference", f, x.what, "xmltree", x.refs[0]) {
				continue
			}
		}
		c.refEq(newGVF(c), "reference", f, x.what, "xmltree", x.refs...)
	}
	c.Note("functions_compared", n)
}
