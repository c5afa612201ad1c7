package main

// C24: comparison considers every part of a tree.

func init() {
	needSpec["C24"] = true
	checks["C24"] = checkC24
}

func checkC24(c *Ctx) {
	c.Explanation = "Equal is brought into a normal form (gated value graph; recursion and loops described by what one step does) and compared with reference definitions in Go that are type-checked against the same types."
	c.Assumptions = []string{"the reference definitions in analyzer/spec/xmltree state the property"}
	if f := c.MustFunc("xmltree", "Equal"); f != nil {
		e := newGVF(c)
		e.recPure = true // C02 decides that comparing changes nothing
		c.refEq(e, "reference", f, "equal names, attributes, and content or children in any order", "xmltree", "Equal", "Equal2", "Equal3", "Equal4")
	}
}
