package main

// C16: occurrence constraints become plural and optional fields.

import (
	"go/constant"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	needSpec["C16"] = true
	checks["C16"] = checkC16
}

func checkC16(c *Ctx) {
	c.Explanation = "The functions that build elements and attributes of a schema, join two declarations and treat the members of a choice are brought into a normal form and compared with the reference definitions in analyzer/spec/xsd. In the generators, every value that is a slice type in some cases, or a field tag with omitempty in some, is examined for the conditions under which it is."
	c.Assumptions = []string{"the reference definitions in analyzer/spec/xsd state the property", "queries of element trees do what C15 decides"}
	c.eachSchemaFunc(xsdT+"Element", nil, []string{"Element", "Wildcard"}, "Plural", "Optional")
	c.eachSchemaFunc(xsdT+"Attribute", nil, []string{"Attribute"}, "Optional")
	js := c.joins()
	if len(js) == 0 {
		c.undecided("joins", "two declarations of an element", 0, "no function of two elements returns one")
	}
	for _, f := range js {
		e := newGVF(c)
		c.schemaPrims(e)
		c.fieldsEq(e, "joins", f, []string{"Plural", "Optional", "Nillable", "Abstract", "Default"}, "xsd", "Join")
	}
	c.passes("choices", []pass{{"Choices", "members of a choice, and members of a sequence in a choice, are optional", []string{"choice", "minOccurs"}}})
	c.checkFields()
}

// A pass is a step of Normalize that changes a tree.
type pass struct {
	ref, what string
	consts    []string
}

// passes compares steps of normalizing a schema with reference definitions.
// The function for a reference is one that equals it, or else the one that
// uses the constants that characterise it.
func (c *Ctx) passes(rule string, ps []pass) map[*ssa.Function]string {
	found := map[*ssa.Function]string{}
	var cands []*ssa.Function
	norm := c.MustFunc("xsd", "Normalize")
	if norm == nil {
		return nil
	}
	reach := c.reachFrom(norm)
	for _, f := range c.pkgFuncs("xsd") {
		if reach[f] && f != norm && f.Parent() == nil && len(f.Params) > 0 {
			cands = append(cands, f)
		}
	}
	for _, p := range ps {
		ref := c.Spec["xsd"].Func(p.ref)
		var with []*ssa.Function
		for _, f := range cands {
			if typeKey(f.Params[0].Type()) == typeKey(ref.Params[0].Type()) && c.usesConsts(f, p.consts) {
				with = append(with, f)
			}
		}
		if len(with) == 0 {
			c.undecided(rule, p.ref, norm.Pos(), "no function that Normalize calls uses the constants %s", strings.Join(p.consts, ", "))
			continue
		}
		ok := false
		for _, f := range with {
			e := newGVF(c)
			c.schemaPrims(e)
			if ok = c.sameRef(e, rule, f, p.what, "xsd", c.passVariants(p.ref)...); ok {
				found[f] = p.ref
				break
			}
		}
		if !ok {
			f := with[0]
			found[f] = p.ref
			e := newGVF(c)
			c.schemaPrims(e)
			c.refEq(e, rule, f, p.what, "xsd", c.passVariants(p.ref)...)
		}
	}
	return found
}

// passVariants: a step may return an error, too; what is compared is when it
// does and what it changes.
func (c *Ctx) passVariants(ref string) []string {
	out := []string{ref}
	for _, k := range []string{"2", "3", "4"} {
		if _, ok := c.Spec["xsd"].Members[ref+k]; ok {
			out = append(out, ref+k)
		}
	}
	return out
}

// usesConsts: the function, or one that only it calls, uses all the strings.
func (c *Ctx) usesConsts(f *ssa.Function, want []string) bool {
	have := map[string]bool{}
	var scan func(f *ssa.Function, d int)
	seen := map[*ssa.Function]bool{}
	scan = func(f *ssa.Function, d int) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [12]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						have[constant.StringVal(k.Value)] = true
					}
				}
				if call, ok := in.(ssa.CallInstruction); ok && d > 0 {
					if g := call.Common().StaticCallee(); g != nil && g.Pkg == f.Pkg && len(g.Blocks) > 0 {
						scan(g, d-1)
					}
				}
			}
		}
		for _, g := range f.AnonFuncs {
			scan(g, d)
		}
	}
	scan(f, 1)
	for _, w := range want {
		if !have[w] {
			return false
		}
	}
	return true
}

var occurrence = map[string]bool{"Plural": true, "Optional": true, "Nillable": true}

// fieldReaders: functions of a package that read any of the given fields of
// xsd.Element or xsd.Attribute.
func (c *Ctx) fieldReaders(rel string, want map[string]bool) (out []*ssa.Function, read map[string]bool) {
	read = map[string]bool{}
	for _, f := range c.pkgFuncs(rel) {
		hit := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				owner, field := fieldRead(in)
				if (owner == xsdT+"Element" || owner == xsdT+"Attribute") && want[field] {
					hit = true
					read[owner[len(xsdT):]+"."+field] = true
				}
			}
		}
		if hit {
			out = append(out, f)
		}
	}
	return out, read
}

// checkFields: the cases in which the generator makes a slice of a field's
// type, and in which it adds omitempty to its tag.
func (c *Ctx) checkFields() {
	rs, read := c.fieldReaders("xsdgen", occurrence)
	for _, k := range []string{"Element.Plural", "Element.Optional", "Element.Nillable", "Attribute.Optional"} {
		if !read[k] {
			c.Bad("fields", k, 0, "the generator does not look at %s", k)
		}
	}
	inline := map[*ssa.Function]bool{}
	for _, f := range rs {
		inline[f] = true
	}
	got := map[string]int{}
	for _, f := range rs {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(gvfErr); !ok {
						panic(r)
					}
				}
			}()
			e := newGVF(c)
			e.keepFormats = true
			c.genPrims(e, inline)
			n, err := e.norm(f, nil)
			if err != nil {
				c.undecided("fields", fname(f), f.Pos(), "%v", err)
				return
			}
			c.fieldConds(e, n, f, got)
		}()
	}
	for _, k := range []string{"slice", "element omitempty", "attribute omitempty"} {
		if got[k] == 0 {
			c.undecided("fields", k, 0, "no value found that depends on the occurrence of an element or attribute")
		}
	}
	c.Note("field_conditions", got)
}

func (c *Ctx) fieldConds(e *gvf, n *gnorm, f *ssa.Function, got map[string]int) {
	seen := map[string]bool{}
	e.visitValues(n, func(d *dd) {
		for _, kind := range []string{"slice", "omitempty"} {
			is := func(t *gterm) bool {
				if kind == "slice" {
					return t.op == "box" && strings.HasSuffix(t.s, "go/ast.ArrayType")
				}
				return e.mentions(t, "omitempty")
			}
			some := false
			for _, x := range e.leaves(d) {
				some = some || is(x)
			}
			if !some {
				continue
			}
			cond := e.bind(d, func(t *gterm) *dd {
				if is(t) {
					return e.T
				}
				return e.F
			})
			// the element or attribute in question
			by := map[*gterm]map[string]*dvar{}
			for _, v := range e.varsOf(cond) {
				if v.kind == 'b' && v.t.op == "field" && len(v.t.args) == 1 && occurrence[v.t.s] {
					x := v.t.args[0]
					if by[x] == nil {
						by[x] = map[string]*dvar{}
					}
					by[x][v.t.s] = v
				}
			}
			for x, vs := range by {
				what, want := "slice", []string{"Plural"}
				if kind == "omitempty" {
					what, want = "attribute omitempty", []string{"Optional"}
					if vs["Nillable"] != nil || vs["Plural"] != nil || c.isElementTerm(x) {
						what, want = "element omitempty", []string{"Nillable", "Optional"}
					}
				}
				msg := e.dependsOn(cond, x, vs, want)
				key := what + " " + msg + e.showN(e.leaf(x), 6)
				if seen[key] {
					continue
				}
				seen[key] = true
				got[what]++
				if msg != "" {
					c.Bad("fields", fname(f)+" "+what, f.Pos(), "%s: %s", what, msg)
				} else {
					c.OK("fields", fname(f)+" "+what, f.Pos(), "exactly if %s", strings.Join(want, " or "))
				}
			}
		}
	})
}

func (c *Ctx) isElementTerm(t *gterm) bool {
	return t.typ != nil && strings.HasSuffix(typeKey(t.typ), xsdT+"Element")
}

// dependsOn: cond is the disjunction of the given truths about x, in those
// cases that do not depend on other things about x.
func (e *gvf) dependsOn(cond *dd, x *gterm, vs map[string]*dvar, want []string) string {
	rest := cond
	for _, k := range want {
		if vs[k] == nil {
			return "does not depend on " + k
		}
		rest = e.under(rest, vs[k], 0, nil, 0)
	}
	if rest != e.F {
		return "holds in some case in which it is not " + strings.Join(want, " or ")
	}
	var g *dd
	for _, k := range want {
		h := e.under(cond, vs[k], 1, nil, 0)
		if g == nil {
			g = h
		} else if g != h {
			return "does not treat " + strings.Join(want, " and ") + " alike"
		}
	}
	if g == e.F {
		return "never holds"
	}
	for _, v := range e.varsOf(g) {
		for t := v.t; t != nil && t.op == "field"; t = t.args[0] {
			if t.args[0] == x && t.s != "Wildcard" && t.s != "Type" && !strings.HasPrefix(t.s, "Name") {
				return "depends on " + t.s
			}
		}
	}
	return ""
}

// mentions: a text that contains the word
func (e *gvf) mentions(t *gterm, word string) bool {
	switch t.op {
	case "const":
		return t.c.Kind() == constant.String && strings.Contains(constant.StringVal(t.c), word)
	case "cat":
		for _, a := range t.args {
			if e.mentions(a, word) {
				return true
			}
		}
	case "box":
		if len(t.vals) == 1 {
			if d, ok := t.vals[0].(*dd); ok && d.leaf != nil {
				return e.mentions(d.leaf, word)
			}
		}
	}
	return false
}

// visitValues calls f for every value in a normal form that is not the part of
// a larger decision.
func (e *gvf) visitValues(n *gnorm, f func(*dd)) {
	seen := map[*dd]bool{}
	var all []*dd
	val := func(v gval) {
		var rec func(v gval)
		rec = func(v gval) {
			switch v := v.(type) {
			case gtuple:
				for _, x := range v {
					rec(x)
				}
			case *gsv:
				for _, x := range v.f {
					rec(x)
				}
			case *dd:
				if v != nil && !seen[v] {
					seen[v] = true
					all = append(all, v)
				}
			}
		}
		rec(v)
	}
	if n.vals != nil {
		val(n.vals)
	}
	for _, w := range n.writes {
		val(w.v)
	}
	e.visitTerms(n, func(t *gterm) {
		for _, v := range t.vals {
			val(v)
		}
	})
	sort.SliceStable(all, func(i, j int) bool { return all[i].id < all[j].id })
	for _, d := range all {
		f(d)
	}
}

// fieldRead: the struct type and the field that an instruction accesses.
func fieldRead(in ssa.Instruction) (owner, field string) {
	switch in := in.(type) {
	case *ssa.Field:
		if s := structOfType(in.X.Type()); s != nil {
			return typeKey(in.X.Type()), s.Field(in.Field).Name()
		}
	case *ssa.FieldAddr:
		if s := structOfType(in.X.Type()); s != nil {
			return strings.TrimPrefix(typeKey(in.X.Type()), "*"), s.Field(in.Field).Name()
		}
	}
	return "", ""
}
