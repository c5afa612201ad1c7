package main

// C19: marshalled tags are balanced.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	needSpec["C19"] = true
	checks["C19"] = checkC19
}

// tmplPrims: executing a template writes what the template says.
func (c *Ctx) tmplPrims(e *gvf, emitted func(in ssa.CallInstruction, name string, out *dd), call func(r *tmplRun, name string, f *ssa.Function, args []tval) *tval) {
	old := e.prim
	e.prim = func(fr *gframe, in ssa.CallInstruction, f *ssa.Function, args []gval, st *gstate, g *dd) (gval, bool) {
		if w, name, named, data, ok := isExecute(f, args); ok {
			t, is := args[0].(*dd)
			if !is || t.leaf == nil {
				gfail("one of several templates is executed")
			}
			def, err := e.templateOf(t.leaf)
			if err != nil {
				gfail("%v", err)
			}
			if !named {
				name = def.name
			}
			r := &tmplRun{fr: fr, e: e, def: def, st: st, g: g, call: call}
			out, err := r.output(name, data)
			if err != nil {
				gfail("%v", err)
			}
			if emitted != nil {
				emitted(in, name, out)
			}
			v, nst := fr.opaqueCall("emit", sigOf(in), []gval{w, out}, st, g)
			*st = *nst
			return v, true
		}
		if old != nil {
			return old(fr, in, f, args, st, g)
		}
		return nil, false
	}
}

// marshalPrims: prefixes are chosen as C14 decides, values are escaped as
// C08 decides, and the reference definitions may look into scopes.
func (c *Ctx) marshalPrims(e *gvf, emitted func(in ssa.CallInstruction, name string, out *dd), escaper func(name string, f *ssa.Function)) {
	spec := c.Spec["xmltree"]
	prefix := c.Func("xmltree", "Scope.Prefix")
	c.tmplPrims(e, emitted, func(r *tmplRun, name string, f *ssa.Function, args []tval) *tval {
		str := types.Typ[types.String]
		switch {
		case f != nil && f == prefix && len(args) == 2:
			s := r.deref(args[0])
			return &tval{v: r.fr.pureCall("prefix", f.Signature, []gval{s.v, args[1].v}, r.st), t: str}
		case isEscaper(name, f) && len(args) == 1:
			if escaper != nil {
				escaper(name, f)
			}
			d, ok := args[0].v.(*dd)
			if !ok {
				return nil
			}
			return &tval{v: e.bind(d, func(x *gterm) *dd { return e.leaf(e.term("escaped", "", str, x)) }), t: str}
		}
		return nil
	})
	old := e.prim
	e.prim = func(fr *gframe, in ssa.CallInstruction, f *ssa.Function, args []gval, st *gstate, g *dd) (gval, bool) {
		if spec != nil && f == spec.Func("nsOf") {
			t := f.Params[0].Type()
			for _, p := range e.parts(t) {
				if typeKey(p.typ) == "[]encoding/xml.Name" {
					return e.selectPath(args[0], []string{p.key}, t), true
				}
			}
		}
		return old(fr, in, f, args, st, g)
	}
}

// isEscaper: a template function from a string to a string.
func isEscaper(name string, f *ssa.Function) bool {
	if f == nil {
		return name == "html"
	}
	s := f.Signature
	return s.Recv() == nil && s.Params().Len() == 1 && typeKey(s.Params().At(0).Type()) == "string" &&
		s.Results().Len() >= 1 && typeKey(s.Results().At(0).Type()) == "string"
}

func checkC19(c *Ctx) {
	c.Explanation = "The exported functions that marshal a tree are brought into a normal form (gated value graph; recursion and loops described by what one step does; what a text/template writes evaluated from its parse tree) and compared with reference definitions."
	c.Assumptions = []string{"the reference definitions in analyzer/spec/xmltree/marshal.go.txt state the property", "prefixes are chosen as C14 decides, values are escaped as C08 decides"}
	n := 0
	for _, x := range []struct {
		name, what string
		refs       []string
	}{
		{"Encode", "start tag, content or children, end tag", []string{"Encode", "EncodeV2", "EncodeV3", "EncodeV4"}},
		{"Marshal", "the encoding of the element", []string{"Marshal", "MarshalV2", "MarshalV3", "MarshalV4"}},
		{"MarshalIndent", "the encoding of the element, each line indented", []string{"MarshalIndent", "MarshalIndentV2", "MarshalIndentV3", "MarshalIndentV4"}},
		{"Element.String", "the encoding of the element", []string{"String", "StringV2", "StringV3", "StringV4"}},
	} {
		f := c.MustFunc("xmltree", x.name)
		if f == nil {
			continue
		}
		n++
		e := newGVF(c)
		c.marshalPrims(e, nil, nil)
		c.refEq(e, "encoding", f, x.what, "xmltree", x.refs...)
	}
	c.Note("functions_compared", n)
}
