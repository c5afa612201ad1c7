package main

// C22: service descriptions are linked as they declare.

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

func init() {
	needSpec["C22"] = true
	checks["C22"] = checkC22
}

// A step is a function that is described once and named elsewhere.
type step struct {
	name, what string
	is         func(*ssa.Function) bool
	refs       []string
	effect     bool // it changes what it is given
	one        bool // a single function takes its place
	trust      bool // another check decides it
}

func resultIs(f *ssa.Function, key string) bool {
	r := f.Signature.Results()
	return r.Len() == 1 && typeKey(r.At(0).Type()) == key
}

func hasParam(f *ssa.Function, key string) bool {
	for _, p := range f.Params {
		if typeKey(p.Type()) == key {
			return true
		}
	}
	return false
}

func checkC22(c *Ctx) {
	c.Explanation = "wsdl.Parse and the functions that build messages, ports and operations are brought into a normal form (gated value graph, loops over the parts of the description summarised) and compared with the reference definitions in analyzer/spec/wsdl."
	c.Assumptions = []string{"the reference definitions in analyzer/spec/wsdl state the property", "queries of element trees do what C14 and C15 decide"}
	const T = modPath + "/wsdl."
	el := "*" + modPath + "/xmltree.Element"
	steps := []step{
		{"Docs", "the documentation of an element", func(f *ssa.Function) bool {
			return resultIs(f, "string") && len(f.Params) == 1 && hasParam(f, el) && c.usesConsts(f, []string{"documentation"})
		}, []string{"Docs", "Docs2", "Docs3"}, false, false, false},
		{"Messages", "the messages by name, with their parts", func(f *ssa.Function) bool {
			return hasParam(f, el) && resultIs(f, "map[encoding/xml.Name]"+T+"Message")
		}, []string{"Messages"}, false, false, false},
		{"Operations", "the operations of the port type of the port's binding", func(f *ssa.Function) bool {
			return hasParam(f, el) && resultIs(f, "[]"+T+"Operation")
		}, []string{"Operations"}, false, false, false},
		{"Ports", "the ports, with their addresses, methods and operations", func(f *ssa.Function) bool {
			return hasParam(f, el) && resultIs(f, "[]"+T+"Port")
		}, []string{"Ports"}, false, false, false},
		{"Parse", "the messages and ports of a description", func(f *ssa.Function) bool {
			return f.Name() == "Parse" && f.Signature.Recv() == nil
		}, []string{"Parse", "Parse2"}, false, false, false},
	}
	c.steps("linked", "wsdl", "wsdl", steps, func(e *gvf) { c.wsdlPrims(e) })
}

func (c *Ctx) wsdlPrims(e *gvf) {
	e.plain = true
	c.schemaPrims(e)
	old := e.prim
	e.prim = func(fr *gframe, in ssa.CallInstruction, f *ssa.Function, args []gval, st *gstate, g *dd) (gval, bool) {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == modPath+"/xmltree" && f.Name() == "Parse" && f.Signature.Recv() == nil {
			return fr.queryCall("xmltree.Parse", sigOf(in), args), true
		}
		return old(fr, in, f, args, st, g)
	}
	oldPure := e.pureFn
	e.pureFn = func(name string) bool {
		switch name {
		case "bytes.Join", "strings.Join", "strings.ToUpper":
			return true
		}
		return oldPure(name)
	}
}

// steps compares the functions of a package that take the place of each step
// with reference definitions.  Steps decided before are steps of their own in
// those that follow.
func (c *Ctx) steps(rule, rel, dir string, steps []step, prims func(*gvf)) {
	named := map[*ssa.Function]string{}
	effect := map[string]bool{}
	resign := "" // a step whose results are not those of the reference
	perm := map[*ssa.Function][]int{}
	for _, s := range steps {
		s := s
		var fs []*ssa.Function
		for _, f := range c.pkgFuncs(rel) {
			if f.Parent() == nil && named[f] == "" && s.is(f) {
				fs = append(fs, f)
			}
		}
		refs := map[*ssa.Function]string{}
		for _, r := range s.refs {
			refs[c.Spec[dir].Func(r)] = s.name
		}
		if len(fs) == 0 {
			// written out where it is used
			c.Note("step "+s.name, "not a function of its own")
			continue
		}
		if s.trust {
			for _, f := range fs {
				named[f] = s.name
			}
			for f := range refs {
				named[f] = s.name
			}
			effect[s.name] = s.effect
			continue
		}
		var cands []*ssa.Function
		isCand := map[*ssa.Function]bool{}
		// of functions that call each other, the one that is right
		grps := c.callGroups(fs)
		if s.one {
			grps = [][]*ssa.Function{fs}
		}
		for _, grp := range grps {
			var best *Ctx
			var bestF *ssa.Function
			for _, f := range grp {
				for _, pm := range permsOf(f, c.Spec[dir].Func(s.refs[0])) {
					e := newGVF(c)
					prims(e)
					e.namedSteps(named, perm, effect)
					pm := pm
					e.paramNames = func(g *ssa.Function) []gval {
						if g != f || pm == nil {
							return nil
						}
						ref := c.Spec[dir].Func(s.refs[0])
						var out []gval
						for i := range f.Params {
							out = append(out, e.param(ref, pm[i]))
						}
						return out
					}
					d := *c
					d.Obls, d.Undecided = nil, nil
					d.quiet = true
					d.refEq(e, rule, f, s.what, dir, s.refs...)
					if d.badness() == 0 && !isCand[f] {
						isCand[f] = true
						perm[f] = pm
						cands = append(cands, f)
					}
					if best == nil || d.badness() < best.badness() {
						best, bestF = &d, f
						perm[f] = pm
					}
				}
			}
			if resign != "" && best.badness() > 1 {
				best.Obls = nil
				best.undecided(rule, fname(bestF), bestF.Pos(), "it has steps with other results than the reference definition: %s", resign)
			}
			c.adopt(best)
			if !isCand[bestF] {
				cands = append(cands, bestF)
			}
			if !sameResults(bestF, c.Spec[dir].Func(s.refs[0])) {
				resign = fname(bestF)
			}
		}
		for _, f := range cands {
			named[f] = s.name
		}
		for f := range refs {
			named[f] = s.name
		}
		effect[s.name] = s.effect
	}
}

func sameResults(f, g *ssa.Function) bool {
	a, b := f.Signature.Results(), g.Signature.Results()
	if a.Len() != b.Len() {
		return false
	}
	for i := 0; i < a.Len(); i++ {
		if typeKey(a.At(i).Type()) != typeKey(b.At(i).Type()) {
			return false
		}
	}
	return true
}

func (c *Ctx) badness() (n int) {
	for _, o := range c.Obls {
		if o.Bad {
			n += 2
		}
	}
	if len(c.Obls) == 0 {
		n++
	}
	return n
}

// permsOf: the ways in which the parameters of f can stand for those of ref.
// nil if they are not the same types.
func permsOf(f, ref *ssa.Function) [][]int {
	if len(f.Params) != len(ref.Params) {
		return [][]int{nil}
	}
	var out [][]int
	used := make([]bool, len(f.Params))
	cur := make([]int, len(f.Params))
	var rec func(i int)
	rec = func(i int) {
		if i == len(cur) {
			out = append(out, append([]int{}, cur...))
			return
		}
		for j := range ref.Params {
			if !used[j] && typeKey(f.Params[i].Type()) == typeKey(ref.Params[j].Type()) {
				used[j] = true
				cur[i] = j
				rec(i + 1)
				used[j] = false
			}
		}
	}
	rec(0)
	if len(out) == 0 {
		return [][]int{nil}
	}
	return out
}

// namedSteps makes calls of the given functions opaque terms; their arguments
// are in the order in which the reference has them.
func (e *gvf) namedSteps(named map[*ssa.Function]string, perm map[*ssa.Function][]int, effect map[string]bool) {
	old := e.prim
	e.prim = func(fr *gframe, in ssa.CallInstruction, f *ssa.Function, args []gval, st *gstate, g *dd) (gval, bool) {
		name := named[f]
		if name == "" {
			if old == nil {
				return nil, false
			}
			return old(fr, in, f, args, st, g)
		}
		as := append([]gval{}, args...)
		if pm := perm[f]; pm != nil {
			for i, j := range pm {
				as[j] = args[i]
			}
		}
		if effect[name] {
			v, _ := fr.opaqueCall("step "+name, sigOf(in), as, st, g)
			return v, true
		}
		for i := range as {
			as[i] = e.contentRead(as[i], st, 2)
		}
		return fr.queryCall("step "+name, sigOf(in), as), true
	}
}

// param is the value of a parameter of a reference definition.
func (e *gvf) param(f *ssa.Function, i int) gval {
	p := f.Params[i]
	return e.opaque(p.Type(), e.term("param", fmt.Sprintf("p%d", i), p.Type()))
}
