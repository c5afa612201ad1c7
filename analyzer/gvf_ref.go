package main

// Comparing functions of the repository with reference definitions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// refEq decides whether f computes what one of the reference definitions
// computes.  A function that the engine cannot describe is reported as
// undecided, not as a violation.
func (c *Ctx) refEq(e *gvf, rule string, f *ssa.Function, what, dir string, variants ...string) bool {
	return c.refEqN(e, rule, f, what, nil, dir, variants...)
}

// refEqN: prep changes a normal form before it is compared.
func (c *Ctx) refEqN(e *gvf, rule string, f *ssa.Function, what string, prep func(*gnorm), dir string, variants ...string) bool {
	n, err := e.norm(f, nil)
	if err != nil {
		c.undecided(rule, fname(f), f.Pos(), "%v", err)
		return false
	}
	if prep != nil {
		prep(n)
	}
	var n2 *gnorm
	var diffs []string
	var shapes []map[string]bool
	for _, v := range variants {
		s := c.Spec[dir].Func(v)
		if s == nil {
			panic("no reference definition " + dir + "." + v)
		}
		m, err := e.norm(s, nil)
		if err != nil {
			panic(fmt.Sprintf("reference definition %s.%s: %v", dir, v, err))
		}
		if prep != nil {
			prep(m)
		}
		d := e.diff(n, m)
		if d != "" {
			if n2 == nil {
				n2 = e.equals(n)
			}
			if e.diff(n2, e.equals(m)) == "" {
				d = ""
			}
		}
		if d == "" {
			c.OK(rule, fname(f), f.Pos(), "same normal form as the reference definition %s.%s: %s", dir, v, what)
			return true
		}
		diffs = append(diffs, v+": "+d)
		shapes = append(shapes, e.hardShapes(m))
	}
	have := e.hardShapes(n)
	if e.plain {
		have = plainShapes(have)
		for k := range have {
			if strings.Contains(k, modPath+"/wsdl.") {
				delete(have, k) // what is built, no list of things to do
			}
		}
	}
	if k := newShape(have, shapes); k != "" {
		c.undecided(rule, fname(f), f.Pos(), "it uses a form of iteration that no reference definition uses (%s)", k)
		return false
	}
	c.Bad(rule, fname(f), f.Pos(), "differs from the reference (%s); %s", what, cutMid(strings.Join(diffs, "\n    "), 2500))
	return false
}

var whereDepth = 5

// adopt takes over what a quiet copy found.
func (c *Ctx) adopt(d *Ctx) {
	c.Obls = append(c.Obls, d.Obls...)
	for _, u := range d.Undecided {
		if d.quiet && !c.quiet {
			fmt.Printf("UNDECIDED property=%s %s %s %s: %s\n", c.Prop, u.Rule, u.Construct, u.Pos, cutMid(u.Detail, 600))
		}
		c.Undecided = append(c.Undecided, u)
	}
}

func cutMid(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return strings.ToValidUTF8(s[:n/2]+" … "+s[len(s)-n/2:], "")
}

// undecided: the analysis cannot tell.  No rule is undecided on the tree the
// checks were made for.
func (c *Ctx) undecided(rule, construct string, p token.Pos, format string, args ...interface{}) {
	if !c.quiet {
		fmt.Printf("UNDECIDED property=%s %s %s %s: %s\n", c.Prop, rule, construct, c.pos(p), cutMid(fmt.Sprintf(format, args...), 600))
	}
	c.Undecided = append(c.Undecided, Obligation{Rule: rule, Construct: construct, Pos: c.pos(p), Detail: fmt.Sprintf(format, args...)})
}

// newShape: something in n that none of the references has, and n lacks
// something that each of the references has; what n computes is then organised
// in another way, and a difference says little.
func newShape(n map[string]bool, refs []map[string]bool) string {
	extra := ""
	for _, k := range sortedSyms(n) {
		known := strings.HasPrefix(k, "element write")
		for _, r := range refs {
			known = known || r[k]
		}
		if !known && !strings.HasPrefix(extra, "func(") {
			extra = k
		}
	}
	if extra == "" {
		return ""
	}
	if strings.HasPrefix(extra, "func(") {
		return extra // a loop that hands a function on is organised differently
	}
	for _, r := range refs {
		lacks := false
		for k := range r {
			lacks = lacks || !n[k]
		}
		if !lacks && len(r) > 0 {
			return ""
		}
	}
	return extra
}

// hardShapes lists the constructs of a normal form that describe a loop or
// recursion by its recurrence only: two of them can differ and still compute
// the same.
func (e *gvf) hardShapes(n *gnorm) map[string]bool {
	out := map[string]bool{}
	e.visitTerms(n, func(t *gterm) {
		dir := ""
		if i := strings.IndexByte(t.s, ' '); i >= 0 {
			dir = t.s[i+1:]
		}
		switch t.op {
		case "changed":
			out["changed"] = true
		case "fold", "upto", "end":
			out[t.op+" "+dir] = true
		case "first", "any", "comp", "loopev":
			if dir != "" && dir != "+" && dir != "-" {
				out[t.op+" "+dir] = true
			}
		}
		switch t.op {
		case "fold", "upto", "end", "first", "any", "comp", "loopev":
			for i, v := range t.vals {
				if d, ok := v.(*dd); ok && d.leaf != nil && d.leaf.op == "const" && d.leaf.c.Kind() == constant.String {
					if s := constant.StringVal(d.leaf.c); len(s) > 2 && s[0] == '#' {
						out[s[strings.IndexByte(s, ':')+1:]] = true
					} else if t.op == "loopev" && strings.HasPrefix(s, "t:") {
						k := "element write"
						if w, ok := t.vals[i+2].(*dd); ok && (w == e.T || w == e.F || w.leaf == nil && e.boolLeaves(w)) {
							k += " of a truth value"
						}
						out[k] = true
					}
				}
			}
		}
	})
	return out
}

// opaqueFns makes the engine treat calls of these functions as steps of their
// own, the same in the code and in the reference.
func (e *gvf) opaqueFns(fs ...*ssa.Function) {
	m := map[*ssa.Function]bool{}
	for _, f := range fs {
		m[f] = true
	}
	e.opaque1 = m
	e.prim = func(fr *gframe, in ssa.CallInstruction, f *ssa.Function, args []gval, st *gstate, g *dd) (gval, bool) {
		if !m[f] {
			return nil, false
		}
		v, _ := fr.opaqueCall(fname(f), sigOf(in), args, st, g)
		return v, true
	}
}

// sameRef is refEq, but says nothing when they differ.
func (c *Ctx) sameRef(e *gvf, rule string, f *ssa.Function, what, dir string, variants ...string) bool {
	d := *c
	d.quiet = true
	if !d.refEq(e, rule, f, what, dir, variants...) {
		return false
	}
	c.Obls = append(c.Obls, d.Obls[len(d.Obls)-1])
	return true
}

func (e *gvf) boolLeaves(d *dd) bool {
	for _, x := range e.leaves(d) {
		if x.op != "⊥" && (x.op != "const" || x.c.Kind() != constant.Bool) {
			return false
		}
	}
	return true
}

// where describes the first case in which two values differ, and how.
func (e *gvf) where(a, b gval) string {
	var path []string
	steps := 0
	var rec func(a, b gval) string
	rec = func(a, b gval) string {
		steps++
		if steps > 4000 {
			return ""
		}
		if a == nil || b == nil || a.key() == b.key() {
			return ""
		}
		x, ok1 := a.(*dd)
		y, ok2 := b.(*dd)
		if !ok1 || !ok2 {
			s1, ok1 := a.(*gsv)
			s2, ok2 := b.(*gsv)
			if ok1 && ok2 && len(s1.f) == len(s2.f) {
				for i := range s1.f {
					if s1.f[i].key() != s2.f[i].key() {
						path = append(path, e.parts(s1.typ)[i].key)
						return rec(s1.f[i], s2.f[i])
					}
				}
			}
			return fmt.Sprintf("%s, want %s", e.showN(a, 8), e.showN(b, 8))
		}
		if x.leaf != nil && y.leaf != nil {
			s, t := x.leaf, y.leaf
			if s.op == t.op && s.s == t.s && len(s.args) == len(t.args) && len(s.vals) == len(t.vals) && len(s.args)+len(s.vals) > 0 {
				path = append(path, "in "+cutMid(s.op+":"+s.s, 40))
				for i := range s.args {
					if s.args[i] != t.args[i] {
						return rec(e.leaf(s.args[i]), e.leaf(t.args[i]))
					}
				}
				for i := range s.vals {
					if s.vals[i].key() != t.vals[i].key() {
						return rec(s.vals[i], t.vals[i])
					}
				}
			}
			return fmt.Sprintf("%s, want %s", e.showN(a, 8), e.showN(b, 8))
		}
		v := x.v
		if v == nil || y.v != nil && y.v.ord < v.ord {
			v = y.v
		}
		keys, cuts := e.casesOf(v, []*dd{x, y})
		try := func(what string, bi int, key *gterm, n int64) string {
			if cof(x, v, bi, key, n) == cof(y, v, bi, key, n) {
				return ""
			}
			path = append(path, cutMid(e.showT(v.t, whereDepth)+what, 50*whereDepth))
			return rec(cof(x, v, bi, key, n), cof(y, v, bi, key, n))
		}
		switch v.kind {
		case 'b':
			for bi, w := range []string{" is false", " is true"} {
				if s := try(w, bi, nil, 0); s != "" {
					return s
				}
			}
		case 'e':
			for _, k := range keys {
				if s := try(" = "+e.showT(k, 3), 0, k, 0); s != "" {
					return s
				}
			}
			if s := try(" is another", 0, nil, 0); s != "" {
				return s
			}
		case 'i':
			for _, n := range cuts {
				if s := try(fmt.Sprintf(" = %d", n-1), 0, nil, n-1); s != "" {
					return s
				}
			}
			if len(cuts) > 0 {
				n := cuts[len(cuts)-1]
				if s := try(fmt.Sprintf(" = %d", n), 0, nil, n); s != "" {
					return s
				}
			}
		}
		return fmt.Sprintf("%s, want %s", e.showN(a, 8), e.showN(b, 8))
	}
	s := rec(a, b)
	if len(path) > 0 {
		return "when " + strings.Join(path, ", ") + ": " + s
	}
	return s
}
