package main

// C14: namespace prefixes resolve to the innermost declaration.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	needSpec["C14"] = true
	checks["C14"] = checkC14
}

func checkC14(c *Ctx) {
	c.Explanation = "The exported operations on a scope are brought into a normal form (gated value graph, loops described by one arbitrary iteration) and compared with reference definitions; the recursive parsing function is evaluated in the same way, and what it stores as the scope and attributes of an element, and hands to its children, is compared with the reference for a single tag."
	c.Assumptions = []string{"the reference definitions in analyzer/spec/xmltree state the property", "sorting the declarations of a single tag does not matter, because they declare distinct prefixes"}
	for _, x := range []struct {
		name, what string
		refs       []string
	}{
		{"Scope.ResolveNS", "the innermost declaration of the prefix, the fixed meaning of xml and xmlns, or the prefix and false", []string{"ResolveNS"}},
		{"Scope.Resolve", "the name that ResolveNS returns", []string{"Resolve"}},
		{"Scope.ResolveDefault", "names without a prefix are in the given namespace", []string{"ResolveDefault"}},
		{"Scope.Prefix", "a prefix that is declared for the namespace and not declared again further in", []string{"Prefix", "Prefix2", "Prefix3", "Prefix4", "Prefix5", "Prefix6", "Prefix7", "Prefix8"}},
		{"Scope.JoinScope", "declarations of the outer scope, then those of the inner one", []string{"JoinScope", "JoinScope2"}},
	} {
		if f := c.MustFunc("xmltree", x.name); f != nil {
			c.refEq(newGVF(c), "reference", f, x.what, "xmltree", x.refs...)
		}
	}
	c.checkPush(newGVF(c))
}

// checkPush: parsing an element extends its scope by its own declarations,
// keeps the other attributes, and hands the extended scope to its children.
func (c *Ctx) checkPush(e *gvf) {
	el := c.namedType("xmltree", "Element")
	if el == nil {
		return
	}
	var fs []*ssa.Function
	reach := c.reachFrom(c.Func("xmltree", "Parse"))
	for _, f := range c.Funcs {
		if !reach[f] || fnPkg(f).Path() != modPath+"/xmltree" || !c.callsItself(f) {
			continue
		}
		for _, p := range f.Params {
			if pt, ok := p.Type().(*types.Pointer); ok && types.Identical(pt.Elem(), el) {
				fs = append(fs, f)
				break
			}
		}
	}
	if len(fs) == 0 {
		c.undecided("push", "xmltree", 0, "no recursive function that parses an element")
		return
	}
	for _, f := range fs {
		var args []gval
		k := 0
		for _, p := range f.Params {
			name := ""
			if pt, ok := p.Type().(*types.Pointer); ok && types.Identical(pt.Elem(), el) {
				name = "p0" // as in the reference
			} else {
				k++
				name = fmt.Sprintf("q%d", k)
			}
			args = append(args, e.opaque(p.Type(), e.term("param", name, p.Type())))
		}
		n, err := e.norm(f, args)
		if err != nil {
			c.undecided("push", fname(f), f.Pos(), "%v", err)
			continue
		}
		m, err := e.norm(c.Spec["xmltree"].Func("Push"), nil)
		if err != nil {
			panic(err)
		}
		m2, err := e.norm(c.Spec["xmltree"].Func("Push2"), nil)
		if err != nil {
			panic(err)
		}
		find := func(n *gnorm, name string) *dd {
			for _, w := range n.writes {
				if w.name == name {
					d, _ := w.v.(*dd)
					return d
				}
			}
			return nil
		}
		var scope *dd
		for _, w := range m.writes {
			d, want := asDD(w.v), asDD(find(m2, w.name))
			got := find(n, w.name)
			if got == nil {
				c.undecided("push", fname(f)+" "+w.name, f.Pos(), "the field is not set by the function that parses an element")
				continue
			}
			if strings.Contains(w.name, "Scope") {
				scope = got
			}
			if c.guardedBy(e, got, d) || c.guardedBy(e, got, want) {
				c.OK("push", fname(f)+" "+w.name, f.Pos(), "set, under the condition that the element is parsed at all, to what the reference sets")
			} else {
				c.Bad("push", fname(f)+" "+w.name, f.Pos(), "is %s, want %s", cutMid(e.showN(got, 14), 1500), cutMid(e.showN(want, 14), 1500))
			}
		}
		if scope == nil {
			continue
		}
		// what children start from
		found := 0
		for _, ra := range e.recursiveArgs(n, typeKey(el)) {
			ch := ra.obj
			i := partIndex(e, ch.typ, "Scope")
			if i < 0 {
				continue
			}
			var got *dd
			switch v := ch.f[i].(type) {
			case *gsv:
				if len(v.f) == 1 {
					got, _ = v.f[0].(*dd)
				}
			case *dd:
				got = v
			}
			if got == nil {
				continue
			}
			found++
			if e.ite(ra.guard, got, e.bot) == e.ite(ra.guard, scope, e.bot) || c.guardedBy(e, got, scope) || c.guardedBy(e, scope, got) {
				c.OK("child scope", fname(f), f.Pos(), "a child starts from the scope of its parent with the declarations of the parent")
			} else {
				c.Bad("child scope", fname(f), f.Pos(), "a child starts from %s, want %s", cutMid(e.showN(got, 14), 1500), cutMid(e.showN(scope, 14), 1500))
			}
		}
		if found == 0 {
			c.undecided("child scope", fname(f), f.Pos(), "the element that the recursive call parses was not identified")
		}
	}
}

func partIndex(e *gvf, t types.Type, key string) int {
	for i, p := range e.parts(t) {
		if p.key == "/"+key {
			return i
		}
	}
	return -1
}

// guardedBy: got is want, or want under some condition that want does not
// test, and otherwise what was there before.
func (c *Ctx) guardedBy(e *gvf, got, want *dd) bool {
	if got == nil || want == nil {
		return false
	}
	if got == want {
		return true
	}
	tested := map[*dvar]bool{}
	for _, v := range e.varsOf(want) {
		tested[v] = true
	}
	seen := false
	var rec func(d *dd, n int) bool
	rec = func(d *dd, n int) bool {
		if d == want {
			seen = true
			return true
		}
		var v *dvar
		for _, x := range e.varsOf(d) {
			if !tested[x] {
				v = x
				break
			}
		}
		if v == nil || n > 8 {
			// unchanged
			return d.leaf != nil && isInitial(d.leaf)
		}
		ok := true
		keys, cuts := e.casesOf(v, []*dd{d})
		switch v.kind {
		case 'b':
			ok = rec(e.under(d, v, 0, nil, 0), n+1) && rec(e.under(d, v, 1, nil, 0), n+1)
		case 'e':
			for _, k := range keys {
				ok = ok && rec(e.under(d, v, 0, k, 0), n+1)
			}
			ok = ok && rec(e.under(d, v, 0, nil, 0), n+1)
		default:
			for _, k := range cuts {
				ok = ok && rec(e.under(d, v, 0, nil, k-1), n+1)
			}
			ok = ok && rec(e.under(d, v, 0, nil, 1<<62), n+1)
		}
		return ok
	}
	return rec(got, 0) && seen
}

// isInitial: the term is what a field held when the function was called.
func isInitial(t *gterm) bool {
	for t != nil {
		switch t.op {
		case "param":
			return true
		case "const", "nil", "alloc", "seq", "call", "res", "fn", "after", "fold", "upto", "comp":
			return false
		}
		if len(t.args) == 0 {
			return false
		}
		t = t.args[0]
	}
	return false
}

// recursiveArgs lists the new objects of a type that the function hands to
// recursive calls of itself.
func (e *gvf) recursiveArgs(n *gnorm, tk string) []recArg {
	var out []recArg
	seen := map[*gsv]bool{}
	for _, ev := range n.events {
		e.visitTerms(&gnorm{normal: e.T, events: []gevent{{guard: e.T, t: ev.t}}}, func(t *gterm) {
			if t.op != "ev" || !strings.HasPrefix(t.s, "rec") {
				return
			}
			for _, v := range t.vals {
				for _, x := range e.allLeaves(v) {
					if x.op == "obj" && len(x.vals) == 1 {
						if sv, ok := x.vals[0].(*gsv); ok && typeKey(sv.typ) == tk && !seen[sv] {
							seen[sv] = true
							out = append(out, recArg{ev.guard, sv})
						}
					}
				}
			}
		})
	}
	return out
}

type recArg struct {
	guard *dd
	obj   *gsv
}

// visitTerms calls f for every term of a normal form.
func (e *gvf) visitTerms(n *gnorm, f func(*gterm)) {
	seenT, seenD := map[*gterm]bool{}, map[*dd]bool{}
	var term func(t *gterm)
	var val func(v gval)
	val = func(v gval) {
		switch v := v.(type) {
		case gtuple:
			for _, x := range v {
				val(x)
			}
		case *gsv:
			for _, x := range v.f {
				val(x)
			}
		case *dd:
			if v == nil || seenD[v] {
				return
			}
			seenD[v] = true
			if v.leaf != nil {
				term(v.leaf)
				return
			}
			term(v.v.t)
			for _, k := range v.kids {
				val(k)
			}
		}
	}
	term = func(t *gterm) {
		if seenT[t] {
			return
		}
		seenT[t] = true
		f(t)
		for _, a := range t.args {
			term(a)
		}
		for _, v := range t.vals {
			val(v)
		}
	}
	val(n.normal)
	if n.vals != nil {
		val(n.vals)
	}
	for _, x := range n.events {
		val(x.guard)
		term(x.t)
	}
	for _, x := range n.writes {
		val(x.v)
	}
}
