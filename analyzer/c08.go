package main

// C08: values are escaped where they are written between quotes.

import (
	"fmt"
	"go/constant"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	needSpec["C08"] = true
	checks["C08"] = checkC08
}

func checkC08(c *Ctx) {
	c.Explanation = "Every template that is executed when a tree is marshalled is evaluated from its parse tree: what it writes is a sequence of constant text and values. Each value between double quotes must be the result of an escaping function, and attribute values and namespaces must not be written anywhere else. What an escaping function returns is decided from its normal form."
	c.Assumptions = []string{"xml.EscapeText, template.HTMLEscapeString and html.EscapeString replace double quotes, <, > and &", "values are attribute values and namespaces of the types of package encoding/xml"}
	type site struct {
		in   ssa.CallInstruction
		name string
		out  *dd
	}
	seen := map[string]bool{}
	escapers := map[*ssa.Function]string{}
	html := false
	tags := 0
	for _, name := range []string{"Encode", "Marshal", "MarshalIndent", "Element.String"} {
		f := c.MustFunc("xmltree", name)
		if f == nil {
			continue
		}
		e := newGVF(c)
		var sites []site
		c.marshalPrims(e, func(in ssa.CallInstruction, name string, out *dd) {
			sites = append(sites, site{in, name, out})
		}, func(name string, f *ssa.Function) {
			if f == nil {
				html = true
			} else {
				escapers[f] = name
			}
		})
		n, err := e.norm(f, nil)
		if err != nil {
			c.undecided("quotes", fname(f), f.Pos(), "%v", err)
			continue
		}
		for _, s := range sites {
			k := fname(s.in.Parent()) + " template " + s.name
			q := &quoteScan{c: c, e: e}
			for _, x := range e.leaves(s.out) {
				q.in = false
				q.part(x)
				if q.in {
					q.bad("the text ends between quotes")
				}
			}
			tags++
			for _, m := range q.report {
				if !seen[k+m] {
					seen[k+m] = true
					c.Bad("quotes", k, s.in.Pos(), "%s", m)
				}
			}
			for _, m := range q.open {
				if !seen[k+m] {
					seen[k+m] = true
					c.undecided("quotes", k, s.in.Pos(), "%s", m)
				}
			}
			if len(q.report) == 0 && len(q.open) == 0 && !seen[k] {
				seen[k] = true
				c.OK("quotes", k, s.in.Pos(), "%d values between quotes are escaped, %d others are neither attribute values nor namespaces", q.quoted, q.plain)
			}
		}
		// other ways to write
		raw := map[string]bool{}
		var visit func(t *gterm)
		done := map[*gterm]bool{}
		var visitV func(v gval)
		visitV = func(v gval) {
			switch v := v.(type) {
			case *gsv:
				for _, f := range v.f {
					visitV(f)
				}
			case gtuple:
				for _, f := range v {
					visitV(f)
				}
			case *dd:
				for _, t := range e.leaves(v) {
					visit(t)
				}
			}
		}
		visit = func(t *gterm) {
			if done[t] {
				return
			}
			done[t] = true
			if t.op == "ev" && t.s != "emit" && isWrite(t.s) {
				for _, v := range t.vals {
					if d, ok := v.(*dd); ok {
						for _, x := range e.leaves(d) {
							if m := rawValue(x); m != "" {
								raw[t.s+" of "+m] = true
							}
						}
					}
				}
			}
			for _, a := range t.args {
				visit(a)
			}
			for _, v := range t.vals {
				visitV(v)
			}
		}
		for _, ev := range n.events {
			visit(ev.t)
		}
		for _, m := range sortedKeys(raw) {
			c.Bad("quotes", fname(f), f.Pos(), "%s without escaping", m)
		}
		if len(raw) == 0 {
			c.OK("writes", fname(f), f.Pos(), "nothing but templates writes attribute values or namespaces")
		}
	}
	if tags == 0 {
		c.undecided("quotes", "xmltree", 0, "no template is executed")
	}
	c.Note("template_executions", tags)
	if html {
		c.OK("escaper", "template function html", 0, "escapes quotes, <, > and &")
	}
	var fs []*ssa.Function
	for f := range escapers {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fname(fs[i]) < fname(fs[j]) })
	for _, f := range fs {
		c.escaper(f)
	}
}

func sortedKeys(m map[string]bool) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

func isWrite(name string) bool {
	if i := strings.LastIndexByte(name, '.'); i >= 0 {
		name = name[i+1:]
	}
	return strings.HasPrefix(name, "Write") || strings.HasPrefix(name, "Fprint") || strings.HasPrefix(name, "Copy") || name == "ReadFrom"
}

// rawValue: what an unescaped value says of attribute values and namespaces.
func rawValue(x *gterm) string {
	switch x.op {
	case "field":
		if x.s == "Value" {
			return "an attribute value"
		}
		if x.s == "Space" {
			return "a namespace"
		}
		return ""
	case "escaped":
		return ""
	case "fn":
		if x.s == "prefix" {
			return ""
		}
	case "const", "param", "global", "len", "maplen", "each":
		if x.op != "each" {
			return ""
		}
	}
	if x.op == "fa" || x.op == "ia" {
		return ""
	}
	for _, a := range x.args {
		if m := rawValue(a); m != "" {
			return m
		}
	}
	for _, v := range x.vals {
		d, ok := v.(*dd)
		if !ok || d.leaf == nil {
			continue
		}
		if m := rawValue(d.leaf); m != "" {
			return m
		}
	}
	return ""
}

type quoteScan struct {
	c             *Ctx
	e             *gvf
	in            bool
	quoted, plain int
	report, open  []string
}

func (q *quoteScan) bad(format string, args ...interface{}) {
	q.report = append(q.report, fmt.Sprintf(format, args...))
}

func (q *quoteScan) part(x *gterm) {
	switch {
	case x.op == "cat":
		for _, a := range x.args {
			q.part(a)
		}
	case x.op == "const" && x.c.Kind() == constant.String:
		for _, r := range constant.StringVal(x.c) {
			if r == '"' {
				q.in = !q.in
			}
		}
	case x.op == "each":
		was := q.in
		for _, v := range x.vals {
			d, ok := v.(*dd)
			if !ok {
				continue
			}
			for _, y := range q.e.leaves(d) {
				q.in = was
				q.part(y)
				if q.in != was {
					q.bad("an iteration of a range ends between quotes, or the other way round")
					q.in = was
				}
			}
		}
	case x.op == "escaped":
		if q.in {
			q.quoted++
			return
		}
		if m := rawValue(x.args[0]); m != "" {
			q.bad("%s is written outside double quotes", m)
		}
	default:
		m := rawValue(x)
		switch {
		case q.in && m != "":
			q.bad("%s is written between quotes without being escaped", m)
		case q.in:
			q.open = append(q.open, "a value of unknown origin is written between quotes: "+cutMid(q.e.showT(x, 4), 100))
		case m != "":
			q.bad("%s is written outside double quotes", m)
		default:
			q.plain++
		}
	}
}

// escaper: what f returns has no double quote, < or &, or is escaped.
func (c *Ctx) escaper(f *ssa.Function) {
	e := newGVF(c)
	n, err := e.norm(f, nil)
	if err != nil {
		c.undecided("escaper", fname(f), f.Pos(), "%v", err)
		return
	}
	first := func(v gval) *dd {
		if t, ok := v.(gtuple); ok {
			v = t[0]
		}
		d, _ := v.(*dd)
		return d
	}
	known := map[*gterm]bool{}
	for _, r := range []string{"escape", "escapeB", "escapeH", "escapeS", "escapeE", "escapeE2"} {
		s := c.Spec["xmltree"].Func(r)
		m, err := e.norm(s, nil)
		if err != nil {
			panic(fmt.Sprintf("reference definition %s: %v", r, err))
		}
		for _, x := range e.leaves(first(m.vals)) {
			known[x] = true
		}
	}
	d := first(n.vals)
	if d == nil {
		c.undecided("escaper", fname(f), f.Pos(), "its result is not known")
		return
	}
	p := asDD(e.param(f, 0)).leaf
	for _, x := range e.leaves(d) {
		g := e.bind(d, func(y *gterm) *dd {
			if y == x {
				return e.T
			}
			return e.F
		})
		if d.leaf != nil {
			g = e.T
		}
		g = e.and(g, n.normal)
		switch {
		case x == e.bot.leaf || g == e.F || known[x]:
			continue
		case x.op == "const":
			if strings.ContainsAny(constant.StringVal(x.c), "\"<&") {
				c.Bad("escaper", fname(f), f.Pos(), "returns %q", constant.StringVal(x.c))
				return
			}
		case e.replacer(x, p):
		case x == p:
			if !e.harmless(g, p) {
				c.Bad("escaper", fname(f), f.Pos(), "returns its argument, which may contain double quotes, < or &")
				return
			}
		default:
			if hs := e.hardShapes(n); len(hs) > 0 {
				c.undecided("escaper", fname(f), f.Pos(), "it escapes in a loop of its own")
				return
			}
			c.Bad("escaper", fname(f), f.Pos(), "returns what no known way of escaping gives: %s", cutMid(e.showT(x, 5), 200))
			return
		}
	}
	c.OK("escaper", fname(f), f.Pos(), "returns text in which double quotes, <, > and & are escaped")
}

// replacer: strings.NewReplacer(...).Replace of the argument.
func (e *gvf) replacer(x, p *gterm) bool {
	args := func(t *gterm) []*gterm {
		var out []*gterm
		out = append(out, t.args...)
		for _, v := range t.vals {
			if d, ok := v.(*dd); ok && d.leaf != nil {
				out = append(out, d.leaf)
			} else {
				return nil
			}
		}
		return out
	}
	call := func(t *gterm) (string, []*gterm) {
		if t.op == "res" && len(t.args) == 1 {
			t = t.args[0]
		}
		if t.op == "fn" || t.op == "ev" {
			return t.s, args(t)
		}
		return "", nil
	}
	name, as := call(x)
	if name != "(*strings.Replacer).Replace" || len(as) < 2 || as[1] != p {
		return false
	}
	name, as = call(as[0])
	if name != "strings.NewReplacer" || len(as) != 1 || as[0].op != "seq" {
		return false
	}
	vs := as[0].vals
	have := map[string]bool{}
	for i := 0; i+1 < len(vs); i += 2 {
		a, ok1 := vs[i].(*dd)
		b, ok2 := vs[i+1].(*dd)
		if !ok1 || !ok2 || a.leaf == nil || b.leaf == nil || a.leaf.op != "const" || b.leaf.op != "const" {
			return false
		}
		from, to := constant.StringVal(a.leaf.c), constant.StringVal(b.leaf.c)
		if len(from) != 1 || !strings.HasPrefix(to, "&") || !strings.HasSuffix(to, ";") || strings.ContainsAny(to[1:], "&<\"") {
			return false
		}
		have[from] = true
	}
	return have[`"`] && have["<"] && have["&"]
}

// harmless: g implies that p contains no double quote, < or &.
func (e *gvf) harmless(g *dd, p *gterm) bool {
	vars := map[*dvar]bool{}
	e.support(g, vars)
	cond := e.F
	found := map[rune]*dd{'"': e.F, '<': e.F, '&': e.F}
	for v := range vars {
		t := v.t
		var set string
		one := e.mk
		_ = one
		var has *dd
		switch {
		case v.kind == 'b' && t.op == "fn" && (t.s == "strings.ContainsAny" || t.s == "strings.Contains") && len(t.args) == 2 && t.args[0] == p && t.args[1].op == "const":
			set = constant.StringVal(t.args[1].c)
			if t.s == "strings.Contains" && len(set) != 1 {
				continue
			}
			has = e.boolVar(t)
		case v.kind == 'i' && t.op == "fn" && (t.s == "strings.IndexAny") && len(t.args) == 2 && t.args[0] == p && t.args[1].op == "const":
			set = constant.StringVal(t.args[1].c)
			has = e.not(e.below(t, 0))
		default:
			continue
		}
		for r := range found {
			if strings.ContainsRune(set, r) {
				found[r] = e.or(found[r], has)
			}
		}
	}
	for _, h := range found {
		// g must exclude each
		if h == e.F {
			return false
		}
		ok := false
		_ = cond
		if e.and(g, h) == e.F {
			ok = true
		}
		if !ok {
			return false
		}
	}
	return true
}
