package main

// C13: options change the setting they name, and can be undone.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	needSpec["C13"] = true
	checks["C13"] = checkC13
}

type option struct {
	name  string
	group string // options of one group change the same setting
	value string // the reference for the value of the setting; "=" if it is the argument
	after bool   // the reference takes the previous value first
	xsd   bool   // it changes the setting of the embedded configuration too
}

func checkC13(c *Ctx) {
	c.Explanation = "Each option is applied, symbolically, to an arbitrary configuration, and so is the option that it returns: the normal form of the first changes one field and that of both together changes nothing. The value of the field is compared with the argument, or with a reference definition in analyzer/spec. Loads of each field outside the options are looked for in the functions that generate code."
	c.Assumptions = []string{"the reference definitions in analyzer/spec/xsdgen and analyzer/spec/wsdlgen state what an option sets", "log messages are not part of what an option does"}
	c.options("xsdgen", []option{
		{name: "IgnoreAttributes", group: "attributes", value: "IgnoreAttributes"},
		{name: "IgnoreElements", group: "elements", value: "IgnoreElements"},
		{name: "OnlyTypes", group: "types", value: "OnlyTypes"},
		{name: "AllowType", group: "allowed types", value: "AllowTypeAfter", after: true},
		{name: "Replace", group: "names", value: "ReplaceAfter", after: true},
		{name: "ProcessTypes", group: "preprocessing", value: "ProcessTypesAfter", after: true},
		{name: "UseFieldNames", group: "preprocessing", value: "+"},
		{name: "HandleSOAPArrayType", group: "preprocessing", value: "+"},
		{name: "SOAPArrayAsSlice", group: "postprocessing", value: "+"},
		{name: "PackageName", group: "package name", value: "="},
		{name: "FollowImports", group: "imports", value: "="},
		{name: "Namespaces", group: "namespaces", value: "="},
		{name: "LogLevel", group: "log level", value: "="},
		{name: "LogOutput", group: "log output", value: "="},
	})
	c.options("wsdlgen", []option{
		{name: "OnlyPorts", group: "ports", value: "OnlyPorts"},
		{name: "PackageName", group: "package name", value: "="},
		{name: "PackageComment", group: "package comment", value: "="},
		{name: "InputThreshold", group: "parameters", value: "="},
		{name: "OutputThreshold", group: "results", value: "="},
		{name: "LogLevel", group: "log level", value: "=", xsd: true},
		{name: "LogOutput", group: "log output", value: "=", xsd: true},
	})
}

func (c *Ctx) options(rel string, opts []option) {
	spec := c.Spec[rel]
	if spec == nil {
		return
	}
	pkg := c.pkg(rel)
	conf := c.MustFunc(rel, "Config.Option")
	if conf == nil {
		return
	}
	prims := func(e *gvf) {
		e.plain = true
		old := e.prim
		e.prim = func(fr *gframe, in ssa.CallInstruction, f *ssa.Function, args []gval, st *gstate, g *dd) (gval, bool) {
			if isLogFunc(f) {
				return gtuple{}, true
			}
			if old != nil {
				return old(fr, in, f, args, st, g)
			}
			return nil, false
		}
	}
	e := newGVF(c)
	prims(e)
	c.refEq(e, "in order", conf, "options are applied in order", rel, "Options")

	cfgT := pkg.Type("Config").Type()
	fieldOf := map[string]string{} // group -> field
	groupOf := map[string]string{}
	for _, o := range opts {
		f := pkg.Func(o.name)
		if f == nil {
			c.Note("option "+o.name, "not present")
			continue
		}
		e := newGVF(c)
		prims(e)
		if o.value == "+" {
			e.opaqueCalls(c, pkg)
		}
		// apply
		n, err := e.norm(spec.Func("Apply"+o.name), nil)
		if err != nil {
			c.undecided("one setting", rel+"."+o.name, f.Pos(), "%v", err)
			continue
		}
		if n.normal != e.T {
			c.Bad("one setting", rel+"."+o.name, f.Pos(), "applying it does not always return")
			continue
		}
		field, val, what := e.oneField(n, cfgT, o.xsd)
		if what != "" {
			c.Bad("one setting", rel+"."+o.name, f.Pos(), "applying it %s", what)
			continue
		}
		if g, ok := groupOf[field]; ok && g != o.group {
			c.Bad("one setting", rel+"."+o.name, f.Pos(), "it changes %s, the setting for %s", fieldNamed(pkg.Type("Config"), field), g)
			continue
		}
		if have, ok := fieldOf[o.group]; ok && have != field {
			c.Bad("one setting", rel+"."+o.name, f.Pos(), "it changes %s instead of %s", field, have)
			continue
		}
		fieldOf[o.group], groupOf[field] = field, o.group
		c.OK("one setting", rel+"."+o.name, f.Pos(), "changes %s only", field)
		c.optionValue(e, rel, o, f, n, field, val)

		// undo
		e = newGVF(c)
		prims(e)
		u, err := e.norm(spec.Func("Undo"+o.name), nil)
		if err != nil {
			c.undecided("undone", rel+"."+o.name, f.Pos(), "%v", err)
			continue
		}
		var left []string
		for _, w := range u.writes {
			left = append(left, w.name)
		}
		switch {
		case u.normal != e.T:
			c.Bad("undone", rel+"."+o.name, f.Pos(), "applying what it returns does not always return")
		case len(left) > 0:
			c.Bad("undone", rel+"."+o.name, f.Pos(), "applying what it returns leaves %s changed", strings.Join(left, ", "))
		default:
			c.OK("undone", rel+"."+o.name, f.Pos(), "what it returns restores %s", field)
		}
	}
	c.consulted(rel, pkg, fieldOf)
}

// oneField: the field of the configuration that is changed, and its value.
func (e *gvf) oneField(n *gnorm, cfgT types.Type, nested bool) (string, gval, string) {
	var fields []string
	vals := map[string]gval{}
	inner := 0
	for l, cell := range n.st.mem {
		if l.root.op == "alloc" || l.path == "·live" || l.path == "·log" {
			continue
		}
		if cell.v == e.defaultAt(l, cell.typ, newGState()) {
			continue
		}
		if l.root.op != "param" || l.root.s != "p0" {
			return "", nil, "changes more than the configuration: " + e.showT(l.root, 4) + l.path
		}
		p := splitPath(l.path)
		if len(p) > 1 && nested && strings.Contains(p[0], "xsdgen") {
			inner++
			if cell.v != e.leaf(e.term("param", "p1", nil)) && !e.isParam(cell.v, "p1") {
				return "", nil, "gives " + l.path + " another value"
			}
			continue
		}
		fields = append(fields, p[0])
		vals[p[0]] = cell.v
	}
	sort.Strings(fields)
	var uniq []string
	for i, f := range fields {
		if i == 0 || fields[i-1] != f {
			uniq = append(uniq, f)
		}
	}
	if len(uniq) != 1 {
		return "", nil, fmt.Sprintf("changes %d settings %s", len(uniq), strings.Join(uniq, ", "))
	}
	if nested && inner != 1 {
		return "", nil, fmt.Sprintf("changes %d settings of the embedded configuration, want 1", inner)
	}
	return uniq[0], vals[uniq[0]], ""
}

func (e *gvf) isParam(v gval, name string) bool {
	d, ok := v.(*dd)
	return ok && d.leaf != nil && d.leaf.op == "param" && d.leaf.s == name
}

func (c *Ctx) optionValue(e *gvf, rel string, o option, f *ssa.Function, n *gnorm, field string, val gval) {
	const rule = "value"
	what := rel + "." + o.name
	if o.value == "=" {
		d, ok := val.(*dd)
		if !ok || !e.isParam(d, "p1") && !e.isTruth(d, "p1") {
			c.Bad(rule, what, f.Pos(), "%s becomes %s, want the argument", field, e.showN(val, 6))
			return
		}
		c.OK(rule, what, f.Pos(), "%s becomes the argument", field)
		return
	}
	old := e.initialField(field, f, c.pkg(rel).Type("Config").Type())
	have := e.content(val, n.st, 3)
	if o.value == "+" {
		// keeps what was set before
		had := e.T
		if old, ok := old.(*dd); ok {
			had = e.not(e.bind(old, func(x *gterm) *dd { return e.eqTerm(x, e.nilTerm(), nil) }))
		}
		d, ok := e.constrainV(have, had).(*dd)
		if !ok || d.leaf == nil || d.leaf.op != "lambda" {
			c.undecided(rule, what, f.Pos(), "the setting is not a function of its own")
			return
		}
		if s := e.keepsPrevious(d.leaf, old); s != "" {
			c.Bad(rule, what, f.Pos(), "%s", s)
			return
		}
		c.OK(rule, what, f.Pos(), "calls what was set before, with its own arguments")
		return
	}
	ref := c.Spec[rel].Func(o.value)
	if alt := c.Spec[rel].Func(o.value + "2"); alt != nil {
		// the other form, if that is the one
		if m, err := e.norm(alt, c.optionArgs(e, rel, o, old)); err == nil && m.vals.key() == have.key() {
			ref = alt
		}
	}
	m, err := e.norm(ref, c.optionArgs(e, rel, o, old))
	if err != nil {
		c.undecided(rule, what, f.Pos(), "%v", err)
		return
	}
	if m.vals.key() != have.key() {
		if k := newShape(plainShapes(e.hardShapes(&gnorm{vals: have, normal: e.T})), []map[string]bool{e.hardShapes(&gnorm{vals: m.vals, normal: e.T})}); k != "" {
			c.undecided(rule, what, f.Pos(), "it has a %s that the reference definition has not", k)
			return
		}
		c.Bad(rule, what, f.Pos(), "%s differs from the reference definition %s: %s", field, o.value, cutMid(e.where(have, m.vals), 1200))
		return
	}
	c.OK(rule, what, f.Pos(), "%s becomes what the reference definition %s says", field, o.value)
}

func (e *gvf) isTruth(d *dd, name string) bool {
	return d.leaf == nil && d.v.kind == 'b' && d.v.t.op == "param" && d.v.t.s == name && d.kids[0] == e.F && d.kids[1] == e.T
}

// initialField is what a field of the configuration holds before.
func (e *gvf) initialField(field string, f *ssa.Function, cfgT types.Type) gval {
	p := e.term("param", "p0", types.NewPointer(cfgT))
	for _, part := range e.parts(cfgT) {
		if part.key == "/"+field || part.key == field {
			return e.loadLoc(gloc{p, part.key}, part.typ, newGState())
		}
	}
	return nil
}

// keepsPrevious: a function that is put in the place of another calls that
// one with its own arguments whenever there is one.
func (e *gvf) keepsPrevious(lam *gterm, old gval) string {
	fn := asDD(old).leaf
	calls := map[*gterm]bool{}
	used := false
	n := &gnorm{vals: e.leaf(lam), normal: e.T}
	e.visitTerms(n, func(t *gterm) {
		if t.op != "ev" && t.op != "fn" {
			return
		}
		for _, v := range t.vals {
			if d, is := v.(*dd); is && d.leaf == fn && fn != nil {
				calls[t] = true
			}
		}
		for _, a := range t.args {
			if a == fn && fn != nil {
				calls[t] = true
			}
		}
	})
	e.visitTerms(n, func(t *gterm) {
		if t.op == "res" && len(t.args) > 0 && calls[t.args[0]] {
			used = true
		}
	})
	switch {
	case len(calls) == 0:
		return "does not call what was set before"
	case !used:
		return "does not use what the function that was set before returns"
	}
	return ""
}

func (e *gvf) opaqueCalls(c *Ctx, pkg *ssa.Package) {
	old := e.prim
	e.prim = func(fr *gframe, in ssa.CallInstruction, f *ssa.Function, args []gval, st *gstate, g *dd) (gval, bool) {
		if f.Pkg == pkg && f.Parent() == nil && f.Signature.Results().Len() == 1 && !isNamed(f.Signature.Results().At(0).Type(), "Option") && f.Signature.Recv() != nil {
			v, _ := fr.opaqueCall(f.Name(), sigOf(in), args, st, g)
			return v, true
		}
		return old(fr, in, f, args, st, g)
	}
}

func isNamed(t types.Type, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name
}

// isLogFunc: a printf-like function without results.
func isLogFunc(f *ssa.Function) bool {
	s := f.Signature
	return s.Variadic() && s.Results().Len() == 0 && s.Params().Len() == 2 && typeKey(s.Params().At(0).Type()) == "string" && typeKey(s.Params().At(1).Type()) == "[]interface{}"
}

// consulted: each setting is read by code that is not an option.
func (c *Ctx) consulted(rel string, pkg *ssa.Package, fieldOf map[string]string) {
	cfg := pkg.Type("Config")
	entry := map[*ssa.Function]bool{}
	isOption := func(f *ssa.Function) bool {
		for f.Parent() != nil {
			f = f.Parent()
		}
		return f.Signature.Results().Len() == 1 && isNamed(f.Signature.Results().At(0).Type(), "Option")
	}
	for _, f := range c.pkgFuncs(rel) {
		if f.Object() != nil && f.Object().Exported() && f.Parent() == nil && !isOption(f) {
			for g := range c.reachFrom(f) {
				entry[g] = true
			}
			entry[f] = true
		}
	}
	read := map[string]*ssa.Function{}
	for _, f := range c.pkgFuncs(rel) {
		if isOption(f) || !entry[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok || !types.Identical(pt.Elem(), cfg.Type()) {
					continue
				}
				name := fieldKeyOf(pt.Elem().Underlying().(*types.Struct), fa.Field)
				for _, r := range *fa.Referrers() {
					if u, ok := r.(*ssa.UnOp); ok && u.Referrers() != nil && len(*u.Referrers()) > 0 {
						read[name] = f
					}
				}
			}
		}
	}
	var groups []string
	for g := range fieldOf {
		groups = append(groups, g)
	}
	sort.Strings(groups)
	for _, g := range groups {
		name := strings.TrimPrefix(fieldOf[g], "/")
		if f := read[name]; f != nil {
			c.OK("consulted", rel+" "+g, f.Pos(), "%s is read in %s", fieldNamed(cfg, name), fname(f))
		} else {
			c.Bad("consulted", rel+" "+g, cfg.Pos(), "no function that generates code reads %s, the setting for %s", fieldNamed(cfg, name), g)
		}
	}
}

func fieldNamed(t *ssa.Type, key string) string {
	s := t.Type().Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if fieldKeyOf(s, i) == strings.TrimPrefix(key, "/") {
			return s.Field(i).Name()
		}
	}
	return key
}

func (c *Ctx) optionArgs(e *gvf, rel string, o option, old gval) []gval {
	var args []gval
	if o.after {
		args = append(args, old)
	}
	ap := c.Spec[rel].Func("Apply" + o.name)
	for i := 1; i < len(ap.Params); i++ {
		args = append(args, e.param(ap, i))
	}
	return args
}
