package main

// What a text/template writes.  The template's text and functions are
// constants of the program; its parse tree is evaluated like code: the output
// is a string value with the cases of its conditions, in which a range is one
// part that says what is written for an arbitrary element.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

type tmplDef struct {
	name  string
	trees map[string]*parse.Tree
	funcs map[string]*gterm
}

// templateOf finds the template that a term stands for.
func (e *gvf) templateOf(t *gterm) (*tmplDef, error) {
	d := &tmplDef{trees: map[string]*parse.Tree{}, funcs: map[string]*gterm{}}
	if err := e.templateChain(t, d); err != nil {
		return nil, err
	}
	return d, nil
}

func (e *gvf) templateChain(t *gterm, d *tmplDef) error {
	if t.op == "proj" && len(t.args) == 1 {
		t = t.args[0]
	}
	var name string
	var args []gval
	switch {
	case t.op == "res" && len(t.args) == 1 && t.args[0].op == "ev":
		name = t.args[0].s
		for _, a := range t.args[0].args {
			args = append(args, e.leaf(a))
		}
		args = append(args, t.args[0].vals...)
	case t.op == "fn":
		name = t.s
		for _, a := range t.args {
			args = append(args, e.leaf(a))
		}
		args = append(args, t.vals...)
	default:
		return fmt.Errorf("a template that is not made from constants (%s)", cutMid(e.showT(t, 3), 80))
	}
	leaf := func(i int) *gterm {
		if i < len(args) {
			if x, ok := args[i].(*dd); ok && x.leaf != nil {
				return x.leaf
			}
		}
		return nil
	}
	str := func(i int) (string, bool) {
		if x := leaf(i); x != nil && x.op == "const" && x.c.Kind() == constant.String {
			return constant.StringVal(x.c), true
		}
		return "", false
	}
	name = strings.TrimPrefix(name, "(*text/template.Template).")
	name = strings.TrimPrefix(name, "text/template.")
	if name == "New" && len(args) == 1 {
		d.name, _ = str(0)
		return nil
	}
	if x := leaf(0); x == nil {
		return fmt.Errorf("a template that is not made from constants")
	} else if err := e.templateChain(x, d); err != nil {
		return err
	}
	switch name {
	case "Must", "Option":
		return nil
	case "New", "Lookup":
		s, ok := str(1)
		if !ok {
			return fmt.Errorf("a template whose name is not constant")
		}
		d.name = s
		return nil
	case "Funcs":
		m := leaf(1)
		if m == nil || m.op != "newmap" {
			return fmt.Errorf("template functions that are not known")
		}
		var at gval
		if len(m.vals) > 0 {
			at = m.vals[0]
		} else if len(m.args) > 0 {
			at = e.leaf(m.args[0])
		}
		x, _ := at.(*dd)
		for x != nil && x.leaf != nil && x.leaf.op == "mapput" {
			k, _ := x.leaf.vals[0].(*dd)
			v, _ := x.leaf.vals[1].(*dd)
			if k == nil || v == nil || k.leaf == nil || k.leaf.op != "const" || v.leaf == nil {
				return fmt.Errorf("template functions that are not known")
			}
			if n := constant.StringVal(k.leaf.c); d.funcs[n] == nil {
				d.funcs[n] = v.leaf
			}
			x = e.leaf(x.leaf.args[0])
		}
		if x == nil || x.leaf == nil || x.leaf.op != "maplog" {
			return fmt.Errorf("template functions that are not known")
		}
		return nil
	case "Parse":
		s, ok := str(1)
		if !ok {
			return fmt.Errorf("a template whose text is not constant")
		}
		builtins := map[string]interface{}{}
		for n := range d.funcs {
			builtins[n] = fmt.Sprint
		}
		for _, n := range []string{"and", "or", "not", "len", "index", "slice", "print", "printf", "println", "html", "js", "urlquery", "call", "eq", "ne", "lt", "le", "gt", "ge", "break", "continue"} {
			builtins[n] = fmt.Sprint
		}
		trees, err := parse.Parse(d.name, s, "", "", builtins)
		if err != nil {
			return fmt.Errorf("a template that does not parse: %v", err)
		}
		for n, tr := range trees {
			if _, dup := d.trees[n]; !dup || !parse.IsEmptyTree(tr.Root) {
				d.trees[n] = tr
			}
		}
		return nil
	}
	return fmt.Errorf("a template made with %s", name)
}

type tval struct {
	v    gval
	t    types.Type
	addr *dd // where it is, if that is known
}

type tmplRun struct {
	fr    *gframe
	e     *gvf
	def   *tmplDef
	st    *gstate
	g     *dd
	vars  []map[string]tval
	depth int
	calls int
	// call decides what some functions do; nil for the others.
	call func(r *tmplRun, name string, f *ssa.Function, args []tval) *tval
}

type tmplErr struct{ msg string }

func tfail(format string, args ...interface{}) { panic(tmplErr{fmt.Sprintf(format, args...)}) }

// output is what executing a template on data writes.
func (r *tmplRun) output(name string, data gval) (out *dd, err error) {
	defer func() {
		if x := recover(); x != nil {
			if te, ok := x.(tmplErr); ok {
				err = fmt.Errorf("%s", te.msg)
				return
			}
			panic(x)
		}
	}()
	tr := r.def.trees[name]
	if tr == nil {
		return nil, fmt.Errorf("no template %q", name)
	}
	d, ok := data.(*dd)
	if !ok {
		return nil, fmt.Errorf("data of unknown type")
	}
	out = r.e.bind(d, func(x *gterm) *dd {
		if x.op != "box" || len(x.vals) != 1 {
			tfail("data of unknown type")
		}
		dot := tval{v: x.vals[0], t: x.typ}
		r.vars = []map[string]tval{{"$": dot}}
		return r.list(tr.Root, dot)
	})
	return out, nil
}

func (r *tmplRun) str(s string) *dd { return r.e.leaf(r.e.strc(s)) }

func (r *tmplRun) cat(a, b *dd) *dd {
	return r.e.bindN([]*dd{a, b}, func(ts []*gterm) *dd { return r.e.leaf(r.e.catTerms(ts[0], ts[1])) })
}

func (r *tmplRun) list(l *parse.ListNode, dot tval) *dd {
	out := r.str("")
	if l == nil {
		return out
	}
	r.vars = append(r.vars, map[string]tval{})
	defer func() { r.vars = r.vars[:len(r.vars)-1] }()
	for _, n := range l.Nodes {
		out = r.cat(out, r.node(n, dot))
	}
	return out
}

func (r *tmplRun) node(n parse.Node, dot tval) *dd {
	e := r.e
	switch n := n.(type) {
	case *parse.TextNode:
		return r.str(string(n.Text))
	case *parse.CommentNode:
		return r.str("")
	case *parse.ActionNode:
		v := r.pipe(n.Pipe, dot)
		if len(n.Pipe.Decl) > 0 {
			return r.str("")
		}
		return r.printed(v)
	case *parse.IfNode:
		return r.ifWith(n.Pipe, n.List, n.ElseList, dot, false)
	case *parse.WithNode:
		return r.ifWith(n.Pipe, n.List, n.ElseList, dot, true)
	case *parse.TemplateNode:
		tr := r.def.trees[n.Name]
		if tr == nil {
			tfail("no template %q", n.Name)
		}
		if r.depth++; r.depth > 20 {
			tfail("templates nested too deeply")
		}
		defer func() { r.depth-- }()
		d := tval{v: e.leaf(e.nilTerm()), t: types.Typ[types.UntypedNil]}
		if n.Pipe != nil {
			d = r.pipe(n.Pipe, dot)
		}
		save := r.vars
		r.vars = []map[string]tval{{"$": d}}
		out := r.list(tr.Root, d)
		r.vars = save
		return out
	case *parse.RangeNode:
		save := r.vars
		defer func() { r.vars = save }()
		decl := n.Pipe.Decl
		over := r.pipe(&parse.PipeNode{NodeType: parse.NodePipe, Cmds: n.Pipe.Cmds}, dot)
		sl, ok := over.t.Underlying().(*types.Slice)
		if !ok {
			tfail("a range over %s", over.t)
		}
		list := asDD(over.v)
		r.depth++
		i := e.term("I", fmt.Sprintf("tmpl%d", r.depth), types.Typ[types.Int])
		body := e.bind(list, func(s *gterm) *dd {
			at := e.leaf(e.term("ia", "", types.NewPointer(sl.Elem()), s, i))
			elem := tval{v: e.load(at, sl.Elem(), r.st), t: sl.Elem(), addr: at}
			vars := map[string]tval{}
			switch len(decl) {
			case 1:
				vars[decl[0].Ident[0]] = elem
			case 2:
				vars[decl[0].Ident[0]] = tval{v: e.leaf(i), t: types.Typ[types.Int]}
				vars[decl[1].Ident[0]] = elem
			}
			r.vars = append(r.vars, vars)
			out := r.list(n.List, elem)
			r.vars = r.vars[:len(r.vars)-1]
			return e.leaf(e.termv("each", "", types.Typ[types.String], []*gterm{s}, []gval{out}))
		})
		r.depth--
		if n.ElseList != nil && len(n.ElseList.Nodes) > 0 {
			return e.ite(r.truth(over), body, r.list(n.ElseList, dot))
		}
		return body
	}
	tfail("a template with %s", cutMid(n.String(), 60))
	return nil
}

func (r *tmplRun) ifWith(p *parse.PipeNode, list, els *parse.ListNode, dot tval, with bool) *dd {
	save := r.vars
	r.vars = append(r.vars, map[string]tval{})
	defer func() { r.vars = save }()
	v := r.pipe(p, dot)
	c := r.truth(v)
	d := dot
	if with {
		d = v
	}
	a := r.list(list, d)
	b := r.str("")
	if els != nil {
		b = r.list(els, dot)
	}
	return r.e.ite(c, a, b)
}

// printed is the text of a value.
func (r *tmplRun) printed(v tval) *dd {
	d, ok := v.v.(*dd)
	if !ok {
		tfail("a structure is printed")
	}
	if b, ok := v.t.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsString != 0 {
			return d
		}
		if b.Info()&types.IsBoolean != 0 {
			return r.e.ite(d, r.str("true"), r.str("false"))
		}
	}
	return r.e.bind(d, func(x *gterm) *dd {
		if x.op == "const" && x.c.Kind() == constant.Int {
			return r.str(x.c.ExactString())
		}
		return r.e.leaf(r.e.term("printed", typeKey(v.t), types.Typ[types.String], x))
	})
}

func (r *tmplRun) truth(v tval) *dd {
	e := r.e
	switch u := v.t.Underlying().(type) {
	case *types.Struct:
		return e.T
	case *types.Slice, *types.Map, *types.Array:
		return e.not(e.bind(e.length(asDD(v.v), v.t), func(x *gterm) *dd { return e.below(x, 1) }))
	case *types.Pointer, *types.Interface, *types.Signature, *types.Chan:
		return e.not(e.bind(asDD(v.v), func(x *gterm) *dd { return e.eqTerm(x, e.nilTerm(), v.t) }))
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return asDD(v.v)
		case u.Info()&types.IsString != 0:
			return e.not(e.bind(asDD(v.v), func(x *gterm) *dd { return e.eqTerm(x, e.strc(""), v.t) }))
		case u.Info()&types.IsInteger != 0:
			return e.not(e.bind(asDD(v.v), func(x *gterm) *dd { return e.eqInt(x, e.intc(0)) }))
		}
	}
	tfail("the truth of %s", v.t)
	return nil
}

func (r *tmplRun) pipe(p *parse.PipeNode, dot tval) tval {
	var v tval
	for i, c := range p.Cmds {
		var last *tval
		if i > 0 {
			x := v
			last = &x
		}
		v = r.command(c, dot, last)
	}
	for _, d := range p.Decl {
		if p.IsAssign {
			found := false
			for i := len(r.vars) - 1; i >= 0 && !found; i-- {
				if _, ok := r.vars[i][d.Ident[0]]; ok {
					found = true
				}
			}
			tfail("an assignment to a variable")
		}
		r.vars[len(r.vars)-1][d.Ident[0]] = v
	}
	return v
}

func (r *tmplRun) command(c *parse.CommandNode, dot tval, last *tval) tval {
	var args []tval
	for _, a := range c.Args[1:] {
		args = append(args, r.arg(a, dot))
	}
	if last != nil {
		args = append(args, *last)
	}
	switch n := c.Args[0].(type) {
	case *parse.FieldNode:
		return r.chain(dot, n.Ident, args)
	case *parse.VariableNode:
		return r.chain(r.variable(n.Ident[0]), n.Ident[1:], args)
	case *parse.ChainNode:
		return r.chain(r.arg(n.Node, dot), n.Field, args)
	case *parse.IdentifierNode:
		return r.function(n.Ident, args)
	}
	if len(args) > 0 {
		tfail("arguments of %s", c.Args[0])
	}
	return r.arg(c.Args[0], dot)
}

func (r *tmplRun) variable(name string) tval {
	for i := len(r.vars) - 1; i >= 0; i-- {
		if v, ok := r.vars[i][name]; ok {
			return v
		}
	}
	tfail("no variable %s", name)
	return tval{}
}

func (r *tmplRun) arg(n parse.Node, dot tval) tval {
	e := r.e
	switch n := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.NilNode:
		return tval{v: e.leaf(e.nilTerm()), t: types.Typ[types.UntypedNil]}
	case *parse.FieldNode:
		return r.chain(dot, n.Ident, nil)
	case *parse.VariableNode:
		return r.chain(r.variable(n.Ident[0]), n.Ident[1:], nil)
	case *parse.ChainNode:
		return r.chain(r.arg(n.Node, dot), n.Field, nil)
	case *parse.PipeNode:
		return r.pipe(n, dot)
	case *parse.IdentifierNode:
		return r.function(n.Ident, nil)
	case *parse.StringNode:
		return tval{v: r.str(n.Text), t: types.Typ[types.String]}
	case *parse.BoolNode:
		if n.True {
			return tval{v: e.T, t: types.Typ[types.Bool]}
		}
		return tval{v: e.F, t: types.Typ[types.Bool]}
	case *parse.NumberNode:
		if n.IsInt {
			return tval{v: e.leaf(e.intc(n.Int64)), t: types.Typ[types.Int]}
		}
	}
	tfail("an argument %s", n)
	return tval{}
}

func (r *tmplRun) chain(x tval, idents []string, args []tval) tval {
	for i, id := range idents {
		var a []tval
		if i == len(idents)-1 {
			a = args
		}
		x = r.member(x, id, a)
	}
	if len(idents) == 0 && len(args) > 0 {
		tfail("arguments of a value")
	}
	return x
}

func (r *tmplRun) deref(x tval) tval {
	p, ok := x.t.Underlying().(*types.Pointer)
	if !ok {
		return x
	}
	d := asDD(x.v)
	return tval{v: r.e.load(d, p.Elem(), r.st), t: p.Elem(), addr: d}
}

// step selects the i-th field of a structure, or of what a pointer points to.
func (r *tmplRun) step(x tval, i int) tval {
	e := r.e
	x = r.deref(x)
	st, ok := x.t.Underlying().(*types.Struct)
	if !ok {
		tfail("a field of %s", x.t)
	}
	ft := st.Field(i).Type()
	k := "/" + fieldKeyOf(st, i)
	out := tval{t: ft}
	if x.addr != nil {
		out.addr = e.bind(x.addr, func(a *gterm) *dd {
			if a.op == "nil" {
				return e.leaf(a)
			}
			return e.leaf(e.term("fa", k, types.NewPointer(ft), a))
		})
	}
	if sv, ok := x.v.(*gsv); ok {
		out.v = sv.f[i]
	} else {
		out.v = e.bind(asDD(x.v), func(t *gterm) *dd { return e.scalar(ft, e.fieldTerm(t, k, ft)) })
	}
	return out
}

func (r *tmplRun) member(x tval, name string, args []tval) tval {
	obj, index, _ := types.LookupFieldOrMethod(x.t, true, nil, name)
	switch obj := obj.(type) {
	case *types.Var:
		if len(args) > 0 {
			tfail("arguments of the field %s", name)
		}
		for _, i := range index {
			x = r.step(x, i)
		}
		return x
	case *types.Func:
		for _, i := range index[:len(index)-1] {
			x = r.step(x, i)
		}
		sig := obj.Type().(*types.Signature)
		f := r.e.c.Prog.FuncValue(obj)
		if f == nil {
			tfail("the method %s of an interface", name)
		}
		recv := x
		if _, ptr := sig.Recv().Type().Underlying().(*types.Pointer); ptr {
			if _, is := x.t.Underlying().(*types.Pointer); !is {
				if x.addr == nil {
					tfail("the method %s of a value that has no address", name)
				}
				recv = tval{v: x.addr, t: types.NewPointer(x.t)}
			}
		} else {
			recv = r.deref(x)
		}
		return r.invoke(name, f, append([]tval{recv}, args...))
	}
	if m, ok := x.t.Underlying().(*types.Map); ok && len(args) == 0 {
		_ = m
	}
	tfail("%s has no %s", x.t, name)
	return tval{}
}

func (r *tmplRun) function(name string, args []tval) tval {
	e := r.e
	boolT := types.Typ[types.Bool]
	if f := r.def.funcs[name]; f != nil {
		fv := f
		if fv.op == "box" && len(fv.vals) == 1 {
			if d, ok := fv.vals[0].(*dd); ok && d.leaf != nil {
				fv = d.leaf
			}
		}
		fn := gvfFuncs[fv]
		if fn == nil {
			tfail("the function %s is not known", name)
		}
		if len(fn.FreeVars) > 0 {
			tfail("the function %s is a closure", name)
		}
		return r.invoke(name, fn, args)
	}
	switch name {
	case "or", "and":
		// the value is used as a condition only if the types differ
		if len(args) == 0 {
			tfail("%s without arguments", name)
		}
		c := r.truth(args[0])
		same := true
		for _, a := range args[1:] {
			same = same && types.Identical(a.t, args[0].t)
			if name == "or" {
				c = e.or(c, r.truth(a))
			} else {
				c = e.and(c, r.truth(a))
			}
		}
		if !same || !types.Identical(args[0].t, types.Typ[types.String]) {
			return tval{v: c, t: boolT}
		}
		v := args[0]
		for _, a := range args[1:] {
			t := r.truth(v)
			if name == "and" {
				t = e.not(t)
			}
			v = tval{v: e.iteV(t, v.v, a.v), t: v.t}
		}
		return v
	case "not":
		if len(args) == 1 {
			return tval{v: e.not(r.truth(args[0])), t: boolT}
		}
	case "len":
		if len(args) == 1 {
			if d, ok := args[0].v.(*dd); ok {
				return tval{v: e.length(d, args[0].t), t: types.Typ[types.Int]}
			}
		}
	case "eq", "ne":
		if len(args) == 2 {
			c := e.equal(args[0].v, args[1].v, args[0].t)
			if name == "ne" {
				c = e.not(c)
			}
			return tval{v: c, t: boolT}
		}
	case "lt", "le", "gt", "ge":
		if len(args) == 2 && isIntType(args[0].t) {
			x, y := asDD(args[0].v), asDD(args[1].v)
			lt := func(a, b *dd) *dd {
				return e.bindN([]*dd{a, b}, func(t []*gterm) *dd { return e.less(t[0], t[1]) })
			}
			var c *dd
			switch name {
			case "lt":
				c = lt(x, y)
			case "gt":
				c = lt(y, x)
			case "le":
				c = e.not(lt(y, x))
			case "ge":
				c = e.not(lt(x, y))
			}
			return tval{v: c, t: boolT}
		}
	case "html", "print", "urlquery", "js":
		if len(args) == 1 {
			if name == "print" {
				return tval{v: r.printed(args[0]), t: types.Typ[types.String]}
			}
			if r.call != nil {
				if v := r.call(r, name, nil, args); v != nil {
					return *v
				}
			}
		}
	case "printf":
		if len(args) > 0 {
			if v := r.printf(args); v != nil {
				return tval{v: v, t: types.Typ[types.String]}
			}
		}
	case "print*":
	}
	if r.call != nil {
		if v := r.call(r, name, nil, args); v != nil {
			return *v
		}
	}
	tfail("the template function %s", name)
	return tval{}
}

// printf: formats of %s, %v and %q.
func (r *tmplRun) printf(args []tval) *dd {
	f, ok := args[0].v.(*dd)
	if !ok || f.leaf == nil || f.leaf.op != "const" || f.leaf.c.Kind() != constant.String {
		return nil
	}
	out := r.str("")
	s := constant.StringVal(f.leaf.c)
	args = args[1:]
	for s != "" {
		i := strings.IndexByte(s, '%')
		if i < 0 {
			return r.cat(out, r.str(s))
		}
		out = r.cat(out, r.str(s[:i]))
		if i+1 >= len(s) {
			return nil
		}
		verb := s[i+1]
		s = s[i+2:]
		if verb == '%' {
			out = r.cat(out, r.str("%"))
			continue
		}
		if len(args) == 0 {
			return nil
		}
		a := args[0]
		args = args[1:]
		switch verb {
		case 's', 'v', 'd':
			out = r.cat(out, r.printed(a))
		case 'q':
			out = r.cat(out, r.e.bind(asDD(a.v), func(x *gterm) *dd {
				return r.e.leaf(r.e.term("quoted", "", types.Typ[types.String], x))
			}))
		default:
			return nil
		}
	}
	return out
}

func (r *tmplRun) invoke(name string, f *ssa.Function, args []tval) tval {
	e := r.e
	if r.call != nil {
		if v := r.call(r, name, f, args); v != nil {
			return *v
		}
	}
	var vs []gval
	sig := f.Signature
	if f.Signature.Variadic() || len(args) != len(f.Params) {
		tfail("the arguments of %s", name)
	}
	for i, a := range args {
		if types.IsInterface(f.Params[i].Type()) && !types.IsInterface(a.t) {
			vs = append(vs, e.box(a.t, a.v))
		} else {
			vs = append(vs, a.v)
		}
	}
	if r.calls++; r.calls > 200 {
		tfail("too many calls")
	}
	rt := sig.Results().At(0).Type()
	if !e.c.inRepo(f) || f.Blocks == nil {
		v := r.fr.pureCall(fname(f), sig, vs, r.st)
		if t, ok := v.(gtuple); ok {
			v = t[0]
		}
		return tval{v: v, t: rt}
	}
	ev := e.events
	res := e.call(f, vs, nil, r.st, r.g)
	e.events = ev
	v := res.vals
	if t, ok := v.(gtuple); ok {
		v = t[0]
	}
	return tval{v: v, t: rt}
}

// isExecute: the call executes a text/template; it returns the writer, the
// name of the template ("" for its own) and the data.
func isExecute(f *ssa.Function, args []gval) (w gval, name string, named bool, data gval, ok bool) {
	if f == nil || f.Pkg == nil && f.Object() == nil {
		return
	}
	switch f.String() {
	case "(*text/template.Template).Execute":
		return args[1], "", false, args[2], true
	case "(*text/template.Template).ExecuteTemplate":
		if d, is := args[2].(*dd); is && d.leaf != nil && d.leaf.op == "const" {
			return args[1], constant.StringVal(d.leaf.c), true, args[3], true
		}
	}
	return
}

var _ = sort.Strings
var _ = token.ADD
