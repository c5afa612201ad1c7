package main

// C23: the generated client handles every outcome of a call.
//
// The text of the client and of the functions of a service are constants of
// the generator.  They are evaluated, the gaps of the latter are filled with
// placeholders, and what comes out is type-checked and brought into a normal
// form like any other package; so are the reference definitions in
// spec/zzclient and the text in those of spec/wsdlgen.

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"go/ast"
	"go/constant"
	"go/format"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"text/template"
	"time"

	"golang.org/x/tools/go/ssa"
)

const genPkg = modPath + "/internal/gen"

// constTexts: the strings a value may be, if they are constants of the
// program.
func (c *Ctx) constTexts(v ssa.Value) ([]string, bool) { return c.constText(v, map[ssa.Value]bool{}) }

func (c *Ctx) constText(v ssa.Value, seen map[ssa.Value]bool) ([]string, bool) {
	if seen[v] {
		return nil, true
	}
	seen[v] = true
	defer delete(seen, v)
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.String {
			return []string{constant.StringVal(v.Value)}, true
		}
		return nil, v.Value == nil
	case *ssa.Phi:
		var out []string
		for _, x := range v.Edges {
			s, ok := c.constText(x, seen)
			if !ok {
				return nil, false
			}
			out = append(out, s...)
		}
		return out, true
	case *ssa.BinOp:
		a, ok := c.constText(v.X, seen)
		b, ok2 := c.constText(v.Y, seen)
		if v.Op != token.ADD || !ok || !ok2 || len(a) != 1 || len(b) != 1 {
			return nil, false
		}
		return []string{a[0] + b[0]}, true
	case *ssa.ChangeType:
		return c.constText(v.X, seen)
	case *ssa.Convert:
		if b, ok := v.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return c.constText(v.X, seen)
		}
	case *ssa.Parameter:
		// what callers give
		fn := v.Parent()
		i := -1
		for j, p := range fn.Params {
			if p == v {
				i = j
			}
		}
		var out []string
		calls := c.staticCalls(fn)
		if i < 0 || len(calls) == 0 {
			return nil, false
		}
		for _, in := range calls {
			s, ok := c.constText(in.Common().Args[i], seen)
			if !ok {
				return nil, false
			}
			out = append(out, s...)
		}
		return out, true
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return nil, false
		}
		var out []string
		switch x := v.X.(type) {
		case *ssa.Global:
			n := 0
			for _, f := range c.withInits(x.Pkg) {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						for _, op := range in.Operands(nil) {
							if *op != x {
								continue
							}
							if st, ok := in.(*ssa.Store); ok && st.Addr == x {
								s, ok := c.constText(st.Val, seen)
								if !ok {
									return nil, false
								}
								out = append(out, s...)
								n++
							} else if ld, ok := in.(*ssa.UnOp); !ok || ld.Op != token.MUL {
								return nil, false
							}
						}
					}
				}
			}
			return out, n == 1
		}
	}
	return nil, false
}

// withInits: the functions of the repository, and those of a package.
func (c *Ctx) withInits(p *ssa.Package) []*ssa.Function {
	have := map[*ssa.Function]bool{}
	var fs []*ssa.Function
	for _, f := range c.Funcs {
		have[f] = true
		fs = append(fs, f)
	}
	for _, m := range p.Members {
		if f, ok := m.(*ssa.Function); ok && !have[f] {
			fs = append(fs, f)
		}
	}
	return fs
}

// staticCalls: the calls of a function, if it is only called.
func (c *Ctx) staticCalls(fn *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	vals := map[ssa.Value]bool{fn: true}
	for _, f := range c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
					vals[mc] = true
				}
			}
		}
	}
	for _, f := range c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, isCall := in.(ssa.CallInstruction)
				if _, ok := in.(*ssa.MakeClosure); ok {
					continue
				}
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				for i, op := range in.Operands(nil) {
					if vals[*op] && (!isCall || i != 0 || !vals[call.Common().Value]) {
						return nil
					}
				}
				if isCall && vals[call.Common().Value] {
					out = append(out, call)
				}
			}
		}
	}
	return out
}

// varargs: the values of a list of arguments.
func varargs(v ssa.Value) ([]ssa.Value, bool) {
	if k, ok := v.(*ssa.Const); ok && k.Value == nil {
		return nil, true
	}
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	arr, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([]ssa.Value, arr.Len())
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			if r != ssa.Instruction(sl) {
				return nil, false
			}
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		i, _ := constant.Int64Val(k.Value)
		for _, r := range *ia.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
				out[i] = st.Val
			}
		}
	}
	for _, x := range out {
		if x == nil {
			return nil, false
		}
	}
	return out, true
}

// A genText is code that a generator contains as text.
type genText struct {
	fn   string // Declarations, Snippets or BodyTmpl
	text string
	pos  token.Pos
	data types.Type
}

// genTexts finds the texts that functions give to package gen.
func (c *Ctx) genTexts(fns []*ssa.Function) (out []genText, problem string, at token.Pos) {
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := call.Common().StaticCallee()
				if g == nil || fnPkg(g) == nil || fnPkg(g).Path() != genPkg {
					continue
				}
				args := call.Common().Args
				var texts []ssa.Value
				var data ssa.Value
				switch g.Name() {
				case "Declarations":
					texts, ok = varargs(args[0])
				case "Snippets":
					data = args[0]
					texts, ok = varargs(args[1])
				case "BodyTmpl":
					data = args[2]
					texts = args[1:2]
				default:
					continue
				}
				if !ok {
					return nil, "code that is given as a list that is not written out", in.Pos()
				}
				for _, t := range texts {
					ss, ok := c.constTexts(t)
					if !ok {
						return nil, "code that is not a constant of the generator", in.Pos()
					}
					for _, s := range ss {
						gt := genText{fn: g.Name(), text: s, pos: in.Pos()}
						if mi, ok := data.(*ssa.MakeInterface); ok {
							gt.data = mi.X.Type()
						}
						out = append(out, gt)
					}
				}
			}
		}
	}
	return out, "", token.NoPos
}

// stdPkgs: what generated code calls the packages it uses.
var stdPkgs = map[string]string{
	"base64": "encoding/base64", "bytes": "bytes", "bufio": "bufio", "context": "context", "xml": "encoding/xml",
	"errors": "errors", "fmt": "fmt", "hex": "encoding/hex", "http": "net/http", "io": "io", "ioutil": "io/ioutil",
	"mime": "mime", "os": "os", "sort": "sort", "strconv": "strconv", "strings": "strings", "sync": "sync",
	"time": "time", "url": "net/url", "unicode": "unicode", "utf8": "unicode/utf8", "httputil": "net/http/httputil",
}

// genFile makes a source file of declarations.
func genFile(pkg string, decls string) ([]byte, error) {
	src := "package " + pkg + "\n" + decls
	f, err := parser.ParseFile(token.NewFileSet(), "", src, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	use := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok && stdPkgs[id.Name] != "" {
				use[id.Name] = true
			}
		}
		return true
	})
	// names that the file declares are no packages
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.Field:
			for _, id := range n.Names {
				delete(use, id.Name+"?")
			}
		}
		return true
	})
	var names []string
	for n := range use {
		names = append(names, n)
	}
	sort.Strings(names)
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n", pkg)
	for _, n := range names {
		fmt.Fprintf(&b, "import %q\n", stdPkgs[n])
	}
	for _, n := range names {
		// used, whatever hides it
		switch n {
		case "bytes", "bufio", "strings":
			fmt.Fprintf(&b, "var _ %s.Reader\n", n)
		case "context":
			fmt.Fprintf(&b, "var _ context.Context\n")
		case "xml":
			fmt.Fprintf(&b, "var _ xml.Name\n")
		case "time":
			fmt.Fprintf(&b, "var _ time.Time\n")
		}
	}
	b.WriteString(decls)
	return b.Bytes(), nil
}

// A tfield is a message part in the representative data.
type tfield map[string]interface{}

type regime struct {
	name    string
	in, out int
	inType  bool
	outType bool
	method  string
}

var regimes = []regime{
	{"Op1", 1, 1, false, false, "POST"},
	{"Op2", 2, 2, false, false, "POST"},
	{"Op3", 0, 0, false, false, "GET"},
	{"Op4", 2, 0, true, false, "POST"},
	{"Op5", 0, 2, false, true, "PUT"},
	{"Op6", 3, 3, true, true, "POST"},
	{"Op7", 1, 2, false, true, "POST"},
	{"Op8", 0, 1, false, false, "a \"quoted\" one"},
}

func (r regime) data() (d map[string]interface{}, args, returns []string) {
	d = map[string]interface{}{
		"MsgName":    xml.Name{Space: "urn:s \"`", Local: "msg"},
		"InputName":  xml.Name{Space: "urn:s", Local: "in"},
		"OutputName": xml.Name{Space: "urn:s", Local: "out"},
		"Method":     r.method, "Address": "http://host/\"\n", "SOAPAction": "urn:\\action\"",
		"InputType": "", "ReturnType": "",
	}
	if r.inType {
		d["InputType"] = r.name + "Input"
	}
	if r.outType {
		d["ReturnType"] = r.name + "Output"
	}
	var ins, outs, rets []tfield
	for i := 0; i < r.in; i++ {
		arg := fmt.Sprintf("arg%d", i)
		f := tfield{"Name": fmt.Sprintf("In%d", i), "Type": fmt.Sprintf("InT%d", i), "PublicType": fmt.Sprintf("InP%d", i),
			"XMLName": xml.Name{Space: "urn:f", Local: fmt.Sprintf("in%d", i)}, "InputArg": arg}
		if r.inType {
			f["InputArg"] = fmt.Sprintf("v.In%d", i)
		} else {
			args = append(args, fmt.Sprintf("%s InP%d", arg, i))
		}
		ins = append(ins, f)
	}
	if r.inType {
		args = []string{"v " + r.name + "Input"}
	}
	for i := 0; i < r.out; i++ {
		f := tfield{"Name": fmt.Sprintf("Out%d", i), "Type": fmt.Sprintf("OutT%d", i), "PublicType": fmt.Sprintf("OutT%d", i),
			"XMLName": xml.Name{Space: "urn:f", Local: fmt.Sprintf("out%d", i)}, "InputArg": ""}
		outs = append(outs, f)
		if r.outType {
			rets = append(rets, tfield{"Name": f["Name"], "Type": fmt.Sprintf("OutP%d", i), "InputArg": f["Name"], "PublicType": "", "XMLName": xml.Name{}})
		} else {
			returns = append(returns, fmt.Sprintf("OutT%d", i))
		}
	}
	if r.outType {
		returns = []string{r.name + "Output"}
	}
	returns = append(returns, "error")
	d["InputFields"], d["OutputFields"], d["ReturnFields"] = ins, outs, rets
	return d, args, returns
}

const placeholders = `
type InT0 string
type InT1 int
type InT2 []byte
type InP0 string
type InP1 int
type InP2 []byte
type OutT0 string
type OutT1 int
type OutT2 []byte
type OutP0 string
type OutP1 int
type OutP2 []byte
`

// genFuncs: what the functions of templates write, as package gen documents
// them.
var genFuncs = template.FuncMap{
	"title": func(s string) string { return s }, "split": strings.Split, "join": strings.Join,
	"sanitize": func(s string) string { return s },
	"quote":    strconv.Quote,
	"tag":      func(n xml.Name) string { return strconv.Quote(fmt.Sprintf("xml:%q", n.Space+" "+n.Local)) },
}

// fill puts representative data into the gaps of a template.
func fill(text string, data interface{}) (string, error) {
	t, err := template.New("").Funcs(genFuncs).Option("missingkey=error").Parse(text)
	if err != nil {
		return "", err
	}
	var b bytes.Buffer
	err = t.Execute(&b, data)
	return b.String(), err
}

// instances: the code of each regime.  The errors are those of texts that
// cannot be filled with the data.
func instances(texts []genText) (types map[string]string, funcs map[string]string, err error) {
	types, funcs = map[string]string{}, map[string]string{}
	for _, r := range regimes {
		d, args, returns := r.data()
		for _, t := range texts {
			switch t.fn {
			case "Snippets":
				// which of the types it declares shows in the name
				s, err := fill(t.text, d)
				if err != nil {
					return nil, nil, err
				}
				name := ""
				if f, err := parser.ParseFile(token.NewFileSet(), "", "package p\n"+s, 0); err == nil {
					for _, dl := range f.Decls {
						if g, ok := dl.(*ast.GenDecl); ok && g.Tok == token.TYPE && len(g.Specs) == 1 {
							name = g.Specs[0].(*ast.TypeSpec).Name.Name
						}
					}
				}
				if r.inType && name == r.name+"Input" || r.outType && name == r.name+"Output" {
					types[name] += s + "\n"
				} else if r.inType && r.outType {
					return nil, nil, fmt.Errorf("a text that declares neither the type of the arguments nor that of the results: %s", cutMid(s, 100))
				}
			case "BodyTmpl":
				s, err := fill(t.text, d)
				if err != nil {
					return nil, nil, err
				}
				ctx := append([]string{"ctx context.Context"}, args...)
				funcs[r.name] += fmt.Sprintf("func (c *Client) %s(%s) (%s) {\n%s\n}\n", r.name, strings.Join(ctx, ", "), strings.Join(returns, ", "), s)
			}
		}
	}
	for _, r := range regimes {
		if funcs[r.name] == "" || r.inType && types[r.name+"Input"] == "" || r.outType && types[r.name+"Output"] == "" {
			return nil, nil, fmt.Errorf("the text of a function, or of the types of its arguments and results, was not found")
		}
	}
	return types, funcs, nil
}

func init() {
	needSpec["C23"] = true
	checks["C23"] = checkC23
}

func checkC23(c *Ctx) {
	c.Explanation = "The text of the generated client and of the functions of a service, constants of package wsdlgen, is evaluated; the gaps are filled with placeholders for messages with and without arguments and results, wrapped in structures or not. The result is type-checked, brought into a normal form and compared with the reference definitions in analyzer/spec. The functions that fill the gaps are compared with reference definitions in the same way."
	c.Assumptions = []string{
		"the reference definitions in analyzer/spec/zzclient and analyzer/spec/wsdlgen state the property",
		"encoding/xml, net/http and the other packages that generated code uses do as documented",
		"the functions of templates do as documented (package gen)",
	}
	c.clientCode(true)
	const W, WG = modPath + "/wsdl.", modPath + "/wsdlgen."
	pr := "*" + WG + "printer"
	c.steps("request", "wsdlgen", "wsdlgen", []step{
		{"ExposeType", "the type in which callers see a type", func(f *ssa.Function) bool {
			return sigIs(f, []string{"string"}, "string") && c.usesConsts(f, []string{"time.Time", "[]byte"})
		}, []string{"ExposeType"}, false, true, false},
		{"PartType", "the Go type of a message part", sig([]string{pr, W + "Part"}, "string", "error"), []string{"PartType"}, false, true, false},
		{"OpArgs", "the names, types, address, method and action of a call", sig([]string{pr, "string", "string", W + "Operation", W + "Message", W + "Message"}, WG+"opArgs", "error"), []string{"OpArgs", "OpArgs2"}, false, true, false},
		{"Operation", "the declarations of an operation", sig([]string{pr, W + "Port", W + "Operation"}, "error"), []string{"Operation"}, true, true, false},
	}, c.callPrims)
}

// callPrims: functions are built field by field; what their bodies and the
// declarations of structures say is decided by clientCode.
func (c *Ctx) callPrims(e *gvf) {
	c.codePrims(e)
	old := e.prim
	var role func(v gval) gval
	role = func(v gval) gval {
		d, ok := v.(*dd)
		if ok && d.leaf != nil && d.leaf.op == "seq" {
			var vs []gval
			for _, x := range d.leaf.vals {
				vs = append(vs, role(x))
			}
			return e.leaf(e.termv("seq", d.leaf.s, d.leaf.typ, d.leaf.args, vs))
		}
		if !ok || d.leaf == nil || d.leaf.op != "const" || d.leaf.c.Kind() != constant.String {
			return v
		}
		if r := textRole(constant.StringVal(d.leaf.c)); r != "" {
			return e.leaf(e.strc(r))
		}
		return v
	}
	e.prim = func(fr *gframe, in ssa.CallInstruction, f *ssa.Function, args []gval, st *gstate, g *dd) (gval, bool) {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == modPath+"/xsdgen" && f.Parent() == nil {
			var as []gval
			for _, a := range args {
				as = append(as, e.contentRead(a, st, 2))
			}
			return fr.queryCall(fname(f), sigOf(in), as), true
		}
		if fnPkg(f) == nil || fnPkg(f).Path() != genPkg || f.Parent() != nil {
			return old(fr, in, f, args, st, g)
		}
		switch {
		case f.Name() == "BodyTmpl" && len(args) == 3:
			pt := f.Params[0].Type().Underlying().(*types.Pointer).Elem()
			str, ok := pt.Underlying().(*types.Struct)
			for i := 0; ok && i < str.NumFields(); i++ {
				if str.Field(i).Name() != "body" {
					continue
				}
				at := e.lift1(args[0], func(x *gterm) *dd {
					return e.leaf(e.term("fa", "/"+fieldKeyOf(str, i), types.NewPointer(types.Typ[types.String]), x))
				})
				e.store(asDD(at), types.Typ[types.String], fr.queryCall("template", types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.String])), false), []gval{role(args[1]), e.content(args[2], st, 3)}), st)
				return args[0], true
			}
		case f.Name() == "Snippets":
			var as []gval
			for _, a := range args {
				as = append(as, role(e.content(a, st, 3)))
			}
			return fr.queryCall(fname(f), sigOf(in), as), true
		case resultIs(f, "*"+genPkg+".Function"):
			return nil, false
		}
		return old(fr, in, f, args, st, g)
	}
}

// textRole names a text by what it declares.
func textRole(text string) string {
	r := regimes[5]
	d, _, _ := r.data()
	s, err := fill(text, d)
	if err != nil {
		return ""
	}
	switch {
	case strings.Contains(s, "type "+r.name+"Input "):
		return "the type of the arguments"
	case strings.Contains(s, "type "+r.name+"Output "):
		return "the type of the results"
	case strings.Contains(s, "ctx"):
		return "the body of the function"
	}
	return ""
}

// clientCode compares the generated code itself.
func (c *Ctx) clientCode(compare bool) {
	var fns []*ssa.Function
	for _, f := range c.Funcs {
		if p := fnPkg(f); p != nil && p.Path() == modPath+"/wsdlgen" {
			fns = append(fns, f)
		}
	}
	texts, problem, at := c.genTexts(fns)
	if problem != "" {
		c.undecided("client", "wsdlgen", at, "%s", problem)
		return
	}
	var specFns []*ssa.Function
	for _, m := range c.Spec["wsdlgen"].Members {
		if f, ok := m.(*ssa.Function); ok {
			specFns = append(specFns, f)
		}
	}
	ref, problem, _ := c.genTexts(specFns)
	if problem != "" {
		panic("reference definitions of package wsdlgen: " + problem)
	}
	c2 := &Ctx{Prop: c.Prop, Tier: c.Tier, Repo: c.Repo, Verif: c.Verif, Seed: c.Seed, Start: time.Now(), Fset: token.NewFileSet()}
	c2.Extra = map[string][]byte{}
	pos := map[string]token.Pos{}
	for _, t := range texts {
		if pos[t.fn] == token.NoPos {
			pos[t.fn] = t.pos
		}
	}
	var decls []string
	for _, t := range texts {
		if t.fn == "Declarations" {
			decls = append(decls, t.text)
		}
	}
	client, err := genFile("zzclient", strings.Join(decls, "\n"))
	if err != nil {
		c.Bad("client", "client", pos["Declarations"], "the client is not valid Go: %v", err)
		return
	}
	if client, err = clientNames(client); err != nil {
		c.Bad("client", "client", pos["Declarations"], "the client is not valid Go: %v", err)
		return
	}
	c2.Extra[filepath.Join(c.Repo, "zzclient", "client.go")] = client
	for i, tx := range [][]genText{texts, ref} {
		ts, fs, err := instances(tx)
		if err != nil {
			if i == 1 {
				panic("reference definitions of package wsdlgen: " + err.Error())
			}
			c.undecided("operation", "code of operations", pos["BodyTmpl"], "%v", err)
			return
		}
		var b strings.Builder
		b.WriteString(placeholders)
		for _, r := range regimes {
			b.WriteString(ts[r.name+"Input"])
			b.WriteString(ts[r.name+"Output"])
			b.WriteString(fs[r.name])
		}
		src, err := genFile("zzclient", b.String())
		if err != nil {
			c.Bad("operation", "code of operations", pos["BodyTmpl"], "the code of operations is not valid Go: %v", err)
			return
		}
		dir := []string{"zzclient", "zzspec/zzclient"}[i]
		c2.Extra[filepath.Join(c.Repo, dir, "ops.go")] = src
	}
	if err := c2.load(); err != nil {
		c.Bad("client", "type check", pos["Declarations"], "the generated code is not valid: %v", err)
		return
	}
	impl, spec := c2.SSA[modPath+"/zzclient"], c2.Spec["zzclient"]
	if impl == nil || spec == nil {
		panic("the generated code was not loaded")
	}
	c.OK("type-check", "wsdlgen", pos["Declarations"], "the client and the functions of %d operations type-check", len(regimes))
	if !compare {
		return
	}

	prep := func(e *gvf) {
		e.plain = true
		old := e.prim
		e.prim = func(fr *gframe, in ssa.CallInstruction, f *ssa.Function, args []gval, st *gstate, g *dd) (gval, bool) {
			if isExchange(f) && fr.fn != f {
				v, nst := fr.opaqueCall("do", sigOf(in), args, st, g)
				*st = *nst
				return v, true
			}
			if old != nil {
				return old(fr, in, f, args, st, g)
			}
			return nil, false
		}
	}
	methods := func(p *ssa.Package) map[string]*ssa.Function {
		out := map[string]*ssa.Function{}
		n := p.Type("Client")
		if n == nil {
			return out
		}
		ms := types.NewMethodSet(types.NewPointer(n.Type()))
		for i := 0; i < ms.Len(); i++ {
			f := c2.Prog.MethodValue(ms.At(i))
			if f == nil || f.Blocks == nil {
				continue
			}
			if isExchange(f) {
				out["do"] = f
			} else {
				out[f.Name()] = f
			}
		}
		return out
	}
	mi, ms := methods(impl), methods(spec)
	names := []string{"do"}
	for _, r := range regimes {
		names = append(names, r.name)
	}
	for _, n := range names {
		rule, p := "operation", pos["BodyTmpl"]
		if n == "do" {
			rule, p = "client", pos["Declarations"]
		}
		if mi[n] == nil {
			c.undecided(rule, n, p, "there is no such method of the client")
			continue
		}
		e := newGVF(c2)
		prep(e)
		a, err := e.norm(mi[n], nil)
		if err != nil {
			c.undecided(rule, n, p, "%v", err)
			continue
		}
		b, err := e.norm(ms[n], nil)
		if err != nil {
			panic("reference definition " + n + ": " + err.Error())
		}
		d := e.diff(a, b)
		if d != "" && e.diff(e.equals(a), e.equals(b)) == "" {
			d = ""
		}
		if d == "" {
			c.OK(rule, n, p, "same normal form as the reference definition")
			continue
		}
		if s := newShape(e.hardShapes(a), []map[string]bool{e.hardShapes(b)}); s != "" {
			c.undecided(rule, n, p, "%s (%s)", s, d)
			continue
		}
		c.Bad(rule, n, p, "differs from the reference definition: %s", d)
	}
	// the shapes of what is sent and read
	for _, n := range []string{"Client", "soapEnvelope"} {
		a, b := impl.Type(n), spec.Type(n)
		if a == nil {
			c.undecided("envelope", n, pos["Declarations"], "there is no such type")
			continue
		}
		c.sameShape("envelope", n, pos["Declarations"], a.Type(), b.Type())
	}
	for _, r := range regimes {
		for _, suffix := range []string{"Input", "Output"} {
			if b := spec.Type(r.name + suffix); b != nil {
				if a := impl.Type(r.name + suffix); a != nil {
					c.sameShape("operation", r.name+suffix, pos["Snippets"], a.Type(), b.Type())
				}
			}
		}
	}
}

func (c *Ctx) sameShape(rule, n string, p token.Pos, a, b types.Type) {
	if x, y := typeKey(a.Underlying()), typeKey(b.Underlying()); x != y {
		c.Bad(rule, "type "+n, p, "is %s, not %s", cutMid(x, 300), cutMid(y, 300))
	} else {
		c.OK(rule, "type "+n, p, "is %s", cutMid(x, 100))
	}
}

// isExchange: the method that sends a request and reads the response.
func isExchange(f *ssa.Function) bool {
	s := f.Signature
	if s.Recv() == nil || s.Params().Len() != 6 || s.Results().Len() != 1 || !strings.HasSuffix(typeKey(s.Recv().Type()), "/zzclient.Client") {
		return false
	}
	for i, k := range []string{"context.Context", "string", "string", "string", "interface{}", "interface{}"} {
		if typeKey(s.Params().At(i).Type()) != k {
			return false
		}
	}
	return true
}

// clientNames gives the type of the envelope its name in the reference.
func clientNames(src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "", src, 0)
	if err != nil {
		return nil, err
	}
	name := ""
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, s := range g.Specs {
			if ts, ok := s.(*ast.TypeSpec); ok {
				if st, ok := ts.Type.(*ast.StructType); ok {
					for _, fl := range st.Fields.List {
						if fl.Tag != nil && strings.Contains(fl.Tag.Value, " Envelope") {
							name = ts.Name.Name
						}
					}
				}
			}
		}
	}
	if name != "" && name != "soapEnvelope" {
		ast.Inspect(f, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok && id.Name == name {
				id.Name = "soapEnvelope"
			}
			return true
		})
	}
	var b bytes.Buffer
	if err := printer.Fprint(&b, fset, f); err != nil {
		return nil, err
	}
	return format.Source(b.Bytes())
}
