package main

// C07: which files are touched.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C07"] = checkC07 }

// Packages whose functions neither read nor write anything outside the
// process's memory and the readers and writers they are given. A package
// that is not listed here, or below with the members that may be used, may
// not be used at all.
var purePkgs = map[string]bool{
	"bytes": true, "errors": true, "go/ast": true, "go/token": true, "go/constant": true, "go/format": true, "go/printer": true, "go/scanner": true,
	"regexp": true, "regexp/syntax": true, "sort": true, "strconv": true, "strings": true, "unicode": true, "unicode/utf8": true,
	"unicode/utf16": true, "encoding/xml": true, "encoding/base64": true, "encoding/hex": true, "encoding": true, "encoding/json": true, "encoding/binary": true,
	"io": true, "math": true, "math/bits": true, "math/big": true, "reflect": true, "path": true, "bufio": true, "container/heap": true, "container/list": true,
	"container/ring": true, "context": true, "hash": true, "hash/fnv": true, "hash/crc32": true, "sync": true, "sync/atomic": true, "text/tabwriter": true,
	"text/scanner": true, "text/template/parse": true, "net/url": true, "golang.org/x/net/html/charset": true, "slices": true, "maps": true, "cmp": true, "iter": true,
	"html": true, "crypto/sha256": true, "crypto/sha1": true, "crypto/md5": true, "golang.org/x/text/encoding": true, "golang.org/x/text/transform": true,
}

// Members of other packages that may be used, and where.
var someOf = map[string]map[string]string{
	"fmt": {"Errorf": "", "Sprintf": "", "Sprint": "", "Sprintln": "", "Fprintf": "", "Fprint": "", "Fprintln": "", "Stringer": "", "Formatter": "", "State": "",
		"GoStringer": "", "Sscanf": "", "Sscan": "", "Sscanln": "", "Append": "", "Appendf": "", "Appendln": "",
		"Printf": "cmd", "Print": "cmd", "Println": "cmd"},
	"time": {"Parse": "", "Time": "", "Duration": "", "RFC3339": "", "Month": "", "UTC": "", "Date": "", "Format": "", "RFC3339Nano": "", "ParseInLocation": "",
		"ParseDuration": "", "Second": "", "Minute": "", "Hour": "", "Location": "", "FixedZone": "", "Weekday": "", "Millisecond": "", "Nanosecond": ""},
	"text/template": {"New": "", "Must": "", "Template": "", "FuncMap": "", "HTMLEscapeString": "", "JSEscapeString": "", "ExecError": ""},
	"path/filepath": {"Base": "", "Clean": "", "Dir": "", "Ext": "", "FromSlash": "", "ToSlash": "", "IsAbs": "", "Join": "", "Rel": "", "Split": "", "SplitList": "",
		"VolumeName": "", "Separator": "", "Match": "", "Abs": "gen"},
	"log": {"Logger": "gen", "New": "gen", "Printf": "gen", "Print": "gen", "Println": "gen", "SetFlags": "cmd", "SetPrefix": "cmd",
		"Fatal": "cmd", "Fatalf": "cmd", "Fatalln": "cmd", "LstdFlags": "gen"},
	"flag":                       {"NewFlagSet": "gen", "ExitOnError": "gen", "ContinueOnError": "gen", "PanicOnError": "gen", "FlagSet": "gen", "Value": "gen", "Flag": "gen", "ErrHelp": "gen", "*": "cmd"},
	"os":                         {"Args": "gen", "Stderr": "gen", "Stdout": "cmd", "Exit": "cmd", "ReadFile": "files", "WriteFile": "files", "FileMode": "files", "ModePerm": "files"},
	"io/ioutil":                  {"ReadFile": "files", "WriteFile": "files", "ReadAll": "", "Discard": "", "NopCloser": ""},
	"go/parser":                  {"ParseFile": "", "ParseExpr": "", "ParseExprFrom": "", "ParseComments": "", "Mode": "", "AllErrors": "", "SkipObjectResolution": ""},
	"golang.org/x/tools/imports": {"Process": "gen", "Options": "gen"},
	"runtime":                    {"Error": ""},
	"runtime/debug":              {"Stack": ""},
	"go/types":                   {"Universe": "", "Unalias": ""},
}

func placeOK(place, rel string) bool {
	cmd := strings.HasPrefix(rel, "cmd/")
	gen := rel == "xsdgen" || rel == "wsdlgen" || strings.HasPrefix(rel, "internal/") || cmd
	switch place {
	case "":
		return true
	case "cmd":
		return cmd
	case "gen":
		return gen
	case "files":
		return rel == "xsdgen" || rel == "wsdlgen" || cmd
	}
	return false
}

func checkC07(c *Ctx) {
	c.Explanation = "Who-may-call: every use of a member of another package, in every non-test file, is resolved through the type checker and must be on the " +
		"list of members without side effects, or be allowed in its package. Provenance: the path of every file read is traced backwards, " +
		"through variables, slices, fields, parameters and all callers, to arguments of exported functions, arguments of the command or locations of imports, " +
		"the latter only under a test of the setting that FollowImports sets. The path of every file written is traced to the output flag, the data to the " +
		"result of formatting, and no path from a failed step reaches the write."
	c.Assumptions = []string{
		"golang.org/x/tools/imports.Process, given the source text, only consults the Go installation and the package directory to resolve imports.",
		"The listed packages perform no input or output of their own.",
	}
	nuse := 0
	names := counter{}
	for _, p := range c.Pkgs {
		if auxPkg(p.PkgPath) {
			continue
		}
		rel := strings.TrimPrefix(p.PkgPath, modPath+"/")
		var ids []*ast.Ident
		for id := range p.TypesInfo.Uses {
			ids = append(ids, id)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i].Pos() < ids[j].Pos() })
		for _, id := range ids {
			obj := p.TypesInfo.Uses[id]
			if b, ok := obj.(*types.Builtin); ok && (b.Name() == "print" || b.Name() == "println") && !strings.HasPrefix(rel, "cmd/") {
				c.Bad("member without side effects", rel+" uses "+b.Name(), id.Pos(), "writes to standard error")
				continue
			}
			if obj.Pkg() == nil {
				continue
			}
			path := obj.Pkg().Path()
			if path == modPath || strings.HasPrefix(path, modPath+"/") {
				continue
			}
			if _, ok := obj.(*types.PkgName); ok {
				continue
			}
			nuse++
			if purePkgs[path] {
				continue
			}
			tbl, ok := someOf[path]
			if !ok {
				c.Bad("member without side effects", names.name(rel+" uses "+path+"."+obj.Name()), id.Pos(), "package %s is not on the list of packages without side effects", path)
				continue
			}
			name := obj.Name()
			if obj.Parent() != obj.Pkg().Scope() {
				// a method or field: of a type that may be used?
				name = recvTypeName(obj)
				if name == "" {
					continue
				}
				if path == "text/template" && (obj.Name() == "ParseFiles" || obj.Name() == "ParseGlob" || obj.Name() == "ParseFS") {
					c.Bad("member without side effects", names.name(rel+" uses "+path+"."+obj.Name()), id.Pos(), "reads files")
					continue
				}
				if path == "time" {
					continue
				}
			}
			place, ok := tbl[name]
			if !ok {
				place, ok = tbl["*"]
			}
			if !ok {
				c.Bad("member without side effects", names.name(rel+" uses "+path+"."+name), id.Pos(), "%s.%s is not on the list of members without side effects", path, name)
				continue
			}
			if !placeOK(place, rel) {
				c.Bad("member without side effects", names.name(rel+" uses "+path+"."+name), id.Pos(), "%s.%s may not be used in this package", path, name)
				continue
			}
		}
		c.OK("member without side effects", rel, token.NoPos, "all uses of other packages' members are on the list")
	}
	c.Note("uses_resolved", nuse)
	c.Min("member without side effects", 8)

	t := &c07{c: c, names: names}
	t.follow = c.optionField("xsdgen", "FollowImports")
	for _, fn := range c.libFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				common := ci.Common()
				switch calleeName(common) {
				case "os.ReadFile", "io/ioutil.ReadFile":
					t.read(fn, ci)
				case "os.WriteFile", "io/ioutil.WriteFile":
					t.write(fn, ci)
				case "go/parser.ParseFile":
					t.source(fn, ci, common.Args[2])
				case "golang.org/x/tools/imports.Process":
					t.source(fn, ci, common.Args[1])
				}
				// used as a value
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && f != common.Value {
						if n := fname(f); n == "os.ReadFile" || n == "io/ioutil.ReadFile" || n == "os.WriteFile" || n == "io/ioutil.WriteFile" {
							c.Bad("file function is called directly", names.name(fname(fn)+" passes "+n), in.Pos(), "the path cannot be traced")
						}
					}
				}
			}
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if f, ok := st.Val.(*ssa.Function); ok {
						if n := fname(f); strings.HasSuffix(n, ".ReadFile") || strings.HasSuffix(n, ".WriteFile") {
							c.Bad("file function is called directly", names.name(fname(fn)+" stores "+n), in.Pos(), "the path cannot be traced")
						}
					}
				}
			}
		}
	}
	c.Min("file read is named by the caller", 2)
	c.Min("output is complete and named by the caller", 2)
	c.Min("source text is given", 2)
}

func recvTypeName(obj types.Object) string {
	switch o := obj.(type) {
	case *types.Func:
		sig := o.Type().(*types.Signature)
		if sig.Recv() == nil {
			return ""
		}
		t := deref(sig.Recv().Type())
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name()
		}
		return ""
	}
	return ""
}

// optionField finds the Config field that the option constructor name sets
// to its argument.
func (c *Ctx) optionField(rel, name string) *types.Var {
	fn := c.MustFunc(rel, name)
	if fn == nil {
		return nil
	}
	for _, an := range fn.AnonFuncs {
		for _, b := range an.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				v := st.Val
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
					v = u.X
				}
				if _, ok := v.(*ssa.FreeVar); ok {
					return fieldVar(fa)
				}
			}
		}
	}
	c.Bad("anchor", rel+"."+name, fn.Pos(), "the setting that this option sets was not found")
	return nil
}

func fieldVar(fa *ssa.FieldAddr) *types.Var {
	st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	return st.Field(fa.Field)
}

func fieldVar2(f *ssa.Field) *types.Var {
	st, ok := f.X.Type().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	return st.Field(f.Field)
}

type c07 struct {
	c      *Ctx
	names  counter
	follow *types.Var
}

func (t *c07) source(fn *ssa.Function, ci ssa.CallInstruction, src ssa.Value) {
	name := t.names.name(fname(fn) + " calls " + calleeName(ci.Common()))
	switch s := src.(type) {
	case *ssa.MakeInterface:
		if _, isConst := s.X.(*ssa.Const); !isConst || s.X.Type().Underlying() == types.Typ[types.String] {
			t.c.OK("source text is given", name, ci.Pos(), "parses %s, not a file", s.X.Type())
			return
		}
	case *ssa.Call:
		switch calleeName(&s.Call) {
		case "(*bytes.Buffer).Bytes", "bytes.Join", "bytes.TrimSpace":
			// A nil slice would make imports.Process read the file.
			if t.written(fn, s, ci) {
				t.c.OK("source text is given", name, ci.Pos(), "the source is in a buffer that has been written to")
				return
			}
		}
	case *ssa.Convert:
		t.c.OK("source text is given", name, ci.Pos(), "the source is a string")
		return
	case *ssa.Extract:
		t.c.OK("source text is given", name, ci.Pos(), "the source is the result of a call")
		return
	case *ssa.Phi, *ssa.Parameter:
		mayNil := false
		var visit func(v ssa.Value, seen map[ssa.Value]bool)
		visit = func(v ssa.Value, seen map[ssa.Value]bool) {
			if seen[v] {
				return
			}
			seen[v] = true
			if isNilConst(v) {
				mayNil = true
			}
			if p, ok := v.(*ssa.Phi); ok {
				for _, e := range p.Edges {
					visit(e, seen)
				}
			}
		}
		visit(src, map[ssa.Value]bool{})
		if !mayNil {
			t.c.OK("source text is given", name, ci.Pos(), "the source is a value of the caller")
			return
		}
	}
	t.c.Bad("source text is given", name, ci.Pos(), "without the source text, this reads a file")
}

// written reports whether something is written to the buffer before the call.
func (t *c07) written(fn *ssa.Function, bytesCall *ssa.Call, ci ssa.CallInstruction) bool {
	if calleeName(&bytesCall.Call) != "(*bytes.Buffer).Bytes" {
		return true
	}
	buf := bytesCall.Call.Args[0]
	var refs []ssa.Instruction
	if buf.Referrers() != nil {
		refs = *buf.Referrers()
	}
	for _, r := range refs {
		switch r := r.(type) {
		case *ssa.MakeInterface:
			for _, r2 := range *r.Referrers() {
				if call, ok := r2.(*ssa.Call); ok && before(call, ci) {
					return true
				}
			}
		case *ssa.Call:
			if r != bytesCall && strings.HasPrefix(r.Call.Value.Name(), "Write") && before(r, ci) {
				return true
			}
			if f := r.Call.StaticCallee(); f != nil && t.c.inRepo(f) && before(r, ci) {
				return true
			}
		}
	}
	return false
}

// An origin is where a file name comes from.
type origin struct {
	kind string // caller, args, import, flag, const, result, other
	text string
	at   ssa.Instruction
	call *ssa.Call
}

// origins traces a string, or the elements of a slice of strings, backwards.
func (t *c07) origins(v ssa.Value, seen map[ssa.Value]bool, res *[]origin) {
	if seen[v] {
		return
	}
	seen[v] = true
	add := func(k, text string, at ssa.Instruction) { *res = append(*res, origin{kind: k, text: text, at: at}) }
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return // nil slice
		}
		add("const", v.String(), nil)
	case *ssa.Phi:
		for _, e := range v.Edges {
			t.origins(e, seen, res)
		}
	case *ssa.Parameter:
		t.param(v, seen, res)
	case *ssa.FreeVar:
		if mc := t.c.callers().closures[v.Parent()]; mc != nil {
			for i, fv := range v.Parent().FreeVars {
				if fv == v {
					t.origins(mc.Bindings[i], seen, res)
				}
			}
			return
		}
		add("other", "captured variable "+v.Name(), nil)
	case *ssa.UnOp:
		if v.Op != token.MUL {
			add("other", v.String(), v)
			return
		}
		t.load(v, v.X, seen, res)
	case *ssa.Extract:
		if call, ok := v.Tuple.(*ssa.Call); ok {
			t.result(call, v.Index, seen, res)
			return
		}
		if nx, ok := v.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				t.origins(rg.X, seen, res)
				return
			}
		}
		add("other", v.String(), v)
	case *ssa.Call:
		t.result(v, 0, seen, res)
	case *ssa.Slice:
		if v.Type().String() == "[]byte" && (v.Low != nil || v.High != nil) {
			add("other", "part of a slice", v)
			return
		}
		t.origins(v.X, seen, res)
	case *ssa.Alloc:
		t.stores(v, seen, res)
	case *ssa.MakeSlice:
		t.stores(v, seen, res)
	case *ssa.ChangeType:
		t.origins(v.X, seen, res)
	case *ssa.Convert:
		t.origins(v.X, seen, res)
	case *ssa.Field:
		t.field(fieldVar2(v), v, seen, res)
	case *ssa.Index:
		t.origins(v.X, seen, res)
	case *ssa.IndexAddr:
		t.origins(v.X, seen, res)
	case *ssa.FieldAddr:
		t.field(fieldVar(v), v, seen, res)
	default:
		in, _ := v.(ssa.Instruction)
		add("other", v.String(), in)
	}
}

func (t *c07) load(at *ssa.UnOp, addr ssa.Value, seen map[ssa.Value]bool, res *[]origin) {
	switch a := addr.(type) {
	case *ssa.IndexAddr:
		t.origins(a.X, seen, res)
	case *ssa.FieldAddr:
		t.field(fieldVar(a), at, seen, res)
	case *ssa.Global:
		if a.Pkg != nil && a.Pkg.Pkg.Path() == "os" && a.Name() == "Args" {
			*res = append(*res, origin{kind: "args", at: at})
			return
		}
		*res = append(*res, origin{kind: "other", text: "variable " + a.Name(), at: at})
	default:
		t.origins(addr, seen, res)
	}
}

// stores collects what is stored through an address or into a slice.
func (t *c07) stores(v ssa.Value, seen map[ssa.Value]bool, res *[]origin) {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == v {
				t.origins(r.Val, seen, res)
			}
		case *ssa.IndexAddr:
			for _, r2 := range *r.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == r {
					t.origins(st.Val, seen, res)
				}
			}
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == v {
					t.stores(r.Fn.(*ssa.Function).FreeVars[i], seen, res)
				}
			}
		case *ssa.Call:
			if strings.HasSuffix(calleeName(&r.Call), "flag.FlagSet).StringVar") || calleeName(&r.Call) == "flag.StringVar" {
				n := len(r.Call.Args)
				if s, ok := constString(r.Call.Args[n-3]); ok {
					*res = append(*res, origin{kind: "flag", text: s, at: r})
				}
			} else if r.Call.StaticCallee() == nil || !isBuiltinCall(&r.Call) {
				for _, a := range r.Call.Args {
					if a == v {
						if _, isPtr := v.Type().Underlying().(*types.Pointer); isPtr {
							*res = append(*res, origin{kind: "other", text: "passed to " + calleeName(&r.Call), at: r})
						}
					}
				}
			}
		}
	}
}

func isBuiltinCall(c *ssa.CallCommon) bool { _, ok := c.Value.(*ssa.Builtin); return ok }

func (t *c07) field(fv *types.Var, at ssa.Value, seen map[ssa.Value]bool, res *[]origin) {
	in, _ := at.(ssa.Instruction)
	if fv == nil {
		*res = append(*res, origin{kind: "other", text: "field", at: in})
		return
	}
	if fv.Name() == "Location" && fv.Pkg().Path() == modPath+"/xsd" {
		*res = append(*res, origin{kind: "import", at: in})
		return
	}
	found := false
	for _, fn := range t.c.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldVar(fa) == fv {
						found = true
						t.origins(st.Val, seen, res)
					}
				}
			}
		}
	}
	if !found {
		*res = append(*res, origin{kind: "other", text: "field " + fv.Name(), at: in})
	}
}

func (t *c07) param(v *ssa.Parameter, seen map[ssa.Value]bool, res *[]origin) {
	fn := v.Parent()
	idx := -1
	for i, p := range fn.Params {
		if p == v {
			idx = i
		}
	}
	ix := t.c.callers()
	n := 0
	for _, site := range ix.sites[fn] {
		if site.Common().StaticCallee() == fn {
			if p := fnPkg(site.Parent()); p != nil && auxPkg(p.Path()) {
				continue
			}
			n++
			t.origins(site.Common().Args[idx], seen, res)
		}
	}
	if isExportedFn(fn) && !strings.HasPrefix(pkgRel(fn), "internal/") {
		*res = append(*res, origin{kind: "caller", text: fname(fn) + " " + v.Name()})
		n++
	}
	if ix.escapes[fn] || ix.closures[fn] != nil && n == 0 {
		*res = append(*res, origin{kind: "other", text: "argument of a function value " + fname(fn)})
	}
	if n == 0 && !ix.escapes[fn] && ix.closures[fn] == nil {
		// unused function
		*res = append(*res, origin{kind: "caller", text: "no caller"})
	}
}

func (t *c07) result(call *ssa.Call, idx int, seen map[ssa.Value]bool, res *[]origin) {
	common := &call.Call
	name := calleeName(common)
	switch name {
	case "append":
		for _, a := range common.Args {
			t.origins(a, seen, res)
		}
		return
	case "(*flag.FlagSet).Args", "(*flag.FlagSet).Arg", "flag.Args", "flag.Arg":
		*res = append(*res, origin{kind: "args", at: call})
		return
	case "(*flag.FlagSet).String":
		s, _ := constString(common.Args[1])
		*res = append(*res, origin{kind: "flag", text: s, at: call})
		return
	case "flag.String":
		s, _ := constString(common.Args[0])
		*res = append(*res, origin{kind: "flag", text: s, at: call})
		return
	case "path/filepath.Clean", "path/filepath.FromSlash", "path/filepath.Dir", "path/filepath.Abs", "strings.TrimSpace", "strings.TrimPrefix", "strings.TrimSuffix", "path.Clean", "path.Dir":
		t.origins(common.Args[0], seen, res)
		return
	case "path/filepath.Join", "path.Join":
		t.origins(common.Args[0], seen, res)
		return
	}
	if f := common.StaticCallee(); f != nil && t.c.inRepo(f) && f.Blocks != nil {
		if t.formats(f) {
			*res = append(*res, origin{kind: "formatted", at: call, call: call})
			return
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				t.origins(r.Results[idx], seen, res)
			}
		}
		return
	}
	switch name {
	case "golang.org/x/tools/imports.Process", "go/format.Source":
		*res = append(*res, origin{kind: "formatted", at: call, call: call})
		return
	}
	*res = append(*res, origin{kind: "other", text: "result of " + name, at: call})
}

// formats reports whether the first result of f is always formatted source,
// or f has failed.
func (t *c07) formats(f *ssa.Function) bool {
	res := f.Signature.Results()
	if res.Len() != 2 || errIndex(f.Signature) != 1 || res.At(0).Type().String() != "[]byte" {
		return false
	}
	good := false
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		var os []origin
		t.origins(r.Results[0], map[ssa.Value]bool{}, &os)
		for _, o := range os {
			if o.kind != "formatted" {
				return false
			}
			good = true
		}
	}
	return good
}

func (t *c07) read(fn *ssa.Function, ci ssa.CallInstruction) {
	const rule = "file read is named by the caller"
	name := t.names.name(fname(fn) + " reads a file")
	var os []origin
	t.origins(ci.Common().Args[0], map[ssa.Value]bool{}, &os)
	kinds := map[string]int{}
	for _, o := range os {
		kinds[o.kind]++
		switch o.kind {
		case "caller", "args":
		case "import":
			if !t.guarded(o.at, map[*ssa.Function]bool{}) {
				t.c.Bad(rule, name, ci.Pos(), "the location of an import, taken at %s, is read whether or not following imports is enabled", t.c.pos(o.at.Pos()))
				return
			}
		default:
			at := ""
			if o.at != nil {
				at = " at " + t.c.pos(o.at.Pos())
			}
			t.c.Bad(rule, name, ci.Pos(), "the path may be %s %s%s, which the caller did not name", o.kind, o.text, at)
			return
		}
	}
	if kinds["caller"]+kinds["args"] == 0 {
		t.c.Bad(rule, name, ci.Pos(), "the path does not come from the caller (%v)", kinds)
		return
	}
	t.c.OK(rule, name, ci.Pos(), "origins of the path: %v", kinds)
}

// guarded reports whether an instruction is only executed when following
// imports is enabled.
func (t *c07) guarded(in ssa.Instruction, seen map[*ssa.Function]bool) bool {
	if t.follow == nil || in == nil {
		return false
	}
	if t.guardedIn(in) {
		return true
	}
	fn := in.Parent()
	if seen[fn] {
		return true
	}
	seen[fn] = true
	if isExportedFn(fn) {
		return false
	}
	ix := t.c.callers()
	if mc := ix.closures[fn]; mc != nil {
		return t.guarded(mc, seen)
	}
	if ix.escapes[fn] || len(ix.sites[fn]) == 0 {
		return false
	}
	for _, s := range ix.sites[fn] {
		if !t.guarded(s, seen) {
			return false
		}
	}
	return true
}

func (t *c07) guardedIn(in ssa.Instruction) bool {
	for _, b := range in.Parent().Blocks {
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		want, ok := t.followTest(ifi.Cond)
		if !ok {
			continue
		}
		succ := b.Succs[0]
		if !want {
			succ = b.Succs[1]
		}
		other := b.Succs[1]
		if !want {
			other = b.Succs[0]
		}
		if succ != other && len(succ.Preds) == 1 && succ.Dominates(in.Block()) {
			return true
		}
		// the other branch leaves for good: everything dominated by the
		// test and not reachable from the other branch
		if b.Dominates(in.Block()) && b != in.Block() && !reachesBlock(other, in.Block(), b) {
			return true
		}
	}
	return false
}

func reachesBlock(from, to, avoid *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{avoid: true}
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if visit(s) {
				return true
			}
		}
		return false
	}
	return visit(from)
}

// followTest recognizes a test of the setting: the branch value for which it
// is enabled.
func (t *c07) followTest(v ssa.Value) (bool, bool) {
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.NOT {
			w, ok := t.followTest(v.X)
			return !w, ok
		}
		if v.Op == token.MUL {
			if fa, ok := v.X.(*ssa.FieldAddr); ok && fieldVar(fa) == t.follow {
				return true, true
			}
		}
	case *ssa.Field:
		if fieldVar2(v) == t.follow {
			return true, true
		}
	case *ssa.Call:
		// a predicate that returns the setting
		if f := v.Call.StaticCallee(); f != nil && t.c.inRepo(f) && len(f.Blocks) == 1 {
			if r, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
				return t.followTest(r.Results[0])
			}
		}
	}
	return false, false
}

func (t *c07) write(fn *ssa.Function, ci ssa.CallInstruction) {
	const rule = "output is complete and named by the caller"
	name := t.names.name(fname(fn) + " writes a file")
	var os []origin
	t.origins(ci.Common().Args[0], map[ssa.Value]bool{}, &os)
	for _, o := range os {
		if o.kind == "flag" && o.text == "o" {
			continue
		}
		t.c.Bad(rule, name, ci.Pos(), "the path may be %s %s instead of the output flag", o.kind, o.text)
		return
	}
	if len(os) == 0 {
		t.c.Bad(rule, name, ci.Pos(), "the path could not be traced")
		return
	}
	var ds []origin
	t.origins(ci.Common().Args[1], map[ssa.Value]bool{}, &ds)
	n := 0
	for _, o := range ds {
		if o.kind != "formatted" {
			t.c.Bad(rule, name, ci.Pos(), "the data may be %s %s instead of formatted source", o.kind, o.text)
			return
		}
		n++
	}
	if n == 0 {
		t.c.Bad(rule, name, ci.Pos(), "the data could not be traced")
		return
	}
	// no path from a failed step to the write
	if bad := t.failReaches(fn, ci); bad != "" {
		t.c.Bad(rule, name, ci.Pos(), "the file is written although %s failed", bad)
		return
	}
	t.c.OK(rule, name, ci.Pos(), "the path is the -o flag, the data is formatted source, and no path from a failed step leads here")
}

// failReaches looks for a call in fn that can fail and still lead to the
// write, and for writes in functions called with the data of a failed call.
func (t *c07) failReaches(fn *ssa.Function, w ssa.CallInstruction) string {
	e := newErrflow(t.c)
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || in == w.(ssa.Instruction) {
				continue
			}
			idx := errIndex(call.Call.Signature())
			if idx < 0 || isErrCtor(&call.Call) {
				continue
			}
			q := &query{e: e, fn: fn}
			hit := false
			q.accept = func(in ssa.Instruction, s *efState) bool {
				if in == w.(ssa.Instruction) {
					hit = true
					return true
				}
				return false
			}
			q.atReturn = func(*ssa.Return, *efState) bool { return true }
			s := &efState{map[ssa.Value]fact{}, map[cellKey]fact{}}
			for _, v := range extracts(call, idx) {
				s.vals[v] = fNonNil
			}
			q.run(b, i+1, s)
			if hit || q.over {
				return fmt.Sprintf("%s (%s)", calleeName(&call.Call), t.c.pos(call.Pos()))
			}
		}
	}
	// a helper that is handed the data: its callers must not call it after a
	// failure either
	if !isExportedFn(fn) {
		for _, site := range t.c.callers().sites[fn] {
			if bad := t.failReaches(site.Parent(), site); bad != "" {
				return bad
			}
		}
	}
	return ""
}
