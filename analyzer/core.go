package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "aqwari.net/xml"

// An Obligation is one instance of a rule, at one construct of the
// repository. Rule and Construct identify it; neither mentions a line.
type Obligation struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Pos       string `json:"pos"`
	Detail    string `json:"detail,omitempty"`
	Bad       bool   `json:"violated,omitempty"`
	Known     bool   `json:"known_finding,omitempty"`
}

type Ctx struct {
	Prop, Tier, Repo, Verif string
	Seed                    int
	Start                   time.Time

	Fset   *token.FileSet
	Pkgs   []*packages.Package
	ByPath map[string]*packages.Package
	Prog   *ssa.Program
	SSA    map[string]*ssa.Package
	Funcs  []*ssa.Function // every function with a body in the repository

	Spec  map[string]*ssa.Package // reference definitions, by directory
	Extra map[string][]byte       // files that are analysed with the repository

	noret     map[*ssa.Function]bool
	callerIdx *callerIndex

	Obls        []Obligation
	Undecided   []Obligation
	quiet       bool
	Explanation string
	Assumptions []string
	Analysed    map[string]interface{}
}

func (c *Ctx) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	ps := c.Fset.Position(p)
	if rel, err := filepath.Rel(c.Repo, ps.Filename); err == nil && !strings.HasPrefix(rel, "..") {
		ps.Filename = rel
	}
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}

func (c *Ctx) OK(rule, construct string, p token.Pos, format string, args ...interface{}) {
	c.Obls = append(c.Obls, Obligation{Rule: rule, Construct: construct, Pos: c.pos(p), Detail: fmt.Sprintf(format, args...)})
}

func (c *Ctx) Bad(rule, construct string, p token.Pos, format string, args ...interface{}) {
	c.Obls = append(c.Obls, Obligation{Rule: rule, Construct: construct, Pos: c.pos(p), Detail: fmt.Sprintf(format, args...), Bad: true})
}

// Min requires that the rule matched at least n constructs; a rule that
// matches nothing holds vacuously.
func (c *Ctx) Min(rule string, n int) {
	have := 0
	for _, o := range c.Obls {
		if o.Rule == rule {
			have++
		}
	}
	if have < n {
		c.Bad(rule, "instance count", token.NoPos, "the rule matched %d constructs; at least %d were confirmed by hand", have, n)
	}
}

func (c *Ctx) Note(key string, v interface{}) {
	if c.Analysed == nil {
		c.Analysed = make(map[string]interface{})
	}
	c.Analysed[key] = v
}

// load type-checks every package of the repository and builds its SSA form.
func (c *Ctx) load() error {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles |
			packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes |
			packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedExportFile,
		Dir:   c.Repo,
		Fset:  c.Fset,
		Tests: false,
	}
	if needSpec[c.Prop] {
		cfg.Overlay = specOverlay(c.Repo)
		for name, data := range c.Extra {
			cfg.Overlay[name] = data
		}
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return err
	}
	if len(pkgs) == 0 {
		return fmt.Errorf("no packages in %s", c.Repo)
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return fmt.Errorf("%s: %v", p.PkgPath, e)
		}
		if p.Types == nil || p.IllTyped {
			return fmt.Errorf("%s: could not be type-checked", p.PkgPath)
		}
	}
	var specs []*packages.Package
	for _, p := range pkgs {
		if strings.HasPrefix(p.PkgPath, specPath) {
			specs = append(specs, p)
		} else {
			c.Pkgs = append(c.Pkgs, p)
		}
	}
	sort.Slice(c.Pkgs, func(i, j int) bool { return c.Pkgs[i].PkgPath < c.Pkgs[j].PkgPath })
	c.ByPath = make(map[string]*packages.Package)
	prog, spkgs := ssautil.Packages(append(append([]*packages.Package{}, c.Pkgs...), specs...), ssa.InstantiateGenerics)
	c.Prog = prog
	c.SSA = make(map[string]*ssa.Package)
	for i, p := range c.Pkgs {
		c.ByPath[p.PkgPath] = p
		if spkgs[i] == nil {
			return fmt.Errorf("%s: no SSA form", p.PkgPath)
		}
		c.SSA[p.PkgPath] = spkgs[i]
	}
	c.Spec = make(map[string]*ssa.Package)
	for i, p := range specs {
		if sp := spkgs[len(c.Pkgs)+i]; sp != nil {
			c.Spec[strings.TrimPrefix(p.PkgPath, specPath)] = sp
		}
	}
	prog.Build()
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks != nil && c.inRepo(fn) && !c.inSpec(fn) {
			c.Funcs = append(c.Funcs, fn)
		}
	}
	sort.Slice(c.Funcs, func(i, j int) bool {
		a, b := c.Funcs[i], c.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	return nil
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg()
		}
		if o := f.Origin(); o != nil && o != f {
			return fnPkg(o)
		}
	}
	return nil
}

func (c *Ctx) inRepo(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

// generated or demonstration packages that only exercise the others
func auxPkg(path string) bool {
	return strings.HasPrefix(path, modPath+"/gentests") || strings.HasPrefix(path, modPath+"/wsdlgen/examples")
}

// fname names a function without its line.
func fname(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	s := fn.RelString(nil)
	return strings.ReplaceAll(s, modPath+"/", "")
}

func (c *Ctx) pkg(rel string) *ssa.Package { return c.SSA[modPath+"/"+rel] }

// Func finds a package-level function by name ("Parse") or a method
// ("(*Config).GenCode" written as "Config.GenCode"). It returns nil when the
// function does not exist.
func (c *Ctx) Func(rel, name string) *ssa.Function {
	p := c.pkg(rel)
	if p == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		tn := p.Type(name[:i])
		if tn == nil {
			return nil
		}
		for _, t := range []types.Type{types.NewPointer(tn.Type()), tn.Type()} {
			ms := c.Prog.MethodSets.MethodSet(t)
			if sel := ms.Lookup(p.Pkg, name[i+1:]); sel != nil {
				fn := c.Prog.MethodValue(sel)
				if fn != nil && fn.Synthetic != "" {
					if o, ok := fn.Object().(*types.Func); ok {
						if d := c.Prog.FuncValue(o); d != nil {
							return d
						}
					}
				}
				return fn
			}
		}
		return nil
	}
	return p.Func(name)
}

// MustFunc is Func for exported API; a missing anchor is a violation of the
// check's premises.
func (c *Ctx) MustFunc(rel, name string) *ssa.Function {
	fn := c.Func(rel, name)
	if fn == nil {
		c.Bad("anchor", rel+"."+name, token.NoPos, "the exported function this property is about was not found")
	}
	return fn
}

type known struct{ prop, key, text string }

func (c *Ctx) knownFindings() []known {
	var res []known
	data, err := os.ReadFile(filepath.Join(c.Verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, line := range strings.Split(string(data), "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, "finding: ") {
			continue
		}
		var k known
		rest := strings.TrimPrefix(line, "finding: ")
		fmt.Sscanf(rest, "property=%s", &k.prop)
		if i := strings.Index(rest, "key=["); i >= 0 {
			if j := strings.Index(rest[i:], "]"); j >= 0 {
				k.key = rest[i+5 : i+j]
				k.text = strings.TrimSpace(rest[i+j+1:])
			}
		}
		res = append(res, k)
	}
	return res
}

func (c *Ctx) finish() int {
	knowns := c.knownFindings()
	bad := 0
	used := map[string]bool{}
	for i := range c.Obls {
		o := &c.Obls[i]
		if !o.Bad {
			continue
		}
		for _, k := range knowns {
			if k.prop == c.Prop && k.key == o.Rule+"|"+o.Construct {
				o.Known = true
				if !used[k.key] {
					used[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Prop, k.text)
				}
			}
		}
		if !o.Known {
			bad++
		}
	}
	rules := map[string]map[string]int{}
	for _, o := range c.Obls {
		if rules[o.Rule] == nil {
			rules[o.Rule] = map[string]int{}
		}
		rules[o.Rule]["instances"]++
		if o.Bad && !o.Known {
			rules[o.Rule]["violated"]++
		}
		if o.Known {
			rules[o.Rule]["known_findings"]++
		}
	}
	cov := map[string]interface{}{
		"explanation":       c.Explanation,
		"rule_instances":    rules,
		"obligations_total": len(c.Obls),
		"obligations":       c.Obls,
		"undecided":         append([]Obligation{}, c.Undecided...),
		"functions_loaded":  len(c.Funcs),
		"packages_loaded":   len(c.Pkgs),
	}
	for k, v := range c.Analysed {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(c.Start).Seconds(), "violations": bad,
		"assumptions": c.Assumptions,
	}
	if c.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(c.Verif, "evidence")
	os.MkdirAll(dir, 0777)
	if err := os.WriteFile(filepath.Join(dir, c.Prop+".json"), append(data, '\n'), 0666); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	var names []string
	for r := range rules {
		names = append(names, r)
	}
	sort.Strings(names)
	for _, r := range names {
		fmt.Printf("rule %-28s instances %4d violated %d known %d\n", r, rules[r]["instances"], rules[r]["violated"], rules[r]["known_findings"])
	}
	if bad == 0 {
		fmt.Printf("OK property=%s obligations=%d wall=%.1fs\n", c.Prop, len(c.Obls), time.Since(c.Start).Seconds())
		return 0
	}
	replay := filepath.Join(dir, c.Prop+".violation.txt")
	var b strings.Builder
	for _, o := range c.Obls {
		if o.Bad && !o.Known {
			line := fmt.Sprintf("%s: [%s] %s: %s\n", o.Pos, o.Rule, o.Construct, o.Detail)
			b.WriteString(line)
			fmt.Print(line)
		}
	}
	os.WriteFile(replay, []byte(b.String()), 0666)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, replay)
	return 1
}
