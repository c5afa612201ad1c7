package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var errorType = types.Universe.Lookup("error").Type()

func isError(t types.Type) bool { return types.Identical(t, errorType) }

// implementsError reports whether a value of type t can be an error.
func implementsError(t types.Type) bool {
	iface := errorType.Underlying().(*types.Interface)
	return types.Implements(t, iface) || types.Implements(types.NewPointer(t), iface)
}

func pkgRel(fn *ssa.Function) string {
	p := fnPkg(fn)
	if p == nil {
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(p.Path(), modPath), "/")
}

// errIndex is the index of the last result of sig if it is an error, or -1.
func errIndex(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && isError(sig.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

// libFuncs lists the functions of the library and command packages.
func (c *Ctx) libFuncs() []*ssa.Function {
	var res []*ssa.Function
	for _, fn := range c.Funcs {
		p := fnPkg(fn)
		if p == nil || auxPkg(p.Path()) || fn.Synthetic != "" {
			continue
		}
		res = append(res, fn)
	}
	return res
}

// ordinal names the construct numbered n of its kind in a function.
type counter map[string]int

func (k counter) name(s string) string {
	k[s]++
	if k[s] == 1 {
		return s
	}
	return s + " #" + itoa(k[s])
}

func calleeName(common *ssa.CallCommon) string {
	if common.IsInvoke() {
		return "(" + strings.ReplaceAll(types.TypeString(common.Value.Type(), nil), modPath+"/", "") + ")." + common.Method.Name()
	}
	if f := common.StaticCallee(); f != nil {
		if f.Object() != nil {
			if tf, ok := f.Object().(*types.Func); ok {
				return strings.ReplaceAll(tf.FullName(), modPath+"/", "")
			}
		}
		return fname(f)
	}
	if b, ok := common.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return "function value"
}

// noReturn computes the functions of the repository that never return
// normally, and recognizes those of the standard library.
func (c *Ctx) noReturnFuncs() map[*ssa.Function]bool {
	if c.noret != nil {
		return c.noret
	}
	c.noret = map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, fn := range c.Funcs {
			if c.noret[fn] || len(fn.Blocks) == 0 {
				continue
			}
			if fn.Recover != nil {
				continue
			}
			if !c.canReturn(fn) {
				c.noret[fn] = true
				changed = true
			}
		}
	}
	return c.noret
}

func (c *Ctx) canReturn(fn *ssa.Function) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Return:
				return true
			case *ssa.Call:
				if c.isNoReturn(&in.Call) {
					return false
				}
			}
		}
		for _, s := range b.Succs {
			if visit(s) {
				return true
			}
		}
		return false
	}
	return visit(fn.Blocks[0])
}

var extNoReturn = map[string]bool{
	"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true,
	"log.Panic": true, "log.Panicf": true, "log.Panicln": true, "runtime.Goexit": true,
	"(*log.Logger).Fatal": true, "(*log.Logger).Fatalf": true, "(*log.Logger).Fatalln": true,
	"(*log.Logger).Panic": true, "(*log.Logger).Panicf": true, "(*log.Logger).Panicln": true,
}

func (c *Ctx) isNoReturn(common *ssa.CallCommon) bool {
	if f := common.StaticCallee(); f != nil {
		if c.noret[f] {
			return true
		}
	}
	return extNoReturn[calleeName(common)]
}

func constString(v ssa.Value) (string, bool) {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(k.Value), true
}

func constInt(v ssa.Value) (int64, bool) {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return 0, false
	}
	n, exact := constant.Int64Val(k.Value)
	return n, exact
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

// callers lists the static call sites of every function of the repository,
// and whether the function is also used as a value.
type callerIndex struct {
	sites    map[*ssa.Function][]ssa.CallInstruction
	escapes  map[*ssa.Function]bool
	closures map[*ssa.Function]*ssa.MakeClosure
}

func (c *Ctx) callers() *callerIndex {
	if c.callerIdx != nil {
		return c.callerIdx
	}
	ix := &callerIndex{map[*ssa.Function][]ssa.CallInstruction{}, map[*ssa.Function]bool{}, map[*ssa.Function]*ssa.MakeClosure{}}
	for _, fn := range c.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callv *ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok {
					common := ci.Common()
					if !common.IsInvoke() {
						callv = &common.Value
					}
					if f := common.StaticCallee(); f != nil {
						ix.sites[f] = append(ix.sites[f], ci)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					ix.closures[mc.Fn.(*ssa.Function)] = mc
				}
				for _, op := range in.Operands(nil) {
					if op == callv {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok {
						if _, isMC := in.(*ssa.MakeClosure); !isMC {
							ix.escapes[f] = true
						}
					}
				}
			}
		}
	}
	c.callerIdx = ix
	return ix
}

// chaTargets finds the methods of the repository that an interface call may
// reach.
func (c *Ctx) chaTargets(common *ssa.CallCommon) []*ssa.Function {
	iface, ok := common.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var res []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, p := range c.Pkgs {
		sp := c.SSA[p.PkgPath]
		for _, m := range sp.Members {
			tn, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if types.IsInterface(t) || !types.Implements(t, iface) {
					continue
				}
				sel := c.Prog.MethodSets.MethodSet(t).Lookup(common.Method.Pkg(), common.Method.Name())
				if sel == nil {
					continue
				}
				if fn := c.Prog.MethodValue(sel); fn != nil && fn.Blocks != nil {
					if o, ok := fn.Object().(*types.Func); ok && fn.Synthetic != "" {
						if d := c.Prog.FuncValue(o); d != nil {
							fn = d
						}
					}
					if !seen[fn] {
						seen[fn] = true
						res = append(res, fn)
					}
				}
			}
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].String() < res[j].String() })
	return res
}

func isExportedFn(fn *ssa.Function) bool {
	if fn.Object() == nil {
		return false
	}
	if !fn.Object().Exported() {
		return false
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Exported()
		}
	}
	return true
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// instrIndex is the position of an instruction in its block.
func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// before reports whether a is executed before b whenever b is executed.
func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return instrIndex(a) < instrIndex(b)
	}
	return a.Block().Dominates(b.Block())
}

// reachesInstr reports whether b may be executed after a.
func reachesInstr(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() && instrIndex(a) < instrIndex(b) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Block().Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b.Block() {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

// namedType returns the named type of the repository that t is, or points to.
func repoNamed(t types.Type) *types.Named {
	t = deref(t)
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == modPath || strings.HasPrefix(n.Obj().Pkg().Path(), modPath+"/")) {
		return n
	}
	return nil
}

func typeIs(t types.Type, full string) bool {
	n, ok := deref(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path()+"."+n.Obj().Name() == full
}

var _ = token.NoPos

// reachFrom: the functions of the repository that a call of f can reach,
// including function literals and functions whose value is taken.
func (c *Ctx) reachFrom(fs ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && c.inRepo(f) {
			seen[f] = true
			work = append(work, f)
		}
	}
	for _, f := range fs {
		add(f)
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, t := range c.targets(ci.Common()) {
						add(t)
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
					}
				}
			}
		}
	}
	return seen
}

// callsItself: directly, or through function literals and helpers.
func (c *Ctx) callsItself(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				for _, t := range c.targets(ci.Common()) {
					if t == f || c.reachFrom(t)[f] {
						return true
					}
				}
			}
		}
	}
	return false
}

// namedType finds a declared type of the repository.
func (c *Ctx) namedType(rel, name string) types.Type {
	if p := c.pkg(rel); p != nil {
		if t := p.Type(name); t != nil {
			return t.Type()
		}
	}
	return nil
}

func (c *Ctx) targets(common *ssa.CallCommon) []*ssa.Function {
	if common.IsInvoke() {
		return c.chaTargets(common)
	}
	if f := common.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	return nil
}

// pkgFuncs: the declared functions and methods of a package.
func (c *Ctx) pkgFuncs(rel string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.Funcs {
		if f.Parent() == nil && f.Synthetic == "" && pkgRel(f) == rel {
			out = append(out, f)
		}
	}
	return out
}

// structOfType: the struct that t, or what t points to, is.
func structOfType(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}
