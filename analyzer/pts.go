package main

// A flow-insensitive, field-sensitive, inclusion-based points-to analysis
// of the repository's SSA form, used to decide which memory a function may
// write. The memory an entry point's caller hands in is modelled by regions:
// one abstract object for each type of thing that may be reached from the
// argument.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type region struct {
	label     string
	protected bool
	objs      map[string]*pobj
}

type pobj struct {
	id    int
	label string
	reg   *region // symbolic contents
	fn    *ssa.Function
	box   types.Type // boxed value of an interface
	prot  bool       // made by a package initializer
}

type loc struct {
	o    *pobj
	p    string
	clip bool // the slice has no spare capacity
}

type locset map[loc]struct{}

type vkey struct {
	v ssa.Value
	p string
}
type hkey struct {
	o *pobj
	p string
}

type ptsWrite struct {
	fn   *ssa.Function
	pos  token.Pos
	what string
	to   loc
}

type pts struct {
	c       *Ctx
	V       map[vkey]locset
	H       map[hkey]locset
	reach   map[*ssa.Function]bool
	order   []*ssa.Function
	sites   map[interface{}]*pobj
	panics  locset
	changed bool
	nextID  int
	ext     *region
	writes  map[string]ptsWrite // final pass
	record  bool
	calls   int
	cur     *ssa.Function
	initFns map[*ssa.Function]bool
	initReg *region
	nprot   int
}

func newPts(c *Ctx) *pts {
	return &pts{c: c, V: map[vkey]locset{}, H: map[hkey]locset{}, reach: map[*ssa.Function]bool{},
		sites: map[interface{}]*pobj{}, panics: locset{}, ext: &region{label: "external", objs: map[string]*pobj{}},
		writes: map[string]ptsWrite{}}
}

func newRegion(label string, protected bool) *region {
	return &region{label: label, protected: protected, objs: map[string]*pobj{}}
}

const maxPath = 40

func trimPath(p string) string {
	if len(p) > maxPath {
		return p[:maxPath]
	}
	return p
}

// leaves lists the paths of the parts of a value of type t that can refer to
// memory.
func leaves(t types.Type) []leaf { return leavesAt(t, "", nil) }

type leaf struct {
	p string
	t types.Type
}

var leafCache = map[types.Type][]leaf{}

func leavesAt(t types.Type, p string, acc []leaf) []leaf {
	if len(p) > maxPath {
		return acc
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return append(acc, leaf{p, t})
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return append(acc, leaf{p, t})
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			acc = leavesAt(u.Field(i).Type(), fmt.Sprintf("%s.%d", p, i), acc)
		}
	case *types.Array:
		acc = leavesAt(u.Elem(), p+"[]", acc)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			acc = leavesAt(u.At(i).Type(), fmt.Sprintf("%s#%d", p, i), acc)
		}
	}
	return acc
}

func (a *pts) addV(v ssa.Value, p string, s locset) {
	k := vkey{v, p}
	m := a.V[k]
	if m == nil {
		if len(s) == 0 {
			return
		}
		m = locset{}
		a.V[k] = m
	}
	for l := range s {
		if _, ok := m[l]; !ok {
			m[l] = struct{}{}
			a.changed = true
		}
	}
}

func (a *pts) addH(k hkey, s locset) {
	k.p = trimPath(k.p)
	m := a.H[k]
	if m == nil {
		if len(s) == 0 {
			return
		}
		m = locset{}
		a.H[k] = m
	}
	for l := range s {
		if _, ok := m[l]; !ok {
			m[l] = struct{}{}
			a.changed = true
		}
	}
}

func (a *pts) site(key interface{}, label string) *pobj {
	if o, ok := a.sites[key]; ok {
		return o
	}
	a.nextID++
	o := &pobj{id: a.nextID, label: label}
	if a.initFns != nil {
		switch k := key.(type) {
		case *ssa.Global:
			o.prot = k.Pkg != nil && a.c.SSA[k.Pkg.Pkg.Path()] != nil && !auxPkg(k.Pkg.Pkg.Path())
		case ssa.Instruction:
			o.prot = a.initFns[k.Parent()] && label != "closure" && label != "box"
			if o.prot {
				o.label = label + " in " + fname(k.Parent())
			}
		}
		if o.prot {
			a.nprot++
		}
	}
	a.sites[key] = o
	a.changed = true
	return o
}

func (a *pts) symObj(r *region, key string) *pobj {
	if o, ok := r.objs[key]; ok {
		return o
	}
	a.nextID++
	o := &pobj{id: a.nextID, label: r.label + ":" + key, reg: r}
	r.objs[key] = o
	a.changed = true
	return o
}

// symPtr returns what a reference of type t into region r refers to.
func (a *pts) symPtr(r *region, t types.Type) locset {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return locset{loc{a.symObj(r, types.TypeString(u.Elem(), nil)), "", false}: {}}
	case *types.Slice:
		return locset{loc{a.symObj(r, "[]"+types.TypeString(u.Elem(), nil)), "[]", false}: {}}
	case *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return locset{loc{a.symObj(r, types.TypeString(t, nil)), "", false}: {}}
	}
	return nil
}

// get returns what the part p of value v may refer to.
func (a *pts) get(v ssa.Value, p string) locset {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Global:
		if p == "" {
			o := a.site(v, "global "+v.Name())
			if o.reg == nil && (v.Pkg == nil || a.c.SSA[v.Pkg.Pkg.Path()] == nil) {
				o.reg = a.ext
			}
			return locset{loc{o, "", false}: {}}
		}
		return nil
	case *ssa.Function:
		o := a.site(v, "func "+v.Name())
		o.fn = v
		return locset{loc{o, "", false}: {}}
	}
	return a.V[vkey{v, p}]
}

func (a *pts) copyVal(dst ssa.Value, dp string, src ssa.Value, sp string, t types.Type) {
	for _, l := range leaves(t) {
		a.addV(dst, dp+l.p, a.get(src, sp+l.p))
	}
}

func (a *pts) loadCell(o *pobj, p string, t types.Type) locset {
	res := locset{}
	for l := range a.H[hkey{o, trimPath(p)}] {
		res[l] = struct{}{}
	}
	if o.reg != nil {
		for l := range a.symPtr(o.reg, t) {
			res[l] = struct{}{}
		}
	}
	return res
}

func (a *pts) load(dst ssa.Value, dp string, locs locset, t types.Type) {
	for _, lf := range leaves(t) {
		for l := range locs {
			a.addV(dst, dp+lf.p, a.loadCell(l.o, l.p+lf.p, lf.t))
		}
	}
}

func (a *pts) write(pos token.Pos, what string, locs locset) {
	if !a.record {
		return
	}
	for l := range locs {
		if l.o.reg != nil && l.o.reg.protected {
			k := fmt.Sprintf("%s|%s|%s", fname(a.cur), what, l.o.label)
			a.writes[k] = ptsWrite{a.cur, pos, what, l}
		}
		if l.o.prot && !a.initFns[a.cur] {
			k := fmt.Sprintf("%s|%s|%s", fname(a.cur), what, l.o.label)
			a.writes[k] = ptsWrite{a.cur, pos, what, l}
		}
	}
}

func (a *pts) store(locs locset, src ssa.Value, sp string, t types.Type) {
	for _, lf := range leaves(t) {
		s := a.get(src, sp+lf.p)
		for l := range locs {
			a.addH(hkey{l.o, l.p + lf.p}, s)
			if l.o.reg != nil {
				// handed to code outside of the repository, which may call it
				for x := range s {
					if x.o.fn != nil || x.o.box != nil {
						a.callbackLoc(nil, x, nil)
					}
				}
			}
		}
	}
}

func (a *pts) enter(fn *ssa.Function) {
	if fn == nil || fn.Blocks == nil || a.reach[fn] {
		return
	}
	a.reach[fn] = true
	a.order = append(a.order, fn)
	a.changed = true
}

// entry makes fn reachable, with parameter i referring to regions[i]; a nil
// region stands for unprotected memory.
func (a *pts) entry(fn *ssa.Function, regions map[int]*region) {
	a.enter(fn)
	for i, p := range fn.Params {
		r := regions[i]
		if r == nil {
			r = a.ext
		}
		for _, lf := range leaves(p.Type()) {
			a.addV(p, lf.p, a.symPtr(r, lf.t))
		}
	}
}

func (a *pts) solve() {
	for n := 0; n < 200; n++ {
		a.changed = false
		for i := 0; i < len(a.order); i++ {
			a.function(a.order[i])
		}
		if !a.changed {
			a.record = true
			for i := 0; i < len(a.order); i++ {
				a.function(a.order[i])
			}
			return
		}
	}
	panic("points-to analysis did not reach a fixed point")
}

func (a *pts) sortedWrites() []ptsWrite {
	var keys []string
	for k := range a.writes {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var res []ptsWrite
	for _, k := range keys {
		res = append(res, a.writes[k])
	}
	return res
}

func (a *pts) function(fn *ssa.Function) {
	a.cur = fn
	for _, b := range fn.Blocks {
		for _, instr := range b.Instrs {
			a.instr(fn, instr)
		}
	}
}

func clippedSlice(s *ssa.Slice) bool {
	if s.Max == nil {
		return false
	}
	if s.High == nil {
		return false
	}
	return sameLen(s.High, s.Max, s.X)
}

// sameLen reports whether two values are the same, or the length of the same
// slice.
func sameLen(x, y ssa.Value, of ssa.Value) bool {
	if x == y {
		return true
	}
	lx, ly := lenArg(x), lenArg(y)
	if lx != nil && ly != nil && sameLoad(lx, ly) {
		return true
	}
	if cx, ok := x.(*ssa.Const); ok {
		if cy, ok := y.(*ssa.Const); ok {
			return cx.Value != nil && cy.Value != nil && cx.Value.ExactString() == cy.Value.ExactString()
		}
	}
	return false
}

func lenArg(v ssa.Value) ssa.Value {
	if call, ok := v.(*ssa.Call); ok {
		if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return call.Call.Args[0]
		}
	}
	return nil
}

// sameLoad reports whether two values are the same, or loads of the same
// field of the same object.
func sameLoad(x, y ssa.Value) bool {
	if x == y {
		return true
	}
	ux, ok1 := x.(*ssa.UnOp)
	uy, ok2 := y.(*ssa.UnOp)
	if ok1 && ok2 && ux.Op == token.MUL && uy.Op == token.MUL {
		return sameAddr(ux.X, uy.X)
	}
	fx, ok1 := x.(*ssa.Field)
	fy, ok2 := y.(*ssa.Field)
	if ok1 && ok2 {
		return fx.Field == fy.Field && sameLoad(fx.X, fy.X)
	}
	return false
}

func sameAddr(x, y ssa.Value) bool {
	if x == y {
		return true
	}
	fx, ok1 := x.(*ssa.FieldAddr)
	fy, ok2 := y.(*ssa.FieldAddr)
	if ok1 && ok2 && fx.Field == fy.Field {
		return sameAddr(fx.X, fy.X) || sameLoad(fx.X, fy.X)
	}
	return false
}

func withClip(s locset, f func(bool) bool) locset {
	r := locset{}
	for l := range s {
		l.clip = f(l.clip)
		r[l] = struct{}{}
	}
	return r
}

func (a *pts) instr(fn *ssa.Function, instr ssa.Instruction) {
	switch i := instr.(type) {
	case *ssa.Alloc:
		o := a.site(i, "alloc")
		a.addV(i, "", locset{loc{o, "", false}: {}})
	case *ssa.MakeSlice:
		o := a.site(i, "make")
		a.addV(i, "", locset{loc{o, "[]", false}: {}})
	case *ssa.MakeMap, *ssa.MakeChan:
		o := a.site(i, "make")
		a.addV(i.(ssa.Value), "", locset{loc{o, "", false}: {}})
	case *ssa.MakeClosure:
		o := a.site(i, "closure")
		f := i.Fn.(*ssa.Function)
		o.fn = f
		for n, b := range i.Bindings {
			a.copyVal(f.FreeVars[n], "", b, "", b.Type())
		}
		a.addV(i, "", locset{loc{o, "", false}: {}})
	case *ssa.MakeInterface:
		o := a.site(i, "box")
		o.box = i.X.Type()
		a.store(locset{loc{o, "", false}: {}}, i.X, "", i.X.Type())
		a.addV(i, "", locset{loc{o, "", false}: {}})
	case *ssa.ChangeInterface:
		a.addV(i, "", a.get(i.X, ""))
	case *ssa.ChangeType:
		a.copyVal(i, "", i.X, "", i.Type())
	case *ssa.Convert:
		if _, ok := i.Type().Underlying().(*types.Slice); ok {
			if _, ok := i.X.Type().Underlying().(*types.Slice); ok {
				a.copyVal(i, "", i.X, "", i.Type())
			} else { // from a string
				o := a.site(i, "conversion")
				a.addV(i, "", locset{loc{o, "[]", false}: {}})
			}
		} else {
			a.copyVal(i, "", i.X, "", i.Type())
		}
	case *ssa.MultiConvert:
		a.copyVal(i, "", i.X, "", i.Type())
	case *ssa.SliceToArrayPointer:
		a.copyVal(i, "", i.X, "", i.Type())
	case *ssa.Phi:
		for _, e := range i.Edges {
			a.copyVal(i, "", e, "", i.Type())
		}
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			a.load(i, "", a.get(i.X, ""), i.Type())
		case token.ARROW:
			a.load(i, "", a.get(i.X, ""), i.Type())
		}
	case *ssa.FieldAddr:
		r := locset{}
		for l := range a.get(i.X, "") {
			r[loc{l.o, trimPath(fmt.Sprintf("%s.%d", l.p, i.Field)), false}] = struct{}{}
		}
		a.addV(i, "", r)
	case *ssa.Field:
		a.copyVal(i, "", i.X, fmt.Sprintf(".%d", i.Field), i.Type())
	case *ssa.IndexAddr:
		r := locset{}
		_, isArr := i.X.Type().Underlying().(*types.Pointer)
		for l := range a.get(i.X, "") {
			p := l.p
			if isArr {
				p += "[]"
			}
			r[loc{l.o, trimPath(p), false}] = struct{}{}
		}
		a.addV(i, "", r)
	case *ssa.Index:
		a.copyVal(i, "", i.X, "[]", i.Type())
	case *ssa.Slice:
		r := locset{}
		_, isArr := i.X.Type().Underlying().(*types.Pointer)
		clipped := clippedSlice(i)
		for l := range a.get(i.X, "") {
			p := l.p
			if isArr {
				p += "[]"
			}
			cl := clipped
			if i.High == nil && i.Max == nil && l.clip {
				cl = true
			}
			r[loc{l.o, trimPath(p), cl}] = struct{}{}
		}
		a.addV(i, "", r)
	case *ssa.Lookup:
		if m, ok := i.X.Type().Underlying().(*types.Map); ok {
			dp := ""
			if i.CommaOk {
				dp = "#0"
			}
			for l := range a.get(i.X, "") {
				for _, lf := range leaves(m.Elem()) {
					a.addV(i, dp+lf.p, a.loadCell(l.o, "v"+lf.p, lf.t))
				}
			}
		}
	case *ssa.Range:
		a.addV(i, "", a.get(i.X, ""))
	case *ssa.Next:
		if i.IsString {
			return
		}
		m := i.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		for l := range a.get(i.Iter, "") {
			for _, lf := range leaves(m.Key()) {
				a.addV(i, "#1"+lf.p, a.loadCell(l.o, "k"+lf.p, lf.t))
			}
			for _, lf := range leaves(m.Elem()) {
				a.addV(i, "#2"+lf.p, a.loadCell(l.o, "v"+lf.p, lf.t))
			}
		}
	case *ssa.Extract:
		a.copyVal(i, "", i.Tuple, fmt.Sprintf("#%d", i.Index), i.Type())
	case *ssa.TypeAssert:
		dp := ""
		if i.CommaOk {
			dp = "#0"
		}
		if _, ok := i.AssertedType.Underlying().(*types.Interface); ok {
			a.addV(i, dp, a.get(i.X, ""))
			return
		}
		for l := range a.get(i.X, "") {
			if l.o.box != nil {
				if types.Identical(l.o.box, i.AssertedType) {
					a.load(i, dp, locset{l: {}}, i.AssertedType)
				}
			} else if l.o.reg != nil {
				for _, lf := range leaves(i.AssertedType) {
					a.addV(i, dp+lf.p, a.symPtr(l.o.reg, lf.t))
				}
			}
		}
	case *ssa.Store:
		ls := a.get(i.Addr, "")
		a.write(i.Pos(), "store", ls)
		a.store(ls, i.Val, "", i.Val.Type())
	case *ssa.MapUpdate:
		ls := a.get(i.Map, "")
		a.write(i.Pos(), "map update", ls)
		m := i.Map.Type().Underlying().(*types.Map)
		for l := range ls {
			a.store(locset{loc{l.o, "k", false}: {}}, i.Key, "", m.Key())
			a.store(locset{loc{l.o, "v", false}: {}}, i.Value, "", m.Elem())
		}
	case *ssa.Send:
		a.store(a.get(i.Chan, ""), i.X, "", i.X.Type())
	case *ssa.Panic:
		for l := range a.get(i.X, "") {
			a.panics[l] = struct{}{}
		}
	case *ssa.Return:
		// bound at call sites
	case *ssa.Call:
		a.call(fn, i, &i.Call, i)
	case *ssa.Defer:
		a.call(fn, i, &i.Call, nil)
	case *ssa.Go:
		a.call(fn, i, &i.Call, nil)
	}
}

func (a *pts) callees(common *ssa.CallCommon) (fns []*ssa.Function, recv []locset) {
	if common.IsInvoke() {
		seen := map[*ssa.Function]locset{}
		for l := range a.get(common.Value, "") {
			if l.o.box == nil {
				continue
			}
			sel := a.c.Prog.MethodSets.MethodSet(l.o.box).Lookup(common.Method.Pkg(), common.Method.Name())
			if sel == nil {
				continue
			}
			m := a.c.Prog.MethodValue(sel)
			if m == nil || m.Blocks == nil {
				continue
			}
			if seen[m] == nil {
				seen[m] = locset{}
				fns = append(fns, m)
			}
			seen[m][l] = struct{}{}
		}
		for _, f := range fns {
			recv = append(recv, seen[f])
		}
		return
	}
	switch v := common.Value.(type) {
	case *ssa.Function:
		return []*ssa.Function{v}, nil
	case *ssa.MakeClosure:
		return []*ssa.Function{v.Fn.(*ssa.Function)}, nil
	case *ssa.Builtin:
		return nil, nil
	}
	seen := map[*ssa.Function]bool{}
	for l := range a.get(common.Value, "") {
		if l.o.fn != nil && !seen[l.o.fn] {
			seen[l.o.fn] = true
			fns = append(fns, l.o.fn)
		}
	}
	return fns, nil
}

func (a *pts) call(fn *ssa.Function, at ssa.Instruction, common *ssa.CallCommon, res *ssa.Call) {
	if b, ok := common.Value.(*ssa.Builtin); ok {
		a.builtin(b.Name(), at, common, res)
		return
	}
	fns, recv := a.callees(common)
	external := common.IsInvoke() && len(fns) == 0
	for n, f := range fns {
		if f.Blocks == nil {
			external = true
			continue
		}
		a.enter(f)
		if common.IsInvoke() {
			rt := f.Params[0].Type()
			a.load(f.Params[0], "", recv[n], rt)
			for k, arg := range common.Args {
				if k+1 < len(f.Params) {
					a.copyVal(f.Params[k+1], "", arg, "", arg.Type())
				}
			}
		} else {
			for k, arg := range common.Args {
				if k < len(f.Params) {
					a.copyVal(f.Params[k], "", arg, "", arg.Type())
				}
			}
		}
		if res != nil {
			a.bindResults(f, res)
		}
	}
	if len(fns) == 0 && !common.IsInvoke() {
		external = true
	}
	if external {
		a.external(fn, at, common, res)
	}
}

func (a *pts) bindResults(f *ssa.Function, res *ssa.Call) {
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if len(ret.Results) == 1 {
			a.copyVal(res, "", ret.Results[0], "", ret.Results[0].Type())
		} else {
			for k, r := range ret.Results {
				a.copyVal(res, fmt.Sprintf("#%d", k), r, "", r.Type())
			}
		}
	}
	if f.Recover != nil {
		// named results are loaded in the recover block, which is among Blocks
	}
}

func (a *pts) builtin(name string, at ssa.Instruction, common *ssa.CallCommon, res *ssa.Call) {
	switch name {
	case "append":
		base := a.get(common.Args[0], "")
		elem := common.Args[0].Type().Underlying().(*types.Slice).Elem()
		o := a.site(at, "append")
		targets := locset{loc{o, "[]", false}: {}}
		// Appending nothing returns the original slice.
		ret := locset{loc{o, "[]", false}: {}}
		var spare = locset{}
		for l := range base {
			if !l.clip {
				spare[l] = struct{}{}
			}
			ret[l] = struct{}{}
		}
		empty := false
		if len(common.Args) > 1 {
			if k, ok := common.Args[1].(*ssa.Const); ok && k.Value == nil {
				empty = true
			}
		}
		if !empty {
			a.write(at.Pos(), "append", spare)
		}
		for l := range base {
			for _, lf := range leaves(elem) {
				a.addH(hkey{o, "[]" + lf.p}, a.loadCell(l.o, l.p+lf.p, lf.t))
			}
		}
		for l := range spare {
			targets[l] = struct{}{}
		}
		if len(common.Args) > 1 {
			for src := range a.get(common.Args[1], "") {
				for _, lf := range leaves(elem) {
					s := a.loadCell(src.o, src.p+lf.p, lf.t)
					for t := range targets {
						a.addH(hkey{t.o, t.p + lf.p}, s)
					}
				}
			}
		}
		if res != nil {
			a.addV(res, "", ret)
		}
	case "copy":
		dst := a.get(common.Args[0], "")
		a.write(at.Pos(), "copy", dst)
		st, ok := common.Args[0].Type().Underlying().(*types.Slice)
		if !ok {
			return
		}
		for src := range a.get(common.Args[1], "") {
			for _, lf := range leaves(st.Elem()) {
				s := a.loadCell(src.o, src.p+lf.p, lf.t)
				for t := range dst {
					a.addH(hkey{t.o, t.p + lf.p}, s)
				}
			}
		}
	case "delete":
		a.write(at.Pos(), "map delete", a.get(common.Args[0], ""))
	case "clear":
		a.write(at.Pos(), "clear", a.get(common.Args[0], ""))
	case "recover":
		if res != nil {
			a.addV(res, "", a.panics)
		}
	case "min", "max", "len", "cap", "print", "println", "panic", "close", "real", "imag", "complex":
	case "ssa:wrapnilchk":
		if res != nil {
			a.copyVal(res, "", common.Args[0], "", res.Type())
		}
	}
}

// extWrites lists functions of the standard library that write to memory
// their arguments refer to (by index; for methods the receiver is 0).
var extWrites = map[string][]int{
	"sort.Strings": {0}, "sort.Ints": {0}, "sort.Float64s": {0}, "sort.Slice": {0}, "sort.SliceStable": {0},
	"encoding/hex.Encode": {0}, "encoding/hex.Decode": {0}, "encoding/hex.AppendEncode": {0},
	"(*encoding/base64.Encoding).Encode": {1}, "(*encoding/base64.Encoding).Decode": {1},
	"unicode/utf8.EncodeRune": {0}, "unicode/utf8.AppendRune": {0}, "unicode/utf16.AppendRune": {0},
	"strconv.AppendInt": {0}, "strconv.AppendUint": {0}, "strconv.AppendBool": {0}, "strconv.AppendFloat": {0},
	"strconv.AppendQuote": {0}, "strconv.AppendQuoteToASCII": {0}, "strconv.AppendQuoteRune": {0},
	"fmt.Append": {0}, "fmt.Appendf": {0}, "fmt.Appendln": {0},
	"math/rand.Read": {0}, "crypto/rand.Read": {0}, "math/rand.Shuffle": {},
	"io.ReadFull": {1}, "io.ReadAtLeast": {1}, "io.CopyBuffer": {2},
	"encoding/binary.Read": {2}, "(encoding/binary.littleEndian).PutUint16": {1}, "(encoding/binary.bigEndian).PutUint16": {1},
	"bytes.NewBuffer":        {0},
	"encoding/xml.Unmarshal": {1}, "(*encoding/xml.Decoder).Decode": {1}, "(*encoding/xml.Decoder).DecodeElement": {1, 2},
	"encoding/json.Unmarshal": {1}, "(*encoding/json.Decoder).Decode": {1},
	"fmt.Sscan": {1}, "fmt.Sscanf": {2}, "fmt.Sscanln": {1}, "fmt.Fscan": {1}, "fmt.Fscanf": {2},
	"(*regexp.Regexp).Expand": {1}, "(*regexp.Regexp).ExpandString": {1},
	"slices.Sort": {0}, "slices.SortFunc": {0}, "slices.SortStableFunc": {0}, "slices.Reverse": {0},
	"slices.Insert": {0}, "slices.Delete": {0}, "slices.DeleteFunc": {0}, "slices.Compact": {0}, "slices.Replace": {0},
	"maps.Copy": {0}, "maps.DeleteFunc": {0},
	"sort.Sort": {}, "sort.Stable": {},
}

// extFresh lists functions whose results share no memory with their
// arguments although the types would allow it.
var extFresh = map[string]bool{
	"bytes.Join": true, "bytes.ToLower": true, "bytes.ToUpper": true, "bytes.ToTitle": true, "bytes.Title": true, "bytes.Replace": true,
	"bytes.ReplaceAll": true, "bytes.Repeat": true, "bytes.Map": true, "bytes.Clone": true, "bytes.ToValidUTF8": true,
	"io.ReadAll": true, "io/ioutil.ReadAll": true, "(encoding/xml.StartElement).Copy": true, "(encoding/xml.CharData).Copy": true,
	"encoding/xml.CopyToken": true, "(*regexp.Regexp).ReplaceAll": true, "(*regexp.Regexp).ReplaceAllFunc": true, "(*regexp.Regexp).ReplaceAllLiteral": true,
	"golang.org/x/tools/imports.Process": true, "go/format.Source": true, "slices.Clone": true, "maps.Clone": true,
	"encoding/xml.Marshal": true, "encoding/xml.MarshalIndent": true,
}

func extName(common *ssa.CallCommon) string {
	if common.IsInvoke() {
		return "(" + types.TypeString(common.Value.Type(), nil) + ")." + common.Method.Name()
	}
	if f, ok := common.Value.(*ssa.Function); ok {
		if f.Object() != nil {
			if tf, ok := f.Object().(*types.Func); ok {
				return tf.FullName()
			}
		}
		return f.String()
	}
	return ""
}

func (a *pts) external(fn *ssa.Function, at ssa.Instruction, common *ssa.CallCommon, res *ssa.Call) {
	name := extName(common)
	args := common.Args
	if common.IsInvoke() {
		// An implementation outside of the repository. Readers write to
		// their argument; everything else is taken to keep its hands off.
		if common.Method.Name() == "Read" && len(args) == 1 {
			a.write(at.Pos(), "Read", a.get(args[0], ""))
		}
	}
	if idx, ok := extWrites[name]; ok {
		for _, k := range idx {
			if k < len(args) {
				a.write(at.Pos(), name, a.deep(args[k]))
			}
		}
	}
	if strings.HasSuffix(name, ").Read") && len(args) == 2 {
		a.write(at.Pos(), name, a.get(args[1], ""))
	}
	// Methods and functions of the repository that the callee may call
	// through its arguments.
	for _, arg := range args {
		a.callback(at, arg, args)
	}
	if res == nil {
		return
	}
	for _, lf := range leaves(res.Type()) {
		r := &region{}
		_ = r
		key := [2]interface{}{at, "result"}
		o := a.site(key, "result of "+name)
		if o.reg == nil {
			o.reg = newRegion("result of "+name, false)
		}
		a.addV(res, lf.p, a.symPtr(o.reg, lf.t))
		if extFresh[name] {
			continue
		}
		for _, arg := range args {
			for _, al := range leaves(arg.Type()) {
				if types.Identical(al.t.Underlying(), lf.t.Underlying()) {
					if _, isIface := lf.t.Underlying().(*types.Interface); isIface && lf.t.String() == "error" {
						continue
					}
					a.addV(res, lf.p, withClip(a.get(arg, al.p), func(bool) bool { return false }))
				}
			}
			// variadic arguments and boxed values
			for _, l := range a.variadic(arg) {
				_ = l
			}
		}
	}
}

func (a *pts) variadic(ssa.Value) []loc { return nil }

// deep returns what v refers to, looking into interfaces.
func (a *pts) deep(v ssa.Value) locset {
	r := locset{}
	for _, lf := range leaves(v.Type()) {
		for l := range a.get(v, lf.p) {
			if l.o.box != nil {
				for _, bl := range leaves(l.o.box) {
					for x := range a.loadCell(l.o, l.p+bl.p, bl.t) {
						r[x] = struct{}{}
					}
				}
				continue
			}
			r[l] = struct{}{}
			// elements of a variadic argument that are boxed
			for x := range a.H[hkey{l.o, l.p}] {
				if x.o.box != nil {
					for _, bl := range leaves(x.o.box) {
						for y := range a.loadCell(x.o, x.p+bl.p, bl.t) {
							r[y] = struct{}{}
						}
					}
				}
			}
		}
	}
	return r
}

// callback makes the functions that v carries, and the methods of the values
// it boxes, reachable: the external callee may call them.
func (a *pts) callback(at ssa.Instruction, v ssa.Value, args []ssa.Value) {
	for _, lf := range leaves(v.Type()) {
		for l := range a.get(v, lf.p) {
			a.callbackLoc(at, l, args)
			for x := range a.H[hkey{l.o, l.p}] { // variadic
				if x.o.box != nil || x.o.fn != nil {
					a.callbackLoc(at, x, args)
				}
			}
			for x := range a.H[hkey{l.o, "v"}] { // e.g. template.FuncMap
				if x.o.box != nil || x.o.fn != nil {
					a.callbackLoc(at, x, args)
				}
			}
		}
	}
}

func (a *pts) callbackLoc(at ssa.Instruction, l loc, args []ssa.Value) {
	if l.o.fn != nil && l.o.fn.Blocks != nil {
		a.enter(l.o.fn)
		a.feed(at, l.o.fn.Params, args)
	}
	if l.o.box == nil {
		return
	}
	if _, ok := l.o.box.Underlying().(*types.Signature); ok {
		for x := range a.H[hkey{l.o, l.p}] {
			if x.o.fn != nil && x.o.box == nil && x.o.fn.Blocks != nil {
				a.enter(x.o.fn)
				a.feed(at, x.o.fn.Params, args)
			}
		}
	}
	ms := a.c.Prog.MethodSets.MethodSet(l.o.box)
	for k := 0; k < ms.Len(); k++ {
		sel := ms.At(k)
		if !sel.Obj().Exported() {
			continue
		}
		m := a.c.Prog.MethodValue(sel)
		if m == nil || m.Blocks == nil || !a.c.inRepo(m) {
			continue
		}
		if !stdCallback[m.Name()] {
			continue
		}
		a.enter(m)
		a.load(m.Params[0], "", locset{l: {}}, m.Params[0].Type())
		a.feed(at, m.Params[1:], nil)
	}
}

// Methods the standard library calls on values passed to it as interfaces.
var stdCallback = map[string]bool{
	"Len": true, "Less": true, "Swap": true, "Error": true, "String": true, "GoString": true, "Format": true,
	"Write": true, "Read": true, "Close": true, "Set": true, "UnmarshalXML": true, "UnmarshalText": true,
	"MarshalXML": true, "MarshalText": true, "UnmarshalXMLAttr": true, "MarshalXMLAttr": true, "Token": true,
}

func (a *pts) feed(at ssa.Instruction, params []*ssa.Parameter, args []ssa.Value) {
	for _, p := range params {
		for _, lf := range leaves(p.Type()) {
			a.addV(p, lf.p, a.symPtr(a.ext, lf.t))
			for _, arg := range args {
				for _, al := range leaves(arg.Type()) {
					if types.Identical(al.t, lf.t) {
						a.addV(p, lf.p, a.get(arg, al.p))
					}
					// elements of slices given to the callee
					if sl, ok := al.t.Underlying().(*types.Slice); ok {
						for _, el := range leaves(sl.Elem()) {
							if types.Identical(el.t, lf.t) {
								for l := range a.get(arg, al.p) {
									a.addV(p, lf.p, a.loadCell(l.o, l.p+el.p, el.t))
								}
							}
						}
					}
				}
			}
		}
	}
}
