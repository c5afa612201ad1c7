package main

// C06: generation is deterministic.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C06"] = checkC06 }

// Members of other packages whose result is not determined by their arguments.
var hiddenInput = map[string]map[string]bool{
	"time":         {"Now": true, "Since": true, "Until": true, "After": true, "AfterFunc": true, "NewTimer": true, "NewTicker": true, "Tick": true, "Local": true},
	"os":           {"Getenv": true, "LookupEnv": true, "Environ": true, "ExpandEnv": true, "Getpid": true, "Getppid": true, "Hostname": true, "Getwd": true, "TempDir": true, "UserHomeDir": true, "Executable": true, "Getuid": true, "UserCacheDir": true, "UserConfigDir": true, "ReadDir": true, "Stat": true, "Lstat": true},
	"runtime":      {"NumGoroutine": true, "Caller": true, "Callers": true, "NumCPU": true, "GOMAXPROCS": true, "ReadMemStats": true, "Stack": true, "GOOS": true, "GOARCH": true, "Version": true, "NumCgoCall": true, "SetFinalizer": true},
	"reflect":      {"MapKeys": true, "MapRange": true, "MapIter": true, "Select": true, "Pointer": true, "UnsafePointer": true, "UnsafeAddr": true},
	"hash/maphash": {"*": true}, "math/rand": {"*": true}, "math/rand/v2": {"*": true}, "crypto/rand": {"*": true},
	"maps":          {"Keys": true, "Values": true, "All": true, "DeleteFunc": true},
	"unsafe":        {"*": true},
	"weak":          {"*": true},
	"path/filepath": {"Abs": true, "Glob": true},
}

func checkC06(c *Ctx) {
	c.Explanation = "Every loop over a map, and over a slice filled in map order that has not been sorted since, is found over the SSA form, following such slices through variables, " +
		"results, parameters and interface calls. The effects of its body, with the repository's functions it calls, must not depend on the order of the iterations: entries stored under " +
		"the iteration's own key, sets, counters, per-element changes, logging, or filling of a slice that is then sorted by a comparison that tells all keys apart. " +
		"No member of another package is used that reads the time, the environment, random numbers or addresses; no goroutine, select or channel is used; " +
		"and (points-to analysis) no package-level state is written after initialization."
	c.Assumptions = []string{
		"The text of error messages is outside the property: which of several errors is reported may depend on map order.",
		"Different values stored in Schema.Types have different names (they are stored under their names).",
		"User-supplied functions and loggers are deterministic. The name of the running program (os.Args[0]) and the Go installation consulted by imports.Process are inputs.",
	}
	names := counter{}
	uses := 0
	for _, p := range c.Pkgs {
		if auxPkg(p.PkgPath) {
			continue
		}
		rel := strings.TrimPrefix(p.PkgPath, modPath+"/")
		var ids []*ast.Ident
		for id := range p.TypesInfo.Uses {
			ids = append(ids, id)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i].Pos() < ids[j].Pos() })
		for _, id := range ids {
			obj := p.TypesInfo.Uses[id]
			if obj.Pkg() == nil {
				continue
			}
			if _, ok := obj.(*types.PkgName); ok {
				continue
			}
			uses++
			m := hiddenInput[obj.Pkg().Path()]
			if m == nil || !(m["*"] || m[obj.Name()]) {
				continue
			}
			if obj.Pkg().Path() == "time" && obj.Parent() != obj.Pkg().Scope() && obj.Name() != "Local" {
				continue // (time.Time).After
			}
			c.Bad("no hidden input", names.name(rel+" uses "+obj.Pkg().Path()+"."+obj.Name()), id.Pos(), "its result is not determined by the documents and options")
		}
		c.OK("no hidden input", rel, token.NoPos, "no member that reads the time, the environment, random numbers or addresses")
	}
	c.Note("uses_resolved", uses)

	o := &orderCheck{c: c, names: counter{}, queued: map[string]bool{}}
	nfn := 0
	for _, fn := range c.libFuncs() {
		nfn++
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Range:
					if _, ok := in.X.Type().Underlying().(*types.Map); ok {
						o.mapRange(in)
					}
				case *ssa.Go:
					c.Bad("no scheduling", names.name(fname(fn)+" go"), in.Pos(), "starts a goroutine")
				case *ssa.Select:
					c.Bad("no scheduling", names.name(fname(fn)+" select"), in.Pos(), "selects among channels")
				case *ssa.Call:
					cn := calleeName(&in.Call)
					if strings.HasPrefix(cn, "(*sync.Map).Range") || strings.HasPrefix(cn, "(*sync.Pool).") {
						c.Bad("no scheduling", names.name(fname(fn)+" "+cn), in.Pos(), "its order is not determined")
					}
					for _, a := range in.Call.Args {
						if s, ok := constString(a); ok && hasPointerVerb(s) && strings.HasPrefix(cn, "fmt.") {
							c.Bad("no hidden input", names.name(fname(fn)+" formats an address"), in.Pos(), "%%p in %q", s)
						}
					}
				}
			}
		}
	}
	c.OK("no scheduling", "library and commands", token.NoPos, "%d functions without goroutines, select or order of pools", nfn)
	o.drain()
	c.Note("unordered_slices_followed", o.followed)
	c.Note("loop_body_instructions", o.instrs)
	c.Min("unordered iteration", 8)

	c.packageState("no state kept between runs")
	c.configUnchanged("configuration unchanged by a run")
}

func hasPointerVerb(s string) bool {
	for i := 0; i+1 < len(s); i++ {
		if s[i] != '%' {
			continue
		}
		j := i + 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.[]*", s[j]) >= 0 {
			j++
		}
		if j < len(s) && s[j] == 'p' {
			return true
		}
		i = j
	}
	return false
}

// packageState: nothing that the exported functions reach writes to
// package-level variables, or to what their initializers made.
func (c *Ctx) packageState(rule string) {
	prot := newRegion("package state", true)
	var specs []entrySpec
	add := func(rel string) {
		p := c.pkg(rel)
		if p == nil {
			return
		}
		var ns []string
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				if m.Object() != nil && m.Object().Exported() && m.Blocks != nil {
					ns = append(ns, m.Name())
				}
			case *ssa.Type:
				if !m.Object().Exported() {
					continue
				}
				seen := map[string]bool{}
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := c.Prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := ms.At(i).Obj().(*types.Func)
						if f.Exported() && len(ms.At(i).Index()) == 1 && !types.IsInterface(m.Type()) && !seen[f.Name()] {
							seen[f.Name()] = true
							ns = append(ns, m.Name()+"."+f.Name())
						}
					}
				}
			}
		}
		sort.Strings(ns)
		for _, n := range ns {
			specs = append(specs, entrySpec{rel, n, nil})
		}
	}
	for _, rel := range []string{"xmltree", "xsd", "xsdgen", "wsdl", "wsdlgen", "internal/gen", "internal/dependency", "internal/commandline"} {
		add(rel)
	}
	inits := map[*ssa.Function]bool{}
	for _, p := range c.SSA {
		if auxPkg(p.Pkg.Path()) {
			continue
		}
		for _, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) {
				inits[f] = true
			}
		}
	}
	ng := 0
	a := c.runModRefInit(rule, specs, prot, inits, &ng)
	c.Note("package_level_variables_and_initial_objects", ng)
	if ng < 10 {
		c.Bad(rule, "instance count", token.NoPos, "found only %d package-level objects", ng)
	}
	_ = a
}

// orderCheck finds effects that depend on the order of an unordered loop.
type orderCheck struct {
	c        *Ctx
	names    counter
	queued   map[string]bool
	work     []func()
	followed int
	instrs   int
}

func (o *orderCheck) drain() {
	for n := 0; len(o.work) > 0; n++ {
		f := o.work[0]
		o.work = o.work[1:]
		f()
		if n > 2000 {
			o.c.Bad("unordered iteration", "work list", token.NoPos, "the analysis could not be completed")
			return
		}
	}
}

func (o *orderCheck) once(key string, f func()) {
	if !o.queued[key] {
		o.queued[key] = true
		o.work = append(o.work, f)
	}
}

type vclass int

const (
	cInv  vclass = iota // the same in every iteration
	cKey                // different in every iteration
	cElem               // depends on the iteration
	cFresh
)

func worse(a, b vclass) vclass {
	if a == cInv {
		return b
	}
	if b == cInv {
		return a
	}
	if a == b {
		return a
	}
	return cElem
}

// naturalLoop returns the blocks of the loop with the given header.
func naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	loop := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			work = append(work, p)
		}
	}
	if len(work) == 0 {
		return nil
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if loop[b] {
			continue
		}
		loop[b] = true
		work = append(work, b.Preds...)
	}
	return loop
}

func loopHeaders(fn *ssa.Function) []*ssa.BasicBlock {
	var res []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		for _, p := range b.Preds {
			if b.Dominates(p) {
				res = append(res, b)
				break
			}
		}
	}
	return res
}

// A uloop is one loop whose iterations come in no particular order.
type uloop struct {
	o      *orderCheck
	fn     *ssa.Function
	name   string
	pos    token.Pos
	header *ssa.BasicBlock
	loop   map[*ssa.BasicBlock]bool
	body   map[*ssa.BasicBlock]bool // with the code run when it is left early
	key    ssa.Value                // range key
	elems  map[ssa.Value]vclass
	phiOK  map[*ssa.Phi]string
	bad    bool

	effects    []string             // anything but idempotent effects
	cellsW     map[string]ssa.Value // outer cells written, by description
	collected  []ssa.Value          // values that hold what the loop collected
	fieldColl  []*ssa.Store
	writes     map[*types.Var][]fieldAccess
	reads      map[*types.Var][]fieldAccess
	mapW, mapR []mapAccess
	depth      int
	idxPhi     *ssa.Phi
}

// A mapAccess reads or writes an entry of a map that all iterations share.
type mapAccess struct {
	m, key ssa.Value
	own    bool // the entry of the iteration's own key
	del    bool
	in     ssa.Instruction
	cx     *ucx
}

type fieldAccess struct {
	obj  ssa.Value
	in   ssa.Instruction
	cx   *ucx
	cell bool
}

// A ucx is an activation analysed as part of a loop body.
type ucx struct {
	parent *ucx
	fn     *ssa.Function
	args   map[ssa.Value]vclass
	site   ssa.CallInstruction
}

func (o *orderCheck) mapRange(r *ssa.Range) {
	fn := r.Parent()
	var next *ssa.Next
	for _, ref := range *r.Referrers() {
		if n, ok := ref.(*ssa.Next); ok {
			next = n
		}
	}
	name := o.names.name(fname(fn) + " ranges over " + describeMap(r.X))
	if next == nil {
		o.c.Bad("unordered iteration", name, r.Pos(), "the loop was not recognized")
		return
	}
	l := &uloop{o: o, fn: fn, name: name, pos: r.Pos(), header: next.Block(), elems: map[ssa.Value]vclass{}}
	for _, ref := range *next.Referrers() {
		if e, ok := ref.(*ssa.Extract); ok {
			switch e.Index {
			case 1:
				l.elems[e] = cKey
				l.key = e
			case 2:
				l.elems[e] = cElem
			}
		}
	}
	l.run()
}

func describeMap(v ssa.Value) string {
	return strings.ReplaceAll(types.TypeString(v.Type(), nil), modPath+"/", "")
}

func (l *uloop) violate(in ssa.Instruction, format string, args ...interface{}) {
	l.bad = true
	pos := l.pos
	if in != nil && in.Pos().IsValid() {
		pos = in.Pos()
	}
	l.o.c.Bad("unordered iteration", l.name, pos, format, args...)
}

func (l *uloop) run() {
	l.loop = naturalLoop(l.header)
	if l.loop == nil {
		// the body never comes back: the loop takes one arbitrary element
		l.loop = map[*ssa.BasicBlock]bool{l.header: true}
	}
	l.cellsW = map[string]ssa.Value{}
	l.writes = map[*types.Var][]fieldAccess{}
	l.reads = map[*types.Var][]fieldAccess{}
	l.phiOK = map[*ssa.Phi]string{}
	exit := l.normalExit()
	// The code that runs after leaving the loop early.
	l.body = map[*ssa.BasicBlock]bool{}
	type exitEdge struct{ from, to *ssa.BasicBlock }
	var exits []exitEdge
	for _, b := range l.fn.Blocks {
		if !l.loop[b] {
			continue
		}
		l.body[b] = true
		for _, s := range b.Succs {
			if !l.loop[s] && !(b == l.header && s == exit) {
				exits = append(exits, exitEdge{b, s})
			}
		}
	}
	for _, e := range exits {
		if len(e.to.Preds) == 1 || l.onlyFromLoop(e.to, exit) {
			for _, b := range l.fn.Blocks {
				if e.to == b || e.to.Dominates(b) {
					l.body[b] = true
				}
			}
		}
	}
	cx := &ucx{fn: l.fn, args: map[ssa.Value]vclass{}}
	l.loopPhis()
	l.blocks(cx, l.body)

	// Leaving early.
	for _, e := range exits {
		if l.unique(e.from, e.to) {
			continue
		}
		if l.panicsOrFails(e.to, map[*ssa.BasicBlock]bool{}) {
			continue
		}
		for _, in := range e.to.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, pb := range e.to.Preds {
				if pb == e.from && l.class(cx, p.Edges[i]) != cInv && len(usesOf(p)) > 0 {
					l.violate(p, "the loop is left with a value that depends on which element came first")
				}
			}
		}
		l.returnsIn(cx, e.to, map[*ssa.BasicBlock]bool{})
		if len(l.effects) > 0 {
			l.violate(e.from.Instrs[len(e.from.Instrs)-1], "the loop is left early, so how far its effects go (%s) depends on the order", l.effects[0])
		}
	}
	// Two iterations must not communicate through fields of the elements.
	for f, ws := range l.writes {
		for _, r := range l.reads[f] {
			for _, w := range ws {
				if r.cx.fn != w.cx.fn || sameObject(r.obj, w.obj) || r.cx == w.cx && l.inInner(r) {
					continue
				}
				if l.handledBefore(r, w) || l.inInner(r) {
					continue
				}
				l.violate(r.in, "reads the field %s, which other iterations set (at %s), of another element", f.Name(), l.o.c.pos(w.in.Pos()))
			}
		}
	}
	l.mapTraffic()
	if !l.bad {
		what := "order-independent"
		if len(l.effects) > 0 {
			what = strings.Join(dedupStrings(l.effects), "; ")
		}
		l.o.c.OK("unordered iteration", l.name, l.pos, "%s", what)
	}
	for _, v := range l.collected {
		v := v
		l.o.follow(v, l)
	}
	for _, st := range l.fieldColl {
		l.o.fieldCollected(st, l)
	}
}

func dedupStrings(in []string) []string {
	sort.Strings(in)
	var out []string
	for i, s := range in {
		if i == 0 || in[i-1] != s {
			out = append(out, s)
		}
	}
	return out
}

func usesOf(v ssa.Value) []ssa.Instruction {
	var res []ssa.Instruction
	if v.Referrers() == nil {
		return nil
	}
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok {
			res = append(res, r)
		}
	}
	return res
}

// normalExit is where the loop continues when all elements have been visited.
func (l *uloop) normalExit() *ssa.BasicBlock {
	ifi, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	_ = ifi
	for i := len(l.header.Succs) - 1; i >= 0; i-- {
		if !l.loop[l.header.Succs[i]] {
			return l.header.Succs[i]
		}
	}
	return nil
}

// onlyFromLoop reports whether b is only reached by leaving the loop early.
func (l *uloop) onlyFromLoop(b, exit *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if !l.loop[p] || p == l.header {
			return false
		}
	}
	return b != exit
}

// unique reports whether the edge is only taken for one particular key.
func (l *uloop) unique(from, to *ssa.BasicBlock) bool {
	cx := &ucx{fn: l.fn}
	for b := from; b != nil && l.loop[b]; b = b.Idom() {
		var child *ssa.BasicBlock
		if b == from {
			child = to
		}
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := ifi.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.EQL {
			continue
		}
		x, y := l.class(cx, cmp.X), l.class(cx, cmp.Y)
		if !(x == cKey && y == cInv || x == cInv && y == cKey) {
			continue
		}
		t := b.Succs[0]
		if child != nil && t == child && b.Succs[1] != child {
			return true
		}
		if child == nil && (t == from || t.Dominates(from)) && len(t.Preds) == 1 {
			return true
		}
	}
	return false
}

// panicsOrFails reports whether every path from b panics, or returns a
// non-nil error.
func (l *uloop) panicsOrFails(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return true
	}
	seen[b] = true
	if l.loop[b] {
		return false
	}
	l.o.c.noReturnFuncs()
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Panic:
			return true
		case *ssa.Call:
			if l.o.c.isNoReturn(&in.Call) {
				return true
			}
		case *ssa.Return:
			n := len(in.Results)
			if n == 0 || !isError(in.Results[n-1].Type()) {
				return false
			}
			return !isNilConst(in.Results[n-1])
		}
	}
	if len(b.Succs) == 0 {
		return true
	}
	for _, s := range b.Succs {
		if !l.panicsOrFails(s, seen) {
			return false
		}
	}
	return true
}

func (l *uloop) returnsIn(cx *ucx, b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) {
	if seen[b] || !l.body[b] || l.loop[b] {
		return
	}
	seen[b] = true
	for _, in := range b.Instrs {
		if r, ok := in.(*ssa.Return); ok {
			n := len(r.Results)
			if n > 0 && isError(r.Results[n-1].Type()) && !isNilConst(r.Results[n-1]) {
				continue
			}
			for _, v := range r.Results {
				if l.class(cx, v) != cInv {
					l.violate(r, "returns a value that depends on which element came first")
					break
				}
			}
		}
	}
	for _, s := range b.Succs {
		l.returnsIn(cx, s, seen)
	}
}

// loopPhis classifies the variables that the loop carries.
func (l *uloop) loopPhis() {
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if p == l.idxPhi {
			continue
		}
		kind := l.accumulates(p)
		switch kind {
		case "":
			if len(usesOf(p)) == 0 {
				continue
			}
			l.violate(p, "the variable %s ends up with a value that depends on the order", phiName(p))
		case "collects":
			l.effects = append(l.effects, "collects elements")
			l.collected = append(l.collected, p)
			l.phiOK[p] = kind
		default:
			l.phiOK[p] = kind
			if kind != "flag" {
				l.effects = append(l.effects, kind)
			}
		}
		if kind != "" {
			// Its value in the middle of the loop is how many elements, or
			// which, came before.
			l.midLoopUses(p)
		}
	}
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

// accumulates recognizes the phis whose final value does not depend on
// order: appended slices, counters, sums of integers, flags, extremes.
func (l *uloop) accumulates(p *ssa.Phi) string {
	kind := ""
	set := func(k string) bool {
		if kind == "" || kind == k {
			kind = k
			return true
		}
		return false
	}
	cx := &ucx{fn: l.fn}
	ok := true
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value, from *ssa.BasicBlock)
	visit = func(v ssa.Value, from *ssa.BasicBlock) {
		if v == ssa.Value(p) || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			if !set("flag") {
				ok = false
			}
			return
		case *ssa.Phi:
			if l.loop[x.Block()] && x.Block() != l.header {
				for i, e := range x.Edges {
					if l.isExtreme(p, x, i, e) {
						if !set("extreme") {
							ok = false
						}
						continue
					}
					visit(e, x.Block().Preds[i])
				}
				return
			}
		case *ssa.Call:
			if b, isb := x.Call.Value.(*ssa.Builtin); isb && b.Name() == "append" {
				if !set("collects") {
					ok = false
				}
				visit(x.Call.Args[0], x.Block())
				return
			}
			if b, isb := x.Call.Value.(*ssa.Builtin); isb && (b.Name() == "min" || b.Name() == "max") && isOrderedInt(x.Type()) {
				if !set("extreme") {
					ok = false
				}
				for _, a := range x.Call.Args {
					if l.class(cx, a) == cInv || l.derives(a, p, map[ssa.Value]bool{}) {
						visit(a, x.Block())
					}
				}
				return
			}
		case *ssa.BinOp:
			b, isB := x.Type().Underlying().(*types.Basic)
			if isB && b.Info()&types.IsInteger != 0 {
				switch x.Op {
				case token.ADD, token.OR, token.XOR, token.AND, token.MUL:
					if !set("counts") {
						ok = false
					}
					l1, l2 := l.derives(x.X, p, map[ssa.Value]bool{}), l.derives(x.Y, p, map[ssa.Value]bool{})
					if l1 == l2 {
						ok = false
					} else if l1 {
						visit(x.X, x.Block())
					} else {
						visit(x.Y, x.Block())
					}
					return
				case token.SUB:
					if l.derives(x.X, p, map[ssa.Value]bool{}) && !l.derives(x.Y, p, map[ssa.Value]bool{}) {
						if !set("counts") {
							ok = false
						}
						visit(x.X, x.Block())
						return
					}
				}
			}
		}
		if l.class(cx, v) == cInv {
			if !set("flag") {
				ok = false
			}
			return
		}
		ok = false
	}
	var flags []ssa.Value
	for i, e := range p.Edges {
		if l.loop[p.Block().Preds[i]] {
			visit(e, p.Block().Preds[i])
			flags = append(flags, e)
		}
	}
	if !ok {
		return ""
	}
	if kind == "" {
		return "flag" // never changed
	}
	if kind == "flag" {
		// one value only: true, never true and false
		vals := map[string]bool{}
		var consts func(v ssa.Value, seen map[ssa.Value]bool)
		consts = func(v ssa.Value, seen map[ssa.Value]bool) {
			if seen[v] || v == ssa.Value(p) {
				return
			}
			seen[v] = true
			if x, isPhi := v.(*ssa.Phi); isPhi && l.loop[x.Block()] {
				for _, e := range x.Edges {
					consts(e, seen)
				}
				return
			}
			if k, isK := v.(*ssa.Const); isK {
				vals[k.String()] = true
			} else {
				vals[v.Name()] = true
			}
		}
		for _, f := range flags {
			consts(f, map[ssa.Value]bool{})
		}
		if len(vals) > 1 {
			return ""
		}
	}
	return kind
}

func isOrderedInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsString) != 0
}

// isExtreme recognizes `if v > best { best = v }`.
func (l *uloop) isExtreme(p *ssa.Phi, x *ssa.Phi, i int, e ssa.Value) bool {
	if e == ssa.Value(p) || !isOrderedInt(e.Type()) {
		return false
	}
	if _, isK := e.(*ssa.Const); isK {
		return false
	}
	for b := x.Block().Preds[i]; b != nil && l.loop[b]; b = b.Idom() {
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := ifi.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch cmp.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
		default:
			continue
		}
		if sameExpr(cmp.X, e) && cmp.Y == ssa.Value(p) || sameExpr(cmp.Y, e) && cmp.X == ssa.Value(p) {
			return true
		}
	}
	return false
}

func sameExpr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.Call)
	y, ok2 := b.(*ssa.Call)
	if ok1 && ok2 {
		bx, okx := x.Call.Value.(*ssa.Builtin)
		by, oky := y.Call.Value.(*ssa.Builtin)
		return okx && oky && bx.Name() == "len" && by.Name() == "len" && x.Call.Args[0] == y.Call.Args[0]
	}
	fx, ok1 := a.(*ssa.Field)
	fy, ok2 := b.(*ssa.Field)
	return ok1 && ok2 && fx.Field == fy.Field && sameExpr(fx.X, fy.X)
}

func (l *uloop) derives(v ssa.Value, p *ssa.Phi, seen map[ssa.Value]bool) bool {
	if v == ssa.Value(p) {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok || seen[v] || in.Block() == nil || !l.loop[in.Block()] {
		return false
	}
	seen[v] = true
	for _, op := range in.Operands(nil) {
		if *op != nil && l.derives(*op, p, seen) {
			return true
		}
	}
	return false
}

// midLoopUses looks for uses of an accumulator inside the loop other than
// accumulating.
func (l *uloop) midLoopUses(p *ssa.Phi) {
	acc := map[ssa.Value]bool{}
	var mark func(v ssa.Value)
	mark = func(v ssa.Value) {
		if acc[v] {
			return
		}
		acc[v] = true
		for _, r := range usesOf(v) {
			if !l.loop[r.Block()] {
				continue
			}
			switch x := r.(type) {
			case *ssa.Phi:
				mark(x)
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && x.Call.Args[0] == v {
					mark(x)
				}
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "min" || b.Name() == "max") {
					mark(x)
				}
			case *ssa.BinOp:
				if x.Type().Underlying() == v.Type().Underlying() {
					mark(x)
				}
			}
		}
	}
	mark(p)
	kind := l.phiOK[p]
	for v := range acc {
		for _, r := range usesOf(v) {
			if !l.loop[r.Block()] {
				continue
			}
			if rv, ok := r.(ssa.Value); ok && acc[rv] {
				continue
			}
			switch x := r.(type) {
			case *ssa.Call:
				if l.o.isLog(&x.Call) {
					continue
				}
			case *ssa.If:
				if kind == "flag" && l.onlyGuards(x) {
					continue
				}
			case *ssa.IndexAddr:
				if x.Index == v && kind == "counts" && l.fills(x) {
					continue
				}
			case *ssa.BinOp:
				if kind == "extreme" && x.Type().Underlying() == types.Typ[types.Bool] {
					continue
				}
			case *ssa.MakeInterface:
				if l.o.onlyLogged(x) {
					continue
				}
			}
			l.violate(r, "uses %s before the loop has finished; its value depends on the order", phiName(p))
			return
		}
	}
}

// onlyGuards: the flag only skips work that would set the same flag.
func (l *uloop) onlyGuards(x *ssa.If) bool {
	return len(l.effects) == 0
}

// fills recognizes a[i] = v, with a counter i.
func (l *uloop) fills(x *ssa.IndexAddr) bool {
	for _, r := range usesOf(x) {
		if st, ok := r.(*ssa.Store); !ok || st.Addr != ssa.Value(x) {
			return false
		}
	}
	return true
}

// class of a value within the loop.
func (l *uloop) class(cx *ucx, v ssa.Value) vclass {
	return l.classRec(cx, v, map[ssa.Value]bool{})
}

func (l *uloop) classRec(cx *ucx, v ssa.Value, seen map[ssa.Value]bool) vclass {
	if k, ok := l.elems[v]; ok && cx.parent == nil {
		return k
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return cInv
	case *ssa.Parameter, *ssa.FreeVar:
		if cx.parent == nil {
			return cInv
		}
		return cx.args[x]
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return cElem
	}
	if cx.parent == nil && !l.body[in.Block()] {
		return cInv
	}
	if seen[v] {
		return cInv
	}
	seen[v] = true
	rec := func(x ssa.Value) vclass { return l.classRec(cx, x, seen) }
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return l.allocClass(cx, v)
	case *ssa.MakeInterface:
		return rec(x.X)
	case *ssa.ChangeType:
		return rec(x.X)
	case *ssa.ChangeInterface:
		return rec(x.X)
	case *ssa.Convert:
		return rec(x.X)
	case *ssa.TypeAssert:
		return rec(x.X)
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return rec(ta.X)
		}
		if rec(x.Tuple) == cInv {
			return cInv
		}
		return cElem
	case *ssa.Field:
		if isXMLName(x.Type()) && rec(x.X) != cInv {
			return cKey
		}
		if rec(x.X) == cInv {
			return cInv
		}
		return cElem
	case *ssa.BinOp:
		a, b := rec(x.X), rec(x.Y)
		if a == cInv && b == cInv {
			return cInv
		}
		if x.Op == token.ADD && (a == cKey && b == cInv || a == cInv && b == cKey) {
			return cKey
		}
		return cElem
	case *ssa.UnOp:
		if x.Op != token.MUL {
			if k := rec(x.X); k == cInv {
				return cInv
			}
			return cElem
		}
		return l.loadClass(cx, x, seen)
	case *ssa.Phi:
		if l.phiOK[x] != "" {
			return cElem
		}
		k := cInv
		for _, e := range x.Edges {
			k = worse(k, rec(e))
		}
		if k == cInv && cx.parent == nil && x.Block() == l.header {
			return cElem
		}
		if k == cInv {
			// chosen by a condition: does that depend on the iteration?
			same := true
			for _, e := range x.Edges[1:] {
				if e != x.Edges[0] {
					same = false
				}
			}
			if !same && (cx.parent != nil && l.anyElem(cx) || cx.parent == nil && x.Block() != l.header) {
				return cElem
			}
		}
		return k
	case *ssa.Call:
		if isXMLName(x.Type()) {
			n := 0
			for _, a := range callOperands(&x.Call) {
				if rec(a) != cInv {
					n++
				}
			}
			name := calleeShort(&x.Call)
			if n == 1 && (name == "XMLName" || name == "Name") {
				return cKey
			}
		}
		k := cInv
		onlyKey := true
		for _, a := range callOperands(&x.Call) {
			c := rec(a)
			if c == cElem {
				onlyKey = false
			}
			k = worse(k, c)
		}
		if k == cInv {
			return cInv
		}
		if onlyKey {
			name := calleeName(&x.Call)
			if name == "strconv.Itoa" || name == "strconv.Quote" {
				return cKey
			}
			if f := x.Call.StaticCallee(); f != nil && f.Name() == "String" && f.Signature.Recv() != nil && l.o.c.inRepo(f) {
				return cKey
			}
		}
		return cElem
	}
	k := cInv
	for _, op := range in.Operands(nil) {
		if *op != nil {
			k = worse(k, rec(*op))
		}
	}
	if k == cInv {
		return cInv
	}
	return cElem
}

func (l *uloop) anyElem(cx *ucx) bool {
	for _, k := range cx.args {
		if k != cInv {
			return true
		}
	}
	return false
}

// allocClass: a composite built in the loop is as varying as what is put in.
func (l *uloop) allocClass(cx *ucx, v ssa.Value) vclass { return cElem }

func isXMLName(t types.Type) bool { return typeIs(t, "encoding/xml.Name") }

func callOperands(common *ssa.CallCommon) []ssa.Value {
	if common.IsInvoke() {
		return append([]ssa.Value{common.Value}, common.Args...)
	}
	if mc, ok := common.Value.(*ssa.MakeClosure); ok {
		return append(append([]ssa.Value{}, mc.Bindings...), common.Args...)
	}
	if _, ok := common.Value.(*ssa.Function); ok {
		return common.Args
	}
	if _, ok := common.Value.(*ssa.Builtin); ok {
		return common.Args
	}
	return append([]ssa.Value{common.Value}, common.Args...)
}

func calleeShort(common *ssa.CallCommon) string {
	if common.IsInvoke() {
		return common.Method.Name()
	}
	if f := common.StaticCallee(); f != nil {
		return f.Name()
	}
	return ""
}

func (l *uloop) loadClass(cx *ucx, u *ssa.UnOp, seen map[ssa.Value]bool) vclass {
	switch a := u.X.(type) {
	case *ssa.FieldAddr:
		root := l.classRec(cx, a.X, seen)
		if al, ok := a.X.(*ssa.Alloc); ok && l.isInside(cx, al) {
			// a field of a local composite
			return l.localField(cx, al, a.Field, seen)
		}
		if root != cInv {
			if isXMLName(u.Type()) && fieldVar(a) != nil && fieldVar(a).Name() == "Name" {
				return cKey
			}
			return cElem
		}
		return cInv
	case *ssa.Alloc:
		if l.isInside(cx, a) {
			k := cInv
			n := 0
			for _, r := range usesOf(a) {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
					k = worse(k, l.classRec(cx, st.Val, seen))
					n++
				} else if _, ok := r.(*ssa.UnOp); !ok {
					k = worse(k, cElem)
				}
			}
			return k
		}
		return cInv
	}
	if l.classRec(cx, u.X, seen) == cInv {
		return cInv
	}
	return cElem
}

func (l *uloop) localField(cx *ucx, al *ssa.Alloc, field int, seen map[ssa.Value]bool) vclass {
	k := cInv
	for _, r := range usesOf(al) {
		switch r := r.(type) {
		case *ssa.FieldAddr:
			if r.Field != field {
				continue
			}
			for _, r2 := range usesOf(r) {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(r) {
					k = worse(k, l.classRec(cx, st.Val, seen))
				}
			}
		case *ssa.Store:
			if r.Addr == ssa.Value(al) {
				k = worse(k, l.classRec(cx, r.Val, seen))
			}
		case *ssa.UnOp:
		default:
			return cElem
		}
	}
	return k
}

func (l *uloop) isInside(cx *ucx, v ssa.Instruction) bool {
	if cx.parent != nil || l.body[v.Block()] {
		return true
	}
	al, ok := v.(*ssa.Alloc)
	return ok && l.perIteration(al)
}

// perIteration: a variable declared outside of the loop, but set anew at the
// beginning of every iteration and not used elsewhere.
func (l *uloop) perIteration(al *ssa.Alloc) bool {
	var first *ssa.Store
	for _, r := range usesOf(al) {
		if !l.body[r.Block()] {
			return false
		}
		if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) && (first == nil || before(st, first)) {
			first = st
		}
	}
	if first == nil {
		return false
	}
	for _, r := range usesOf(al) {
		if r != ssa.Instruction(first) && !before(first, r) {
			return false
		}
	}
	return true
}

// root says whose memory an address or reference value belongs to.
func (l *uloop) root(cx *ucx, v ssa.Value, seen map[ssa.Value]bool) vclass {
	if seen[v] {
		return cFresh
	}
	seen[v] = true
	if k, ok := l.elems[v]; ok && cx.parent == nil {
		if k == cInv {
			return cInv
		}
		return cElem
	}
	join := func(a, b vclass) vclass {
		if a == cInv || b == cInv {
			return cInv
		}
		if a == cFresh {
			return b
		}
		if b == cFresh {
			return a
		}
		return cElem
	}
	switch x := v.(type) {
	case *ssa.Const:
		return cFresh
	case *ssa.Global:
		return cInv
	case *ssa.Parameter, *ssa.FreeVar:
		if cx.parent == nil {
			return cInv
		}
		return cx.args[x]
	case *ssa.FieldAddr:
		return l.root(cx, x.X, seen)
	case *ssa.IndexAddr:
		return l.root(cx, x.X, seen)
	case *ssa.Slice:
		return l.root(cx, x.X, seen)
	case *ssa.MakeInterface:
		return l.root(cx, x.X, seen)
	case *ssa.ChangeType:
		return l.root(cx, x.X, seen)
	case *ssa.ChangeInterface:
		return l.root(cx, x.X, seen)
	case *ssa.TypeAssert:
		return l.root(cx, x.X, seen)
	case *ssa.Field:
		return l.root(cx, x.X, seen)
	case *ssa.Extract:
		return l.root(cx, x.Tuple, seen)
	case *ssa.Next:
		if r, ok := x.Iter.(*ssa.Range); ok {
			k := l.root(cx, r.X, seen)
			if k == cInv && (cx.parent != nil || l.body[x.Block()]) {
				return cInv
			}
			return k
		}
	case *ssa.Lookup:
		k := l.root(cx, x.X, seen)
		if k == cInv && l.class(cx, x.Index) == cKey {
			return cElem
		}
		return k
	case *ssa.Alloc:
		if l.isInside(cx, x) {
			return cFresh
		}
		return cInv
	case *ssa.MakeMap:
		if l.isInside(cx, x) {
			return cFresh
		}
		return cInv
	case *ssa.MakeSlice:
		if l.isInside(cx, x) {
			return cFresh
		}
		return cInv
	case *ssa.MakeClosure:
		return cFresh
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok && l.isInside(cx, al) {
				k := cFresh
				for _, r := range usesOf(al) {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
						k = join(k, l.root(cx, st.Val, seen))
					}
				}
				return k
			}
			return l.root(cx, x.X, seen)
		}
	case *ssa.Phi:
		if cx.parent == nil && !l.body[x.Block()] {
			return cInv
		}
		k := cFresh
		for _, e := range x.Edges {
			k = join(k, l.root(cx, e, seen))
		}
		return k
	case *ssa.Call:
		if cx.parent == nil && !l.body[x.Block()] {
			return cInv
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return l.root(cx, x.Call.Args[0], seen)
		}
		k := cFresh
		for _, a := range callOperands(&x.Call) {
			if refType(a.Type()) {
				k = join(k, l.root(cx, a, seen))
			}
		}
		if k == cInv && !l.o.c.callInRepo(&x.Call) {
			return cFresh
		}
		if k == cInv && l.class(cx, x) != cInv && !refType(x.Type()) {
			return cFresh
		}
		return k
	}
	in, ok := v.(ssa.Instruction)
	if ok && cx.parent == nil && !l.body[in.Block()] {
		return cInv
	}
	return cElem
}

func (c *Ctx) callInRepo(common *ssa.CallCommon) bool {
	if f := common.StaticCallee(); f != nil {
		return c.inRepo(f)
	}
	if common.IsInvoke() {
		return len(c.chaTargets(common)) > 0
	}
	return true
}

func refType(t types.Type) bool { return len(leaves(t)) > 0 }

func (o *orderCheck) isLog(common *ssa.CallCommon) bool {
	if common.IsInvoke() {
		return strings.HasPrefix(common.Method.Name(), "Print")
	}
	f := common.StaticCallee()
	if f == nil {
		return false
	}
	if strings.HasPrefix(fname(f), "(*log.Logger).Print") || strings.HasPrefix(fname(f), "log.Print") {
		return true
	}
	if !o.c.inRepo(f) || f.Signature.Results().Len() > 0 || !f.Signature.Variadic() {
		return false
	}
	// a function of the repository that does nothing but log
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Call:
				if !o.isLog(&in.Call) {
					return false
				}
				n++
			case *ssa.Store, *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Panic:
				return false
			}
		}
	}
	return n > 0
}

// onlyLogged reports whether a value only becomes an argument for logging.
func (o *orderCheck) onlyLogged(v ssa.Value) bool {
	for _, r := range usesOf(v) {
		switch r := r.(type) {
		case *ssa.Store:
			ia, ok := r.Addr.(*ssa.IndexAddr)
			if !ok {
				return false
			}
			al, ok := ia.X.(*ssa.Alloc)
			if !ok {
				return false
			}
			for _, r2 := range usesOf(al) {
				switch r2 := r2.(type) {
				case *ssa.IndexAddr:
				case *ssa.Slice:
					for _, r3 := range usesOf(r2) {
						call, ok := r3.(*ssa.Call)
						if !ok || !o.isLog(&call.Call) {
							return false
						}
					}
				default:
					return false
				}
			}
		case *ssa.MakeInterface:
			if !o.onlyLogged(r) {
				return false
			}
		case *ssa.Call:
			if !o.isLog(&r.Call) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (l *uloop) blocks(cx *ucx, body map[*ssa.BasicBlock]bool) {
	for _, b := range cx.fn.Blocks {
		if body != nil && !body[b] {
			continue
		}
		for _, in := range b.Instrs {
			l.o.instrs++
			l.instr(cx, in)
		}
	}
}

func fullNamed(t types.Type) string {
	return strings.ReplaceAll(types.TypeString(t, nil), modPath+"/", "")
}

func (l *uloop) instr(cx *ucx, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Store:
		l.store(cx, in)
	case *ssa.MapUpdate:
		l.mapAccess(cx, in.Map, in.Key, in, false, true)
		l.mapUpdate(cx, in)
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			l.mapAccess(cx, in.X, in.Index, in, false, false)
		}
	case *ssa.UnOp:
		if fa, ok := in.X.(*ssa.FieldAddr); ok && in.Op == token.MUL {
			if l.root(cx, fa.X, map[ssa.Value]bool{}) == cElem {
				f := fieldVar(fa)
				l.reads[f] = append(l.reads[f], fieldAccess{fa.X, in, cx, false})
			}
		}
	case *ssa.Call:
		l.call(cx, in, &in.Call)
	case *ssa.Defer:
		if in.Parent() == l.fn {
			l.violate(in, "defers a call; the deferred calls run in an order that depends on the iteration")
		} else {
			l.call(cx, in, &in.Call)
		}
	case *ssa.Go, *ssa.Send, *ssa.Select:
		l.violate(in, "communicates from within the loop")
	}
}

func (l *uloop) store(cx *ucx, st *ssa.Store) {
	k := l.root(cx, st.Addr, map[ssa.Value]bool{})
	switch k {
	case cFresh:
		return
	case cElem, cKey:
		if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
			f := fieldVar(fa)
			l.writes[f] = append(l.writes[f], fieldAccess{fa.X, st, cx, false})
		}
		l.effects = append(l.effects, "changes each element")
		return
	}
	// memory shared by all iterations
	if ia, ok := st.Addr.(*ssa.IndexAddr); ok && cx.parent == nil {
		if p, ok := ia.Index.(*ssa.Phi); ok && l.phiOK[p] == "counts" {
			l.effects = append(l.effects, "collects elements")
			l.collected = append(l.collected, ia.X)
			return
		}
	}
	if l.class(cx, st.Val) == cInv {
		if l.constStore(cx, st) {
			return
		}
	}
	if kind := l.cellAccumulates(cx, st); kind != "" {
		l.effects = append(l.effects, kind)
		if kind == "collects elements" {
			if cx.parent != nil {
				l.violate(st, "collects elements in a function called from the loop, where they could not be followed")
				return
			}
			l.fieldColl = append(l.fieldColl, st)
		}
		return
	}
	l.violate(st, "the last iteration to store here wins, and which is last depends on the order")
}

// constStore: all stores of the loop to the same place store the same value.
func (l *uloop) constStore(cx *ucx, st *ssa.Store) bool {
	key := addrKey(st.Addr)
	if v, ok := l.cellsW[key]; ok && v != st.Val {
		a, ok1 := v.(*ssa.Const)
		b, ok2 := st.Val.(*ssa.Const)
		if !ok1 || !ok2 || a.String() != b.String() {
			return false
		}
	}
	l.cellsW[key] = st.Val
	return true
}

func addrKey(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return addrKey(x.X) + "." + fmt.Sprint(x.Field)
	case *ssa.IndexAddr:
		return addrKey(x.X) + "[" + x.Index.Name() + "]"
	case *ssa.UnOp:
		return "*" + addrKey(x.X)
	}
	if v.Parent() != nil {
		return v.Parent().String() + ":" + v.Name()
	}
	return v.Name()
}

// cellAccumulates recognizes x = append(x, ...), x += n for a variable in
// memory.
func (l *uloop) cellAccumulates(cx *ucx, st *ssa.Store) string {
	isSelf := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op == token.MUL && (u.X == st.Addr || addrKey(u.X) == addrKey(st.Addr))
	}
	switch x := st.Val.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && isSelf(x.Call.Args[0]) {
			return "collects elements"
		}
	case *ssa.BinOp:
		b, ok := x.Type().Underlying().(*types.Basic)
		if ok && b.Info()&types.IsInteger != 0 && (x.Op == token.ADD || x.Op == token.OR) && (isSelf(x.X) || isSelf(x.Y)) {
			for _, r := range usesOf(x) {
				if r != ssa.Instruction(st) {
					return ""
				}
			}
			return "counts"
		}
	}
	return ""
}

func (l *uloop) mapUpdate(cx *ucx, mu *ssa.MapUpdate) {
	switch l.root(cx, mu.Map, map[ssa.Value]bool{}) {
	case cFresh:
		return
	case cElem, cKey:
		l.effects = append(l.effects, "changes each element")
		return
	}
	key := l.class(cx, mu.Key)
	val := l.class(cx, mu.Value)
	if val == cInv || isEmptyStruct(mu.Value.Type()) {
		if key != cInv {
			l.effects = append(l.effects, "fills a set")
		}
		return
	}
	if key == cKey {
		l.effects = append(l.effects, "stores each element under its own key")
		return
	}
	if key == cInv {
		l.violate(mu, "stores every element under one key; the last one wins")
		return
	}
	l.violate(mu, "stores elements under a key that several of them may share; the last one wins")
}

func (l *uloop) mapAccess(cx *ucx, m, key ssa.Value, in ssa.Instruction, del, write bool) {
	if l.root(cx, m, map[ssa.Value]bool{}) != cInv {
		return
	}
	a := mapAccess{m, key, l.class(cx, key) == cKey, del, in, cx}
	if write {
		l.mapW = append(l.mapW, a)
	} else {
		l.mapR = append(l.mapR, a)
	}
}

// mapTraffic: an iteration must not look at entries that another one removes
// or adds, unless the two are entries of their own keys.
func (l *uloop) mapTraffic() {
	for _, r := range l.mapR {
		for _, w := range l.mapW {
			if r.own && w.own || r.cx.fn != w.cx.fn || !sameObject(r.m, w.m) {
				continue
			}
			what := "adds"
			if w.del {
				what = "removes"
			}
			l.violate(r.in, "looks at a map entry that another iteration %s (at %s), so what it does depends on the order", what, l.o.c.pos(w.in.Pos()))
		}
	}
}

func isEmptyStruct(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

// Functions and methods of the standard library that write to one of their
// arguments or perform output. Others have no effect that the order shows in.
func writesShared(name string) bool {
	for _, p := range []string{"(*bytes.Buffer).Write", "(*strings.Builder).Write", "(*bufio.Writer).", "(io.Writer).", "io.WriteString", "fmt.Fprint", "fmt.Print",
		"(*encoding/xml.Encoder).", "(*encoding/json.Encoder).", "(*text/template.Template).", "os.", "(*os.File).", "io/ioutil.", "(hash.Hash).", "io.Copy",
		"go/format.Node", "go/printer.Fprint", "(io.StringWriter).", "(*text/tabwriter.Writer).", "encoding/binary.Write", "(*container/list.List)."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (l *uloop) call(cx *ucx, at ssa.Instruction, common *ssa.CallCommon) {
	if b, ok := common.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete":
			l.mapAccess(cx, common.Args[0], common.Args[1], at, true, true)
			if l.root(cx, common.Args[0], map[ssa.Value]bool{}) == cInv {
				l.effects = append(l.effects, "removes entries")
			}
		case "copy":
			if l.root(cx, common.Args[0], map[ssa.Value]bool{}) == cInv && l.class(cx, common.Args[1]) != cInv {
				l.violate(at, "copies over memory that all iterations share")
			}
		case "append":
			// a slice with spare capacity is written to; the stores of the
			// result are checked
		}
		return
	}
	if l.o.isLog(common) {
		return
	}
	name := calleeName(common)
	var targets []*ssa.Function
	var bind []ssa.Value
	if f := common.StaticCallee(); f != nil {
		if !l.o.c.inRepo(f) {
			if writesShared(name) {
				for i, a := range callOperands(common) {
					if i == 0 && l.root(cx, a, map[ssa.Value]bool{}) == cInv {
						l.violate(at, "%s produces output in an order that depends on the iteration", name)
					}
				}
				if strings.HasPrefix(name, "fmt.Print") || strings.HasPrefix(name, "os.") {
					l.violate(at, "%s has effects in an order that depends on the iteration", name)
				}
			}
			if strings.HasPrefix(name, "sort.") && len(common.Args) > 0 {
				return
			}
			// functions passed to the library
			for _, a := range common.Args {
				if mc, ok := a.(*ssa.MakeClosure); ok {
					l.enter(cx, at, mc.Fn.(*ssa.Function), nil, mc.Bindings)
				} else if f2, ok := a.(*ssa.Function); ok && l.o.c.inRepo(f2) {
					l.enter(cx, at, f2, nil, nil)
				}
			}
			return
		}
		targets = []*ssa.Function{f}
		if mc, ok := common.Value.(*ssa.MakeClosure); ok {
			bind = mc.Bindings
		}
	} else if common.IsInvoke() {
		targets = l.o.c.chaTargets(common)
		if len(targets) == 0 {
			if writesShared(name) && l.root(cx, common.Value, map[ssa.Value]bool{}) == cInv {
				l.violate(at, "%s produces output in an order that depends on the iteration", name)
			}
			return
		}
	} else {
		if f, b := l.resolveFunc(cx, common.Value); f != nil {
			targets = []*ssa.Function{f}
			bind = b
		} else {
			l.violate(at, "calls a function value that is not known, in an order that depends on the iteration")
			return
		}
	}
	for _, f := range targets {
		l.enter(cx, at, f, callOperandsOf(common), bind)
	}
}

func callOperandsOf(common *ssa.CallCommon) []ssa.Value {
	if common.IsInvoke() {
		return append([]ssa.Value{common.Value}, common.Args...)
	}
	return common.Args
}

// resolveFunc finds the function that a function value is, if it is only
// assigned once.
func (l *uloop) resolveFunc(cx *ucx, v ssa.Value) (*ssa.Function, []ssa.Value) {
	switch x := v.(type) {
	case *ssa.Function:
		return x, nil
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function), x.Bindings
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil, nil
		}
		var cell ssa.Value = x.X
		if fv, ok := cell.(*ssa.FreeVar); ok {
			if mc := l.o.c.callers().closures[fv.Parent()]; mc != nil {
				for i, f := range fv.Parent().FreeVars {
					if f == fv {
						cell = mc.Bindings[i]
					}
				}
			}
		}
		al, ok := cell.(*ssa.Alloc)
		if !ok {
			return nil, nil
		}
		var val ssa.Value
		for _, r := range usesOf(al) {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
				if val != nil {
					return nil, nil
				}
				val = st.Val
			}
		}
		if val == nil {
			return nil, nil
		}
		return l.resolveFunc(cx, val)
	}
	return nil, nil
}

func (l *uloop) enter(cx *ucx, at ssa.Instruction, f *ssa.Function, args, bind []ssa.Value) {
	if f.Blocks == nil {
		return
	}
	depth := 0
	for p := cx; p != nil; p = p.parent {
		if p.fn == f {
			if p.parent == nil {
				l.violate(at, "calls itself from within the loop")
			}
			return // recursion: the arguments are of the same kind
		}
		depth++
	}
	if depth > 12 {
		l.violate(at, "the calls made in the loop are too deep to analyse")
		return
	}
	n := &ucx{parent: cx, fn: f, args: map[ssa.Value]vclass{}}
	if ci, ok := at.(ssa.CallInstruction); ok {
		n.site = ci
	}
	for i, p := range f.Params {
		k := cElem
		if i < len(args) {
			k = l.argClass(cx, args[i])
		}
		n.args[p] = k
	}
	for i, fv := range f.FreeVars {
		if i < len(bind) {
			n.args[fv] = l.argClass(cx, bind[i])
		} else {
			n.args[fv] = cInv
		}
	}
	l.blocks(n, nil)
}

func (l *uloop) argClass(cx *ucx, v ssa.Value) vclass {
	if refType(v.Type()) {
		if k := l.root(cx, v, map[ssa.Value]bool{}); k == cFresh || k == cInv {
			return k
		}
		if k := l.class(cx, v); k == cKey {
			return cKey
		}
		return cElem
	}
	return l.class(cx, v)
}

func sameObject(a, b ssa.Value) bool {
	strip := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.Extract:
				if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
					v = ta.X
					continue
				}
				return v
			case *ssa.TypeAssert:
				v = x.X
				continue
			case *ssa.MakeInterface:
				v = x.X
				continue
			case *ssa.ChangeInterface:
				v = x.X
				continue
			}
			return v
		}
	}
	a, b = strip(a), strip(b)
	if a == b {
		return true
	}
	// the elements of one slice of one object
	ia, ok1 := a.(*ssa.IndexAddr)
	ib, ok2 := b.(*ssa.IndexAddr)
	if ok1 && ok2 {
		return sameObject(ia.X, ib.X)
	}
	fa, ok1 := a.(*ssa.FieldAddr)
	fb, ok2 := b.(*ssa.FieldAddr)
	if ok1 && ok2 && fa.Field == fb.Field {
		return sameObject(fa.X, fb.X)
	}
	ua, ok1 := a.(*ssa.UnOp)
	ub, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && ua.Op == ub.Op {
		return sameObject(ua.X, ub.X)
	}
	return false
}

// inInner: the access is made in a loop of its own, that follows references
// from the element to their end.
func (l *uloop) inInner(r fieldAccess) bool {
	for _, h := range loopHeaders(r.cx.fn) {
		if h == l.header {
			continue
		}
		if lp := naturalLoop(h); lp[r.in.Block()] && (r.cx.parent != nil || l.loop[h]) {
			return true
		}
	}
	return false
}

// handledBefore: the other element has been passed to the function that
// does the writing before it is read.
func (l *uloop) handledBefore(r, w fieldAccess) bool {
	strip := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.Extract:
				if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
					v = ta.X
					continue
				}
			case *ssa.TypeAssert:
				v = x.X
				continue
			case *ssa.MakeInterface:
				v = x.X
				continue
			}
			return v
		}
	}
	obj := strip(r.obj)
	for _, b := range w.cx.fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || call.Call.StaticCallee() != w.cx.fn || !before(call, r.in) {
				continue
			}
			for _, a := range call.Call.Args {
				if strip(a) == obj {
					return true
				}
			}
		}
	}
	return false
}

// ---- slices in no particular order

func (o *orderCheck) follow(v ssa.Value, l *uloop) {
	key := "v " + v.Parent().String() + " " + v.Name()
	o.once(key, func() { o.followIn(v, l) })
}

// sortsArg: the call puts the slice in order.
func (o *orderCheck) sortsArg(call *ssa.Call, arg ssa.Value) (less *ssa.Function, sorts bool) {
	if partOnly(arg, map[ssa.Value]bool{}) {
		return nil, false
	}
	name := calleeName(&call.Call)
	switch name {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort":
		return nil, call.Call.Args[0] == arg
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		if call.Call.Args[0] != arg {
			return nil, false
		}
		switch f := call.Call.Args[1].(type) {
		case *ssa.MakeClosure:
			return f.Fn.(*ssa.Function), true
		case *ssa.Function:
			return f, true
		}
		return nil, false
	case "sort.Sort", "sort.Stable":
		if call.Call.Args[0] != arg {
			return nil, false
		}
		if mi, ok := arg.(*ssa.MakeInterface); ok {
			if sel := o.c.Prog.MethodSets.MethodSet(mi.X.Type()).Lookup(nil, "Less"); sel != nil {
				return o.c.Prog.MethodValue(sel), true
			}
			if n, ok := mi.X.Type().(*types.Named); ok {
				switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
				case "sort.StringSlice", "sort.IntSlice", "sort.Float64Slice":
					return nil, true
				}
			}
		}
		return nil, false
	}
	// a function of the repository that sorts its parameter
	f := call.Call.StaticCallee()
	if f == nil || !o.c.inRepo(f) || f.Blocks == nil {
		return nil, false
	}
	for i, a := range call.Call.Args {
		if a != arg || i >= len(f.Params) {
			continue
		}
		al := aliases(f.Params[i])
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c2, ok := in.(*ssa.Call)
				if !ok || c2 == call {
					continue
				}
				for _, a2 := range c2.Call.Args {
					if al[a2] {
						if less, ok := o.sortsArgShallow(c2, a2); ok && dominatesReturns(c2) {
							return less, true
						}
					}
				}
			}
		}
	}
	return nil, false
}

// partOnly: the value may be a part of another slice, so that sorting it leaves the rest of that slice alone.
func partOnly(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.ChangeType:
		return partOnly(v.X, seen)
	case *ssa.MakeInterface:
		return partOnly(v.X, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if partOnly(e, seen) {
				return true
			}
		}
	case *ssa.Slice:
		if _, ok := v.X.Type().Underlying().(*types.Slice); !ok {
			return false // an array literal
		}
		if v.Low != nil && !isZero(v.Low) {
			return true
		}
		if v.High == nil || isZero(v.High) {
			return partOnly(v.X, seen) && v.High == nil
		}
		if c, ok := v.High.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && c.Call.Args[0] == v.X {
				return partOnly(v.X, seen)
			}
		}
		return true
	}
	return false
}

func isZero(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.Int && constant.Sign(c.Value) == 0
}

func (o *orderCheck) sortsArgShallow(call *ssa.Call, arg ssa.Value) (*ssa.Function, bool) {
	f := call.Call.StaticCallee()
	if f != nil && o.c.inRepo(f) {
		return nil, false
	}
	return o.sortsArg(call, arg)
}

func dominatesReturns(in ssa.Instruction) bool {
	for _, b := range in.Parent().Blocks {
		for _, x := range b.Instrs {
			if r, ok := x.(*ssa.Return); ok && !before(in, r) {
				return false
			}
		}
	}
	return true
}

// aliases are the values of the function that hold the slice v.
func aliases(v ssa.Value) map[ssa.Value]bool {
	al := map[ssa.Value]bool{}
	var mark func(x ssa.Value)
	mark = func(x ssa.Value) {
		if al[x] {
			return
		}
		al[x] = true
		if x.Referrers() == nil {
			return
		}
		for _, r := range *x.Referrers() {
			switch r := r.(type) {
			case *ssa.Phi:
				mark(r)
			case *ssa.ChangeType:
				mark(r)
			case *ssa.MakeInterface:
				mark(r)
			case *ssa.Slice:
				mark(r)
			case *ssa.Call:
				if b, ok := r.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					if r.Call.Args[0] == x || len(r.Call.Args) > 1 && r.Call.Args[1] == x {
						mark(r)
					}
				}
			case *ssa.Store:
				if cell, ok := r.Addr.(*ssa.Alloc); ok && r.Val == x {
					for _, r2 := range usesOf(cell) {
						if u, ok := r2.(*ssa.UnOp); ok {
							mark(u)
						}
						if mc, ok := r2.(*ssa.MakeClosure); ok {
							fn := mc.Fn.(*ssa.Function)
							for i, b := range mc.Bindings {
								if b == ssa.Value(cell) {
									for _, r3 := range usesOf(fn.FreeVars[i]) {
										if u, ok := r3.(*ssa.UnOp); ok && u.Op == token.MUL {
											mark(u)
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}
	mark(v)
	// what was appended to is the same slice
	for changed := true; changed; {
		changed = false
		for x := range al {
			if call, ok := x.(*ssa.Call); ok {
				if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && !al[call.Call.Args[0]] {
					if _, isConst := call.Call.Args[0].(*ssa.Const); !isConst {
						n := len(al)
						mark(call.Call.Args[0])
						changed = changed || len(al) > n
					}
				}
			}
		}
	}
	return al
}

func (o *orderCheck) followIn(v ssa.Value, l *uloop) {
	o.followed++
	fn := v.Parent()
	al := aliases(v)
	// a cell holding it
	type sortCall struct {
		call *ssa.Call
		less *ssa.Function
	}
	var sorts []sortCall
	comparators := map[*ssa.Function]bool{}
	for x := range al {
		for _, r := range usesOf(x) {
			call, ok := r.(*ssa.Call)
			if !ok {
				continue
			}
			if less, ok := o.sortsArg(call, x); ok {
				sorts = append(sorts, sortCall{call, less})
				if less != nil {
					comparators[less] = true
				}
			}
		}
	}
	sort.Slice(sorts, func(i, j int) bool { return sorts[i].call.Pos() < sorts[j].call.Pos() })
	name := l.name
	for _, s := range sorts {
		if s.less == nil {
			o.c.OK("sorted before use", name+" sorted in "+fname(fn), s.call.Pos(), "sorted by value")
			continue
		}
		if why := totalOrder(s.less, elemType(v.Type())); why != "" {
			o.c.Bad("sorted before use", name+" sorted in "+fname(fn), s.call.Pos(), "the comparison %s", why)
		} else {
			o.c.OK("sorted before use", name+" sorted in "+fname(fn), s.call.Pos(), "sorted by a comparison that tells all elements apart")
		}
	}
	ordered := func(in ssa.Instruction) bool {
		for _, s := range sorts {
			if s.call.Parent() == in.Parent() && before(s.call, in) {
				return true
			}
			// within a closure that is made after sorting
			if f := in.Parent(); f != s.call.Parent() {
				if mc := o.c.callers().closures[f]; mc != nil && mc.Parent() == s.call.Parent() && before(s.call, mc) {
					return true
				}
			}
		}
		return comparators[in.Parent()]
	}
	var xs []ssa.Value
	for x := range al {
		xs = append(xs, x)
	}
	sort.Slice(xs, func(i, j int) bool { return xs[i].Name() < xs[j].Name() })
	for _, x := range xs {
		for _, r := range usesOf(x) {
			if ordered(r) {
				continue
			}
			if rv, ok := r.(ssa.Value); ok && al[rv] {
				continue
			}
			o.use(v, x, r, l)
		}
	}
}

func elemType(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// use judges one use of a slice that is in no particular order.
func (o *orderCheck) use(v, x ssa.Value, r ssa.Instruction, l *uloop) {
	fn := r.Parent()
	bad := func(format string, args ...interface{}) {
		o.c.Bad("sorted before use", l.name+" in "+fname(fn), r.Pos(), "the slice filled in map order "+format, args...)
	}
	switch r := r.(type) {
	case *ssa.Call:
		if b, ok := r.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap":
				return
			case "copy":
				if r.Call.Args[1] == x {
					o.follow(r.Call.Args[0], l)
				}
				return
			case "append":
				return
			}
		}
		if _, ok := o.sortsArg(r, x); ok {
			return
		}
		if o.isLog(&r.Call) {
			return
		}
		f := r.Call.StaticCallee()
		if f == nil || !o.c.inRepo(f) || f.Blocks == nil {
			bad("is passed to %s before it is sorted", calleeName(&r.Call))
			return
		}
		for i, a := range r.Call.Args {
			if a == x && i < len(f.Params) {
				o.follow(f.Params[i], l)
			}
		}
	case *ssa.BinOp:
		return // compared with nil
	case *ssa.Store:
		if r.Val != x {
			return
		}
		switch a := r.Addr.(type) {
		case *ssa.Alloc:
			return // an alias
		case *ssa.IndexAddr:
			if mi, ok := x.(*ssa.MakeInterface); ok && o.onlyLogged(mi) {
				return
			}
		case *ssa.FieldAddr:
			o.fieldCollected(r, l)
			return
		case *ssa.FreeVar:
			_ = a
		}
		bad("is stored before it is sorted")
	case *ssa.Return:
		idx := -1
		for i, res := range r.Results {
			if res == x {
				idx = i
			}
		}
		if isExportedFn(fn) && fn.Parent() == nil {
			bad("is returned to the caller before it is sorted")
			return
		}
		sites := append([]ssa.CallInstruction{}, o.c.callers().sites[fn]...)
		sites = append(sites, o.invokeSites(fn)...)
		for _, s := range sites {
			call, ok := s.(*ssa.Call)
			if !ok {
				continue
			}
			if len(r.Results) == 1 {
				o.follow(call, l)
				continue
			}
			for _, e := range usesOf(call) {
				if ex, ok := e.(*ssa.Extract); ok && ex.Index == idx {
					o.follow(ex, l)
				}
			}
		}
	case *ssa.IndexAddr:
		if r.X != x {
			return
		}
		o.indexed(v, x, r, l, bad)
	case *ssa.MakeClosure:
		return
	case *ssa.DebugRef, *ssa.Phi, *ssa.Slice, *ssa.ChangeType, *ssa.MakeInterface:
		return
	default:
		bad("is used by %s before it is sorted", r)
	}
}

// invokeSites are the interface calls that may call the method fn.
func (o *orderCheck) invokeSites(fn *ssa.Function) []ssa.CallInstruction {
	var res []ssa.CallInstruction
	if fn.Signature.Recv() == nil {
		return nil
	}
	for _, f := range o.c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !ci.Common().IsInvoke() || ci.Common().Method.Name() != fn.Name() {
					continue
				}
				for _, t := range o.c.chaTargets(ci.Common()) {
					if t == fn && f.Synthetic == "" {
						res = append(res, ci)
					}
				}
			}
		}
	}
	return res
}

// indexed: the elements of an unordered slice are visited in a loop.
func (o *orderCheck) indexed(v, x ssa.Value, ia *ssa.IndexAddr, from *uloop, bad func(string, ...interface{})) {
	fn := ia.Parent()
	// filling it
	onlyStores := true
	for _, r := range usesOf(ia) {
		if st, ok := r.(*ssa.Store); !ok || st.Addr != ssa.Value(ia) {
			onlyStores = false
		}
	}
	if onlyStores {
		return
	}
	if _, isConst := ia.Index.(*ssa.Const); isConst {
		bad("is indexed before it is sorted")
		return
	}
	var hdr *ssa.BasicBlock
	size := 0
	for _, h := range loopHeaders(fn) {
		if lp := naturalLoop(h); lp[ia.Block()] && (hdr == nil || len(lp) < size) {
			hdr, size = h, len(lp)
		}
	}
	if hdr == nil {
		bad("is indexed before it is sorted")
		return
	}
	key := "loop " + fn.String() + fmt.Sprint(hdr.Index)
	o.once(key, func() {
		l := &uloop{o: o, fn: fn, name: o.names.name(fname(fn) + " visits " + describeMap(x)), pos: ia.Pos(), header: hdr, elems: map[ssa.Value]vclass{}}
		k := cElem
		if from.key != nil && collectsKeys(from) {
			k = cKey
			l.key = ia
		}
		idx := ia.Index
		if b, ok := idx.(*ssa.BinOp); ok {
			if p, ok := b.X.(*ssa.Phi); ok {
				l.idxPhi = p
			}
			l.elems[b] = cElem
		}
		if p, ok := idx.(*ssa.Phi); ok {
			l.idxPhi = p
			l.elems[p] = cElem
		}
		al := aliases(v)
		for a := range al {
			for _, r := range usesOf(a) {
				if ia2, ok := r.(*ssa.IndexAddr); ok {
					for _, r2 := range usesOf(ia2) {
						if u, ok := r2.(*ssa.UnOp); ok && u.Op == token.MUL {
							l.elems[u] = k
						}
					}
				}
			}
		}
		l.run()
	})
}

// collectsKeys: what the loop appends is the key itself.
func collectsKeys(l *uloop) bool {
	if l.key == nil {
		return false
	}
	for _, r := range usesOf(l.key) {
		switch r := r.(type) {
		case *ssa.Store:
			if _, ok := r.Addr.(*ssa.IndexAddr); ok {
				return true
			}
		case *ssa.ChangeType:
			return true
		}
	}
	return false
}

// fieldCollected: a field or captured variable holds an unordered slice; it
// must be sorted before the function ends.
func (o *orderCheck) fieldCollected(st *ssa.Store, l *uloop) {
	fn := st.Parent()
	key := addrKey(st.Addr)
	if al, ok := st.Addr.(*ssa.Alloc); ok {
		for _, r := range usesOf(al) {
			if u, ok := r.(*ssa.UnOp); ok {
				o.follow(u, l)
				return
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			for _, a := range call.Call.Args {
				u := a
				if mi, ok := u.(*ssa.MakeInterface); ok {
					u = mi.X
				}
				if ct, ok := u.(*ssa.ChangeType); ok {
					u = ct.X
				}
				ld, ok := u.(*ssa.UnOp)
				if !ok || ld.Op != token.MUL || addrKey(ld.X) != key {
					continue
				}
				if less, ok := o.sortsArg(call, a); ok && reachesInstr(st, call) && mustPass(st, call) {
					if less != nil {
						if why := totalOrder(less, elemType(ld.Type())); why != "" {
							o.c.Bad("sorted before use", l.name+" sorted in "+fname(fn), call.Pos(), "the comparison %s", why)
							return
						}
					}
					o.c.OK("sorted before use", l.name+" sorted in "+fname(fn), call.Pos(), "sorted where it is kept")
					return
				}
			}
		}
	}
	o.c.Bad("sorted before use", l.name+" in "+fname(fn), st.Pos(), "the slice filled in map order is kept without being sorted")
}

// mustPass: every path from a to a return goes through b.
func mustPass(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() && instrIndex(a) < instrIndex(b) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Block().Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] || x == b.Block() {
			continue
		}
		seen[x] = true
		if len(x.Instrs) > 0 {
			if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok {
				return false
			}
		}
		work = append(work, x.Succs...)
	}
	return true
}

// totalOrder checks that a comparison function tells all elements apart. It
// looks at what is compared: the elements themselves, or parts that identify
// them.
func totalOrder(less *ssa.Function, elem types.Type) string {
	if elem == nil {
		return "is not of elements of a slice"
	}
	if _, ok := elem.Underlying().(*types.Basic); ok {
		direct := false
		lossy := ""
		eachCompared(less, func(v ssa.Value, depth int) {
			switch x := v.(type) {
			case *ssa.UnOp:
				direct = true
			case *ssa.Parameter:
				direct = true
			case *ssa.Call:
				lossy = "compares " + calleeName(&x.Call) + " of the elements, which may be the same for different ones"
			default:
				_ = x
			}
		})
		if direct {
			return ""
		}
		if lossy != "" {
			return lossy
		}
		return "does not compare the elements"
	}
	fields := map[string]bool{}
	why := ""
	eachCompared(less, func(v ssa.Value, depth int) {
		switch x := v.(type) {
		case *ssa.BinOp:
			if x.Op == token.ADD && !hasConstSep(x) {
				why = "compares concatenated parts, which may be the same for different elements"
			}
		}
		collectFields(v, fields, map[ssa.Value]bool{}, 0)
	})
	if st, ok := elem.Underlying().(*types.Struct); ok {
		all := true
		basic := true
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := st.Field(i).Type().Underlying().(*types.Basic); !ok {
				basic = false
			}
			if !fields[st.Field(i).Name()] {
				all = false
			}
		}
		if basic {
			if all && why == "" {
				return ""
			}
			if why != "" {
				return why
			}
			return "does not look at every part of the elements"
		}
	}
	if why != "" {
		return why
	}
	if fields["Local"] && !fields["Space"] || fields["Space"] && !fields["Local"] {
		return "looks at only one part of a name"
	}
	if len(fields) == 0 {
		return "does not compare the elements"
	}
	return ""
}

func hasConstSep(b *ssa.BinOp) bool {
	for _, v := range []ssa.Value{b.X, b.Y} {
		if s, ok := constString(v); ok && s != "" {
			return true
		}
		if x, ok := v.(*ssa.BinOp); ok && x.Op == token.ADD && hasConstSep(x) {
			return true
		}
	}
	return false
}

// eachCompared visits the operands of the orderings that a function performs.
func eachCompared(less *ssa.Function, f func(v ssa.Value, depth int)) {
	for _, b := range less.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				switch x.Op {
				case token.LSS, token.GTR, token.LEQ, token.GEQ:
					if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsOrdered != 0 {
						if _, isK := x.X.(*ssa.Const); isK {
							continue
						}
						if c, ok := x.X.(*ssa.Call); ok && isCompare(c) {
							continue
						}
						f(x.X, 0)
						if _, isK := x.Y.(*ssa.Const); !isK {
							f(x.Y, 0)
						}
					}
				}
			case *ssa.Call:
				if isCompare(x) {
					for _, a := range x.Call.Args {
						f(a, 0)
					}
				}
			}
		}
	}
}

func isCompare(c *ssa.Call) bool {
	n := calleeName(&c.Call)
	return n == "strings.Compare" || n == "cmp.Compare" || n == "cmp.Less" || n == "bytes.Compare"
}

func collectFields(v ssa.Value, fields map[string]bool, seen map[ssa.Value]bool, depth int) {
	if seen[v] || depth > 8 {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Field:
		if f := fieldVar2(x); f != nil {
			fields[f.Name()] = true
		}
		collectFields(x.X, fields, seen, depth+1)
	case *ssa.FieldAddr:
		if f := fieldVar(x); f != nil {
			fields[f.Name()] = true
		}
		collectFields(x.X, fields, seen, depth+1)
	case *ssa.UnOp:
		collectFields(x.X, fields, seen, depth+1)
	case *ssa.BinOp:
		collectFields(x.X, fields, seen, depth+1)
		collectFields(x.Y, fields, seen, depth+1)
	case *ssa.Call:
		fields["()"+calleeShort(&x.Call)] = true
		for _, a := range callOperands(&x.Call) {
			collectFields(a, fields, seen, depth+1)
		}
	case *ssa.Alloc:
		for _, r := range usesOf(x) {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
				collectFields(st.Val, fields, seen, depth+1)
			}
		}
	}
}

// ---- the configuration

func isConfigPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Config" && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath+"/")
}

// configUnchanged: a run does not change the settings it was given; what it
// keeps in the configuration is made anew by every run before it is used.
func (c *Ctx) configUnchanged(rule string) {
	for _, rel := range []string{"xsdgen", "wsdlgen"} {
		p := c.pkg(rel)
		if p == nil || p.Type("Config") == nil {
			c.Bad("anchor", rel+".Config", token.NoPos, "the type was not found")
			continue
		}
		ms := c.Prog.MethodSets.MethodSet(types.NewPointer(p.Type("Config").Type()))
		for i := 0; i < ms.Len(); i++ {
			name := ms.At(i).Obj().Name()
			if !ms.At(i).Obj().Exported() || name == "Option" || name == "XSDOption" || name == "GenCLI" {
				continue
			}
			fn := c.Func(rel, "Config."+name)
			if fn == nil || fn.Blocks == nil {
				continue
			}
			c.configEntry(rule, rel, fn)
		}
	}
	c.Min(rule, 6)
}

// staticReach lists the functions that fn may call, other than through
// unknown function values, with the closures they make.
func (c *Ctx) staticReach(fn *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var order []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || !c.inRepo(f) {
			return
		}
		seen[f] = true
		order = append(order, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					for _, t := range c.chaTargets(ci.Common()) {
						visit(t)
					}
				}
			}
		}
	}
	visit(fn)
	return order
}

func (c *Ctx) configEntry(rule, rel string, entry *ssa.Function) {
	reach := c.staticReach(entry)
	type wr struct {
		fn *ssa.Function
		in ssa.Instruction
	}
	writes := map[*types.Var][]wr{}
	resets := map[*types.Var][]wr{}
	touches := map[*types.Var]map[*ssa.Function]bool{}
	bad := false
	fail := func(in ssa.Instruction, format string, args ...interface{}) {
		bad = true
		c.Bad(rule, fname(entry)+" via "+fname(in.Parent()), in.Pos(), format, args...)
	}
	for _, fn := range reach {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					common := ci.Common()
					if f := common.StaticCallee(); f != nil && (f.Name() == "Option" || f.Name() == "XSDOption") && len(common.Args) > 0 && isConfigPtr(common.Args[0].Type()) {
						fail(in, "applies an option")
					} else if f == nil && !common.IsInvoke() {
						for _, a := range common.Args {
							if isConfigPtr(a.Type()) {
								fail(in, "hands the configuration to a function value")
							}
						}
					}
				}
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !isConfigPtr(fa.X.Type()) {
					continue
				}
				f := fieldVar(fa)
				if touches[f] == nil {
					touches[f] = map[*ssa.Function]bool{}
				}
				touches[f][fn] = true
				for _, r := range usesOf(fa) {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr == ssa.Value(fa) {
							if freshValue(r.Val) && dominatesReturns(r) {
								resets[f] = append(resets[f], wr{fn, r})
							}
							writes[f] = append(writes[f], wr{fn, r})
						} else {
							fail(in, "keeps the address of the setting %s", f.Name())
						}
					case *ssa.UnOp:
						for _, r2 := range usesOf(r) {
							switch r2 := r2.(type) {
							case *ssa.MapUpdate:
								if r2.Map == ssa.Value(r) {
									writes[f] = append(writes[f], wr{fn, r2})
								}
							case *ssa.Call:
								if bi, ok := r2.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "copy" || bi.Name() == "append") && r2.Call.Args[0] == ssa.Value(r) {
									writes[f] = append(writes[f], wr{fn, r2})
								}
							case *ssa.IndexAddr:
								for _, r3 := range usesOf(r2) {
									if st, ok := r3.(*ssa.Store); ok && st.Addr == ssa.Value(r2) {
										writes[f] = append(writes[f], wr{fn, st})
									}
								}
							}
						}
					case *ssa.FieldAddr:
					case *ssa.Call:
						if isConfigPtr(fa.Type()) {
							continue // the other generator's configuration
						}
						fail(in, "passes the address of the setting %s", f.Name())
					}
				}
			}
		}
	}
	var fields []*types.Var
	for f := range writes {
		fields = append(fields, f)
	}
	sort.Slice(fields, func(i, j int) bool { return fields[i].Name() < fields[j].Name() })
	scratch := []string{}
	for _, f := range fields {
		var at *ssa.Call
		for _, rs := range resets[f] {
			if call := c.resetCall(entry, reach, rs.fn, rs.in, touches[f]); call != nil {
				at = call
			}
			if rs.fn == entry {
				at = &ssa.Call{}
			}
		}
		if at == nil {
			fail(writes[f][0].in, "changes %s, which is not made anew at the beginning of every run", f.Name())
			continue
		}
		scratch = append(scratch, f.Name())
	}
	if !bad {
		d := "changes no setting"
		if len(scratch) > 0 {
			d = "changes only what it makes anew first: " + strings.Join(scratch, ", ")
		}
		c.OK(rule, fname(entry), entry.Pos(), "%s (%d functions)", d, len(reach))
	}
}

func freshValue(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.MakeMap, *ssa.MakeSlice:
		return true
	case *ssa.Const:
		return v.Value == nil
	case *ssa.Slice:
		_, ok := v.X.(*ssa.Alloc)
		return ok
	}
	return false
}

// resetCall finds a function in reach that calls the resetting function
// before it calls anything else that touches the field.
func (c *Ctx) resetCall(entry *ssa.Function, reach []*ssa.Function, reset *ssa.Function, st ssa.Instruction, touches map[*ssa.Function]bool) *ssa.Call {
	// the resetting function must not use the field before it resets it
	inReach := map[*ssa.Function]bool{}
	for _, f := range reach {
		inReach[f] = true
	}
	touching := map[*ssa.Function]bool{}
	for _, f := range reach {
		for _, g := range c.staticReach(f) {
			if touches[g] {
				touching[f] = true
			}
		}
	}
	for _, f := range reach {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() != reset {
					continue
				}
				ok = true
				for _, b2 := range f.Blocks {
					for _, in2 := range b2.Instrs {
						if in2 == ssa.Instruction(call) {
							continue
						}
						uses := false
						if ci, isCall := in2.(ssa.CallInstruction); isCall {
							if g := ci.Common().StaticCallee(); g != nil && touching[g] {
								uses = true
							}
						}
						if uses && !before(call, in2) {
							ok = false
						}
					}
				}
				if !ok {
					continue
				}
				// everything that touches the field in this run is called from f
				all := true
				sub := map[*ssa.Function]bool{}
				for _, g := range c.staticReach(f) {
					sub[g] = true
				}
				for g := range touches {
					if inReach[g] && !sub[g] {
						all = false
					}
				}
				if all {
					return call
				}
			}
		}
	}
	return nil
}
