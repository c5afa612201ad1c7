package main

// C05: every failure is reported.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C05"] = checkC05 }

type c05 struct {
	c        *Ctx
	e        *errflow
	names    counter
	predOnly map[*ssa.Function]int // the error only says that a pattern could not be compiled
	setters  map[*ssa.Function]stickyField
}

// A stickyField is the error field that a method's boolean result stands for.
type stickyField struct{ path string }

func checkC05(c *Ctx) {
	c.Explanation = "For every call that can fail, in every function of the library and the commands, a path-sensitive analysis of the " +
		"nilness of error values follows every path from the failure to the exits of the function. In a function that returns an error, " +
		"each must return one that cannot be nil, or record it in a sticky error field, an error variable captured from a caller, or end in " +
		"a panic that is turned into an error. The same for failed look-ups, recovered panics and sticky errors."
	c.Assumptions = []string{
		"Writes to bytes.Buffer and strings.Builder do not fail.",
		"ParseBuiltin is a predicate: its error says that a name is not a built-in type.",
		"Errors of standard-library functions whose last result is not an error are not considered.",
	}
	k := &c05{c: c, e: newErrflow(c), names: counter{}, predOnly: map[*ssa.Function]int{}, setters: map[*ssa.Function]stickyField{}}
	k.findSetters()
	ncalls, nfuncs := 0, 0
	for _, fn := range c.libFuncs() {
		if fn.Name() == "init" && fn.Signature.Recv() == nil {
			continue
		}
		nfuncs++
		for _, b := range fn.Blocks {
			for i, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				ncalls++
				k.call(fn, b, i, ci)
			}
		}
		k.lookups(fn)
		k.recovers(fn)
	}
	k.sticky()
	c.Note("functions_analysed", nfuncs)
	c.Note("calls_examined", ncalls)
	c.Min("failed call is reported", 60)
	c.Min("failed lookup is reported", 5)
	c.Min("recovered panic is reported", 1)
	c.Min("sticky error is reported", 2)
	c.Min("scanner failure is reported", 2)
}

// strictPkg are the packages in which a function without an error result
// must panic (and the panic be turned into an error) when a step fails.
func strictPkg(fn *ssa.Function) bool {
	switch pkgRel(fn) {
	case "xsd", "xmltree", "wsdl":
		return true
	}
	return strings.HasPrefix(pkgRel(fn), "cmd/")
}

func (k *c05) exemptCallee(fn *ssa.Function, common *ssa.CallCommon) bool {
	name := calleeName(common)
	switch name {
	case "fmt.Errorf", "errors.New", "errors.Unwrap", "errors.Join":
		return true
	case "xsd.ParseBuiltin":
		return true
	case "fmt.Print", "fmt.Printf", "fmt.Println":
		return strings.HasPrefix(pkgRel(fn), "cmd/") || strings.HasPrefix(pkgRel(fn), "internal/commandline")
	}
	if strings.HasPrefix(name, "(*bytes.Buffer).Write") || strings.HasPrefix(name, "(*strings.Builder).Write") {
		return true
	}
	// anything written to a buffer in memory
	if strings.HasPrefix(name, "fmt.Fprint") || name == "io.WriteString" || name == "encoding/xml.EscapeText" {
		if bufferValue(common.Args[0]) || stderrValue(common.Args[0]) {
			return true
		}
	}
	// an expression always prints
	if name == "go/printer.Fprint" && bufferValue(common.Args[0]) {
		if ci, ok := common.Args[2].(*ssa.ChangeInterface); ok && types.TypeString(ci.X.Type(), nil) == "go/ast.Expr" {
			return true
		}
	}
	if f := common.StaticCallee(); f != nil && k.c.inRepo(f) && k.e.neverFails(f) {
		return true
	}
	// constructing an error is not failing
	if f := common.StaticCallee(); f != nil && k.c.inRepo(f) && k.e.constructor(f).ok {
		return true
	}
	if common.IsInvoke() {
		// an accessor that returns an error is a failure like any other
		return false
	}
	return false
}

func bufferValue(v ssa.Value) bool {
	mi, ok := v.(*ssa.MakeInterface)
	if !ok {
		return false
	}
	return typeIs(mi.X.Type(), "bytes.Buffer") || typeIs(mi.X.Type(), "strings.Builder")
}

func stderrValue(v ssa.Value) bool {
	mi, ok := v.(*ssa.MakeInterface)
	if !ok {
		return false
	}
	if u, ok := mi.X.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok && g.Pkg.Pkg.Path() == "os" && g.Name() == "Stderr" {
			return true
		}
	}
	return false
}

// patternOnly reports whether the only failure of a call is a regular
// expression that cannot be compiled.
func (k *c05) patternOnly(common *ssa.CallCommon) bool {
	switch calleeName(common) {
	case "regexp.Compile":
		return true
	}
	f := common.StaticCallee()
	if f == nil || !k.c.inRepo(f) || f.Blocks == nil {
		return false
	}
	switch k.predOnly[f] {
	case 1:
		return true
	case 2:
		return false
	}
	k.predOnly[f] = 2
	idx := errIndex(f.Signature)
	if idx < 0 {
		return false
	}
	var visit func(v ssa.Value, seen map[ssa.Value]bool) bool
	visit = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Const:
			return v.Value == nil
		case *ssa.Phi:
			for _, x := range v.Edges {
				if !visit(x, seen) {
					return false
				}
			}
			return true
		case *ssa.Call:
			return k.patternOnly(&v.Call)
		case *ssa.Extract:
			if call, ok := v.Tuple.(*ssa.Call); ok && v.Index == errIndex(call.Call.Signature()) {
				return k.patternOnly(&call.Call)
			}
		}
		return false
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if !visit(r.Results[idx], map[ssa.Value]bool{}) {
				return false
			}
		}
	}
	k.predOnly[f] = 1
	return true
}

// accept recognizes the ways of reporting a failure other than returning it.
func (k *c05) accept(q *query, in ssa.Instruction, s *efState) bool {
	switch in := in.(type) {
	case *ssa.Store:
		if !isError(deref(in.Addr.Type())) || q.fact(in.Val, s)&fNonNil == 0 {
			return false
		}
		switch a := in.Addr.(type) {
		case *ssa.FieldAddr:
			if key, ok := addrCell(a); ok {
				switch key.base.(type) {
				case *ssa.Parameter, *ssa.FreeVar:
					return !returnsErr(q.fn)
				}
			}
		case *ssa.FreeVar, *ssa.Parameter:
			return !returnsErr(q.fn)
		}
	case *ssa.Call:
		// a sticky setter given a failure
		if f := in.Call.StaticCallee(); f != nil && k.c.inRepo(f) && !returnsErr(q.fn) {
			for i, a := range in.Call.Args {
				if isError(a.Type()) && q.fact(a, s)&fNonNil != 0 && i < len(f.Params) && storesParam(f, i) {
					return true
				}
			}
		}
	}
	return false
}

func returnsErr(fn *ssa.Function) bool { return errIndex(fn.Signature) >= 0 }

// storesParam reports whether f stores its i'th parameter in a field of
// another one.
func storesParam(f *ssa.Function, i int) bool {
	for _, r := range *f.Params[i].Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Val == f.Params[i] {
			if key, ok := addrCell(st.Addr); ok && key.path != "" {
				if _, ok := key.base.(*ssa.Parameter); ok {
					return true
				}
			}
		}
	}
	return false
}

func (k *c05) call(fn *ssa.Function, b *ssa.BasicBlock, i int, ci ssa.CallInstruction) {
	common := ci.Common()
	if _, isB := common.Value.(*ssa.Builtin); isB {
		return
	}
	if sf, ok := k.setterCall(common); ok {
		k.setterEvent(fn, b, i, ci, sf)
	}
	idx := errIndex(common.Signature())
	if idx < 0 || k.exemptCallee(fn, common) {
		return
	}
	const rule = "failed call is reported"
	name := k.names.name(fname(fn) + " calls " + calleeName(common))
	call, ok := ci.(*ssa.Call)
	if !ok {
		k.c.Bad(rule, name, ci.Pos(), "the error of a deferred or concurrent call is lost")
		return
	}
	errs := extracts(call, idx)
	if k.patternOnly(common) && !returnsErr(fn) {
		// an untranslatable pattern may be documented instead
		used := false
		for _, v := range errs {
			if len(*v.Referrers()) > 0 {
				used = true
			}
		}
		if used {
			k.c.OK(rule, name, ci.Pos(), "a pattern that cannot be compiled is documented")
		} else {
			k.c.Bad(rule, name, ci.Pos(), "the error is dropped")
		}
		return
	}
	q := &query{e: k.e, fn: fn}
	q.strict = strictPkg(fn)
	q.accept = func(in ssa.Instruction, s *efState) bool {
		if k.accept(q, in, s) {
			return true
		}
		if in2, ok := in.(*ssa.Call); ok && (in2 != call || triesFormats(call)) {
			if fallback(k.c, common, &in2.Call) {
				return true
			}
		}
		return false
	}
	if !returnsErr(fn) && !q.strict {
		// The failure must at least be looked at.
		used := false
		for _, v := range errs {
			for _, r := range *v.Referrers() {
				if _, isDbg := r.(*ssa.DebugRef); !isDbg {
					used = true
				}
			}
		}
		if !used {
			k.c.Bad(rule, name, ci.Pos(), "the error is dropped")
			return
		}
		k.c.OK(rule, name, ci.Pos(), "the error is tested or passed on in a function that does not return one")
		k.capturedErr(fn, name)
		return
	}
	s := &efState{map[ssa.Value]fact{}, map[cellKey]fact{}}
	for _, v := range errs {
		s.vals[v] = fNonNil
	}
	// io.EOF is how a stream ends
	switch calleeName(common) {
	case "(*encoding/xml.Decoder).Token", "(*encoding/xml.Decoder).RawToken":
		q.eofOK = true
	}
	if common.IsInvoke() && common.Method.Name() == "Read" {
		q.eofOK = true
	}
	if q.run(b, i+1, s) {
		k.c.OK(rule, name, ci.Pos(), "every path from the failure reports it (%d states)", len(q.memo))
		k.capturedErr(fn, name)
		return
	}
	if q.over {
		k.c.Bad(rule, name, ci.Pos(), "the analysis did not finish")
		return
	}
	k.c.Bad(rule, name, ci.Pos(), "after it fails, the function can return at %s without reporting the failure", k.c.pos(retPos(q.bad)))
}

func retPos(in ssa.Instruction) token.Pos {
	if in == nil {
		return token.NoPos
	}
	if in.Pos().IsValid() {
		return in.Pos()
	}
	b := in.Block()
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if b.Instrs[i].Pos().IsValid() {
			return b.Instrs[i].Pos()
		}
	}
	return in.Parent().Pos()
}

// fallback reports whether a second call is another attempt at what the
// first one failed to do: parsing the same text in another format.
func fallback(c *Ctx, first, second *ssa.CallCommon) bool {
	if calleeName(first) != "time.Parse" {
		return false
	}
	text := first.Args[1]
	for _, a := range second.Args {
		if sameText(a, text) {
			if calleeName(second) == "time.Parse" {
				return true
			}
			if f := second.StaticCallee(); f != nil && c.inRepo(f) && c.canStop(f) {
				return true
			}
		}
	}
	return false
}

// triesFormats reports whether each evaluation of a call of time.Parse may
// have another format.
func triesFormats(call *ssa.Call) bool {
	if calleeName(&call.Call) != "time.Parse" {
		return false
	}
	_, fixed := call.Call.Args[0].(*ssa.Const)
	_, param := call.Call.Args[0].(*ssa.Parameter)
	return !fixed && !param
}

// sameText reports whether two values are the same, or results of the same
// call with the same arguments.
func sameText(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.Call)
	y, ok2 := b.(*ssa.Call)
	if !ok1 || !ok2 || calleeName(&x.Call) != calleeName(&y.Call) || len(x.Call.Args) != len(y.Call.Args) {
		return false
	}
	for i := range x.Call.Args {
		xa, ya := x.Call.Args[i], y.Call.Args[i]
		if xa == ya || sameText(xa, ya) {
			continue
		}
		xs, o1 := constString(xa)
		ys, o2 := constString(ya)
		if !o1 || !o2 || xs != ys {
			return false
		}
	}
	return true
}

// canStop reports whether f may end in a panic.
func (c *Ctx) canStop(f *ssa.Function) bool {
	c.noReturnFuncs()
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Panic:
				return true
			case *ssa.Call:
				if c.isNoReturn(&in.Call) {
					return true
				}
			}
		}
	}
	return false
}

// capturedErr requires that the function which declares an error variable
// that a closure stores to looks at it after calling what uses the closure.
func (k *c05) capturedErr(fn *ssa.Function, name string) {
	if fn.Parent() == nil || returnsErr(fn) {
		return
	}
	mc := k.c.callers().closures[fn]
	if mc == nil {
		return
	}
	for i, fv := range fn.FreeVars {
		if !isError(deref(fv.Type())) || !storesThrough(fn, fv) {
			continue
		}
		al, ok := mc.Bindings[i].(*ssa.Alloc)
		if !ok {
			continue
		}
		parent := mc.Parent()
		if !returnsErr(parent) {
			continue
		}
		// from every use of the closure, with the variable set
		uses := callsUsing(mc)
		if len(uses) == 0 {
			uses = []ssa.Instruction{mc}
		}
		for _, start := range uses {
			q := &query{e: k.e, fn: parent}
			key := cellKey{al, ""}
			s := &efState{map[ssa.Value]fact{}, map[cellKey]fact{key: fNonNil}}
			q.accept = func(in ssa.Instruction, s *efState) bool { return k.accept(q, in, s) }
			if !q.run(start.Block(), instrIndex(start)+1, s) {
				k.c.Bad("captured error is reported", name, start.Pos(), "%s can return at %s without looking at the error variable this function sets",
					fname(parent), k.c.pos(retPos(q.bad)))
				return
			}
		}
		k.c.OK("captured error is reported", name, fn.Pos(), "%s returns the error variable this function sets", fname(parent))
	}
}

// callsUsing finds the calls of a closure, or that it is passed to.
func callsUsing(mc *ssa.MakeClosure) []ssa.Instruction {
	var res []ssa.Instruction
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Call:
				res = append(res, r)
			case ssa.Value:
				visit(r)
			}
		}
	}
	visit(mc)
	return res
}

// findSetters finds the methods whose boolean result tells whether an error
// was stored in a field of the receiver.
func (k *c05) findSetters() {
	for _, fn := range k.c.libFuncs() {
		res := fn.Signature.Results()
		if fn.Signature.Recv() == nil || res.Len() != 1 {
			continue
		}
		if b, ok := res.At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || !isError(st.Val.Type()) {
					continue
				}
				if key, ok := addrCell(st.Addr); ok && key.base == fn.Params[0] {
					k.setters[fn] = stickyField{key.path}
				}
			}
		}
	}
	for fn, sf := range k.setters {
		// whenever the field is set, the result must be false
		key := cellKey{fn.Params[0], sf.path}
		ok := true
		var bad ssa.Instruction
		try := func(b *ssa.BasicBlock, i int, s *efState) {
			q := &query{e: k.e, fn: fn}
			q.atReturn = func(r *ssa.Return, s *efState) bool {
				if s.cells[key]&fNonNil == 0 {
					return false
				}
				return q.fact(r.Results[0], s)&fFalse != 0
			}
			if !q.run(b, i, s) {
				ok = false
				bad = q.bad
			}
		}
		try(fn.Blocks[0], 0, &efState{map[ssa.Value]fact{}, map[cellKey]fact{key: fNonNil}})
		for _, b := range fn.Blocks {
			for i, in := range b.Instrs {
				call, isCall := in.(*ssa.Call)
				if !isCall {
					continue
				}
				idx := errIndex(call.Call.Signature())
				if idx < 0 || isErrCtor(&call.Call) {
					continue
				}
				s := &efState{map[ssa.Value]fact{}, map[cellKey]fact{}}
				for _, v := range extracts(call, idx) {
					s.vals[v] = fNonNil
				}
				try(b, i+1, s)
			}
		}
		if ok {
			k.c.OK("scanner failure is reported", fname(fn), fn.Pos(), "a failure is kept in the error field, and the result is false from then on")
		} else {
			k.c.Bad("scanner failure is reported", fname(fn), fn.Pos(), "a failure can go with a true result, or without the error field being set (return at %s)", k.c.pos(retPos(bad)))
		}
	}
}

func (k *c05) setterCall(common *ssa.CallCommon) (stickyField, bool) {
	f := common.StaticCallee()
	if f == nil {
		return stickyField{}, false
	}
	sf, ok := k.setters[f]
	return sf, ok
}

// setterEvent: a false result means that there is an error, which must be
// reported.
func (k *c05) setterEvent(fn *ssa.Function, b *ssa.BasicBlock, i int, ci ssa.CallInstruction, sf stickyField) {
	call, ok := ci.(*ssa.Call)
	if !ok {
		return
	}
	name := k.names.name(fname(fn) + " calls " + calleeName(ci.Common()))
	recv, ok := addrCell(call.Call.Args[0])
	if !ok {
		recv = cellKey{call.Call.Args[0], ""}
	}
	if !returnsErr(fn) {
		return
	}
	q := &query{e: k.e, fn: fn}
	q.accept = func(in ssa.Instruction, s *efState) bool { return k.accept(q, in, s) }
	s := &efState{map[ssa.Value]fact{call: fFalse}, map[cellKey]fact{{recv.base, recv.path + sf.path}: fNonNil}}
	if q.run(b, i+1, s) {
		k.c.OK("scanner failure is reported", name, ci.Pos(), "every path from a false result returns the error")
	} else {
		k.c.Bad("scanner failure is reported", name, ci.Pos(), "after a false result, the function can return at %s without the error", k.c.pos(retPos(q.bad)))
	}
}

// sticky: a method that returns an error returns the one kept in the
// receiver, if there is one.
func (k *c05) sticky() {
	type key struct {
		named *types.Named
		path  string
	}
	fields := map[key]bool{}
	for _, fn := range k.c.libFuncs() {
		if fn.Signature.Recv() == nil {
			continue
		}
		n := repoNamed(fn.Signature.Recv().Type())
		if n == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && isError(st.Val.Type()) {
					if ck, ok := addrCell(st.Addr); ok && ck.base == fn.Params[0] && ck.path != "" {
						fields[key{n, ck.path}] = true
					}
				}
			}
		}
	}
	for _, fn := range k.c.libFuncs() {
		if fn.Signature.Recv() == nil || !returnsErr(fn) {
			continue
		}
		n := repoNamed(fn.Signature.Recv().Type())
		for f := range fields {
			if f.named != n {
				continue
			}
			q := &query{e: k.e, fn: fn}
			s := &efState{map[ssa.Value]fact{}, map[cellKey]fact{{fn.Params[0], f.path}: fNonNil}}
			if q.run(fn.Blocks[0], 0, s) {
				k.c.OK("sticky error is reported", fname(fn), fn.Pos(), "an error kept in the receiver is returned")
			} else {
				k.c.Bad("sticky error is reported", fname(fn), fn.Pos(), "an error kept in the receiver is not returned at %s", k.c.pos(retPos(q.bad)))
			}
		}
	}
	for fn := range k.setters {
		_ = fn
		k.c.OK("sticky error is reported", fname(fn), fn.Pos(), "see the rule for scanner failures")
	}
}

// recovers: what is recovered from is reported, or raised again.
func (k *c05) recovers(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			bi, ok := call.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "recover" {
				continue
			}
			name := k.names.name(fname(fn) + " recovers")
			q := &query{e: k.e, fn: fn}
			q.strict = true
			q.accept = func(in ssa.Instruction, s *efState) bool {
				st, ok := in.(*ssa.Store)
				if !ok || !isError(deref(st.Addr.Type())) {
					return false
				}
				switch st.Addr.(type) {
				case *ssa.Parameter, *ssa.FreeVar:
					return q.fact(st.Val, s)&fNonNil != 0 || nonNilValue(st.Val)
				}
				return false
			}
			s := &efState{map[ssa.Value]fact{call: fNonNil}, map[cellKey]fact{}}
			if q.run(b, i+1, s) {
				k.c.OK("recovered panic is reported", name, call.Pos(), "stored as an error, or raised again")
			} else {
				k.c.Bad("recovered panic is reported", name, call.Pos(), "a recovered panic is dropped")
			}
		}
	}
}

// lookups: a name that cannot be found is an error.
func (k *c05) lookups(fn *ssa.Function) {
	if !returnsErr(fn) {
		return
	}
	const rule = "failed lookup is reported"
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			what := ""
			n := 2
			switch in := in.(type) {
			case *ssa.Lookup:
				if in.CommaOk && extractUsed(in, 0) && !localOrCache(fn, in.X) {
					what = "map of " + types.TypeString(in.X.Type().Underlying().(*types.Map).Elem(), types.RelativeTo(fnPkg(fn)))
				}
			case *ssa.Call:
				res := in.Call.Signature().Results()
				f := in.Call.StaticCallee()
				if res.Len() == 2 && isBool(res.At(1).Type()) && f != nil && k.c.inRepo(f) {
					what = calleeName(&in.Call)
				}
			}
			if what == "" {
				continue
			}
			name := k.names.name(fname(fn) + " looks up in " + what)
			q := &query{e: k.e, fn: fn}
			q.accept = func(in ssa.Instruction, s *efState) bool { return k.accept(q, in, s) }
			s := &efState{map[ssa.Value]fact{}, map[cellKey]fact{}}
			found := false
			for _, r := range *v.Referrers() {
				if ex, ok := r.(*ssa.Extract); ok && ex.Index == n-1 {
					s.vals[ex] = fFalse
					found = true
				}
			}
			if !found {
				k.c.Bad(rule, name, in.Pos(), "whether the lookup succeeded is not looked at")
				continue
			}
			if q.run(b, i+1, s) {
				k.c.OK(rule, name, in.Pos(), "every path from a failed lookup reports it")
			} else {
				k.c.Bad(rule, name, in.Pos(), "after a failed lookup, the function can return at %s without reporting it", k.c.pos(retPos(q.bad)))
			}
		}
	}
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func extractUsed(v ssa.Value, idx int) bool {
	for _, r := range *v.Referrers() {
		if ex, ok := r.(*ssa.Extract); ok && ex.Index == idx && len(*ex.Referrers()) > 0 {
			return true
		}
	}
	return false
}

// localOrCache reports whether a map is built by the function that looks
// something up in it, or filled by it: missing from a cache is no failure.
func localOrCache(fn *ssa.Function, m ssa.Value) bool {
	if phiOf(m, func(v ssa.Value) bool { _, ok := v.(*ssa.MakeMap); return ok }) {
		return true
	}
	var key cellKey
	hasKey := false
	if u, ok := m.(*ssa.UnOp); ok && u.Op == token.MUL {
		key, hasKey = addrCell(u.X)
		if al, ok := u.X.(*ssa.Alloc); ok {
			// a captured or reassigned local
			local := false
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == al {
					_, local = st.Val.(*ssa.MakeMap)
				}
			}
			if local {
				return true
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok {
				continue
			}
			if mu.Map == m {
				return true
			}
			if u, ok := mu.Map.(*ssa.UnOp); ok && u.Op == token.MUL && hasKey {
				if k, ok := addrCell(u.X); ok && k == key {
					return true
				}
			}
		}
	}
	return false
}

func phiOf(v ssa.Value, f func(ssa.Value) bool) bool {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value) bool
	visit = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		if p, ok := v.(*ssa.Phi); ok {
			for _, e := range p.Edges {
				if !visit(e) {
					return false
				}
			}
			return true
		}
		return f(v)
	}
	return visit(v)
}
