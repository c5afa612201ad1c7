package main

// Path-sensitive dataflow over the nilness of error values: from the moment
// something has failed, every way out of the function must report it.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fact uint8

const (
	fNil fact = 1 << iota
	fNonNil
	fNonEmpty
	fTrue
	fFalse
)

type cellKey struct {
	base ssa.Value
	path string
}

type efState struct {
	vals  map[ssa.Value]fact
	cells map[cellKey]fact
}

func (s *efState) clone() *efState {
	n := &efState{make(map[ssa.Value]fact, len(s.vals)), make(map[cellKey]fact, len(s.cells))}
	for k, v := range s.vals {
		n.vals[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	return n
}

func (s *efState) sig() string {
	var p []string
	for k, v := range s.vals {
		p = append(p, fmt.Sprintf("%s=%d", k.Name(), v))
	}
	for k, v := range s.cells {
		p = append(p, fmt.Sprintf("%s%s:%d", k.base.Name(), k.path, v))
	}
	sort.Strings(p)
	return strings.Join(p, ",")
}

// addrCell names the memory cell an address refers to.
func addrCell(v ssa.Value) (cellKey, bool) {
	path := ""
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			path = fmt.Sprintf(".%d", x.Field) + path
			v = x.X
			continue
		case *ssa.Alloc, *ssa.FreeVar, *ssa.Parameter, *ssa.Global:
			return cellKey{v, path}, true
		case *ssa.UnOp:
			// a pointer loaded from a cell that is only written once
			if x.Op == token.MUL && path != "" {
				return cellKey{v, path}, true
			}
		case *ssa.Call, *ssa.Extract, *ssa.Phi:
			if path != "" {
				return cellKey{v, path}, true
			}
		}
		return cellKey{}, false
	}
}

type errflow struct {
	c      *Ctx
	never  map[*ssa.Function]int // 1: cannot fail, 2: may fail, 3: in progress
	retsum map[*ssa.Function]*retSummary
	steps  int
}

type retSummary struct {
	ok      bool
	params  []int
	pending bool
}

func newErrflow(c *Ctx) *errflow {
	c.noReturnFuncs()
	return &errflow{c: c, never: map[*ssa.Function]int{}, retsum: map[*ssa.Function]*retSummary{}}
}

// neverFails reports whether the error result of fn is always nil.
func (e *errflow) neverFails(fn *ssa.Function) bool {
	switch e.never[fn] {
	case 1, 3:
		return true
	case 2:
		return false
	}
	e.never[fn] = 3
	ok := fn.Blocks != nil
	idx := errIndex(fn.Signature)
	for _, b := range fn.Blocks {
		if r, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isRet && ok {
			ok = e.alwaysNil(r.Results[idx], map[ssa.Value]bool{})
		}
	}
	if ok {
		e.never[fn] = 1
	} else {
		e.never[fn] = 2
	}
	return ok
}

func (e *errflow) alwaysNil(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value == nil
	case *ssa.Phi:
		for _, x := range v.Edges {
			if !e.alwaysNil(x, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && e.c.inRepo(f) && v.Call.Signature().Results().Len() == 1 {
			return e.neverFails(f)
		}
	case *ssa.Extract:
		if call, ok := v.Tuple.(*ssa.Call); ok {
			if f := call.Call.StaticCallee(); f != nil && e.c.inRepo(f) && v.Index == errIndex(f.Signature) {
				return e.neverFails(f)
			}
		}
	}
	return false
}

// constructor summarizes functions whose error result is never nil, provided
// that the listed parameters are not.
func (e *errflow) constructor(fn *ssa.Function) *retSummary {
	if s, ok := e.retsum[fn]; ok {
		return s
	}
	s := &retSummary{pending: true}
	e.retsum[fn] = s
	if fn.Blocks == nil || fn.Signature.Results().Len() != 1 {
		return s
	}
	if !isError(fn.Signature.Results().At(0).Type()) {
		return s
	}
	params := map[int]bool{}
	ok := true
	var visit func(v ssa.Value, seen map[ssa.Value]bool)
	visit = func(v ssa.Value, seen map[ssa.Value]bool) {
		if seen[v] || !ok {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.MakeInterface:
			return
		case *ssa.Phi:
			for _, x := range v.Edges {
				visit(x, seen)
			}
			return
		case *ssa.Parameter:
			for i, p := range fn.Params {
				if p == v {
					params[i] = true
					return
				}
			}
		case *ssa.Call:
			if isErrCtor(&v.Call) {
				return
			}
			if f := v.Call.StaticCallee(); f != nil && e.c.inRepo(f) {
				sub := e.constructor(f)
				if sub.ok {
					for _, i := range sub.params {
						visit(v.Call.Args[i], seen)
					}
					return
				}
			}
		}
		ok = false
	}
	n := 0
	for _, b := range fn.Blocks {
		if r, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isRet {
			n++
			visit(r.Results[0], map[ssa.Value]bool{})
		}
	}
	s.pending = false
	s.ok = ok && n > 0
	for i := range params {
		s.params = append(s.params, i)
	}
	sort.Ints(s.params)
	return s
}

func isErrCtor(common *ssa.CallCommon) bool {
	switch calleeName(common) {
	case "fmt.Errorf", "errors.New":
		return true
	}
	return false
}

// query asks whether every path from a point of a function, in a state where
// something has failed, reports the failure.
type query struct {
	e      *errflow
	fn     *ssa.Function
	strict bool // reaching a return without reporting is a violation
	// accept is consulted for every instruction; true ends the path well
	accept func(in ssa.Instruction, s *efState) bool
	// atReturn overrides what is required of a return
	atReturn func(r *ssa.Return, s *efState) bool
	memo     map[string]bool
	bad      ssa.Instruction
	over     bool
	edge     func(from, to *ssa.BasicBlock, s *efState)
	eofOK    bool // reaching the end of a stream is not a failure
}

// isEOFTest recognizes err == io.EOF (1) and err != io.EOF (-1).
func isEOFTest(v ssa.Value) int {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
		return -isEOFTest(u.X)
	}
	if call, ok := v.(*ssa.Call); ok && calleeName(&call.Call) == "errors.Is" && isEOF(call.Call.Args[1]) {
		return 1
	}
	b, ok := v.(*ssa.BinOp)
	if !ok || !(isEOF(b.X) || isEOF(b.Y)) {
		return 0
	}
	switch b.Op {
	case token.EQL:
		return 1
	case token.NEQ:
		return -1
	}
	return 0
}

func (q *query) fact(v ssa.Value, s *efState) fact {
	if f, ok := s.vals[v]; ok {
		return f
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if _, ok := v.Type().Underlying().(*types.Basic); !ok {
				return fNil
			}
			return 0
		}
		if v.Value.Kind() == constant.Bool {
			if constant.BoolVal(v.Value) {
				return fTrue
			}
			return fFalse
		}
	case *ssa.MakeInterface:
		return fNonNil
	case *ssa.ChangeInterface:
		return q.fact(v.X, s)
	case *ssa.ChangeType:
		return q.fact(v.X, s)
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeClosure, *ssa.MakeSlice:
		return fNonNil
	}
	return 0
}

func (q *query) run(b *ssa.BasicBlock, idx int, s *efState) bool {
	if q.memo == nil {
		q.memo = map[string]bool{}
	}
	q.block(b, idx, s)
	return q.bad == nil && !q.over
}

const efLimit = 60000

func (q *query) block(b *ssa.BasicBlock, idx int, s *efState) {
	if q.bad != nil || q.over {
		return
	}
	for ; idx < len(b.Instrs); idx++ {
		in := b.Instrs[idx]
		if q.accept != nil && q.accept(in, s) {
			return
		}
		switch in := in.(type) {
		case *ssa.Phi:
			// handled on the edge
		case *ssa.Panic:
			return
		case *ssa.Return:
			ok := false
			if q.atReturn != nil {
				ok = q.atReturn(in, s)
			} else if i := errIndex(q.fn.Signature); i >= 0 {
				ok = q.fact(in.Results[i], s)&fNonNil != 0
			} else {
				ok = !q.strict
			}
			if !ok {
				q.bad = in
			}
			return
		case *ssa.If:
			f := q.fact(in.Cond, s)
			if q.eofOK {
				switch isEOFTest(in.Cond) {
				case 1:
					f |= fFalse // the branch taken at the end of the stream is fine
				case -1:
					f |= fTrue
				}
			}
			if f&fFalse == 0 {
				n := s.clone()
				q.learn(in.Cond, true, n)
				q.goTo(b, b.Succs[0], n)
			}
			if f&fTrue == 0 {
				n := s.clone()
				q.learn(in.Cond, false, n)
				q.goTo(b, b.Succs[1], n)
			}
			return
		case *ssa.Jump:
			q.goTo(b, b.Succs[0], s)
			return
		default:
			if q.instr(in, s) {
				return
			}
		}
	}
}

func (q *query) goTo(from, to *ssa.BasicBlock, s *efState) {
	// evaluate the phis of the successor together
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	upd := map[ssa.Value]fact{}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		upd[phi] = q.fact(phi.Edges[pi], s)
	}
	for k, f := range upd {
		if f == 0 {
			delete(s.vals, k)
		} else {
			s.vals[k] = f
		}
	}
	if q.edge != nil {
		q.edge(from, to, s)
	}
	key := fmt.Sprintf("%d|%s", to.Index, s.sig())
	if q.memo[key] {
		return
	}
	q.memo[key] = true
	if len(q.memo) > efLimit {
		q.over = true
		return
	}
	q.block(to, 0, s)
}

// learn records what a branch says about error values.
func (q *query) learn(cond ssa.Value, val bool, s *efState) {
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			q.learn(c.X, !val, s)
		}
	case *ssa.BinOp:
		if c.Op != token.EQL && c.Op != token.NEQ {
			return
		}
		x, y := c.X, c.Y
		if isNilConst(x) {
			x, y = y, x
		}
		if isNilConst(y) && implementsOrIs(x.Type()) {
			f := fNonNil
			if (c.Op == token.EQL) == val {
				f = fNil
			}
			s.vals[x] = f
			if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
				if k, ok := addrCell(u.X); ok {
					s.cells[k] = f
				}
			}
		}
	}
	if v, ok := cond.(ssa.Value); ok {
		if _, isConst := v.(*ssa.Const); !isConst {
			if _, tracked := s.vals[v]; tracked {
				if val {
					s.vals[v] = fTrue
				} else {
					s.vals[v] = fFalse
				}
			}
		}
	}
}

func implementsOrIs(t types.Type) bool { return isError(t) }

func isEOF(v ssa.Value) bool {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil {
			return g.Pkg.Pkg.Path() == "io" && g.Name() == "EOF"
		}
	}
	return false
}

// instr applies an instruction; true means that the path ends there.
func (q *query) instr(in ssa.Instruction, s *efState) bool {
	set := func(v ssa.Value, f fact) {
		if f == 0 {
			delete(s.vals, v)
		} else {
			s.vals[v] = f
		}
	}
	switch in := in.(type) {
	case *ssa.Store:
		if k, ok := addrCell(in.Addr); ok {
			f := q.fact(in.Val, s)
			if f == 0 {
				delete(s.cells, k)
			} else {
				s.cells[k] = f
			}
			// a store of a whole struct
			for k2 := range s.cells {
				if k2.base == k.base && k2.path != k.path && strings.HasPrefix(k2.path, k.path) {
					delete(s.cells, k2)
				}
			}
		}
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			if k, ok := addrCell(in.X); ok {
				set(in, s.cells[k])
			} else {
				set(in, 0)
			}
		case token.NOT:
			switch f := q.fact(in.X, s); {
			case f&fTrue != 0:
				set(in, fFalse)
			case f&fFalse != 0:
				set(in, fTrue)
			default:
				set(in, 0)
			}
		default:
			set(in, 0)
		}
	case *ssa.BinOp:
		set(in, q.compare(in, s))
	case *ssa.MakeInterface:
		set(in, fNonNil)
	case *ssa.ChangeInterface:
		set(in, q.fact(in.X, s))
	case *ssa.ChangeType:
		set(in, q.fact(in.X, s))
	case *ssa.Convert:
		set(in, q.fact(in.X, s)&fNonEmpty)
	case *ssa.Slice:
		set(in, 0)
	case *ssa.Extract:
		// set when what makes the tuple is executed
	case *ssa.Lookup, *ssa.TypeAssert, *ssa.Next, *ssa.Select:
		set(in.(ssa.Value), 0)
		for _, r := range *in.(ssa.Value).Referrers() {
			if ex, ok := r.(*ssa.Extract); ok {
				set(ex, 0)
			}
		}
	case *ssa.Call:
		return q.call(in, s)
	case *ssa.RunDefers:
		q.defers(s)
	case ssa.Value:
		set(in, 0)
	}
	return false
}

func (q *query) compare(b *ssa.BinOp, s *efState) fact {
	tf := func(v bool) fact {
		if v {
			return fTrue
		}
		return fFalse
	}
	x, y := b.X, b.Y
	if b.Op == token.EQL || b.Op == token.NEQ {
		if isNilConst(x) {
			x, y = y, x
		}
		if isNilConst(y) {
			f := q.fact(x, s)
			if f&fNil != 0 {
				return tf(b.Op == token.EQL)
			}
			if f&(fNonNil|fNonEmpty) != 0 {
				return tf(b.Op == token.NEQ)
			}
		}
		// booleans
		fx, fy := q.fact(x, s), q.fact(y, s)
		if fx&(fTrue|fFalse) != 0 && fy&(fTrue|fFalse) != 0 {
			return tf((fx == fy) == (b.Op == token.EQL))
		}
	}
	// len(x) compared with a constant
	op := b.Op
	l, k := b.X, b.Y
	if _, ok := constInt(l); ok {
		l, k = k, l
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	n, ok := constInt(k)
	if !ok {
		return 0
	}
	arg := lenArg(l)
	if arg == nil || q.fact(arg, s)&fNonEmpty == 0 {
		return 0
	}
	switch op {
	case token.GTR:
		if n <= 0 {
			return fTrue
		}
	case token.GEQ:
		if n <= 1 {
			return fTrue
		}
	case token.NEQ:
		if n <= 0 {
			return fTrue
		}
	case token.EQL:
		if n <= 0 {
			return fFalse
		}
	case token.LSS:
		if n <= 1 {
			return fFalse
		}
	case token.LEQ:
		if n <= 0 {
			return fFalse
		}
	}
	return 0
}

func extracts(call *ssa.Call, idx int) []ssa.Value {
	if call.Call.Signature().Results().Len() == 1 {
		return []ssa.Value{call}
	}
	var res []ssa.Value
	for _, r := range *call.Referrers() {
		if ex, ok := r.(*ssa.Extract); ok && ex.Index == idx {
			res = append(res, ex)
		}
	}
	return res
}

func (q *query) call(call *ssa.Call, s *efState) bool {
	common := &call.Call
	if q.e.c.isNoReturn(common) {
		if calleeName(common) == "os.Exit" {
			if n, ok := constInt(common.Args[0]); ok && n == 0 {
				q.bad = call // a command that exits as if it had succeeded
			}
		}
		return true
	}
	// forget what the results were the last time around
	delete(s.vals, call)
	for _, r := range *call.Referrers() {
		if ex, ok := r.(*ssa.Extract); ok {
			delete(s.vals, ex)
		}
	}
	if b, ok := common.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			f := q.fact(common.Args[0], s) & fNonEmpty
			if errElems(common.Args[1], func(v ssa.Value) bool { return q.fact(v, s)&fNonNil != 0 }, s, q) {
				f |= fNonEmpty
			}
			if f != 0 {
				s.vals[call] = f | fNonNil
			}
		}
		return false
	}
	if isErrCtor(common) {
		s.vals[call] = fNonNil
		return false
	}
	if f := common.StaticCallee(); f != nil && q.e.c.inRepo(f) {
		if sum := q.e.constructor(f); sum.ok {
			all := true
			for _, i := range sum.params {
				if q.fact(common.Args[i], s)&fNonNil == 0 {
					all = false
				}
			}
			if all {
				s.vals[call] = fNonNil
			}
		}
	}
	// errors.Wrap-like functions of the standard library keep nothing.
	// What may the callee change?
	args := common.Args
	for k := range s.cells {
		if q.mayWrite(k, common, args) {
			delete(s.cells, k)
		}
	}
	return false
}

func (q *query) mayWrite(k cellKey, common *ssa.CallCommon, args []ssa.Value) bool {
	for _, a := range args {
		if a == k.base {
			return true
		}
		if c, ok := addrCell(a); ok && c.base == k.base {
			return true
		}
		if mi, ok := a.(*ssa.MakeInterface); ok {
			if c, ok := addrCell(mi.X); ok && c.base == k.base {
				return true
			}
		}
		if mc, ok := a.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				if b == k.base && writesFreeVar(mc, b) {
					return true
				}
			}
		}
	}
	if mc, ok := common.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			if b == k.base {
				return writesFreeVar(mc, b) && !q.e.preserves(mc, b)
			}
		}
	}
	// a closure called later may write what it captures
	if common.StaticCallee() == nil && !common.IsInvoke() {
		switch base := k.base.(type) {
		case *ssa.Alloc:
			for _, r := range *base.Referrers() {
				if mc, ok := r.(*ssa.MakeClosure); ok && writesFreeVar(mc, base) {
					return true
				}
			}
		case *ssa.Parameter, *ssa.FreeVar:
			return false
		}
	}
	return false
}

// preserves reports whether a closure leaves an error that is already set in
// the captured variable alone, or replaces it by another one.
func (e *errflow) preserves(mc *ssa.MakeClosure, v ssa.Value) bool {
	fn := mc.Fn.(*ssa.Function)
	for i, b := range mc.Bindings {
		if b != v {
			continue
		}
		key := cellKey{fn.FreeVars[i], ""}
		q := &query{e: e, fn: fn}
		q.atReturn = func(r *ssa.Return, s *efState) bool { return s.cells[key]&fNonNil != 0 }
		if !q.run(fn.Blocks[0], 0, &efState{map[ssa.Value]fact{}, map[cellKey]fact{key: fNonNil}}) {
			return false
		}
	}
	return true
}

// writesFreeVar reports whether the closure stores to the captured variable.
func writesFreeVar(mc *ssa.MakeClosure, v ssa.Value) bool {
	fn := mc.Fn.(*ssa.Function)
	for i, b := range mc.Bindings {
		if b == v && storesThrough(fn, fn.FreeVars[i]) {
			return true
		}
	}
	return false
}

func storesThrough(fn *ssa.Function, p ssa.Value) bool {
	for _, r := range *p.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == p {
				return true
			}
		case *ssa.Call, *ssa.Defer, *ssa.FieldAddr, *ssa.IndexAddr:
			return true
		case *ssa.MakeClosure:
			if writesFreeVar(r, p) {
				return true
			}
		}
	}
	return false
}

// defers takes deferred calls into account: one that may clear a captured
// error result makes it unknown.
func (q *query) defers(s *efState) {
	for _, b := range q.fn.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			var fn *ssa.Function
			ptrs := map[ssa.Value]ssa.Value{} // parameter or free variable -> what it is here
			switch v := d.Call.Value.(type) {
			case *ssa.MakeClosure:
				fn = v.Fn.(*ssa.Function)
				for i, bd := range v.Bindings {
					ptrs[fn.FreeVars[i]] = bd
				}
			case *ssa.Function:
				fn = v
			}
			if fn == nil || fn.Blocks == nil {
				continue
			}
			for i, a := range d.Call.Args {
				if i < len(fn.Params) {
					ptrs[fn.Params[i]] = a
				}
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					outer, ok := ptrs[st.Addr]
					if !ok {
						continue
					}
					k, ok := addrCell(outer)
					if !ok {
						continue
					}
					if s.cells[k]&fNonNil != 0 && !nonNilValue(st.Val) {
						delete(s.cells, k)
					}
				}
			}
		}
	}
}

func nonNilValue(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.ChangeInterface:
		return nonNilValue(v.X)
	case *ssa.TypeAssert:
		return !v.CommaOk
	case *ssa.Call:
		return isErrCtor(&v.Call)
	}
	return false
}

// errElems reports whether the variadic slice passed to append contains an
// error that satisfies f.
func errElems(v ssa.Value, f func(ssa.Value) bool, s *efState, q *query) bool {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return q.fact(v, s)&fNonEmpty != 0
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	arr, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok || !(isError(arr.Elem()) || implementsError(arr.Elem())) {
		return false
	}
	return arr.Len() > 0
}
