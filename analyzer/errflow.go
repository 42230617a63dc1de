package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Error flow: for every call which can fail, every path of the function which starts with that failure is followed and
// has to end by handing a definitely non-nil error to the caller (or by ending the process with a failure status).

type nilness int8

const (
	nUnknown nilness = iota
	nNil
	nNonNil
)

// errSource is one failing call, or one way a stored error can be set behind the back of a function.
type errSource struct {
	Fn    *ssa.Function
	Instr ssa.Instruction // the call
	Val   ssa.Value       // the error value, nil if it is thrown away
	Cell  ssa.Value       // or the variable which holds the error
	Entry bool            // the variable holds an error when the function is entered
	Name  string          // callee
	Defer bool
}

func (s errSource) key() string { return FnName(s.Fn) + " / " + s.Name }

// errLeak is a path on which the failure is lost.
type errLeak struct {
	Src   errSource
	Pos   string
	Why   string
	Trace []string
}

// ErrFlow runs the analysis.
type ErrFlow struct {
	P        *Prog
	Exempt   func(s errSource) string // a reason why the failure need not be reported
	Sentinel func(name string) bool   // errors which are no failures
	Paths    int
	Sources  int
	Exempted map[string]string
	leaks    []errLeak
	summary  map[string]nilness
	busy     map[string]bool
}

func lastErr(sig *types.Signature) int {
	n := sig.Results().Len()
	for i := n - 1; i >= 0; i-- {
		if isErr(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

func callName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "invoke " + typeKey(c.Value.Type()) + "." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return CalleeName(f)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin " + b.Name()
	}
	return "dynamic call"
}

// sources lists what can fail in a function.
func (e *ErrFlow) sources(f *ssa.Function) []errSource {
	var out []errSource
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			c := ci.Common()
			name := callName(c)
			sig := c.Signature()
			if i := lastErr(sig); i >= 0 && name != "fmt.Errorf" && name != "errors.New" && !strings.HasPrefix(name, "errors.") {
				s := errSource{Fn: f, Instr: in, Name: name}
				switch x := in.(type) {
				case *ssa.Call:
					if sig.Results().Len() == 1 {
						s.Val = x
					} else {
						for _, r := range *x.Referrers() {
							if ex, ok := r.(*ssa.Extract); ok && ex.Index == i {
								s.Val = ex
							}
						}
					}
				case *ssa.Defer:
					s.Defer = true
				}
				// a function which only builds errors is no source
				if cf := c.StaticCallee(); cf != nil && e.P.InRepo(cf) && e.onlyBuilds(cf) {
					continue
				}
				out = append(out, s)
			}
			// closures which report by setting a captured error variable
			for _, a := range append([]ssa.Value{c.Value}, c.Args...) {
				mc, ok := a.(*ssa.MakeClosure)
				if !ok {
					continue
				}
				cf := mc.Fn.(*ssa.Function)
				if lastErr(cf.Signature) >= 0 {
					continue // reports by its result
				}
				for i, fv := range cf.FreeVars {
					if isErrCell(fv) && e.setsCell(cf, fv) {
						if _, isDefer := in.(*ssa.Defer); isDefer {
							continue // handled when the deferred calls run
						}
						out = append(out, errSource{Fn: f, Instr: in, Cell: mc.Bindings[i], Name: "callback given to " + name})
					}
				}
			}
		}
	}
	// a closure must not lose the error which is there already
	for _, fv := range f.FreeVars {
		if isErrCell(fv) && e.setsCell(f, fv) && lastErr(f.Signature) < 0 {
			out = append(out, errSource{Fn: f, Cell: fv, Entry: true, Name: "earlier error in " + fv.Name()})
		}
	}
	return out
}

func isErrCell(v ssa.Value) bool {
	pt, ok := v.Type().Underlying().(*types.Pointer)
	return ok && isErr(pt.Elem())
}

func (e *ErrFlow) setsCell(f *ssa.Function, v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == v {
			return true
		}
		if mc, ok := r.(*ssa.MakeClosure); ok {
			g := mc.Fn.(*ssa.Function)
			for i, b := range mc.Bindings {
				if b == v && e.setsCell(g, g.FreeVars[i]) {
					return true
				}
			}
		}
	}
	return false
}

// onlyBuilds tells whether a function of the repository returns an error on all its paths without calling anything
// that fails: a helper which wraps or builds errors.
func (e *ErrFlow) onlyBuilds(f *ssa.Function) bool {
	i := lastErr(f.Signature)
	if f.Signature.Results().Len() != 1 || i != 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				n := callName(c.Common())
				if lastErr(c.Common().Signature()) >= 0 && n != "fmt.Errorf" && n != "errors.New" && !strings.HasPrefix(n, "errors.") {
					return false
				}
			}
		}
	}
	params := f.Signature.Params()
	takesErr := false
	for k := 0; k < params.Len(); k++ {
		if isErr(params.At(k).Type()) {
			takesErr = true
		}
	}
	return takesErr || e.result(f, nil, 0) == nNonNil
}

// result computes the nilness of the error result of a function of the repository for given arguments.
func (e *ErrFlow) result(f *ssa.Function, args []nilness, depth int) nilness {
	if f.Blocks == nil || depth > 4 {
		return nUnknown
	}
	key := fmt.Sprint(f.String(), args)
	if r, ok := e.summary[key]; ok {
		return r
	}
	if e.busy[key] {
		return nUnknown
	}
	e.busy[key] = true
	defer delete(e.busy, key)
	w := &errWalk{e: e, f: f, depth: depth + 1, all: true}
	st := newErrState()
	for i, a := range args {
		if a != nUnknown && i < len(f.Params) {
			st.vals[f.Params[i]] = a
		}
	}
	res := nilness(-1)
	w.onReturn = func(r *ssa.Return, st *errState) {
		i := lastErr(f.Signature)
		if i < 0 {
			return
		}
		n := w.nil(st, r.Results[i])
		if res == -1 {
			res = n
		} else if res != n {
			res = nUnknown
		}
	}
	w.run([]errItem{{b: f.Blocks[0], st: st}})
	if res == -1 {
		res = nUnknown
	}
	e.summary[key] = res
	return res
}

type errState struct {
	vals  map[ssa.Value]nilness // nilness of error (and other nilable) values
	cells map[ssa.Value]nilness // nilness of what is stored in error variables
	bools map[ssa.Value]bool
	live  bool // the failure has happened
}

func newErrState() *errState {
	return &errState{vals: map[ssa.Value]nilness{}, cells: map[ssa.Value]nilness{}, bools: map[ssa.Value]bool{}}
}
func (s *errState) fork() *errState {
	n := newErrState()
	n.live = s.live
	for k, v := range s.vals {
		n.vals[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.bools {
		n.bools[k] = v
	}
	return n
}
func (s *errState) key() string {
	var ks []string
	for k, v := range s.vals {
		ks = append(ks, fmt.Sprintf("%s=%d", k.Name(), v))
	}
	for k, v := range s.cells {
		ks = append(ks, fmt.Sprintf("*%s=%d", k.Name(), v))
	}
	for k, v := range s.bools {
		ks = append(ks, fmt.Sprintf("%s=%v", k.Name(), v))
	}
	sort.Strings(ks)
	return fmt.Sprint(s.live, ks)
}

type errItem struct {
	b, prev *ssa.BasicBlock
	idx     int
	st      *errState
	trace   []string
}

type errWalk struct {
	e        *ErrFlow
	f        *ssa.Function
	depth    int
	all      bool
	src      *errSource
	onReturn func(r *ssa.Return, st *errState)
	onExit   func(it errItem, call *ssa.CallCommon)
	onCall   func(c *ssa.Call, st *errState)
	cur      errItem
}

func (w *errWalk) nil(st *errState, v ssa.Value) nilness {
	if n, ok := st.vals[v]; ok {
		return n
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return nNil
		}
		return nNonNil
	case *ssa.MakeInterface:
		if _, isPtr := x.X.Type().Underlying().(*types.Pointer); isPtr {
			if _, isAlloc := x.X.(*ssa.Alloc); !isAlloc {
				return nNonNil // a typed nil in an interface is still not nil
			}
		}
		return nNonNil
	case *ssa.Alloc, *ssa.MakeClosure, *ssa.Function, *ssa.MakeMap, *ssa.MakeSlice, *ssa.FieldAddr, *ssa.IndexAddr:
		return nNonNil
	case *ssa.ChangeInterface:
		return w.nil(st, x.X)
	case *ssa.ChangeType:
		return w.nil(st, x.X)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if g, ok := x.X.(*ssa.Global); ok && isErr(x.Type()) && g != nil {
				return nNonNil // package level error values
			}
		}
	}
	return nUnknown
}

func (w *errWalk) run(work []errItem) {
	seen := map[string]bool{}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if it.idx == 0 {
			if it.prev != nil {
				pi := 0
				for k, p := range it.b.Preds {
					if p == it.prev {
						pi = k
						break
					}
				}
				type pv struct {
					p *ssa.Phi
					n nilness
					b bool
					k bool
				}
				var pvs []pv
				for _, in := range it.b.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					x := phi.Edges[pi]
					p := pv{p: phi, n: w.nil(it.st, x)}
					if bv, ok := w.boolOf(it.st, x); ok {
						p.b, p.k = bv, true
					}
					pvs = append(pvs, p)
				}
				for _, p := range pvs {
					delete(it.st.vals, p.p)
					delete(it.st.bools, p.p)
					if p.n != nUnknown && isErr(p.p.Type()) {
						it.st.vals[p.p] = p.n
					}
					if p.k {
						it.st.bools[p.p] = p.b
					}
				}
			}
			w.prune(it)
			k := fmt.Sprintf("%d %s", it.b.Index, it.st.key())
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		w.block(it, &work)
	}
}

// prune forgets values which can not be used any more.
func (w *errWalk) prune(it errItem) {
	lv := liveness(w.f)[it.b]
	for v := range it.st.vals {
		if p, ok := v.(*ssa.Phi); ok && p.Block() == it.b {
			continue
		}
		if !lv[v] {
			delete(it.st.vals, v)
		}
	}
	for v := range it.st.bools {
		if p, ok := v.(*ssa.Phi); ok && p.Block() == it.b {
			continue
		}
		if setting(v) == v {
			continue
		}
		if !lv[v] {
			delete(it.st.bools, v)
		}
	}
}

// setting is the first reading of a field of a struct which is given by value and never changed, all of them are equal.
func setting(v ssa.Value) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	a, ok := fa.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var first ssa.Value
	stores := 0
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if _, isPar := x.Val.(*ssa.Parameter); x.Addr != a || !isPar {
				return nil
			}
			stores++
		case *ssa.FieldAddr:
			for _, rr := range *x.Referrers() {
				l, ok := rr.(*ssa.UnOp)
				if !ok || l.Op != token.MUL {
					return nil
				}
				if first == nil && x.Field == fa.Field {
					first = l
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return nil
		}
	}
	if stores != 1 {
		return nil
	}
	return first
}

func (w *errWalk) boolOf(st *errState, v ssa.Value) (bool, bool) {
	if s := setting(v); s != nil {
		v = s
	}
	if b, ok := st.bools[v]; ok {
		return b, true
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			return constant.BoolVal(x.Value), true
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			if b, ok := w.boolOf(st, x.X); ok {
				return !b, true
			}
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			a, b := w.nil(st, x.X), w.nil(st, x.Y)
			if a != nUnknown && b != nUnknown && (a == nNil || b == nNil) {
				eq := a == b
				return eq == (x.Op == token.EQL), true
			}
			ba, ok1 := w.boolOf(st, x.X)
			bb, ok2 := w.boolOf(st, x.Y)
			if ok1 && ok2 {
				return (ba == bb) == (x.Op == token.EQL), true
			}
		}
	}
	return false, false
}

// assume records a condition.
func (w *errWalk) assume(st *errState, v ssa.Value, val bool) (discharged bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return w.assume(st, x.X, !val)
		}
		if s := setting(x); s != nil {
			st.bools[s] = val
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return false
		}
		eq := val == (x.Op == token.EQL)
		for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			if c, ok := p[1].(*ssa.Const); ok && eq && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == "" && w.src != nil {
				if call, ok := w.src.Instr.(ssa.CallInstruction); ok {
					if arg := parse(call.Common()); arg != nil && sameExpr(arg, p[0], 5) {
						return true // an empty string is no number, but not a failure either
					}
				}
			}
			if c, ok := p[1].(*ssa.Const); ok && c.Value == nil {
				if isErr(p[0].Type()) || isIfaceT(p[0].Type()) {
					n := nNonNil
					if eq {
						n = nNil
					}
					w.setNil(st, p[0], n)
				}
				return false
			}
			if u, ok := p[1].(*ssa.UnOp); ok && u.Op == token.MUL {
				if g, ok := u.X.(*ssa.Global); ok && isErr(u.Type()) && eq {
					if w.isSrc(p[0]) && w.e.Sentinel != nil && w.e.Sentinel(g.String()) {
						return true
					}
				}
			}
		}
	case *ssa.Call:
		n := callName(x.Common())
		if n == "errors.Is" && val && len(x.Common().Args) == 2 {
			if u, ok := x.Common().Args[1].(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); ok && w.isSrc(x.Common().Args[0]) && w.e.Sentinel != nil && w.e.Sentinel(g.String()) {
					return true
				}
			}
		}
		if (n == "os.IsExist" || n == "os.IsNotExist") && val && w.isSrc(x.Common().Args[0]) && w.e.Sentinel != nil && w.e.Sentinel(n) {
			return true
		}
		st.bools[v] = val
		return false
	case *ssa.Phi, *ssa.Extract, *ssa.Parameter:
		st.bools[v] = val
	}
	return false
}

// isSrc tells whether a value is (only) the error of the source.
func (w *errWalk) isSrc(v ssa.Value) bool {
	if w.src == nil {
		return false
	}
	if v == w.src.Val {
		return true
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e == w.src.Val {
				return true
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			for _, r := range *x.X.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Val == w.src.Val {
					return true
				}
			}
		}
	}
	return false
}

func (w *errWalk) setNil(st *errState, v ssa.Value, n nilness) {
	st.vals[v] = n
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		// a load: the variable itself is refined as well
		if isErrCell(u.X) {
			st.cells[u.X] = n
		}
	}
	if ci, ok := v.(*ssa.ChangeInterface); ok {
		w.setNil(st, ci.X, n)
	}
}

// captured tells whether a callee could change the variable.
func captured(cell ssa.Value, c *ssa.CallCommon) []*ssa.MakeClosure {
	var out []*ssa.MakeClosure
	for _, a := range append([]ssa.Value{c.Value}, c.Args...) {
		if mc, ok := a.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				if b == cell {
					out = append(out, mc)
				}
			}
		}
	}
	return out
}

// preserves tells whether a closure leaves a captured error variable not nil when it was not nil before.
func (e *ErrFlow) preserves(f *ssa.Function, fv ssa.Value, entry nilness) nilness {
	key := fmt.Sprint("cell ", f.String(), fv.Name(), entry)
	if r, ok := e.summary[key]; ok {
		return r
	}
	if e.busy[key] {
		return nUnknown
	}
	e.busy[key] = true
	defer delete(e.busy, key)
	w := &errWalk{e: e, f: f, depth: 1, all: true}
	st := newErrState()
	if entry != nUnknown {
		st.cells[fv] = entry
	}
	res := nilness(-1)
	w.onReturn = func(r *ssa.Return, st *errState) {
		n := st.cells[fv]
		if res == -1 {
			res = n
		} else if res != n {
			res = nUnknown
		}
	}
	w.run([]errItem{{b: f.Blocks[0], st: st}})
	if res == -1 {
		res = entry
	}
	e.summary[key] = res
	return res
}

func (w *errWalk) applyClosures(st *errState, c *ssa.CallCommon) {
	for _, a := range append([]ssa.Value{c.Value}, c.Args...) {
		mc, ok := a.(*ssa.MakeClosure)
		if !ok {
			continue
		}
		g := mc.Fn.(*ssa.Function)
		for i, b := range mc.Bindings {
			if !isErrCell(b) || !w.e.setsCell(g, g.FreeVars[i]) {
				continue
			}
			n := w.e.preserves(g, g.FreeVars[i], st.cells[b])
			if n == nUnknown {
				delete(st.cells, b)
			} else if n != st.cells[b] {
				// the closure may not run at all
				if c.Value == a {
					st.cells[b] = n
				} else {
					delete(st.cells, b)
				}
			}
		}
	}
}

func (w *errWalk) block(it errItem, work *[]errItem) {
	st := it.st
	tr := func(pos token.Pos, s string) {
		if pos.IsValid() && w.onExit != nil {
			it.trace = append(append([]string(nil), it.trace...), w.e.P.Pos(pos)+": "+s)
		}
	}
	for i := it.idx; i < len(it.b.Instrs); i++ {
		in := it.b.Instrs[i]
		if v, ok := in.(ssa.Value); ok {
			if _, isPhi := in.(*ssa.Phi); !isPhi {
				delete(st.vals, v)
				if setting(v) != v {
					delete(st.bools, v)
				}
			}
		}
		switch x := in.(type) {
		case *ssa.Alloc:
			if isErrCell(x) {
				st.cells[x] = nNil
			}
		case *ssa.Store:
			if isErrCell(x.Addr) {
				n := w.nil(st, x.Val)
				if n == nUnknown {
					delete(st.cells, x.Addr)
				} else {
					st.cells[x.Addr] = n
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL && isErrCell(x.X) {
				if n, ok := st.cells[x.X]; ok {
					st.vals[x] = n
				}
			}
		case *ssa.Call:
			c := x.Common()
			name := callName(c)
			if w.onCall != nil {
				w.onCall(x, st)
			}
			switch name {
			case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "(*log.Logger).Fatal", "(*log.Logger).Fatalf":
				if w.onExit != nil {
					w.onExit(errItem{b: it.b, idx: i, st: st, trace: it.trace}, c)
				}
				return
			case "fmt.Errorf", "errors.New":
				st.vals[x] = nNonNil
			case "errors.Join":
			default:
				w.applyClosures(st, c)
				if cf := c.StaticCallee(); cf != nil && cf.Blocks != nil && w.e.P.InRepo(cf) && lastErr(cf.Signature) == 0 && cf.Signature.Results().Len() == 1 {
					args := make([]nilness, len(c.Args))
					for k, a := range c.Args {
						args[k] = nUnknown
						if isErr(a.Type()) {
							args[k] = w.nil(st, a)
						}
					}
					if n := w.e.result(cf, args, w.depth); n != nUnknown {
						st.vals[x] = n
					}
				}
			}
			if w.src != nil && in != w.src.Instr {
				if sc, ok := w.src.Instr.(ssa.CallInstruction); ok {
					if a, b := parse(sc.Common()), parse(c); a != nil && b != nil && sameExpr(a, b, 5) {
						return // another reading of the same string is tried, which is a source of its own
					}
				}
			}
			if len(c.Args) > 1 && strings.HasPrefix(name, "fmt.Fprint") {
				if sl, ok := c.Args[len(c.Args)-1].(*ssa.Slice); ok && w.poison(sl) {
					st.live = true
				}
			}
		case *ssa.RunDefers:
			for _, b := range w.f.Blocks {
				for _, d := range b.Instrs {
					if df, ok := d.(*ssa.Defer); ok {
						w.applyClosures(st, df.Common())
					}
				}
			}
		case *ssa.If:
			b, known := w.boolOf(st, x.Cond)
			for k, succ := range it.b.Succs {
				val := k == 0
				if known && b != val {
					continue
				}
				n := st.fork()
				if !known {
					if w.assume(n, x.Cond, val) {
						continue // not a failure after all
					}
				}
				t := it.trace
				if w.onExit != nil && x.Cond.Pos().IsValid() {
					t = append(append([]string(nil), t...), fmt.Sprintf("%s: condition is %v", w.e.P.Pos(x.Cond.Pos()), val))
				}
				*work = append(*work, errItem{b: succ, prev: it.b, st: n, trace: t})
			}
			return
		case *ssa.Jump:
			*work = append(*work, errItem{b: it.b.Succs[0], prev: it.b, st: st, trace: it.trace})
			return
		case *ssa.Return:
			w.cur = it
			if w.onReturn != nil {
				w.onReturn(x, st)
			}
			return
		case *ssa.Panic:
			return
		}
	}
	_ = tr
}

// notSchema tells whether a text can be no part of an Avro schema: it is not JSON, or it is an object without a name.
func notSchema(s string) bool {
	var v interface{}
	if json.Unmarshal([]byte(s), &v) != nil {
		return s != ""
	}
	m, ok := v.(map[string]interface{})
	if !ok {
		return false
	}
	_, named := m["name"]
	return !named
}

// poison tells whether the only argument of a variadic call is such a text.
func (w *errWalk) poison(sl *ssa.Slice) bool {
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, q := range *ia.Referrers() {
			if s, ok := q.(*ssa.Store); ok {
				if mi, ok := s.Val.(*ssa.MakeInterface); ok {
					if c, ok := mi.X.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
						return notSchema(constant.StringVal(c.Value))
					}
				}
			}
		}
	}
	return false
}

// dominating assumes the conditions which hold whenever a block runs.
func (w *errWalk) dominating(st *errState, b *ssa.BasicBlock) {
	for d := b; d.Idom() != nil; d = d.Idom() {
		p := d.Idom()
		ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] == p.Succs[1] {
			continue
		}
		for k, s := range p.Succs {
			if len(s.Preds) == 1 && s.Dominates(b) {
				w.assume(st, ifi.Cond, k == 0)
			}
		}
	}
}

// sameExpr tells whether two values are computed the same way from the same values.
func sameExpr(a, b ssa.Value, depth int) bool {
	if a == b {
		return true
	}
	if depth == 0 {
		return false
	}
	switch x := a.(type) {
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameExpr(x.X, y.X, depth-1)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && sameExpr(x.X, y.X, depth-1) && sameExpr(x.Index, y.Index, depth-1)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameExpr(x.X, y.X, depth-1)
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && constant.Compare(x.Value, token.EQL, y.Value)
	case *ssa.Extract:
		y, ok := b.(*ssa.Extract)
		return ok && x.Index == y.Index && sameExpr(x.Tuple, y.Tuple, depth-1)
	case *ssa.Lookup:
		y, ok := b.(*ssa.Lookup)
		return ok && sameExpr(x.X, y.X, depth-1) && sameExpr(x.Index, y.Index, depth-1)
	}
	return false
}

// parse tells whether a call tries to read a string as another type, and which string.
func parse(c *ssa.CallCommon) ssa.Value {
	switch n := callName(c); {
	case n == "strconv.Atoi", strings.HasPrefix(n, "strconv.Parse"):
		return c.Args[0]
	case n == "time.Parse":
		return c.Args[1]
	}
	return nil
}

var liveCache = map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}

func liveness(f *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := liveCache[f]; ok {
		return l
	}
	in := &Interp{live: liveCache}
	return in.liveness(f)
}

// isStatus tells whether every result of a function is the status the process ends with.
func (e *ErrFlow) isStatus(f *ssa.Function) bool {
	if f.Signature.Results().Len() != 1 || f.Object() != nil && f.Object().Exported() {
		return false
	}
	if b, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Int {
		return false
	}
	n := 0
	for _, g := range e.P.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				call, isCall := in.(ssa.CallInstruction)
				for _, op := range in.Operands(nil) {
					if op == nil || *op != ssa.Value(f) {
						continue
					}
					c, ok := in.(*ssa.Call)
					if !isCall || !ok || call.Common().StaticCallee() != f {
						return false
					}
					if len(*c.Referrers()) == 0 {
						return false
					}
					for _, r := range *c.Referrers() {
						u, ok := r.(ssa.CallInstruction)
						if !ok || callName(u.Common()) != "os.Exit" {
							return false
						}
						n++
					}
				}
			}
		}
	}
	return n > 0
}

// Check follows every failure of a function.
func (e *ErrFlow) Check(f *ssa.Function) {
	for _, s := range e.sources(f) {
		s := s
		if e.Exempt != nil {
			if why := e.Exempt(s); why != "" {
				e.Exempted[s.key()+" "+e.posOf(s)] = why
				continue
			}
		}
		e.Sources++
		if s.Defer {
			e.leaks = append(e.leaks, errLeak{Src: s, Pos: e.posOf(s), Why: "the error of the deferred call is thrown away"})
			continue
		}
		if !s.Entry && s.Cell == nil && s.Val == nil {
			e.leaks = append(e.leaks, errLeak{Src: s, Pos: e.posOf(s), Why: "the error is not looked at"})
			continue
		}
		e.follow(s)
	}
}

func (e *ErrFlow) posOf(s errSource) string {
	if s.Instr != nil {
		return e.P.Pos(s.Instr.Pos())
	}
	return e.P.Pos(s.Fn.Pos())
}

// secondAttempt: the error is the one of calling the function which failed again.
func secondAttempt(v ssa.Value, s errSource) bool {
	if x, ok := v.(*ssa.Extract); ok {
		v = x.Tuple
	}
	again, ok := v.(*ssa.Call)
	if !ok || ssa.Instruction(again) == s.Instr {
		return false
	}
	first, ok := s.Instr.(ssa.CallInstruction)
	if !ok {
		return false
	}
	f := first.Common().StaticCallee()
	return f != nil && again.Call.StaticCallee() == f
}

func (e *ErrFlow) follow(s errSource) {
	f := s.Fn
	st := newErrState()
	w := &errWalk{e: e, f: f, src: &s}
	done := false
	leak := func(pos token.Pos, why string, trace []string) {
		if done {
			return
		}
		done = true
		p := e.P.Pos(pos)
		if !pos.IsValid() {
			p = e.posOf(s)
		}
		e.leaks = append(e.leaks, errLeak{Src: s, Pos: p, Why: why, Trace: trace})
	}
	w.onReturn = func(r *ssa.Return, st *errState) {
		e.Paths++
		i := lastErr(f.Signature)
		if i >= 0 {
			switch w.nil(st, r.Results[i]) {
			case nNonNil:
				return
			case nNil:
				leak(r.Pos(), "returns a nil error", w.cur.trace)
			default:
				if secondAttempt(r.Results[i], s) {
					return
				}
				leak(r.Pos(), "returns an error which may be nil", w.cur.trace)
			}
			return
		}
		// functions without error result may hand the error on in a captured variable
		for _, fv := range f.FreeVars {
			if isErrCell(fv) && st.cells[fv] == nNonNil {
				return
			}
		}
		if st.live {
			return // the output has been made unusable on purpose
		}
		for _, rv := range r.Results {
			if c, ok := rv.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && notSchema(constant.StringVal(c.Value)) {
				return
			}
		}
		if len(r.Results) == 1 && e.isStatus(f) {
			if c, ok := r.Results[0].(*ssa.Const); ok && c.Value != nil && constant.Sign(c.Value) != 0 {
				return
			}
		}
		leak(r.Pos(), "returns without telling the caller", w.cur.trace)
	}
	w.onExit = func(it errItem, c *ssa.CallCommon) {
		e.Paths++
		if callName(c) == "os.Exit" {
			k, ok := c.Args[0].(*ssa.Const)
			if !ok || k.Value == nil || constant.Sign(k.Value) == 0 {
				leak(c.Pos(), "ends the process without a failure status", it.trace)
			}
		}
	}
	if s.Instr != nil {
		w.dominating(st, s.Instr.Block())
	}
	if s.Entry {
		st.cells[s.Cell] = nNonNil
		w.run([]errItem{{b: f.Blocks[0], st: st}})
		return
	}
	// start right behind the call
	b := s.Instr.Block()
	idx := 0
	for k, in := range b.Instrs {
		if in == s.Instr {
			idx = k + 1
		}
	}
	if s.Cell != nil {
		st.cells[s.Cell] = nNonNil
	} else {
		st.vals[s.Val] = nNonNil
		if ex, ok := s.Val.(*ssa.Extract); ok {
			// continue behind the extract, other extracts of the call are of no interest
			for k, in := range b.Instrs {
				if in == ex {
					idx = k + 1
				}
			}
			if ex.Block() != b {
				idx = 0
				b = ex.Block()
			}
		}
	}
	w.run([]errItem{{b: b, idx: idx, st: st}})
}
