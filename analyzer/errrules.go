package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// concreteTypes finds the types an interface value can have, by following it through parameters, fields, captured
// variables and results within the repository. nil if some origin is not known.
type typeFinder struct {
	p     *Prog
	calls map[*ssa.Function][]ssa.CallInstruction
	taken map[*ssa.Function]bool
	field map[string][]ssa.Value
	clos  map[*ssa.Function][]*ssa.MakeClosure
}

func newTypeFinder(p *Prog) *typeFinder {
	t := &typeFinder{p: p, calls: map[*ssa.Function][]ssa.CallInstruction{}, taken: map[*ssa.Function]bool{}, field: map[string][]ssa.Value{}, clos: map[*ssa.Function][]*ssa.MakeClosure{}}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				callee := ssa.Value(nil)
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						t.calls[g] = append(t.calls[g], c)
						callee = c.Common().Value
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil || *op == callee {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						if mc, isMC := in.(*ssa.MakeClosure); !isMC || mc.Fn != g {
							t.taken[g] = true
						}
					}
				}
				switch x := in.(type) {
				case *ssa.MakeClosure:
					t.clos[x.Fn.(*ssa.Function)] = append(t.clos[x.Fn.(*ssa.Function)], x)
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						k := fieldKey(fa.X.Type(), fa.Field)
						t.field[k] = append(t.field[k], x.Val)
					}
				}
			}
		}
	}
	return t
}

func fieldKey(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return typeKey(t) + "." + fieldName(t, i)
}

func (t *typeFinder) types(v ssa.Value) map[string]bool {
	out := map[string]bool{}
	if t.find(v, out, map[ssa.Value]bool{}) {
		return out
	}
	return nil
}

func (t *typeFinder) find(v ssa.Value, out map[string]bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeInterface:
		out[typeKey(x.X.Type())] = true
		return true
	case *ssa.ChangeInterface:
		return t.find(x.X, out, seen)
	case *ssa.Const:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !t.find(e, out, seen) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		f := x.Parent()
		if t.taken[f] || len(t.calls[f]) == 0 || f.Signature.Recv() != nil && f.Object().Exported() {
			return false
		}
		if f.Object() != nil && f.Object().Exported() {
			return false
		}
		for i, p := range f.Params {
			if p != x {
				continue
			}
			for _, c := range t.calls[f] {
				if i >= len(c.Common().Args) || !t.find(c.Common().Args[i], out, seen) {
					return false
				}
			}
			return true
		}
	case *ssa.FreeVar:
		f := x.Parent()
		for i, p := range f.FreeVars {
			if p == x {
				for _, mc := range t.clos[f] {
					if !t.find(mc.Bindings[i], out, seen) {
						return false
					}
				}
				return len(t.clos[f]) > 0
			}
		}
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			return t.fieldOf(fieldKey(a.X.Type(), a.Field), out, seen)
		case *ssa.Alloc:
			return t.cell(a, out, seen)
		case *ssa.FreeVar:
			f := a.Parent()
			for i, p := range f.FreeVars {
				if p == a {
					for _, mc := range t.clos[f] {
						al, ok := mc.Bindings[i].(*ssa.Alloc)
						if !ok || !t.cell(al, out, seen) {
							return false
						}
					}
					return len(t.clos[f]) > 0
				}
			}
		}
	case *ssa.Field:
		return t.fieldOf(fieldKey(x.X.Type(), x.Field), out, seen)
	case *ssa.Call:
		g := x.Common().StaticCallee()
		if g == nil || g.Blocks == nil || !t.p.InRepo(g) || g.Signature.Results().Len() != 1 {
			return false
		}
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if !t.find(r.Results[0], out, seen) {
					return false
				}
			}
		}
		return true
	}
	return false
}

func (t *typeFinder) fieldOf(k string, out map[string]bool, seen map[ssa.Value]bool) bool {
	vs := t.field[k]
	if len(vs) == 0 {
		return false
	}
	for _, v := range vs {
		if !t.find(v, out, seen) {
			return false
		}
	}
	return true
}

func (t *typeFinder) cell(a *ssa.Alloc, out map[string]bool, seen map[ssa.Value]bool) bool {
	n := 0
	for _, r := range *a.Referrers() {
		switch s := r.(type) {
		case *ssa.Store:
			if s.Addr == a {
				n++
				if !t.find(s.Val, out, seen) {
					return false
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			g := s.Fn.(*ssa.Function)
			for i, b := range s.Bindings {
				if b != a {
					continue
				}
				for _, q := range *g.FreeVars[i].Referrers() {
					switch s := q.(type) {
					case *ssa.Store:
						n++
						if !t.find(s.Val, out, seen) {
							return false
						}
					case *ssa.UnOp:
					default:
						return false
					}
				}
			}
		default:
			return false
		}
	}
	return n > 0
}

var memWriters = map[string]bool{"*bytes.Buffer": true, "*strings.Builder": true}

// writerArg is the writer a call writes to, nil if it is no write.
func writerArg(c *ssa.CallCommon) ssa.Value {
	n := callName(c)
	switch {
	case strings.HasPrefix(n, "fmt.Fprint"), n == "io.WriteString":
		return c.Args[0]
	case c.IsInvoke() && strings.HasPrefix(c.Method.Name(), "Write"):
		return c.Value
	}
	return nil
}

// handleOrigin finds the call which made a file handle, looking through variables.
func handleOrigin(v ssa.Value, seen map[ssa.Value]bool) []ssa.Value {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Extract:
		return []ssa.Value{x.Tuple}
	case *ssa.Phi:
		var out []ssa.Value
		for _, e := range x.Edges {
			out = append(out, handleOrigin(e, seen)...)
		}
		return out
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.Alloc:
			var out []ssa.Value
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					out = append(out, handleOrigin(s.Val, seen)...)
				}
			}
			return out
		case *ssa.FieldAddr:
			return []ssa.Value{a}
		}
	case *ssa.MakeInterface:
		return handleOrigin(x.X, seen)
	case *ssa.ChangeInterface:
		return handleOrigin(x.X, seen)
	case *ssa.TypeAssert:
		return handleOrigin(x.X, seen)
	}
	return []ssa.Value{v}
}

// readOnly tells whether closing a handle can lose nothing: it is only read from.
func readOnly(v ssa.Value) bool {
	os := handleOrigin(v, map[ssa.Value]bool{})
	if len(os) == 0 {
		return false
	}
	for _, o := range os {
		switch x := o.(type) {
		case *ssa.Call:
			switch callName(x.Common()) {
			case "os.Open", "io.NopCloser":
			default:
				return false
			}
		case *ssa.FieldAddr:
			if fieldKey(x.X.Type(), x.Field) != "net/http.Response.Body" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func isClose(c *ssa.CallCommon) (ssa.Value, bool) {
	sig := c.Signature()
	if sig.Results().Len() != 1 || lastErr(sig) != 0 {
		return nil, false
	}
	if c.IsInvoke() {
		return c.Value, c.Method.Name() == "Close"
	}
	if f := c.StaticCallee(); f != nil && f.Name() == "Close" && f.Signature.Recv() != nil && len(c.Args) == 1 {
		return c.Args[0], true
	}
	return nil, false
}

// newErrFlow sets up the error flow analysis with the rules of this repository.
func newErrFlow(p *Prog) *ErrFlow {
	tf := newTypeFinder(p)
	e := &ErrFlow{P: p, Exempted: map[string]string{}, summary: map[string]nilness{}, busy: map[string]bool{}}
	e.Sentinel = func(name string) bool {
		return name == "github.com/GannettDigital/jsonparser.KeyPathNotFoundError" || name == "os.IsExist"
	}
	e.Exempt = func(s errSource) string {
		if s.Instr == nil {
			return ""
		}
		ci := s.Instr.(ssa.CallInstruction)
		c := ci.Common()
		switch {
		case s.Cell != nil || s.Entry:
			return ""
		case s.Name == "github.com/GannettDigital/PaesslerAG_jsonpath.Get":
			return "a path which is not in the document means that there is no value"
		case s.Name == p.Mod+"/transform.convert":
			return "a value which can not be converted is not used as the value, decided by T09"
		case strings.HasPrefix(s.Name, "fmt.Print"):
			return "message on the console"
		case strings.HasPrefix(s.Name, "(*bytes.Buffer).Write"), strings.HasPrefix(s.Name, "(*strings.Builder).Write"):
			return "writing to memory does not fail"
		case s.Name == "encoding/json.Marshal" && stringArg(c.Args[0]):
			return "a string always has JSON"
		case s.Name == "strconv.Unquote" && litValue(c.Args[0]):
			return "a literal in a syntax tree is quoted"
		case s.Name == "builtin recover":
			return "no error"
		}
		if w := writerArg(c); w != nil {
			if ts := tf.types(w); ts != nil && len(ts) > 0 {
				mem := true
				for t := range ts {
					mem = mem && memWriters[t]
				}
				if mem {
					return "writing to memory does not fail"
				}
			}
			if u, ok := w.(*ssa.MakeInterface); ok {
				if l, ok := u.X.(*ssa.UnOp); ok {
					if g, ok := l.X.(*ssa.Global); ok && (g.String() == "os.Stderr" || g.String() == "os.Stdout") {
						return "message on the console"
					}
				}
			}
		}
		if h, ok := isClose(c); ok {
			if readOnly(h) {
				return "closing what was only read"
			}
			if _, isDefer := ci.(*ssa.Defer); isDefer || s.Val == nil || len(*s.Val.Referrers()) == 0 {
				// nothing is lost if the function fails anyway, or closes the handle itself before it succeeds
				if e.closedBeforeSuccess(s.Fn, ci, h) {
					return "only takes effect when the function fails, on success the handle is closed and that is checked"
				}
			}
		}
		return ""
	}
	return e
}

// closedBeforeSuccess: on every path from an unchecked close (or from the point where a deferred close is registered)
// the function returns an error, or a checked close of the same handle comes first.
func (e *ErrFlow) closedBeforeSuccess(f *ssa.Function, at ssa.CallInstruction, h ssa.Value) bool {
	i := lastErr(f.Signature)
	if i < 0 {
		return false
	}
	w := &errWalk{e: e, f: f, all: true}
	ok := true
	w.onReturn = func(r *ssa.Return, st *errState) {
		if st.live { // a checked close was seen
			return
		}
		if w.nil(st, r.Results[i]) != nNonNil {
			ok = false
		}
	}
	w.onCall = func(c *ssa.Call, st *errState) {
		g, isC := isClose(c.Common())
		if isC && c != at && len(*c.Referrers()) > 0 && (sameExpr(g, h, 4) || sameOrigin(g, h)) {
			st.live = true
		}
	}
	st := newErrState()
	w.dominating(st, at.Block())
	idx := 0
	for k, in := range at.Block().Instrs {
		if in == at {
			idx = k + 1
		}
	}
	w.run([]errItem{{b: at.Block(), idx: idx, st: st}})
	return ok
}

// stringArg: the interface holds a string.
func stringArg(v ssa.Value) bool {
	m, ok := v.(*ssa.MakeInterface)
	if !ok {
		return false
	}
	b, ok := m.X.Type().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// litValue: the text of a literal in a syntax tree.
func litValue(v ssa.Value) bool {
	l, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	f, ok := l.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	return strings.HasPrefix(fieldKey(f.X.Type().Underlying().(*types.Pointer).Elem(), f.Field), "go/ast.BasicLit.") || types.TypeString(f.X.Type(), nil) == "*go/ast.BasicLit"
}

func sameOrigin(a, b ssa.Value) bool {
	oa, ob := handleOrigin(a, map[ssa.Value]bool{}), handleOrigin(b, map[ssa.Value]bool{})
	for _, x := range oa {
		for _, y := range ob {
			if x == y {
				return true
			}
		}
	}
	return false
}

func errCheck(id, pkgs string, min int) {
	register(id, "every failing call: each path which starts with the failure ends by returning a definitely non-nil error, or the process with a failure status", func(c *Ctx) {
		errFlowOf(c, pkgs, min)
	})
}

func errFlowOf(c *Ctx, pkgs string, min int) {
	e := newErrFlow(c.P)
	for _, f := range c.P.Funcs {
		if !strings.Contains(" "+pkgs+" ", " "+PkgName(f)+" ") {
			continue
		}
		if f.Synthetic != "" && f.Name() != "init" && f.Origin() == nil {
			continue
		}
		before := len(e.leaks)
		n := e.Sources
		c.Fn(f)
		e.Check(f)
		for i := 0; i < e.Sources-n-(len(e.leaks)-before); i++ {
			c.Ok("failure is handed on", FnName(f))
		}
		for _, l := range e.leaks[before:] {
			c.Bad("failure is handed on", l.Src.key(), l.Pos, "failing call at "+e.posOf(l.Src)+": "+l.Why, l.Trace...)
		}
	}
	c.Paths += e.Paths
	for k, v := range e.Exempted {
		c.Note("exempt: "+k, v)
	}
	c.Need("failure is handed on", min)
}

func init() {
	errCheck("T03", "transform", 60)
	errCheck("S01", "jsonschema", 40)
	errCheck("G01", "generate main", 90)
}
