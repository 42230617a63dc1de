package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("T12", "interprocedural write and alias summaries (which parameters a function writes into and which it stores in them) over the code reachable from Transform, with the points-to sets deciding what can be a part of the decoded input: a write to a value taken from the input, or storing such a value in the input again, is a violation unless the value was copied", checkT12)
}

// aroot is where a value comes from: a parameter of the function or another value, or with deep what that holds.
type aroot struct {
	param int // -1: val
	val   ssa.Value
	deep  bool
}

type aliasAn struct {
	c     *Ctx
	a     *PTA
	phase int
	fns   []*ssa.Function
	mode  constant.Value // the format of the input, nil: any
	kind  types.Type     // the type of the formats
	live  map[*ssa.Function]map[*ssa.BasicBlock]bool
	in    map[*ssa.Function]bool
	docs  map[*pobj]bool
	writ  map[*ssa.Function]map[aroot]bool
	put   map[*ssa.Function]map[[2]int]bool
	busy  map[string]bool
	dirty bool
	rets  map[string][]aroot
	bad   map[string][]string
	okN   map[string]bool
	memo  map[string]bool
}

// callees resolves a call in a phase.
func (a *PTA) callees(phase int, c *ssa.CallCommon) []*ssa.Function {
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	if g := c.StaticCallee(); g != nil {
		return []*ssa.Function{g}
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for l := range a.get(a.at(phase, c.Value)) {
		var g *ssa.Function
		if l.o.kind == "box" && c.IsInvoke() {
			g = a.P.SSA.LookupMethod(l.o.typ, c.Method.Pkg(), c.Method.Name())
			if g != nil && g.Synthetic != "" {
				if w := a.wrapped(g); w != nil {
					g = w
				}
			}
		} else if l.o.fn != nil {
			g = l.o.fn
			if g.Synthetic != "" {
				if w := a.wrapped(g); w != nil {
					g = w
				}
			}
		}
		if g != nil && !seen[g] {
			seen[g] = true
			out = append(out, g)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// argOf is the argument for a parameter of a callee, nil if there is none.
func argOf(c *ssa.CallCommon, g *ssa.Function, i int) ssa.Value {
	if c.IsInvoke() {
		if i == 0 {
			return c.Value
		}
		i--
	}
	if i < len(c.Args) {
		return c.Args[i]
	}
	return nil
}

func isContainer(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Map, *types.Slice, *types.Pointer, *types.Interface:
		return true
	}
	return false
}

// unmarshalled: the variable is filled by a decoder.
func unmarshalled(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		mi, ok := r.(*ssa.MakeInterface)
		if !ok {
			continue
		}
		for _, r2 := range *mi.Referrers() {
			if call, ok := r2.(*ssa.Call); ok && call.Common().StaticCallee() != nil {
				switch CalleeName(call.Common().StaticCallee()) {
				case "encoding/json.Unmarshal", "(*encoding/json.Decoder).Decode":
					return true
				}
			}
		}
	}
	return false
}

type boolGuard struct {
	idx int
	val bool
}

// guards are the boolean results of the call known at a block.
func guards(call *ssa.Call, b *ssa.BasicBlock) *boolGuard {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, want := iff.Cond, p.Succs[0] == d
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, want = u.X, !want
		}
		if ex, ok := cond.(*ssa.Extract); ok && ex.Tuple == ssa.Value(call) {
			return &boolGuard{ex.Index, want}
		}
	}
	return nil
}

// roots finds where the object of a value comes from, as used in block b; with deep where all it holds comes from too.
func (x *aliasAn) roots(v ssa.Value, b *ssa.BasicBlock, deep bool) []aroot {
	type visit struct {
		v    ssa.Value
		deep bool
	}
	seen := map[visit]bool{}
	out := map[aroot]bool{}
	var rec func(v ssa.Value, b *ssa.BasicBlock, deep bool)
	add := func(rs []aroot) {
		for _, r := range rs {
			out[r] = true
		}
	}
	other := func(v ssa.Value, deep bool) { out[aroot{-1, v, deep}] = true }
	rec = func(v ssa.Value, b *ssa.BasicBlock, deep bool) {
		if seen[visit{v, deep}] || !isContainer(v.Type()) {
			return
		}
		seen[visit{v, deep}] = true
		if b != nil {
			if _, ok := v.Type().Underlying().(*types.Interface); ok && x.noContainer(v, b) {
				return
			}
		}
		switch y := v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Builtin:
		case *ssa.Parameter:
			for i, p := range y.Parent().Params {
				if p == y {
					out[aroot{i, nil, deep}] = true
				}
			}
		case *ssa.Phi:
			for i, e := range y.Edges {
				if p := y.Block().Preds[i]; x.reach(p.Parent())[p] {
					rec(e, p, deep)
				}
			}
		case *ssa.TypeAssert:
			rec(y.X, nil, deep)
		case *ssa.MakeInterface:
			rec(y.X, b, deep)
		case *ssa.ChangeType:
			rec(y.X, b, deep)
		case *ssa.ChangeInterface:
			rec(y.X, b, deep)
		case *ssa.Slice:
			rec(y.X, b, deep)
		case *ssa.Lookup:
			rec(y.X, nil, true)
		case *ssa.Index:
			rec(y.X, nil, true)
		case *ssa.IndexAddr:
			rec(y.X, nil, deep)
		case *ssa.FieldAddr:
			rec(y.X, nil, deep)
		case *ssa.UnOp:
			if y.Op != token.MUL {
				other(v, deep)
				return
			}
			if al, ok := y.X.(*ssa.Alloc); ok {
				if unmarshalled(al) {
					other(al, deep)
					return
				}
				for _, r := range *al.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
						rec(s.Val, s.Block(), deep)
					}
				}
				return
			}
			rec(y.X, nil, true)
		case *ssa.Extract:
			switch t := y.Tuple.(type) {
			case *ssa.TypeAssert:
				rec(t.X, nil, deep)
			case *ssa.Lookup:
				rec(t.X, nil, true)
			case *ssa.Next:
				if rg, ok := t.Iter.(*ssa.Range); ok {
					rec(rg.X, nil, true)
				}
			case *ssa.Call:
				use := b
				if use == nil {
					use = y.Block()
				}
				add(x.callRoots(t, y.Index, guards(t, use), deep, rec))
			default:
				other(v, deep)
			}
		case *ssa.Call:
			if bi, ok := y.Common().Value.(*ssa.Builtin); ok {
				if bi.Name() == "append" {
					rec(y.Common().Args[0], b, deep)
					if deep {
						for _, arg := range y.Common().Args[1:] {
							rec(arg, b, true)
						}
					}
				}
				return
			}
			add(x.callRoots(y, 0, nil, deep, rec))
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
			if al, ok := v.(*ssa.Alloc); ok && unmarshalled(al) {
				other(v, deep)
				return
			}
			if !deep {
				return // new here
			}
			for _, r := range *v.Referrers() {
				switch z := r.(type) {
				case *ssa.MapUpdate:
					if z.Map == v {
						rec(z.Value, z.Block(), true)
					}
				case *ssa.Store:
					if z.Addr == v {
						rec(z.Val, z.Block(), true)
					}
				case *ssa.IndexAddr, *ssa.FieldAddr:
					for _, r2 := range *z.(ssa.Value).Referrers() {
						if s, ok := r2.(*ssa.Store); ok && s.Addr == z.(ssa.Value) {
							rec(s.Val, s.Block(), true)
						}
					}
				case ssa.CallInstruction:
					for _, g := range x.a.callees(x.phase, z.Common()) {
						for p := range x.put[g] {
							if argOf(z.Common(), g, p[0]) == v {
								if arg := argOf(z.Common(), g, p[1]); arg != nil {
									rec(arg, z.Block(), true)
								}
							}
						}
					}
				}
			}
		default:
			other(v, deep)
		}
	}
	rec(v, b, deep)
	var res []aroot
	for r := range out {
		res = append(res, r)
	}
	sort.Slice(res, func(i, j int) bool {
		if res[i].param != res[j].param {
			return res[i].param < res[j].param
		}
		if res[i].val != nil && res[j].val != nil && res[i].val.Name() != res[j].val.Name() {
			return res[i].val.Name() < res[j].val.Name()
		}
		return !res[i].deep && res[j].deep
	})
	return res
}

// noContainer: type tests made before the block rule out that the value is a JSON object or array.
func (x *aliasAn) noContainer(v ssa.Value, b *ssa.BasicBlock) bool {
	any := types.NewInterfaceType(nil, nil)
	ex := x.a.excluded(v, b)
	return inTypes(types.NewMap(types.Typ[types.String], any), ex) && inTypes(types.NewSlice(any), ex)
}

func (x *aliasAn) callRoots(call *ssa.Call, idx int, g *boolGuard, deep bool, rec func(ssa.Value, *ssa.BasicBlock, bool)) []aroot {
	cc := call.Common()
	callee := cc.StaticCallee()
	if callee == nil || !x.in[callee] {
		return []aroot{{-1, call, deep}}
	}
	var out []aroot
	for _, r := range x.retRoots(callee, idx, g, deep) {
		if r.param < 0 {
			out = append(out, r)
			continue
		}
		if arg := argOf(cc, callee, r.param); arg != nil {
			if rec != nil {
				rec(arg, call.Block(), r.deep)
			} else {
				out = append(out, x.roots(arg, call.Block(), r.deep)...)
			}
		}
	}
	return out
}

func (x *aliasAn) retRoots(f *ssa.Function, idx int, g *boolGuard, deep bool) []aroot {
	k := fmt.Sprintf("%p %d %v", f, idx, deep)
	if g != nil {
		k += fmt.Sprint(*g)
	}
	if x.busy[k] {
		return x.rets[k]
	}
	x.busy[k] = true
	defer delete(x.busy, k)
	var out []aroot
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || !x.reach(f)[b] || idx >= len(ret.Results) {
			continue
		}
		if g != nil {
			switch y := ret.Results[g.idx].(type) {
			case *ssa.Const:
				if y.Value != nil && y.Value.Kind() == constant.Bool && constant.BoolVal(y.Value) != g.val {
					continue
				}
			case *ssa.Extract:
				if ex, ok := ret.Results[idx].(*ssa.Extract); ok && ex.Tuple == y.Tuple {
					if call, ok := y.Tuple.(*ssa.Call); ok {
						out = append(out, x.callRoots(call, ex.Index, &boolGuard{y.Index, g.val}, deep, nil)...)
						continue
					}
				}
			}
		}
		out = append(out, x.roots(ret.Results[idx], b, deep)...)
	}
	have := map[aroot]bool{}
	for _, r := range x.rets[k] {
		have[r] = true
	}
	for _, r := range out {
		if !have[r] {
			have[r] = true
			x.rets[k] = append(x.rets[k], r)
			x.dirty = true
		}
	}
	return x.rets[k]
}

// document: the value can be, or with deep hold, a part of the decoded input.
func (x *aliasAn) document(v ssa.Value, deep bool) bool {
	k := fmt.Sprintf("%p %v", v, deep)
	if r, ok := x.memo[k]; ok {
		return r
	}
	seen := map[*pobj]bool{}
	var q []*pobj
	var walk func(l ploc)
	walk = func(l ploc) {
		if seen[l.o] {
			return
		}
		seen[l.o] = true
		if l.o.kind == "box" {
			for m := range x.a.get(place{o: l.o, path: l.path}) {
				walk(m)
			}
			return
		}
		q = append(q, l.o)
	}
	for _, lf := range x.a.leaves(v.Type()) {
		for l := range x.a.get(x.a.at(x.phase, v).add(lf.path)) {
			walk(l)
		}
	}
	r := false
	for i := 0; i < len(q) && !r; i++ {
		r = x.docs[q[i]]
		if !deep {
			continue
		}
		for _, p := range x.a.byObj[q[i]] {
			for l := range x.a.sets[p] {
				walk(l)
			}
		}
	}
	x.memo[k] = r
	return r
}

// event is a write to target, or with deep to what target holds, which stores val (or nothing of interest).
func (x *aliasAn) event(f *ssa.Function, in ssa.Instruction, target, val ssa.Value, deep, viaCall bool) {
	if !isContainer(target.Type()) {
		return
	}
	b := in.Block()
	tp := map[int]bool{}
	for _, r := range x.roots(target, b, deep) {
		if r.param >= 0 {
			tp[r.param] = true
			if !x.writ[f][r] {
				x.writ[f][r] = true
				x.dirty = true
			}
		} else if al, ok := r.val.(*ssa.Alloc); ok && unmarshalled(al) {
			continue // the decoded input itself
		} else if viaCall && dynamicResult(r.val) {
			continue
		} else if x.document(r.val, r.deep) {
			x.report(f, in, fmt.Sprintf("writes to %s, which can be a part of the input", describeRoot(r.val)))
		}
	}
	x.okN[FnName(f)+" write at "+x.c.Pos(in.Pos())] = true
	if val == nil || !isContainer(val.Type()) {
		return
	}
	for _, r := range x.roots(val, b, true) {
		if r.param >= 0 {
			for t := range tp {
				if t != r.param && !x.put[f][[2]int{t, r.param}] {
					x.put[f][[2]int{t, r.param}] = true
					x.dirty = true
				}
			}
			continue
		}
		if len(tp) > 0 && x.document(target, false) && x.document(r.val, true) && !(viaCall && dynamicResult(r.val)) {
			x.report(f, in, fmt.Sprintf("puts %s, which can be a part of the input, into the input a second time", describeRoot(r.val)))
		}
	}
}

func dynamicResult(v ssa.Value) bool {
	if ex, ok := v.(*ssa.Extract); ok {
		v = ex.Tuple
	}
	c, ok := v.(*ssa.Call)
	return ok && c.Common().StaticCallee() == nil
}

func describeRoot(v ssa.Value) string {
	if ex, ok := v.(*ssa.Extract); ok {
		v = ex.Tuple
	}
	if c, ok := v.(*ssa.Call); ok {
		if g := c.Common().StaticCallee(); g != nil {
			return "a result of " + CalleeName(g)
		}
		if c.Common().IsInvoke() {
			return "a result of " + c.Common().Method.Name()
		}
	}
	return "a value of type " + shortType(v.Type())
}

func (x *aliasAn) report(f *ssa.Function, in ssa.Instruction, what string) {
	k := FnName(f) + "\x00" + x.c.Pos(in.Pos())
	for _, w := range x.bad[k] {
		if w == what {
			return
		}
	}
	x.bad[k] = append(x.bad[k], what)
}

// decide evaluates a test of the input format, ok is false if it does not depend on the format alone.
func (x *aliasAn) decide(v ssa.Value, depth int) (val, ok bool) {
	if depth > 6 {
		return false, false
	}
	switch y := v.(type) {
	case *ssa.Const:
		if y.Value != nil && y.Value.Kind() == constant.Bool {
			return constant.BoolVal(y.Value), true
		}
	case *ssa.UnOp:
		if y.Op == token.NOT {
			val, ok = x.decide(y.X, depth+1)
			return !val, ok
		}
	case *ssa.BinOp:
		if y.Op != token.EQL && y.Op != token.NEQ || !types.Identical(y.X.Type(), x.kind) {
			return false, false
		}
		k, isC := y.Y.(*ssa.Const)
		if !isC {
			k, isC = y.X.(*ssa.Const)
		}
		if !isC || k.Value == nil {
			return false, false
		}
		return constant.Compare(k.Value, y.Op, x.mode), true
	case *ssa.Phi:
		n := 0
		for i, e := range y.Edges {
			if !x.reach(y.Parent())[y.Block().Preds[i]] {
				continue
			}
			d, dok := x.decide(e, depth+1)
			if !dok || n > 0 && d != val {
				return false, false
			}
			val = d
			n++
		}
		return val, n > 0
	case *ssa.Call:
		g := y.Common().StaticCallee()
		if g == nil || !x.in[g] {
			return false, false
		}
		n := 0
		for _, b := range g.Blocks {
			ret, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !isR || !x.reach(g)[b] {
				continue
			}
			if len(ret.Results) != 1 {
				return false, false
			}
			d, dok := x.decide(ret.Results[0], depth+1)
			if !dok || n > 0 && d != val {
				return false, false
			}
			val = d
			n++
		}
		return val, n > 0
	}
	return false, false
}

// reach are the blocks which can be executed for the input format.
func (x *aliasAn) reach(f *ssa.Function) map[*ssa.BasicBlock]bool {
	if m, ok := x.live[f]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]bool{}
	if x.mode == nil {
		for _, b := range f.Blocks {
			m[b] = true
		}
		x.live[f] = m
		return m
	}
	x.live[f] = m
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if m[b] {
			return
		}
		m[b] = true
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if v, ok := x.decide(iff.Cond, 0); ok {
				if v {
					walk(b.Succs[0])
				} else {
					walk(b.Succs[1])
				}
				return
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	if len(f.Blocks) > 0 {
		walk(f.Blocks[0])
		if f.Recover != nil {
			walk(f.Recover)
		}
	}
	return m
}

// prune keeps the functions which are reached for the input format from those nothing else calls.
func (x *aliasAn) prune() {
	called := map[*ssa.Function]bool{}
	calls := func(f *ssa.Function, all bool, visit func(g *ssa.Function)) {
		for _, b := range f.Blocks {
			if !all && !x.reach(f)[b] {
				continue
			}
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, g := range x.a.callees(x.phase, ci.Common()) {
						visit(g)
					}
					for _, arg := range ci.Common().Args {
						for l := range x.a.get(x.a.at(x.phase, arg)) {
							if l.o.fn != nil {
								visit(l.o.fn)
							}
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	for _, f := range x.fns {
		calls(f, true, func(g *ssa.Function) {
			if g != f {
				called[g] = true
			}
		})
	}
	keep := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if keep[f] || !x.in[f] {
			return
		}
		keep[f] = true
		calls(f, false, visit)
	}
	for _, f := range x.fns {
		if !called[f] {
			visit(f)
		}
	}
	var fns []*ssa.Function
	for _, f := range x.fns {
		if keep[f] {
			fns = append(fns, f)
		}
	}
	x.fns, x.in = fns, keep
}

func (x *aliasAn) scan(f *ssa.Function) {
	for _, b := range f.Blocks {
		if !x.reach(f)[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch y := in.(type) {
			case *ssa.MapUpdate:
				x.event(f, in, y.Map, y.Value, false, false)
			case *ssa.Store:
				if ia, ok := y.Addr.(*ssa.IndexAddr); ok {
					if _, ok := ia.X.Type().Underlying().(*types.Slice); ok {
						x.event(f, in, ia.X, y.Val, false, false)
					}
				}
			case ssa.CallInstruction:
				cc := y.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "delete", "clear":
						x.event(f, in, cc.Args[0], nil, false, false)
					case "copy", "append":
						if len(cc.Args) > 1 {
							if _, ok := cc.Args[1].Type().Underlying().(*types.Slice); ok {
								x.event(f, in, cc.Args[0], cc.Args[1], false, false)
							}
						}
					}
					continue
				}
				for _, g := range x.a.callees(x.phase, cc) {
					if !x.in[g] {
						if sorters[CalleeName(g)] && len(cc.Args) > 0 {
							x.event(f, in, cc.Args[0], nil, false, false)
						}
						continue
					}
					for r := range x.writ[g] {
						if t := argOf(cc, g, r.param); t != nil {
							x.event(f, in, t, nil, r.deep, true)
						}
					}
					for p := range x.put[g] {
						t, v := argOf(cc, g, p[0]), argOf(cc, g, p[1])
						if t != nil && v != nil {
							x.event(f, in, t, v, false, true)
						}
					}
				}
			}
		}
	}
}

func checkT12(c *Ctx) {
	a := lifePhases(c)
	coverPTA(c, a, phTransform)
	kind, modes := formats(c)
	if kind == nil {
		modes = []constant.Value{nil}
	}
	n, found := 0, false
	for _, m := range modes {
		k, docs := aliasMode(c, a, kind, m)
		n += k
		found = found || docs
	}
	if !found {
		c.Bad("coverage", "input", "-", "the analysis does not find where a document is decoded")
	}
	c.Note("functions which write to what they are given", fmt.Sprint(n))
	c.Note("input formats analysed apart", fmt.Sprint(len(modes)))
	c.Need("input", 12)
	anchored(c, a, phTransform)
}

// formats finds the type of the Transformer's input format and its constants. The analysis is done for each of them
// if every value of the type used while transforming is the one the Transformer was made with.
func formats(c *Ctx) (types.Type, []constant.Value) {
	tr := c.P.Type("transform", "Transformer")
	if tr == nil {
		return nil, nil
	}
	st, ok := tr.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		named, ok := st.Field(i).Type().(*types.Named)
		if !ok || named.Obj().Pkg() != tr.(*types.Named).Obj().Pkg() {
			continue
		}
		if _, ok := named.Underlying().(*types.Basic); !ok {
			continue
		}
		var vals []constant.Value
		sc := named.Obj().Pkg().Scope()
		for _, name := range sc.Names() {
			if k, ok := sc.Lookup(name).(*types.Const); ok && types.Identical(k.Type(), named) {
				vals = append(vals, k.Val())
			}
		}
		if len(vals) > 0 {
			return named, vals
		}
	}
	return nil, nil
}

func aliasMode(c *Ctx, a *PTA, kind types.Type, mode constant.Value) (int, bool) {
	x := &aliasAn{c: c, a: a, phase: phTransform, kind: kind, mode: mode, live: map[*ssa.Function]map[*ssa.BasicBlock]bool{}, in: map[*ssa.Function]bool{}, docs: map[*pobj]bool{}, writ: map[*ssa.Function]map[aroot]bool{}, put: map[*ssa.Function]map[[2]int]bool{}, busy: map[string]bool{}, rets: map[string][]aroot{}, bad: map[string][]string{}, okN: map[string]bool{}, memo: map[string]bool{}}
	for _, k := range a.work {
		if k.phase == phTransform && !x.in[k.f] {
			x.in[k.f] = true
			x.fns = append(x.fns, k.f)
			x.writ[k.f] = map[aroot]bool{}
			x.put[k.f] = map[[2]int]bool{}
		}
	}
	if mode != nil {
		x.prune()
	}
	sort.Slice(x.fns, func(i, j int) bool { return x.fns[i].String() < x.fns[j].String() })
	if mode != nil {
		for _, f := range x.fns {
			if pos := ownFormat(f, kind); pos != token.NoPos {
				c.Bad("format", FnName(f), c.Pos(pos), "uses an input format of its own, the formats are analysed apart on the assumption that each part of a Transformer has the format it was made with")
			}
		}
	}
	for _, f := range x.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok || !unmarshalled(al) {
					continue
				}
				for _, r := range *al.Referrers() {
					if u, ok := r.(*ssa.UnOp); ok {
						for l := range a.reachBoxes(a.at(phTransform, u), u.Type()) {
							for m := range a.get(place{o: l.o, path: l.path}) {
								if m.o.kind == "lib" && m.o.phase == phTransform && m.o.in == f {
									x.docs[m.o] = true
								}
							}
						}
					}
				}
			}
		}
	}
	for n := 0; n < 50; n++ {
		x.dirty = false
		for _, f := range x.fns {
			x.scan(f)
		}
		if !x.dirty {
			break
		}
	}
	var keys []string
	for k := range x.bad {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		var fn, pos string
		for i := range k {
			if k[i] == 0 {
				fn, pos = k[:i], k[i+1:]
			}
		}
		sort.Strings(x.bad[k])
		for _, w := range x.bad[k] {
			c.Bad("input", fn, pos, w)
		}
	}
	for k := range x.okN {
		c.Ok("input", k)
	}
	n := 0
	for _, f := range x.fns {
		n += len(x.writ[f])
	}
	return n, len(x.docs) > 0
}

// ownFormat finds where the function gives a constant format to something, instead of the one it was given.
func ownFormat(f *ssa.Function, kind types.Type) token.Pos {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.BinOp, *ssa.MakeInterface, *ssa.Convert, *ssa.ChangeType:
				continue
			}
			for _, op := range in.Operands(nil) {
				if k, ok := (*op).(*ssa.Const); ok && types.Identical(k.Type(), kind) {
					if in.Pos() == token.NoPos {
						return f.Pos()
					}
					return in.Pos()
				}
			}
		}
	}
	return token.NoPos
}
