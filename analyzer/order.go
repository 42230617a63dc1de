package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Order analysis: Go iterates over maps in no particular order. A loop over a map (or over a slice whose items are in
// such an order) must not let the order get into a result: its effects have to be the same in every order.

type natLoop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func natLoops(f *ssa.Function) []*natLoop {
	by := map[*ssa.BasicBlock]*natLoop{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := by[s]
			if l == nil {
				l = &natLoop{s, map[*ssa.BasicBlock]bool{s: true}}
				by[s] = l
			}
			st := []*ssa.BasicBlock{b}
			for len(st) > 0 {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				st = append(st, x.Preds...)
			}
		}
	}
	var out []*natLoop
	for _, b := range f.Blocks {
		if l := by[b]; l != nil {
			out = append(out, l)
		}
	}
	return out
}

// oloc is a variable which can hold a slice: a local variable kept in memory, a package variable or a field.
type oloc struct {
	v     ssa.Value
	typ   string
	field int
}

type orderAn struct {
	c      *Ctx
	p      *Prog
	rule   string
	scope  map[*ssa.Function]bool
	loops  map[*ssa.Function][]*natLoop
	perm   map[ssa.Value]string // slices in no particular order and why
	locs   map[oloc]string
	res    map[*ssa.Function]map[int]string
	queue  []ssa.Value
	judged map[string]bool
	cmp    map[*ssa.Function]bool // comparison functions
	pta    *PTA
	reach  map[*ssa.Function]map[*ssa.Function]bool
	nLoops int
	sorts  map[*ssa.Parameter]bool
}

func newOrderAn(c *Ctx, rule string, fns []*ssa.Function, pta *PTA) *orderAn {
	o := &orderAn{c: c, p: c.P, rule: rule, scope: map[*ssa.Function]bool{}, loops: map[*ssa.Function][]*natLoop{}, perm: map[ssa.Value]string{}, locs: map[oloc]string{}, res: map[*ssa.Function]map[int]string{}, judged: map[string]bool{}, cmp: map[*ssa.Function]bool{}, pta: pta, reach: map[*ssa.Function]map[*ssa.Function]bool{}}
	for _, f := range fns {
		o.scope[f] = true
		o.loops[f] = natLoops(f)
		c.Fn(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c.cov[in] = true
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if g := call.Common().StaticCallee(); g != nil && sorters[CalleeName(g)] {
					for _, a := range call.Common().Args {
						if cf := funcOf(a); cf != nil {
							o.cmp[cf] = true
						}
					}
				}
			}
		}
	}
	return o
}

func funcOf(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.ChangeType:
		return funcOf(x.X)
	}
	return nil
}

func (o *orderAn) mark(v ssa.Value, why string) {
	if _, ok := o.perm[v]; ok {
		return
	}
	if _, ok := v.Type().Underlying().(*types.Slice); !ok {
		return
	}
	o.perm[v] = why
	o.queue = append(o.queue, v)
}

func locOf(addr ssa.Value) (oloc, ssa.Value, bool) {
	switch x := addr.(type) {
	case *ssa.Alloc:
		return oloc{v: x}, nil, true
	case *ssa.Global:
		return oloc{v: x}, nil, true
	case *ssa.FreeVar:
		return oloc{v: x}, nil, true
	case *ssa.FieldAddr:
		t := x.X.Type().Underlying().(*types.Pointer).Elem()
		return oloc{typ: t.String(), field: x.Field}, x.X, true
	}
	return oloc{}, nil, false
}

func (o *orderAn) markLoc(l oloc, why string) {
	if _, ok := o.locs[l]; ok {
		return
	}
	o.locs[l] = why
	for f := range o.scope {
		if o.cmp[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.UnOp:
					if x.Op != token.MUL {
						continue
					}
					if m, _, ok := locOf(x.X); ok && m == l && !o.sortedBefore(x, l, baseOf(x.X)) {
						o.mark(x, why)
					}
				case *ssa.MakeClosure:
					for i, bnd := range x.Bindings {
						if m, _, ok := locOf(bnd); ok && m == l {
							o.markLoc(oloc{v: x.Fn.(*ssa.Function).FreeVars[i]}, why)
						}
					}
				case *ssa.Field:
					if x.X.Type().String() == l.typ && x.Field == l.field {
						o.mark(x, why)
					}
				}
			}
		}
	}
}

func baseOf(addr ssa.Value) ssa.Value {
	if fa, ok := addr.(*ssa.FieldAddr); ok {
		return fa.X
	}
	return nil
}

// sortArg is the slice a call puts in order, if it does.
func (o *orderAn) sortArg(in ssa.Instruction) ssa.Value {
	call, ok := in.(*ssa.Call)
	if !ok {
		return nil
	}
	g := call.Common().StaticCallee()
	if g == nil {
		return nil
	}
	args := call.Common().Args
	name := CalleeName(g)
	strip := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
			case *ssa.ChangeType:
				v = x.X
			default:
				return v
			}
		}
	}
	switch name {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort", "golang.org/x/exp/slices.Sort":
		return strip(args[0])
	case "sort.Sort", "sort.Stable":
		a := args[0]
		if r, ok := a.(*ssa.Call); ok && r.Common().StaticCallee() != nil && CalleeName(r.Common().StaticCallee()) == "sort.Reverse" {
			a = r.Common().Args[0]
		}
		if x, ok := a.(*ssa.MakeInterface); ok {
			n, ok := x.X.Type().(*types.Named)
			if !ok || n.Obj().Pkg() == nil {
				return nil
			}
			if n.Obj().Pkg().Path() == "sort" {
				return strip(a)
			}
			less := o.p.SSA.LookupMethod(n, n.Obj().Pkg(), "Less")
			if _, ok := n.Underlying().(*types.Slice); ok && less != nil {
				if w := o.pta.wrapped(less); less.Synthetic != "" && w != nil {
					less = w
				}
				o.cmp[less] = true
				if o.total(less) == "" {
					return strip(a)
				}
			}
		}
		return nil
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc", "golang.org/x/exp/slices.SortFunc", "golang.org/x/exp/slices.SortStableFunc":
		if cf := funcOf(args[1]); cf != nil && o.total(cf) == "" {
			return strip(args[0])
		}
		return nil
	}
	// a helper which sorts its parameter
	if o.scope[g] {
		for i, p := range g.Params {
			if i < len(args) && o.sortsParam(g, p) {
				return strip(args[i])
			}
		}
	}
	return nil
}

func (o *orderAn) sortsParam(g *ssa.Function, p *ssa.Parameter) bool {
	if r, ok := o.sorts[p]; ok {
		return r
	}
	if o.sorts == nil {
		o.sorts = map[*ssa.Parameter]bool{}
	}
	o.sorts[p] = false
	o.sorts[p] = o.sortsParam1(g, p)
	return o.sorts[p]
}

func (o *orderAn) sortsParam1(g *ssa.Function, p *ssa.Parameter) bool {
	for _, r := range *p.Referrers() {
		if s := o.sortArg(r); s == ssa.Value(p) && dominatesReturns(r) {
			return true
		}
		if mi, ok := r.(ssa.Value); ok {
			if mi.Referrers() == nil {
				continue
			}
			for _, r2 := range *mi.Referrers() {
				if s := o.sortArg(r2); s == ssa.Value(p) && dominatesReturns(r2) {
					return true
				}
			}
		}
	}
	return false
}

func dominatesReturns(in ssa.Instruction) bool {
	for _, b := range in.Parent().Blocks {
		if len(b.Instrs) > 0 {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !before(in, r) {
				return false
			}
		}
	}
	return true
}

// before reports whether a comes before b on every path to b.
func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return a != b
			}
			if in == b {
				return false
			}
		}
		return false
	}
	return a.Block().Dominates(b.Block())
}

// sortedBefore: the variable was put in order before the instruction.
func (o *orderAn) sortedBefore(in ssa.Instruction, l oloc, base ssa.Value) bool {
	for _, b := range in.Parent().Blocks {
		for _, s := range b.Instrs {
			v := o.sortArg(s)
			if v == nil {
				continue
			}
			ld, ok := v.(*ssa.UnOp)
			if !ok || ld.Op != token.MUL {
				continue
			}
			m, _, ok := locOf(ld.X)
			if ok && m == l && baseOf(ld.X) == base && before(s, in) {
				return true
			}
		}
	}
	return false
}

// valueSorted: the slice itself was put in order before the instruction.
func (o *orderAn) valueSorted(v ssa.Value, in ssa.Instruction) bool {
	for _, b := range in.Parent().Blocks {
		for _, s := range b.Instrs {
			if o.sortArg(s) == v && before(s, in) {
				return true
			}
		}
	}
	return false
}

// total decides whether a comparison function tells every two items of a map apart. It returns what is wrong.
func (o *orderAn) total(f *ssa.Function) string {
	if f.Blocks == nil {
		return "the comparison function is unknown"
	}
	last := false
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		var judge func(v ssa.Value, at *ssa.BasicBlock) string
		seen := map[ssa.Value]bool{}
		judge = func(v ssa.Value, at *ssa.BasicBlock) string {
			if seen[v] {
				return ""
			}
			seen[v] = true
			var x, y ssa.Value
			switch r := v.(type) {
			case *ssa.Const:
				return ""
			case *ssa.Phi:
				for i, e := range r.Edges {
					if w := judge(e, r.Block().Preds[i]); w != "" {
						return w
					}
				}
				return ""
			case *ssa.BinOp:
				if r.Op != token.LSS && r.Op != token.GTR {
					return "the comparison is not < or >"
				}
				x, y = r.X, r.Y
				at = r.Block()
			case *ssa.UnOp:
				if r.Op == token.SUB {
					return judge(r.X, at)
				}
				return "the result of the comparison is not understood"
			case *ssa.Call:
				g := r.Common().StaticCallee()
				if g == nil {
					return "the result of the comparison is not understood"
				}
				switch CalleeName(g) {
				case "strings.Compare", "cmp.Compare", "cmp.Less", "bytes.Compare":
					x, y = r.Common().Args[0], r.Common().Args[1]
					at = r.Block()
				default:
					return "the result of the comparison is not understood"
				}
			default:
				return "the result of the comparison is not understood"
			}
			ax, ay := o.attr(x, f), o.attr(y, f)
			if ax == nil || ay == nil || ax.String() != ay.String() || ax.side == ay.side {
				return "the compared values are not the same part of the two items"
			}
			if ax.injective(o) {
				last = true
				return ""
			}
			// allowed when the items are known to differ in it
			for d := at; d != nil; d = d.Idom() {
				if len(d.Preds) != 1 {
					continue
				}
				p := d.Preds[0]
				iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
				if !ok {
					continue
				}
				bo, ok := iff.Cond.(*ssa.BinOp)
				if !ok {
					continue
				}
				if bo.Op == token.NEQ && p.Succs[0] == d || bo.Op == token.EQL && p.Succs[1] == d {
					bx, by := o.attr(bo.X, f), o.attr(bo.Y, f)
					if bx != nil && by != nil && bx.side != by.side && bx.String() == ax.String() && by.String() == ax.String() {
						return ""
					}
				}
			}
			return fmt.Sprintf("two items can have the same %s, which leaves their order open", ax.String())
		}
		for _, r := range ret.Results {
			if w := judge(r, b); w != "" {
				return w
			}
		}
	}
	if !last {
		return "no comparison tells all items apart"
	}
	return ""
}

// attribute is a part of one of the two compared items.
type attribute struct {
	side string
	path []string
	elem types.Type // type of the item
	last types.Type // struct type of the last field
	fld  int
	look bool // looked up with the item in a map
}

func (a *attribute) String() string { return "item" + strings.Join(a.path, "") }

func (o *orderAn) attr(v ssa.Value, f *ssa.Function) *attribute {
	switch x := v.(type) {
	case *ssa.Parameter:
		if x.Parent() == f {
			return &attribute{side: x.Name(), elem: x.Type()}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		switch ad := x.X.(type) {
		case *ssa.IndexAddr:
			if p, ok := ad.Index.(*ssa.Parameter); ok && p.Parent() == f {
				return &attribute{side: p.Name(), elem: x.Type()}
			}
		case *ssa.FieldAddr:
			b := o.attr(ad.X, f)
			if b == nil {
				// address of a field of an item kept by value, or of an embedded struct
				if fa, ok := ad.X.(*ssa.FieldAddr); ok {
					b = o.attrAddr(fa, f)
				}
			}
			if b == nil {
				return nil
			}
			n := *b
			n.path = append(append([]string{}, b.path...), "."+faName(ad))
			n.last, n.fld = ad.X.Type().Underlying().(*types.Pointer).Elem(), ad.Field
			return &n
		}
	case *ssa.Lookup:
		b := o.attr(x.Index, f)
		if b == nil {
			return nil
		}
		n := *b
		n.look = true
		n.path = append(append([]string{}, b.path...), "[looked up]")
		return &n
	case *ssa.Call:
		// a function of the item
		if g := x.Common().StaticCallee(); g != nil && len(x.Common().Args) >= 1 {
			b := o.attr(x.Common().Args[0], f)
			if b == nil {
				return nil
			}
			n := *b
			n.path = append(append([]string{}, b.path...), "|"+g.Name())
			n.last = nil
			return &n
		}
		if bi, ok := x.Common().Value.(*ssa.Builtin); ok {
			b := o.attr(x.Common().Args[0], f)
			if b == nil {
				return nil
			}
			n := *b
			n.path = append(append([]string{}, b.path...), "|"+bi.Name())
			n.last = nil
			return &n
		}
	}
	return nil
}

func (o *orderAn) attrAddr(fa *ssa.FieldAddr, f *ssa.Function) *attribute {
	b := o.attr(fa.X, f)
	if b == nil {
		if g, ok := fa.X.(*ssa.FieldAddr); ok {
			b = o.attrAddr(g, f)
		}
	}
	if b == nil {
		return nil
	}
	n := *b
	n.path = append(append([]string{}, b.path...), "."+faName(fa))
	return &n
}

func faName(fa *ssa.FieldAddr) string {
	return fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
}

// injective: different items differ in this part. True of the item itself when it is comparable by <, and of a field
// which every entry of the maps of such items gets from the key it is kept under.
func (a *attribute) injective(o *orderAn) bool {
	if len(a.path) == 0 {
		_, ok := a.elem.Underlying().(*types.Basic)
		return ok
	}
	if a.last == nil || a.look {
		return false
	}
	// every map entry of this type of item has the field set from the key
	n := 0
	for f := range o.scope {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || !types.Identical(mu.Value.Type(), a.elem) {
					continue
				}
				n++
				if !o.fieldIsKey(mu.Value, mu.Key, a.last, a.fld, f) {
					return false
				}
			}
		}
	}
	return n > 0
}

// ownField tells whether a value is the field of the item of this round which is the same as the key it is kept under.
func (o *orderAn) ownField(ol *oloop, v ssa.Value) bool {
	l, ok := v.(*ssa.UnOp)
	if !ok || l.Op != token.MUL {
		return false
	}
	fa, ok := l.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	ex, ok := rootOf(fa).(*ssa.Extract)
	if !ok || ex.Index != 2 {
		return false
	}
	nx, ok := ex.Tuple.(*ssa.Next)
	if !ok || nx.IsString || nx.Block() != ol.l.head {
		return false
	}
	a := &attribute{path: []string{faName(fa)}, elem: ex.Type(), last: fa.X.Type().Underlying().(*types.Pointer).Elem(), fld: fa.Field}
	return a.injective(o)
}

func (o *orderAn) fieldIsKey(v, key ssa.Value, st types.Type, fld int, f *ssa.Function) bool {
	// kept under this field of it
	if l, ok := key.(*ssa.UnOp); ok && l.Op == token.MUL {
		if fa, ok := l.X.(*ssa.FieldAddr); ok && rootOf(fa) == v && fa.Field == fld && types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), st) {
			return true
		}
	}
	switch x := v.(type) {
	case *ssa.Call:
		g := x.Common().StaticCallee()
		if g == nil || g.Blocks == nil {
			return false
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fa.Field != fld || !types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), st) {
					continue
				}
				for i, p := range g.Params {
					if s.Val == ssa.Value(p) && i < len(x.Common().Args) && sameVal(x.Common().Args[i], key) {
						return true
					}
				}
			}
		}
	case *ssa.Alloc:
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if ok && fa.Field == fld && types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), st) && sameVal(s.Val, key) && rootOf(fa) == ssa.Value(x) {
					return true
				}
			}
		}
	case *ssa.Extract:
		// an entry moved from a map of the same items, under its key
		if nx, ok := x.Tuple.(*ssa.Next); ok && x.Index == 2 {
			if k, ok := key.(*ssa.Extract); ok && k.Tuple == ssa.Value(nx) && k.Index == 1 {
				return true
			}
		}
	}
	return false
}

func rootOf(fa *ssa.FieldAddr) ssa.Value {
	for {
		g, ok := fa.X.(*ssa.FieldAddr)
		if !ok {
			return fa.X
		}
		fa = g
	}
}

func sameVal(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	// two loads of a variable which is assigned once
	la, ok := a.(*ssa.UnOp)
	lb, ok2 := b.(*ssa.UnOp)
	if ok && ok2 && la.Op == token.MUL && lb.Op == token.MUL && la.X == lb.X {
		if al, ok := la.X.(*ssa.Alloc); ok {
			n := 0
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
					n++
				}
			}
			return n == 1
		}
	}
	return false
}

// ---- loops

// oloop is a loop over unordered items.
type oloop struct {
	l     *natLoop
	f     *ssa.Function
	items map[ssa.Value]bool // the current key
	name  string
	idx   map[ssa.Value]bool // the position of a slice loop
}

func (o *orderAn) bad(f *ssa.Function, pos token.Pos, construct, detail string) {
	k := fmt.Sprint(f, pos, detail)
	if o.judged[k] {
		return
	}
	o.judged[k] = true
	o.c.Bad(o.rule, FnName(f)+" "+construct, o.c.Pos(pos), detail)
}

func instrPos(in ssa.Instruction) token.Pos {
	if in.Pos().IsValid() {
		return in.Pos()
	}
	for _, i := range in.Block().Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	return in.Parent().Pos()
}

// inLoop: the value is computed anew by every round.
func (ol *oloop) inLoop(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && ol.l.blocks[in.Block()]
}

// dependsOnRounds: the value depends on what earlier rounds did.
func (o *orderAn) dependsOnRounds(ol *oloop, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || ol.items[v] {
		return false
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok || !ol.l.blocks[in.Block()] {
		return false
	}
	if ph, ok := v.(*ssa.Phi); ok && ph.Block() == ol.l.head {
		return true
	}
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL && !o.ownItem(ol, ld.X, 0) {
		if l, _, ok := locOf(ld.X); ok {
			for b := range ol.l.blocks {
				for _, i := range b.Instrs {
					if s, ok := i.(*ssa.Store); ok {
						if m, _, ok := locOf(s.Addr); ok && m == l {
							return true
						}
					}
				}
			}
		}
	}
	if al, ok := v.(*ssa.Alloc); ok {
		// a variable of this round: what is stored in it counts
		for b := range ol.l.blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok && rootAddr(s.Addr) == ssa.Value(al) && o.dependsOnRounds(ol, s.Val, seen) {
					return true
				}
			}
		}
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && o.dependsOnRounds(ol, *op, seen) {
			return true
		}
	}
	return false
}

func (o *orderAn) invariant(ol *oloop, v ssa.Value, seen map[ssa.Value]bool) bool {
	if !ol.inLoop(v) {
		return true
	}
	if seen[v] {
		return true
	}
	seen[v] = true
	if ol.items[v] {
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if x.Block() == ol.l.head {
			return false
		}
		for _, e := range x.Edges {
			if !o.invariant(ol, e, seen) {
				return false
			}
		}
		return true
	case *ssa.Extract, *ssa.Next:
		if ex, ok := x.(*ssa.Extract); ok {
			if _, ok := ex.Tuple.(*ssa.Next); !ok {
				return o.invariant(ol, ex.Tuple, seen)
			}
		}
		return false
	case *ssa.MakeInterface, *ssa.ChangeType, *ssa.Convert, *ssa.BinOp, *ssa.FieldAddr, *ssa.Field, *ssa.Slice, *ssa.ChangeInterface:
		for _, op := range x.(ssa.Instruction).Operands(nil) {
			if *op != nil && !o.invariant(ol, *op, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return o.invariant(ol, x.X, seen)
		}
		// a load: of something the loop does not write
		if !o.invariant(ol, x.X, seen) {
			return false
		}
		l, _, ok := locOf(x.X)
		if !ok {
			return o.argSliceInvariant(ol, x.X, seen)
		}
		for b := range ol.l.blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if m, _, ok := locOf(s.Addr); ok && m == l {
						return false
					}
				}
			}
		}
		return true
	case *ssa.Alloc:
		// a fresh variable, e.g. the array of variadic arguments: what is stored counts
		for _, r := range *x.Referrers() {
			switch y := r.(type) {
			case *ssa.Store:
				if y.Addr == ssa.Value(x) && !o.invariant(ol, y.Val, seen) {
					return false
				}
			case *ssa.IndexAddr, *ssa.FieldAddr:
				for _, r2 := range *y.(ssa.Value).Referrers() {
					if s, ok := r2.(*ssa.Store); ok && !o.invariant(ol, s.Val, seen) {
						return false
					}
				}
			}
		}
		return true
	case *ssa.Call:
		for _, op := range x.Operands(nil) {
			if *op != nil && !o.invariant(ol, *op, seen) {
				return false
			}
		}
		return o.impure(x, ol) == ""
	}
	return false
}

func (o *orderAn) argSliceInvariant(ol *oloop, v ssa.Value, seen map[ssa.Value]bool) bool {
	ia, ok := v.(*ssa.IndexAddr)
	return ok && o.invariant(ol, ia.X, seen) && o.invariant(ol, ia.Index, seen)
}

// isItem: the value identifies the current item, so that different rounds have different values.
func (ol *oloop) isItem(v ssa.Value) bool {
	if ol.items[v] {
		return true
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return ol.isItem(x.X)
	case *ssa.ChangeType:
		return ol.isItem(x.X)
	case *ssa.Convert:
		return ol.isItem(x.X)
	case *ssa.BinOp: // with something before or after
		if x.Op == token.ADD {
			_, cx := x.X.(*ssa.Const)
			_, cy := x.Y.(*ssa.Const)
			return cx && ol.isItem(x.Y) || cy && ol.isItem(x.X)
		}
	}
	return false
}

// ownItem: the value is a part of the current item (its value in the map, what that points to, a value made this round).
func (o *orderAn) ownItem(ol *oloop, v ssa.Value, d int) bool {
	if d > 12 || !ol.inLoop(v) {
		return false
	}
	switch x := v.(type) {
	case *ssa.Extract:
		_, ok := x.Tuple.(*ssa.Next)
		return ok || o.ownItem(ol, x.Tuple, d+1)
	case *ssa.FieldAddr:
		return o.ownItem(ol, x.X, d+1)
	case *ssa.IndexAddr:
		return o.ownItem(ol, x.X, d+1)
	case *ssa.UnOp:
		return ol.items[v] || o.ownItem(ol, x.X, d+1)
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return true
	case *ssa.Lookup:
		return ol.isItem(x.Index)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !o.ownItem(ol, e, d+1) {
				return false
			}
		}
		return x.Block() != ol.l.head
	case *ssa.Call:
		return o.impure(x, ol) == "" && !o.dependsOnRounds(ol, x, map[ssa.Value]bool{})
	}
	return ol.items[v]
}

var outputPkgs = []string{"fmt.Fprint", "fmt.Print", "io.WriteString", "io.Copy", "log.", "os.Write", "os.Create", "os.Remove", "os.Rename", "os.Mkdir"}

// impure tells what lasting effect a call has, "" if none that depends on when it is made.
func (o *orderAn) impure(in ssa.CallInstruction, ol *oloop) string {
	c := in.Common()
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "copy", "delete", "clear", "print", "println", "close":
			if bi.Name() == "delete" && ol != nil && ol.isItem(c.Args[1]) {
				return ""
			}
			if len(c.Args) > 0 && ol != nil && o.ownItem(ol, c.Args[0], 0) {
				return ""
			}
			return "calls " + bi.Name()
		}
		return ""
	}
	var callees []*ssa.Function
	if g := c.StaticCallee(); g != nil {
		callees = append(callees, g)
	} else {
		found := false
		for ph := phInit; ph <= phTransform; ph++ {
			for l := range o.pta.get(o.pta.at(ph, c.Value)) {
				if l.o.kind == "box" && c.IsInvoke() {
					if g := o.p.SSA.LookupMethod(l.o.typ, c.Method.Pkg(), c.Method.Name()); g != nil {
						found = true
						if w := o.pta.wrapped(g); g.Synthetic != "" && w != nil {
							g = w
						}
						callees = append(callees, g)
					}
				} else if l.o.fn != nil {
					found = true
					callees = append(callees, l.o.fn)
				}
			}
		}
		if c.IsInvoke() && types.Identical(c.Value.Type(), types.Universe.Lookup("error").Type()) {
			return ""
		}
		if !found {
			return "calls an unknown function"
		}
	}
	for _, g := range callees {
		name := CalleeName(g)
		if !o.p.InRepo(g) || g.Blocks == nil {
			for _, p := range outputPkgs {
				if strings.HasPrefix(name, p) {
					return "calls " + name
				}
			}
			if name == "encoding/json.Unmarshal" || sorters[name] {
				i := 0
				if !sorters[name] {
					i = 1
				}
				v := c.Args[i]
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				if ol != nil && o.ownItem(ol, v, 0) || sorters[name] {
					continue
				}
				return "calls " + name
			}
			if recv := g.Signature.Recv(); recv != nil {
				if pt, ok := recv.Type().Underlying().(*types.Pointer); ok {
					if named, ok := pt.Elem().(*types.Named); ok && !readOnlyTypes[named.Obj().Pkg().Path()+"."+named.Obj().Name()] {
						if ol != nil && !c.IsInvoke() && o.ownItem(ol, c.Args[0], 0) {
							continue
						}
						return "calls " + name
					}
				}
				if strings.Contains(name, ").Write") {
					return "calls " + name
				}
			}
			continue
		}
		// a function of the repository: does it or anything it calls write something made outside of it?
		set := o.closure(g)
		for _, w := range o.pta.writes {
			if !set[w.fn] {
				continue
			}
			if af := w.loc.o.in; af != nil && set[af] {
				continue
			}
			if ol != nil && len(c.Args) > 0 && w.fn == g && o.ownItem(ol, c.Args[0], 0) && g.Signature.Recv() != nil && o.pointsTo(c.Args[0], w.loc.o) {
				continue // changes the item itself
			}
			return fmt.Sprintf("calls %s, which changes %s", FnName(g), w.loc.o.desc)
		}
		for h := range set {
			for _, b := range h.Blocks {
				for _, i := range b.Instrs {
					if ci, ok := i.(ssa.CallInstruction); ok {
						if s := ci.Common().StaticCallee(); s != nil && (!o.p.InRepo(s) || s.Blocks == nil) {
							for _, p := range outputPkgs {
								if strings.HasPrefix(CalleeName(s), p) {
									return fmt.Sprintf("calls %s, which calls %s", FnName(g), CalleeName(s))
								}
							}
						}
					}
				}
			}
		}
	}
	return ""
}

// pointsTo: the value can be the object.
func (o *orderAn) pointsTo(v ssa.Value, ob *pobj) bool {
	for ph := phInit; ph <= phTransform; ph++ {
		for l := range o.pta.get(o.pta.at(ph, v)) {
			if l.o == ob {
				return true
			}
		}
	}
	return false
}

// closure is everything a function can call in the repository.
func (o *orderAn) closure(f *ssa.Function) map[*ssa.Function]bool {
	if r := o.reach[f]; r != nil {
		return r
	}
	out := map[*ssa.Function]bool{f: true}
	o.reach[f] = out
	q := []*ssa.Function{f}
	add := func(g *ssa.Function) {
		if g != nil && o.p.InRepo(g) && g.Blocks != nil && !out[g] {
			out[g] = true
			q = append(q, g)
		}
	}
	for len(q) > 0 {
		g := q[0]
		q = q[1:]
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function))
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if s := cc.StaticCallee(); s != nil {
					add(s)
					continue
				}
				for ph := phInit; ph <= phTransform; ph++ {
					for l := range o.pta.get(o.pta.at(ph, cc.Value)) {
						if l.o.kind == "box" && cc.IsInvoke() {
							if m := o.p.SSA.LookupMethod(l.o.typ, cc.Method.Pkg(), cc.Method.Name()); m != nil {
								if w := o.pta.wrapped(m); m.Synthetic != "" && w != nil {
									m = w
								}
								add(m)
							}
						} else if l.o.fn != nil {
							add(l.o.fn)
						}
					}
				}
			}
		}
	}
	return out
}

// loop judges one loop over unordered items.
func (o *orderAn) loop(ol *oloop) {
	key := fmt.Sprintf("%p", ol.l.head)
	if o.judged[key] {
		return
	}
	o.judged[key] = true
	o.nLoops++
	f := ol.f
	nBad := len(o.c.Viols)
	construct := "loop over " + ol.name
	bad := func(pos token.Pos, what string) {
		o.bad(f, pos, construct, what+": the result depends on the order in which the items of the map come")
	}
	for _, b := range f.Blocks {
		if !ol.l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if (ol.isItem(x.Key) || o.ownField(ol, x.Key)) && !o.dependsOnRounds(ol, x.Value, map[ssa.Value]bool{}) {
					continue
				}
				if o.invariant(ol, x.Value, map[ssa.Value]bool{}) {
					continue
				}
				if o.ownItem(ol, x.Map, 0) && !o.dependsOnRounds(ol, x.Value, map[ssa.Value]bool{}) {
					continue
				}
				if ol.idx[x.Key] {
					bad(instrPos(in), "stores items under their position in the iteration")
					continue
				}
				bad(instrPos(in), "sets entries of a map under keys which can be the same for two items")
			case *ssa.Store:
				o.storeInLoop(ol, x, bad)
			case *ssa.Send, *ssa.Go, *ssa.Defer:
				bad(instrPos(in), "sends, defers or starts goroutines for the items")
			case *ssa.Call:
				if w := o.impure(x, ol); w != "" && !leadsToError(in.Block(), ol) {
					bad(instrPos(in), w)
				}
			case *ssa.Return:
				o.returnInLoop(ol, x, bad)
			case *ssa.If:
				if b == ol.l.head || !o.dependsOnRounds(ol, x.Cond, map[ssa.Value]bool{}) || leadsToError(b.Succs[0], ol) || leadsToError(b.Succs[1], ol) || o.extremeCond(ol, x) {
					continue
				}
				bad(instrPos(in), "what is done with an item depends on the items before it")
			}
		}
	}
	// returns reached by leaving the loop early are in blocks outside of it
	for b := range ol.l.blocks {
		for _, s := range b.Succs {
			if ol.l.blocks[s] || b == ol.l.head {
				continue
			}
			o.exit(ol, b, s, bad)
		}
	}
	// what the rounds hand on
	for _, in := range ol.l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		o.carried(ol, ph, bad)
	}
	if len(o.c.Viols) == nBad {
		o.c.Ok(o.rule, FnName(f)+" "+construct)
	}
}

func rootAddr(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return v
		}
	}
}

// extremeCond: the condition compares the best value so far with the current one.
func (o *orderAn) extremeCond(ol *oloop, iff *ssa.If) bool {
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, v := range []ssa.Value{bo.X, bo.Y} {
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == ol.l.head {
			for i, e := range ph.Edges {
				if ol.l.blocks[ph.Block().Preds[i]] && e != v {
					other := bo.X
					if other == v {
						other = bo.Y
					}
					if sub, ok := e.(*ssa.Phi); ok {
						for j, e2 := range sub.Edges {
							if e2 == other && o.isExtreme(ol, ph, other, sub.Block().Preds[j]) {
								return true
							}
						}
					}
					if e == other && o.isExtreme(ol, ph, other, ph.Block().Preds[i]) {
						return true
					}
				}
			}
		}
	}
	return false
}

// leadsToError: everything after the block ends in an error return.
func leadsToError(b *ssa.BasicBlock, ol *oloop) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		if b == ol.l.head {
			return false
		}
		switch x := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			return isErrorReturn(x)
		case *ssa.Panic:
			return true
		}
		for _, s := range b.Succs {
			if !rec(s) {
				return false
			}
		}
		return true
	}
	return rec(b)
}

func isErrorReturn(r *ssa.Return) bool {
	if len(r.Results) == 0 {
		return false
	}
	e := r.Results[len(r.Results)-1]
	if !types.Identical(e.Type(), types.Universe.Lookup("error").Type()) {
		return false
	}
	if c, ok := e.(*ssa.Const); ok && c.Value == nil {
		return false
	}
	return true
}

func (o *orderAn) returnInLoop(ol *oloop, r *ssa.Return, bad func(token.Pos, string)) {
	if isErrorReturn(r) {
		return
	}
	for _, v := range r.Results {
		if !o.invariant(ol, v, map[ssa.Value]bool{}) && !o.searchGuard(ol, r.Block()) {
			bad(instrPos(r), "returns what it finds at the first item which fits")
			return
		}
	}
}

// searchGuard: the block is only reached for the one item which equals something fixed.
func (o *orderAn) searchGuard(ol *oloop, b *ssa.BasicBlock) bool {
	for d := b; d != nil && (ol.l.blocks[d] || d == b); d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		if bo.Op == token.EQL && p.Succs[0] == d || bo.Op == token.NEQ && p.Succs[1] == d {
			if ol.items[bo.X] && o.invariant(ol, bo.Y, map[ssa.Value]bool{}) || ol.items[bo.Y] && o.invariant(ol, bo.X, map[ssa.Value]bool{}) {
				return true
			}
		}
	}
	return false
}

func (o *orderAn) exit(ol *oloop, from, to *ssa.BasicBlock, bad func(token.Pos, string)) {
	if leadsToError(to, ol) {
		return
	}
	if o.hasEffects(ol) {
		bad(instrPos(from.Instrs[len(from.Instrs)-1]), "stops before all items were handled")
		return
	}
	if o.searchGuard(ol, from) {
		return
	}
	// values made in the loop and used after leaving it early
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range to.Preds {
			if p == from && !o.invariant(ol, ph.Edges[i], map[ssa.Value]bool{}) && !o.uniqueGuard(ol, ph.Edges[i], from) {
				bad(instrPos(from.Instrs[len(from.Instrs)-1]), "stops at the first item which fits and goes on with it")
			}
		}
	}
	// blocks only reached from there
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		if seen[b] || ol.l.blocks[b] || !from.Dominates(b) {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if r, ok := in.(*ssa.Return); ok && isErrorReturn(r) {
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op != nil && ol.inLoop(*op) && !o.invariant(ol, *op, map[ssa.Value]bool{}) {
					if leadsToError(b, ol) {
						continue
					}
					bad(instrPos(in), "stops at the first item which fits and uses it")
					return
				}
			}
		}
		for _, s := range b.Succs {
			rec(s)
		}
	}
	rec(to)
}

// hasEffects: the rounds leave something behind.
func (o *orderAn) hasEffects(ol *oloop) bool {
	for b := range ol.l.blocks {
		if leadsToError(b, ol) {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if !o.ownItem(ol, x.Map, 0) {
					return true
				}
			case *ssa.Store:
				if !o.ownItem(ol, x.Addr, 0) {
					return true
				}
			case *ssa.Call:
				if bi, ok := x.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "append" || bi.Name() == "delete") {
					return true
				}
			case *ssa.Phi:
				if b == ol.l.head && !ol.idx[x] {
					for i, e := range x.Edges {
						if ol.l.blocks[b.Preds[i]] && e != ssa.Value(x) && !o.invariant(ol, e, map[ssa.Value]bool{}) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (o *orderAn) uniqueGuard(ol *oloop, v ssa.Value, from *ssa.BasicBlock) bool { return false }

func (o *orderAn) storeInLoop(ol *oloop, s *ssa.Store, bad func(token.Pos, string)) {
	if o.ownItem(ol, s.Addr, 0) {
		if o.dependsOnRounds(ol, s.Val, map[ssa.Value]bool{}) {
			if al, ok := rootAddr(s.Addr).(*ssa.Alloc); ok && ol.inLoop(al) {
				return // a variable made this round, e.g. the arguments of a call
			}
			bad(instrPos(s), "sets a part of an item to what depends on the earlier rounds")
			return
		}
		if ia, ok := s.Addr.(*ssa.IndexAddr); !ok || o.ownItem(ol, ia.X, 0) {
			return
		}
	}
	if o.invariant(ol, s.Val, map[ssa.Value]bool{}) && o.invariant(ol, s.Addr, map[ssa.Value]bool{}) {
		return
	}
	if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
		// items put at the next free position: a slice in no particular order
		if ol.inLoop(ia.X) && !isLoad(ia.X) {
			bad(instrPos(s), "stores items in a slice")
			return
		}
		o.mark(ia.X, "filled by a loop over "+ol.name)
		for _, al := range o.aliases(ia.X) {
			o.mark(al, "filled by a loop over "+ol.name)
		}
		if ld, ok := ia.X.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if l, _, ok := locOf(ld.X); ok {
				o.markLoc(l, "filled by a loop over "+ol.name)
				return
			}
		}
		return
	}
	l, _, ok := locOf(s.Addr)
	if !ok {
		bad(instrPos(s), "assigns a variable")
		return
	}
	load := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		m, _, ok := locOf(u.X)
		return ok && m == l
	}
	switch v := s.Val.(type) {
	case *ssa.Call:
		if bi, ok := v.Common().Value.(*ssa.Builtin); ok && bi.Name() == "append" && load(v.Common().Args[0]) {
			o.markLoc(l, "collected by a loop over "+ol.name)
			return
		}
	case *ssa.BinOp:
		if commutative(v) && (load(v.X) || load(v.Y)) {
			return
		}
	}
	bad(instrPos(s), "assigns a variable which keeps the value of the last item")
}

func isLoad(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	return ok && u.Op == token.MUL
}

func (o *orderAn) aliases(v ssa.Value) []ssa.Value {
	return nil
}

func commutative(b *ssa.BinOp) bool {
	bt, ok := b.Type().Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Op {
	case token.ADD, token.MUL, token.SUB:
		return bt.Info()&types.IsInteger != 0
	case token.OR, token.AND, token.XOR:
		return true
	}
	return false
}

// carried judges a variable which the rounds hand on.
func (o *orderAn) carried(ol *oloop, ph *ssa.Phi, bad func(token.Pos, string)) {
	if ol.idx[ph] {
		return
	}
	var vals []ssa.Value
	seen := map[ssa.Value]bool{}
	var from []*ssa.BasicBlock
	var gather func(v ssa.Value, b *ssa.BasicBlock)
	gather = func(v ssa.Value, b *ssa.BasicBlock) {
		if v == ssa.Value(ph) || seen[v] {
			return
		}
		seen[v] = true
		if p, ok := v.(*ssa.Phi); ok && ol.l.blocks[p.Block()] && p.Block() != ol.l.head {
			for i, e := range p.Edges {
				gather(e, p.Block().Preds[i])
			}
			return
		}
		vals = append(vals, v)
		from = append(from, b)
	}
	for i, e := range ph.Edges {
		if ol.l.blocks[ph.Block().Preds[i]] {
			gather(e, ph.Block().Preds[i])
		}
	}
	used := false
	for _, r := range *ph.Referrers() {
		if !ol.l.blocks[r.Block()] {
			used = true
		}
	}
	_ = used
	isSelf := func(v ssa.Value) bool {
		s2 := map[ssa.Value]bool{}
		var rec func(v ssa.Value) bool
		rec = func(v ssa.Value) bool {
			if v == ssa.Value(ph) {
				return true
			}
			if s2[v] {
				return true
			}
			s2[v] = true
			switch x := v.(type) {
			case *ssa.Phi:
				if !ol.l.blocks[x.Block()] || x.Block() == ol.l.head {
					return false
				}
				for _, e := range x.Edges {
					if !rec(e) {
						return false
					}
				}
				return true
			case *ssa.Call:
				if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					return rec(x.Common().Args[0])
				}
			case *ssa.BinOp:
				if commutative(x) {
					return rec(x.X) || x.Op != token.SUB && rec(x.Y)
				}
			}
			return false
		}
		return rec(v)
	}
	for i, v := range vals {
		if o.invariant(ol, v, map[ssa.Value]bool{}) {
			continue
		}
		if isSelf(v) {
			if _, ok := v.Type().Underlying().(*types.Slice); ok {
				why := "collected by a loop over " + ol.name
				o.mark(v, why)
				o.mark(ph, why)
			} else if pos := o.counterUse(ol, ph); pos != nil {
				bad(instrPos(pos), "uses a running count")
			}
			continue
		}
		if o.onceOrError(ol, ph, v, from[i]) {
			continue
		}
		if o.isExtreme(ol, ph, v, from[i]) {
			continue
		}
		if len(*ph.Referrers()) == 0 {
			continue
		}
		bad(ph.Pos(), fmt.Sprintf("a variable (%s) keeps what the last items left in it", ph.Comment))
	}
}

// counterUse: a count of the rounds is only used to count and as the next free position in a slice.
func (o *orderAn) counterUse(ol *oloop, ph *ssa.Phi) ssa.Instruction {
	for _, r := range *ph.Referrers() {
		if !ol.l.blocks[r.Block()] {
			continue
		}
		switch x := r.(type) {
		case *ssa.BinOp, *ssa.Phi, *ssa.DebugRef:
			if b, ok := x.(*ssa.BinOp); ok && !commutative(b) {
				// a comparison which only leads to an error
				for _, r2 := range *b.Referrers() {
					iff, ok := r2.(*ssa.If)
					if !ok || !leadsToError(iff.Block().Succs[0], ol) && !leadsToError(iff.Block().Succs[1], ol) {
						return r
					}
				}
			}
		case *ssa.IndexAddr:
			for _, r2 := range *x.Referrers() {
				if s, ok := r2.(*ssa.Store); !ok || s.Addr != ssa.Value(x) {
					return r
				}
			}
		default:
			return r
		}
	}
	return nil
}

// onceOrError: the variable is set only while it still is nil, finding a second candidate is an error.
func (o *orderAn) onceOrError(ol *oloop, ph *ssa.Phi, v ssa.Value, from *ssa.BasicBlock) bool {
	self := func(x ssa.Value) bool {
		seen := map[ssa.Value]bool{}
		var rec func(x ssa.Value) bool
		rec = func(x ssa.Value) bool {
			if x == ssa.Value(ph) || x == v {
				return true
			}
			if seen[x] {
				return true
			}
			seen[x] = true
			p, ok := x.(*ssa.Phi)
			if !ok || !ol.l.blocks[p.Block()] {
				return false
			}
			for _, e := range p.Edges {
				if c, ok := e.(*ssa.Const); ok && c.Value == nil {
					continue
				}
				if !rec(e) {
					return false
				}
			}
			return true
		}
		return rec(x)
	}
	for d := from; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		if !ol.l.blocks[p] {
			break
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			continue
		}
		c, okc := bo.Y.(*ssa.Const)
		x := bo.X
		if !okc {
			c, okc = bo.X.(*ssa.Const)
			x = bo.Y
		}
		if !okc || c.Value != nil || !self(x) {
			continue
		}
		nilSucc, other := p.Succs[0], p.Succs[1]
		if bo.Op == token.NEQ {
			nilSucc, other = other, nilSucc
		}
		if nilSucc == d && leadsToError(other, ol) {
			return true
		}
	}
	return false
}

// isExtreme: the variable is replaced by a greater or smaller value, equal ones being the same.
func (o *orderAn) isExtreme(ol *oloop, ph *ssa.Phi, v ssa.Value, from *ssa.BasicBlock) bool {
	if _, ok := v.Type().Underlying().(*types.Basic); !ok {
		return false
	}
	for d := from; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 || !ol.l.blocks[d.Preds[0]] {
			continue
		}
		p := d.Preds[0]
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch bo.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if bo.X == v && bo.Y == ssa.Value(ph) || bo.Y == v && bo.X == ssa.Value(ph) {
				return true
			}
		}
	}
	return false
}

// ---- slices in no particular order

func (o *orderAn) use(v ssa.Value) {
	why := o.perm[v]
	refs := v.Referrers()
	if refs == nil {
		return
	}
	f := v.Parent()
	if f == nil || !o.scope[f] || o.cmp[f] {
		return
	}
	bad := func(in ssa.Instruction, what string) {
		o.bad(f, instrPos(in), "uses a slice "+why, what+" although its items are in no particular order")
	}
	for _, r := range *refs {
		if o.sortArg(r) == v {
			continue
		}
		if o.valueSorted(v, r) {
			continue
		}
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			l, _, ok := locOf(x.Addr)
			if !ok {
				bad(r, "keeps it")
				continue
			}
			o.markLoc(l, why)
		case *ssa.Phi:
			o.mark(x, why)
		case *ssa.ChangeType:
			o.mark(x, why)
			o.viaSort(x, r, bad, why)
		case *ssa.MakeInterface:
			for _, r2 := range *x.Referrers() {
				if o.sortArg(r2) != nil {
					continue
				}
				if call, ok := r2.(*ssa.Call); ok && call.Common().StaticCallee() != nil && CalleeName(call.Common().StaticCallee()) == "sort.Reverse" {
					all := true
					for _, r3 := range *call.Referrers() {
						all = all && o.sortArg(r3) != nil
					}
					if all {
						continue
					}
				}
				if call, ok := r2.(*ssa.Call); ok {
					if g := call.Common().StaticCallee(); g != nil && sorters[CalleeName(g)] {
						if cf := lastFunc(call); cf != nil {
							bad(r2, "sorts it by a comparison which does not decide ("+o.total(cf)+")")
						} else {
							bad(r2, "sorts it by an unknown comparison")
						}
						continue
					}
				}
				if st, ok := r2.(*ssa.Store); ok && errorOnly(st) {
					continue
				}
				if before2(o, v, r2) {
					continue
				}
				bad(r2, "hands it on")
			}
		case *ssa.Slice:
			if x.Low == nil && x.High == nil || zeroSlice(x) {
				o.mark(x, why)
				continue
			}
			bad(r, "takes a part of it")
		case *ssa.BinOp, *ssa.DebugRef, *ssa.If:
		case *ssa.IndexAddr:
			o.indexed(v, x, why, bad)
		case *ssa.Return:
			for i, res := range x.Results {
				if res == v {
					o.markResult(f, i, why)
				}
			}
		case *ssa.Call:
			o.passed(v, x, why, bad)
		case *ssa.Defer, *ssa.Go:
			bad(r, "hands it on")
		case *ssa.MapUpdate:
			bad(r, "keeps it in a map")
		case *ssa.Send:
			bad(r, "sends it")
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == v {
					o.mark(x.Fn.(*ssa.Function).FreeVars[i], why)
				}
			}
		case *ssa.Extract, *ssa.Range:
		default:
			bad(r, fmt.Sprintf("uses it (%T)", r))
		}
	}
}

func before2(o *orderAn, v ssa.Value, in ssa.Instruction) bool { return o.valueSorted(v, in) }

func lastFunc(call *ssa.Call) *ssa.Function {
	a := call.Common().Args
	if len(a) < 2 {
		return nil
	}
	return funcOf(a[len(a)-1])
}

func errorOnly(st *ssa.Store) bool { return false }

func zeroSlice(x *ssa.Slice) bool {
	c, ok := x.High.(*ssa.Const)
	return ok && c.Value != nil && constant.Sign(c.Value) == 0
}

func (o *orderAn) viaSort(x *ssa.ChangeType, r ssa.Instruction, bad func(ssa.Instruction, string), why string) {
}

func (o *orderAn) markResult(f *ssa.Function, i int, why string) {
	if o.res[f] == nil {
		o.res[f] = map[int]string{}
	}
	if _, ok := o.res[f][i]; ok {
		return
	}
	o.res[f][i] = why
	if ob := f.Object(); ob != nil && ob.Exported() && f.Parent() == nil {
		exp := true
		if r := f.Signature.Recv(); r != nil {
			t := r.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			n, ok := t.(*types.Named)
			exp = ok && n.Obj().Exported()
		}
		if exp {
			o.bad(f, f.Pos(), "result", "the exported function returns a slice "+why+", whose items are in no particular order")
		}
	}
	for g := range o.scope {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Common().StaticCallee() != f {
					continue
				}
				o.markCall(call, i, why)
			}
		}
	}
}

func (o *orderAn) markCall(call *ssa.Call, i int, why string) {
	if _, ok := call.Type().(*types.Tuple); !ok {
		o.mark(call, why)
		return
	}
	for _, r := range *call.Referrers() {
		if ex, ok := r.(*ssa.Extract); ok && ex.Index == i {
			o.mark(ex, why)
		}
	}
}

func (o *orderAn) passed(v ssa.Value, call *ssa.Call, why string, bad func(ssa.Instruction, string)) {
	c := call.Common()
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "append":
			o.mark(call, why)
		case "len", "cap":
		case "copy":
			if c.Args[1] == v {
				o.mark(c.Args[0], why)
			}
		case "clear":
		default:
			bad(call, "hands it to "+bi.Name())
		}
		return
	}
	g := c.StaticCallee()
	if g == nil {
		bad(call, "hands it on")
		return
	}
	if o.scope[g] {
		for i, a := range c.Args {
			if a == v && i < len(g.Params) {
				o.mark(g.Params[i], why)
			}
		}
		return
	}
	name := CalleeName(g)
	switch name {
	case "slices.Contains", "golang.org/x/exp/slices.Contains", "slices.ContainsFunc":
		return
	case "slices.Clone", "golang.org/x/exp/slices.Clone", "slices.Clip", "slices.Grow":
		o.mark(call, why)
		return
	}
	if sorters[name] {
		if cf := lastFunc(call); cf != nil {
			bad(call, "sorts it by a comparison which does not decide ("+o.total(cf)+")")
		} else {
			bad(call, "reorders it with "+name)
		}
		return
	}
	bad(call, "hands it to "+name)
}

// indexed: an item of an unordered slice is read.
func (o *orderAn) indexed(v ssa.Value, ia *ssa.IndexAddr, why string, bad func(ssa.Instruction, string)) {
	if ia.X != v {
		return
	}
	onlyWritten := true
	for _, r := range *ia.Referrers() {
		if s, ok := r.(*ssa.Store); !ok || s.Addr != ssa.Value(ia) {
			onlyWritten = false
		}
	}
	if onlyWritten {
		return
	}
	f := ia.Parent()
	// the position of a loop over the slice
	var ol *oloop
	for _, l := range o.loops[f] {
		if !l.blocks[ia.Block()] {
			continue
		}
		if ph := loopIndex(l, ia.Index); ph != nil {
			ol = &oloop{l: l, f: f, items: map[ssa.Value]bool{}, name: "items " + why, idx: map[ssa.Value]bool{}}
			ol.idx[ia.Index] = true
			for _, p := range ph {
				ol.idx[p] = true
			}
			break
		}
	}
	if ol == nil {
		if o.lenIsOne(v, ia.Block()) {
			return
		}
		bad(ia, "takes one of its items")
		return
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			x, ok := in.(*ssa.IndexAddr)
			if !ok || x.X != v || !ol.idx[x.Index] {
				continue
			}
			for _, r := range *x.Referrers() {
				if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
					ol.items[u] = true
				}
			}
		}
	}
	// the position itself says something about the order
	for p := range ol.idx {
		for _, r := range *p.Referrers() {
			if !ol.l.blocks[r.Block()] {
				continue
			}
			switch x := r.(type) {
			case *ssa.IndexAddr:
				if x.X != v {
					if !writtenOnly(x) {
						bad(r, "uses the position of its items")
					}
				}
			case *ssa.BinOp:
				if !loopControl(x, ol) {
					bad(r, "uses the position of its items")
				}
			case *ssa.Phi, *ssa.DebugRef:
			default:
				bad(r, "uses the position of its items")
			}
		}
	}
	o.loop(ol)
}

func writtenOnly(ia *ssa.IndexAddr) bool {
	for _, r := range *ia.Referrers() {
		if s, ok := r.(*ssa.Store); !ok || s.Addr != ssa.Value(ia) {
			return false
		}
	}
	return true
}

func loopControl(b *ssa.BinOp, ol *oloop) bool {
	if b.Op == token.ADD {
		for _, r := range *b.Referrers() {
			if p, ok := r.(*ssa.Phi); ok && p.Block() == ol.l.head {
				return true
			}
		}
		return ol.idx[b]
	}
	if b.Op == token.LSS || b.Op == token.GTR || b.Op == token.NEQ || b.Op == token.LEQ || b.Op == token.GEQ {
		for _, r := range *b.Referrers() {
			if iff, ok := r.(*ssa.If); ok {
				for _, s := range iff.Block().Succs {
					if !ol.l.blocks[s] {
						return true
					}
				}
			}
		}
	}
	return false
}

// loopIndex: v counts the rounds of the loop.
func loopIndex(l *natLoop, v ssa.Value) []ssa.Value {
	isHead := func(x ssa.Value) *ssa.Phi {
		p, ok := x.(*ssa.Phi)
		if ok && p.Block() == l.head {
			return p
		}
		return nil
	}
	if p := isHead(v); p != nil {
		out := []ssa.Value{p}
		for _, e := range p.Edges {
			if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == ssa.Value(p) {
				out = append(out, b)
			}
		}
		return out
	}
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		if p := isHead(b.X); p != nil {
			if _, ok := b.Y.(*ssa.Const); ok {
				return []ssa.Value{p, b}
			}
		}
	}
	return nil
}

func (o *orderAn) lenIsOne(v ssa.Value, b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !(bo.Op == token.EQL && p.Succs[0] == d || bo.Op == token.NEQ && p.Succs[1] == d) {
			continue
		}
		for _, pair := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
			c, ok := pair[1].(*ssa.Const)
			if !ok || c.Value == nil || c.Value.ExactString() != "1" {
				continue
			}
			call, ok := pair[0].(*ssa.Call)
			if !ok {
				continue
			}
			if bi, ok := call.Common().Value.(*ssa.Builtin); ok && bi.Name() == "len" && call.Common().Args[0] == v {
				return true
			}
		}
	}
	return false
}

// Run looks at every loop over a map in scope and follows the slices made from them.
func (o *orderAn) Run() {
	var fns []*ssa.Function
	for f := range o.scope {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
						continue
					}
					o.mapLoop(f, x)
				case *ssa.Call:
					g := x.Common().StaticCallee()
					if g == nil {
						continue
					}
					switch CalleeName(g) {
					case "golang.org/x/exp/maps.Keys", "golang.org/x/exp/maps.Values", "(reflect.Value).MapKeys":
						o.mark(x, "made by "+CalleeName(g))
					case "maps.Keys", "maps.Values", "maps.All":
						for _, r := range *x.Referrers() {
							if call, ok := r.(*ssa.Call); ok && call.Common().StaticCallee() != nil {
								switch CalleeName(call.Common().StaticCallee()) {
								case "slices.Sorted":
									o.c.Ok(o.rule, FnName(f)+" sorted keys")
									continue
								case "slices.Collect", "slices.AppendSeq":
									o.mark(call, "made by "+CalleeName(g))
									continue
								case "maps.Collect", "maps.Insert":
									continue
								}
							}
							o.bad(f, instrPos(r), "iterates over a map", "the order in which the items of the map come is used")
						}
					case "(*sync.Map).Range", "(reflect.Value).MapRange", "(*reflect.MapIter).Next":
						o.bad(f, instrPos(x), "iterates over a map", "the order in which the items of the map come is used")
					}
				case *ssa.Select:
					if len(x.States) > 1 {
						o.bad(f, instrPos(x), "select", "picks one of several channels at random")
					}
				}
			}
		}
	}
	for len(o.queue) > 0 {
		v := o.queue[0]
		o.queue = o.queue[1:]
		o.use(v)
	}
	o.c.Note("loops over maps and unordered slices", fmt.Sprint(o.nLoops))
	o.c.Note("unordered slices followed", fmt.Sprint(len(o.perm)))
}

func (o *orderAn) mapLoop(f *ssa.Function, rg *ssa.Range) {
	for _, r := range *rg.Referrers() {
		nx, ok := r.(*ssa.Next)
		if !ok {
			continue
		}
		var l *natLoop
		for _, x := range o.loops[f] {
			if x.head == nx.Block() {
				l = x
			}
		}
		name := shortType(rg.X.Type())
		if l == nil {
			// at most one round: takes some item
			for _, r2 := range *nx.Referrers() {
				if ex, ok := r2.(*ssa.Extract); ok && ex.Index > 0 && ex.Referrers() != nil && len(*ex.Referrers()) > 0 {
					o.bad(f, instrPos(rg), "loop over "+name, "takes any one item of the map")
				}
			}
			continue
		}
		ol := &oloop{l: l, f: f, items: map[ssa.Value]bool{}, name: name, idx: map[ssa.Value]bool{}}
		for _, r2 := range *nx.Referrers() {
			if ex, ok := r2.(*ssa.Extract); ok && ex.Index == 1 {
				ol.items[ex] = true
			}
		}
		o.loop(ol)
	}
}
