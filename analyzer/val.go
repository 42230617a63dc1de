package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Val is an abstract value. Values are immutable; Key is a canonical rendering, two values with the same key are the
// same abstract value.
type Val interface{ Key() string }

// Const is a known boolean, number or string.
type Const struct {
	V constant.Value
	T types.Type
}

// Nil is the nil pointer, slice, map, function, channel or interface.
type Nil struct{ T types.Type }

// Sym is an unknown value. Its ID says where the value comes from: a parameter, a field of another unknown, or the
// result of applying an uninterpreted function to other values. Unless it is Weak the same ID always stands for one
// and the same run time value within a state, so facts about it can be recorded in the state.
type Sym struct {
	ID   string
	T    types.Type
	Weak bool
}

// Ptr is the address of (a part of) an abstract object.
type Ptr struct{ Obj, Path string }

// Iface is a non-nil interface value with known dynamic type.
type Iface struct {
	T types.Type
	V Val
}
type Struct struct {
	T types.Type
	F []Val
}
type Arr struct {
	T types.Type
	E []Val
}

// Slice is a slice of a known sequence object.
type Slice struct {
	Obj    string
	Lo, Hi int
}
type Part struct {
	V      Val
	Spread bool
}

// Seq is the content of a sequence object: known elements and spread unknown slices, in order.
type Seq struct{ Parts []Part }

type MapV struct{ Obj string }
type MapEnt struct {
	K, V Val
	Gone bool // known to be absent
}

// MapC is the content of a map object.
type MapC struct {
	Ents   map[string]MapEnt
	Closed bool // keys which are not in Ents are absent
	Base   Val  // the unknown map this stands for
	T      *types.Map
}

// Over is an unknown array-like or struct-like value with some elements overwritten.
type Over struct {
	Base Sym
	M    map[string]Val
}
type Func struct {
	Fn   FnRef
	Bind []Val
}

// Intr is a function value supplied by a scenario.
type Intr struct {
	Name string
	T    types.Type
}
type Cat struct{ Parts []Val }
type LenV struct{ X Val }
type Tuple struct{ E []Val }
type IterV struct{ Obj string }
type IterC struct {
	Keys []Val
	Pos  int
	Open Val // unknown collection iterated after the known keys
	N    int
	Str  bool
}

func typeKey(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func (c Const) Key() string {
	switch c.V.Kind() {
	case constant.String:
		return strconv.Quote(constant.StringVal(c.V))
	}
	return c.V.ExactString()
}
func (c Nil) Key() string { return "nil" }
func (s Sym) Key() string {
	if s.Weak {
		return s.ID + "~"
	}
	return s.ID
}
func (p Ptr) Key() string   { return "&" + p.Obj + p.Path }
func (i Iface) Key() string { return "iface(" + typeKey(i.T) + "," + i.V.Key() + ")" }
func keys(vs []Val) string {
	var b strings.Builder
	for i, v := range vs {
		if i > 0 {
			b.WriteByte(',')
		}
		if v == nil {
			b.WriteString("_")
			continue
		}
		b.WriteString(v.Key())
	}
	return b.String()
}
func (s Struct) Key() string { return "{" + keys(s.F) + "}" }
func (s Arr) Key() string    { return "[" + keys(s.E) + "]" }
func (s Slice) Key() string  { return fmt.Sprintf("%s[%d:%d]", s.Obj, s.Lo, s.Hi) }
func (s Seq) Key() string {
	var b strings.Builder
	b.WriteString("seq(")
	for i, p := range s.Parts {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(p.V.Key())
		if p.Spread {
			b.WriteString("...")
		}
	}
	b.WriteString(")")
	return b.String()
}
func (m MapV) Key() string { return "map " + m.Obj }
func (m MapC) Key() string {
	ks := make([]string, 0, len(m.Ents))
	for k, e := range m.Ents {
		if e.Gone {
			ks = append(ks, k+":gone")
		} else {
			ks = append(ks, k+":"+e.V.Key())
		}
	}
	sort.Strings(ks)
	s := "mapc(" + strings.Join(ks, ",")
	if !m.Closed {
		s += ",..."
	}
	if m.Base != nil {
		s += "|" + m.Base.Key()
	}
	return s + ")"
}
func (o Over) Key() string {
	ks := make([]string, 0, len(o.M))
	for k, v := range o.M {
		ks = append(ks, k+":"+v.Key())
	}
	sort.Strings(ks)
	return "over(" + o.Base.Key() + "," + strings.Join(ks, ",") + ")"
}
func (f Func) Key() string {
	if len(f.Bind) == 0 {
		return f.Fn.Key()
	}
	return f.Fn.Key() + "(" + keys(f.Bind) + ")"
}
func (f Intr) Key() string { return "intr:" + f.Name }
func (c Cat) Key() string {
	var ss []string
	for _, p := range c.Parts {
		ss = append(ss, p.Key())
	}
	return "(" + strings.Join(ss, "+") + ")"
}
func (l LenV) Key() string  { return "len(" + l.X.Key() + ")" }
func (t Tuple) Key() string { return "(" + keys(t.E) + ")" }
func (i IterV) Key() string { return "iter " + i.Obj }
func (i IterC) Key() string {
	s := fmt.Sprintf("iterc(%d,%d,%s", i.Pos, i.N, keys(i.Keys))
	if i.Open != nil {
		s += "," + i.Open.Key()
	}
	return s + ")"
}

func cBool(b bool) Val { return Const{constant.MakeBool(b), types.Typ[types.Bool]} }
func cStr(s string) Val {
	return Const{constant.MakeString(s), types.Typ[types.String]}
}
func cInt(i int) Val { return Const{constant.MakeInt64(int64(i)), types.Typ[types.Int]} }

func asStr(v Val) (string, bool) {
	if c, ok := v.(Const); ok && c.V.Kind() == constant.String {
		return constant.StringVal(c.V), true
	}
	return "", false
}
func asInt(v Val) (int, bool) {
	if c, ok := v.(Const); ok && c.V.Kind() == constant.Int {
		i, ok := constant.Int64Val(c.V)
		return int(i), ok
	}
	return 0, false
}
func asBool(v Val) (bool, bool) {
	if c, ok := v.(Const); ok && c.V.Kind() == constant.Bool {
		return constant.BoolVal(c.V), true
	}
	return false, false
}

// zero is the zero value of a type.
func zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Const{constant.MakeBool(false), t}
		case u.Info()&types.IsString != 0:
			return Const{constant.MakeString(""), t}
		case u.Info()&types.IsInteger != 0:
			return Const{constant.MakeInt64(0), t}
		case u.Info()&types.IsFloat != 0:
			return Const{constant.MakeFloat64(0), t}
		case u.Info()&types.IsComplex != 0:
			return Const{constant.MakeFloat64(0), t}
		}
		return Nil{t}
	case *types.Struct:
		s := Struct{T: t, F: make([]Val, u.NumFields())}
		for i := range s.F {
			s.F[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if u.Len() > 64 {
			return Sym{ID: "zeroarr", T: t}
		}
		a := Arr{T: t, E: make([]Val, u.Len())}
		for i := range a.E {
			a.E[i] = zero(u.Elem())
		}
		return a
	}
	return Nil{t}
}

// mkCat normalises a string concatenation.
func mkCat(parts ...Val) Val {
	var out []Val
	var add func(v Val)
	add = func(v Val) {
		if c, ok := v.(Cat); ok {
			for _, p := range c.Parts {
				add(p)
			}
			return
		}
		if s, ok := asStr(v); ok {
			if s == "" {
				return
			}
			if len(out) > 0 {
				if t, ok := asStr(out[len(out)-1]); ok {
					out[len(out)-1] = cStr(t + s)
					return
				}
			}
			out = append(out, cStr(s))
			return
		}
		if w, ok := v.(Sym); ok && w.Weak && len(out) > 0 {
			if o, ok := out[len(out)-1].(Sym); ok && o.Weak && o.ID == w.ID {
				return
			}
		}
		out = append(out, v)
	}
	for _, p := range parts {
		add(p)
	}
	switch len(out) {
	case 0:
		return cStr("")
	case 1:
		return out[0]
	}
	return Cat{out}
}

// Fact is what is known of a Sym.
type Fact struct {
	Nil            int8 // 0 unknown, 1 nil, 2 not nil
	Eq             Val  // known equal to a constant
	Ne             map[string]bool
	Dyn            types.Type
	NDyn           map[string]bool
	LenMin, LenMax int
}

func newFact() *Fact { return &Fact{LenMax: -1} }

func (f *Fact) clone() *Fact {
	g := *f
	g.Ne = make(map[string]bool, len(f.Ne)+1)
	for k := range f.Ne {
		g.Ne[k] = true
	}
	g.NDyn = make(map[string]bool, len(f.NDyn)+1)
	for k := range f.NDyn {
		g.NDyn[k] = true
	}
	return &g
}

func (f *Fact) key() string {
	var ss []string
	ss = append(ss, strconv.Itoa(int(f.Nil)))
	if f.Eq != nil {
		ss = append(ss, "="+f.Eq.Key())
	}
	var ne []string
	for k := range f.Ne {
		ne = append(ne, "!"+k)
	}
	for k := range f.NDyn {
		ne = append(ne, "!:"+k)
	}
	sort.Strings(ne)
	ss = append(ss, ne...)
	if f.Dyn != nil {
		ss = append(ss, ":"+typeKey(f.Dyn))
	}
	ss = append(ss, fmt.Sprintf("%d-%d", f.LenMin, f.LenMax))
	return strings.Join(ss, ";")
}

// Obj is an abstract heap object.
type Obj struct {
	V    Val
	T    types.Type
	Weak bool
}

// Event is something the analysed code did which a property talks about.
type Event struct {
	Kind string
	Args []Val
	Pos  string
	Site string
}

func (e Event) Key() string { return e.Kind + "@" + e.Site + "(" + keys(e.Args) + ")" }

// State is one abstract state.
type State struct {
	Heap   map[string]*Obj
	Facts  map[string]*Fact
	Preds  map[string]bool
	Ver    map[string]int
	Events []Event
	Trace  []string
}

func newState() *State {
	return &State{Heap: map[string]*Obj{}, Facts: map[string]*Fact{}, Preds: map[string]bool{}, Ver: map[string]int{}}
}

func (s *State) Fork() *State {
	n := &State{Heap: make(map[string]*Obj, len(s.Heap)+4), Facts: make(map[string]*Fact, len(s.Facts)+4), Preds: make(map[string]bool, len(s.Preds)+2), Ver: make(map[string]int, len(s.Ver)+2)}
	for k, v := range s.Heap {
		n.Heap[k] = v
	}
	for k, v := range s.Facts {
		n.Facts[k] = v
	}
	for k, v := range s.Preds {
		n.Preds[k] = v
	}
	for k, v := range s.Ver {
		n.Ver[k] = v
	}
	n.Events = append([]Event(nil), s.Events...)
	n.Trace = append([]string(nil), s.Trace...)
	return n
}

func (s *State) Key() string {
	var ks []string
	for k, o := range s.Heap {
		ks = append(ks, k+"="+o.V.Key())
	}
	for k, f := range s.Facts {
		ks = append(ks, "f "+k+"="+f.key())
	}
	for k, v := range s.Preds {
		ks = append(ks, fmt.Sprintf("p %s=%v", k, v))
	}
	for k, v := range s.Ver {
		ks = append(ks, fmt.Sprintf("v %s=%d", k, v))
	}
	sort.Strings(ks)
	for _, e := range s.Events {
		ks = append(ks, "e "+e.Key())
	}
	return strings.Join(ks, "\n")
}

func (s *State) fact(x Sym) *Fact {
	if x.Weak {
		return nil
	}
	return s.Facts[x.ID]
}

// upd changes the facts of a Sym in this state.
func (s *State) upd(x Sym, fn func(f *Fact)) {
	if x.Weak {
		return
	}
	f := s.Facts[x.ID]
	if f == nil {
		f = newFact()
	}
	f = f.clone()
	fn(f)
	s.Facts[x.ID] = f
}

const maxDup = 3

func (s *State) event(e Event) {
	n := 0
	k := e.Key()
	for _, o := range s.Events {
		if o.Key() == k {
			n++
		}
	}
	if n >= maxDup {
		return
	}
	s.Events = append(s.Events, e)
}

func (s *State) trace(t string) {
	if len(s.Trace) > 40 {
		s.Trace = s.Trace[len(s.Trace)-30:]
	}
	s.Trace = append(s.Trace, t)
}

// nonNil marks a Sym as not nil.
func (s *State) nonNil(x Sym) Sym {
	s.upd(x, func(f *Fact) { f.Nil = 2 })
	return x
}

// dropMention forgets what is known about values whose name mentions s.
func (s *State) dropMention(x string) {
	for k := range s.Facts {
		if strings.Contains(k, x) {
			delete(s.Facts, k)
		}
	}
	for k := range s.Preds {
		if strings.Contains(k, x) {
			delete(s.Preds, k)
		}
	}
}
