package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"hash/fnv"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// jnode is a JSON value of known shape whose scalars may be unknown. Scenarios describe the documents a function works
// on with it, the functions of jsonparser and encoding/json are modelled on the shape.
type jnode struct {
	kind string // object, array, string, number, boolean, null
	id   string
	keys []string
	kids []*jnode
	s    Val  // content of a string
	bad  bool // can not be decoded
	memo string
}

type jdoc struct {
	c     *Ctx
	nodes map[string]*jnode
	// escapes tells the text of an unknown string as it is in the document from its content
	escapes bool
	// strict is set when every document is known
	strict bool
}

func newDoc(c *Ctx) *jdoc { return &jdoc{c: c, nodes: map[string]*jnode{}} }

func (d *jdoc) add(n *jnode) *jnode {
	d.nodes["raw:"+n.id] = n
	return n
}

// obj makes an object from keys and nodes.
func (d *jdoc) obj(id string, kv ...interface{}) *jnode {
	n := &jnode{kind: "object", id: id}
	for i := 0; i+1 < len(kv); i += 2 {
		n.keys = append(n.keys, kv[i].(string))
		n.kids = append(n.kids, kv[i+1].(*jnode))
	}
	return d.add(n)
}
func (d *jdoc) arr(id string, kids ...*jnode) *jnode {
	return d.add(&jnode{kind: "array", id: id, kids: kids})
}
func (d *jdoc) str(id string, s Val) *jnode { return d.add(&jnode{kind: "string", id: id, s: s}) }
func (d *jdoc) text(s string) *jnode        { return d.str("text("+s+")", cStr(s)) }
func (d *jdoc) leaf(id, kind string) *jnode { return d.add(&jnode{kind: kind, id: id}) }

func (n *jnode) get(key string) *jnode {
	for i, k := range n.keys {
		if k == key {
			return n.kids[i]
		}
	}
	return nil
}

// raw is the text of a node.
func (d *jdoc) raw(st *State, n *jnode, t types.Type) Val {
	return st.nonNilBytes(Sym{ID: "raw:" + n.id, T: t})
}

func (s *State) nonNilBytes(x Sym) Sym {
	s.upd(x, func(f *Fact) {
		f.Nil = 2
		if f.LenMin < 1 {
			f.LenMin = 1
		}
	})
	return x
}

func (d *jdoc) find(in *Interp, st *State, v Val) *jnode {
	if x, ok := in.resolve(st, v).(Sym); ok {
		return d.nodes[x.ID]
	}
	if x, ok := v.(Sym); ok {
		return d.nodes[x.ID]
	}
	return nil
}

var jkinds = map[string]string{"object": "Object", "array": "Array", "string": "String", "number": "Number", "boolean": "Boolean", "null": "Null", "": "NotExist"}

const jpPath = "github.com/GannettDigital/jsonparser"

// kindConst is the constant of jsonparser for a kind of value.
func (d *jdoc) kindConst(kind string) Val {
	sp := d.c.P.ByPath[jpPath]
	if sp == nil {
		undecided("jsonparser is not loaded")
	}
	k, ok := sp.Pkg.Scope().Lookup(jkinds[kind]).(*types.Const)
	if !ok {
		undecided("jsonparser has no constant %s", jkinds[kind])
	}
	return Const{k.Val(), k.Type()}
}

// jpErr is an error variable of jsonparser.
func (d *jdoc) jpErr(in *Interp, st *State, name string) Val {
	sp := d.c.P.ByPath[jpPath]
	g := sp.Var(name)
	if g == nil {
		undecided("jsonparser has no error %s", name)
	}
	v, ok := in.load(st, in.globalPtr(st, g), nil)
	if !ok {
		undecided("no value for %s", name)
	}
	return v
}

func (d *jdoc) keysArg(ci *CallInfo, i int) ([]string, bool) {
	if i >= len(ci.Args) {
		return nil, true
	}
	v := ci.In.resolve(ci.St, ci.Args[i])
	if _, ok := v.(Nil); ok {
		return nil, true
	}
	el, ok := ci.In.elems(ci.St, v)
	if !ok {
		return nil, false
	}
	var out []string
	for _, e := range el {
		s, ok := asStr(ci.In.resolve(ci.St, e))
		if !ok {
			return nil, false
		}
		out = append(out, s)
	}
	return out, true
}

func (n *jnode) walk(keys []string) *jnode {
	for _, k := range keys {
		if n == nil {
			return nil
		}
		if n.kind == "array" && strings.HasPrefix(k, "[") {
			i, err := strconv.Atoi(strings.Trim(k, "[]"))
			if err != nil || i < 0 || i >= len(n.kids) {
				return nil
			}
			n = n.kids[i]
			continue
		}
		if n.kind != "object" {
			return nil
		}
		n = n.get(k)
	}
	return n
}

// value is what jsonparser hands out for a node.
func (d *jdoc) value(st *State, n *jnode, t types.Type) Val {
	if n.kind == "string" {
		if x, ok := n.s.(Sym); ok && d.escapes {
			x.ID = escPrefix + x.ID
			return retype(x, t)
		}
		return retype(n.s, t)
	}
	return d.raw(st, n, t)
}

const escPrefix = "escaped text of "

// model is a hook for the functions which read JSON.
func (d *jdoc) model(ci *CallInfo) []CallOut {
	bt := types.NewSlice(types.Typ[types.Byte])
	in := ci.In
	off := Sym{ID: "offset", T: types.Typ[types.Int], Weak: true}
	switch ci.Name {
	case jpPath + ".Get", jpPath + ".GetString", jpPath + ".GetUnsafeString", jpPath + ".ObjectEach", jpPath + ".ArrayEach":
	case "encoding/json.Unmarshal":
		n := d.find(in, ci.St, ci.Args[0])
		if n == nil {
			return nil
		}
		p, t, ok := unmarshalTarget(ci)
		if !ok {
			return nil
		}
		if n.bad {
			st := ci.St.Fork()
			return ok1(st, in.newErr(st, "err:unmarshal "+n.id))
		}
		v, ok := d.decode(ci.In, ci.St, n, t, p, 0)
		if !ok {
			st := ci.St.Fork()
			return ok1(st, in.newErr(st, "err:unmarshal "+n.id))
		}
		in.store(ci.St, p, v, t)
		return ok1(ci.St, Nil{errType})
	case jpPath + ".Set", jpPath + ".Delete":
		n := d.find(in, ci.St, ci.Args[0])
		if n == nil {
			return nil
		}
		set := ci.Name == jpPath+".Set"
		ki := 1
		if set {
			ki = 2
		}
		keys, ok := d.keysArg(ci, ki)
		if !ok {
			return nil
		}
		if !set {
			return ok1(ci.St, d.raw(ci.St, d.remove(n, keys), bt))
		}
		v := d.parse(in, ci.St, ci.Args[1])
		if v == nil {
			undecided("jsonparser.Set with %s", describe(ci.Args[1]))
		}
		m := d.set(n, keys, v)
		if m == nil || len(keys) == 0 {
			return ok1(ci.St, Nil{bt}, d.jpErr(in, ci.St, "KeyPathNotFoundError"))
		}
		return ok1(ci.St, d.raw(ci.St, m, bt), Nil{errType})
	case "encoding/json.Marshal":
		a := in.resolve(ci.St, ci.Args[0])
		i, ok := a.(Iface)
		if !ok {
			return nil
		}
		if x, ok := in.resolve(ci.St, i.V).(Sym); ok && isStringT(i.T) {
			return ok1(ci.St, ci.St.nonNilBytes(Sym{ID: quotePrefix + x.ID, T: bt}), Nil{errType})
		}
		n := d.encode(in, ci.St, i.V, i.T)
		if n == nil {
			return nil
		}
		return ok1(ci.St, d.raw(ci.St, n, bt), Nil{errType})
	case "strings.TrimSpace", "bytes.TrimSpace":
		if d.find(in, ci.St, ci.Args[0]) == nil {
			return nil
		}
		return ok1(ci.St, ci.Args[0])
	case "encoding/json.Valid":
		n := d.find(in, ci.St, ci.Args[0])
		if n == nil {
			return nil
		}
		return ok1(ci.St, cBool(!n.bad))
	default:
		return nil
	}
	n := d.find(in, ci.St, ci.Args[0])
	if n == nil && d.strict {
		undecided("%s of the unknown document %s", ci.Name, describe(ci.Args[0]))
	}
	if n == nil {
		return nil
	}
	ki := 1
	if strings.HasSuffix(ci.Name, "Each") {
		ki = 2
	}
	keys, ok := d.keysArg(ci, ki)
	if !ok {
		return nil
	}
	m := n.walk(keys)
	st := ci.St
	notFound := func() Val { return d.jpErr(in, st, "KeyPathNotFoundError") }
	switch ci.Name {
	case jpPath + ".Get":
		if m == nil {
			return ok1(st, Nil{bt}, d.kindConst(""), cInt(-1), notFound())
		}
		return ok1(st, d.value(st, m, bt), d.kindConst(m.kind), off, Nil{errType})
	case jpPath + ".GetString", jpPath + ".GetUnsafeString":
		if m == nil {
			return ok1(st, cStr(""), notFound())
		}
		if m.kind != "string" && ci.Name == jpPath+".GetString" {
			return ok1(st, cStr(""), in.newErr(st, "err:GetString "+m.id))
		}
		if m.kind == "string" && ci.Name == jpPath+".GetString" {
			return ok1(st, retype(m.s, types.Typ[types.String]), Nil{errType})
		}
		return ok1(st, d.value(st, m, types.Typ[types.String]), Nil{errType})
	case jpPath + ".ObjectEach":
		if m == nil {
			return ok1(st, notFound())
		}
		if m.kind != "object" {
			return ok1(st, d.jpErr(in, st, "MalformedObjectError"))
		}
		var outs []CallOut
		cur := []*State{st}
		for i, k := range m.keys {
			var next []*State
			for _, s := range cur {
				for _, o := range ci.callback(s, ci.Args[1], []Val{retype(cStr(k), bt), d.value(s, m.kids[i], bt), d.kindConst(m.kids[i].kind), off}) {
					if o.Panic != "" {
						outs = append(outs, o)
						continue
					}
					for _, a := range in.isNil(o.St, o.Ret[0]) {
						if a.v {
							next = append(next, a.st)
						} else {
							outs = append(outs, CallOut{Ret: []Val{o.Ret[0]}, St: a.st})
						}
					}
				}
			}
			cur = next
		}
		for _, s := range cur {
			if m.bad {
				outs = append(outs, CallOut{Ret: []Val{d.jpErr(in, s, "MalformedObjectError")}, St: s})
			} else {
				outs = append(outs, CallOut{Ret: []Val{Nil{errType}}, St: s})
			}
		}
		return outs
	case jpPath + ".ArrayEach":
		if m == nil {
			return ok1(st, off, notFound())
		}
		if m.kind != "array" {
			return ok1(st, off, d.jpErr(in, st, "MalformedArrayError"))
		}
		var outs []CallOut
		cur := []*State{st}
		for _, k := range m.kids {
			var next []*State
			for _, s := range cur {
				for _, o := range ci.callback(s, ci.Args[1], []Val{d.value(s, k, bt), d.kindConst(k.kind), off, Nil{errType}}) {
					if o.Panic != "" {
						outs = append(outs, o)
						continue
					}
					next = append(next, o.St)
				}
			}
			cur = next
		}
		for _, s := range cur {
			if m.bad {
				outs = append(outs, CallOut{Ret: []Val{off, d.jpErr(in, s, "MalformedArrayError")}, St: s})
			} else {
				outs = append(outs, CallOut{Ret: []Val{off, Nil{errType}}, St: s})
			}
		}
		return outs
	}
	return nil
}

// decode gives the value of a type decoded from a node; fields which are not there keep what the target has.
func (d *jdoc) decode(in *Interp, st *State, n *jnode, t types.Type, at Ptr, depth int) (Val, bool) {
	sc := &Scenario{c: d.c, in: in, st: st}
	tk := typeKey(t)
	if tk == "encoding/json.RawMessage" {
		return d.raw(st, n, t), true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0 && n.kind == "string":
			return retype(n.s, t), true
		case u.Info()&types.IsBoolean != 0 && n.kind == "boolean":
			return Const{constant.MakeBool(strings.HasSuffix(n.id, "true")), t}, true
		case n.kind == "null":
			return zero(t), true
		}
		return nil, false
	case *types.Slice:
		if n.kind == "null" {
			return Nil{t}, true
		}
		// an instance's list of types may be given as one string
		if n.kind != "array" {
			return nil, false
		}
		var vs []Val
		for _, k := range n.kids {
			v, ok := d.decode(in, st, k, u.Elem(), Ptr{}, depth+1)
			if !ok {
				return nil, false
			}
			vs = append(vs, v)
		}
		return sc.slice("decoded:"+n.id+":"+strconv.Itoa(depth), t, vs...), true
	case *types.Map:
		if n.kind == "null" {
			return Nil{t}, true
		}
		if n.kind != "object" {
			return nil, false
		}
		var kv []Val
		for i, k := range n.keys {
			v, ok := d.decode(in, st, n.kids[i], u.Elem(), Ptr{}, depth+1)
			if !ok {
				return nil, false
			}
			kv = append(kv, cStr(k), v)
		}
		return sc.dict("decoded:"+n.id+":"+strconv.Itoa(depth), t, kv...), true
	case *types.Struct:
		if n.kind == "null" {
			return zero(t), true
		}
		if n.kind != "object" {
			return nil, false
		}
		var cur Val = zero(t)
		if at.Obj != "" {
			if v, ok := in.load(st, at, t); ok {
				cur = v
			}
		}
		out := Struct{T: t, F: make([]Val, u.NumFields())}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			out.F[i] = in.project(cur, "f"+strconv.Itoa(i), f.Type())
			tag, _, _ := strings.Cut(reflect.StructTag(u.Tag(i)).Get("json"), ",")
			if tag == "-" {
				continue
			}
			if tag == "" {
				tag = f.Name()
			}
			k := n.get(tag)
			if k == nil {
				continue
			}
			if tag == "type" && k.kind == "string" && isStringSlice(f.Type()) && hasUnmarshal(t) {
				// what Instance.UnmarshalJSON does, which a rule of its own checks
				out.F[i] = sc.slice("types:"+n.id+":"+strconv.Itoa(depth), f.Type(), k.s)
				continue
			}
			v, ok := d.decode(in, st, k, f.Type(), Ptr{}, depth+1)
			if !ok {
				return nil, false
			}
			out.F[i] = v
		}
		return out, true
	case *types.Interface:
		switch n.kind {
		case "string":
			return Iface{types.Typ[types.String], retype(n.s, types.Typ[types.String])}, true
		case "null":
			return Nil{t}, true
		case "boolean":
			return Iface{types.Typ[types.Bool], Const{constant.MakeBool(strings.HasSuffix(n.id, "true")), types.Typ[types.Bool]}}, true
		case "number":
			return Iface{types.Typ[types.Float64], Sym{ID: "number(" + n.id + ")", T: types.Typ[types.Float64]}}, true
		case "object":
			mt := types.NewMap(types.Typ[types.String], anyT)
			var kv []Val
			for i, k := range n.keys {
				v, ok := d.decode(in, st, n.kids[i], anyT, Ptr{}, depth+1)
				if !ok {
					return nil, false
				}
				kv = append(kv, cStr(k), v)
			}
			return Iface{mt, sc.dict("decoded:"+n.id+":"+strconv.Itoa(depth), mt, kv...)}, true
		case "array":
			at := types.NewSlice(anyT)
			var vs []Val
			for _, k := range n.kids {
				v, ok := d.decode(in, st, k, anyT, Ptr{}, depth+1)
				if !ok {
					return nil, false
				}
				vs = append(vs, v)
			}
			return Iface{at, sc.slice("decoded:"+n.id+":"+strconv.Itoa(depth), at, vs...)}, true
		}
	}
	undecided("decoding into %s is not modelled", tk)
	return nil, false
}

// hasUnmarshal tells the types which decode themselves.
func hasUnmarshal(t types.Type) bool {
	obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, nil, "UnmarshalJSON")
	_, ok := obj.(*types.Func)
	return ok
}

// fromText makes a node from constant JSON.
func (d *jdoc) fromText(id, text string) *jnode {
	var v interface{}
	if json.Unmarshal([]byte(text), &v) != nil {
		return nil
	}
	return d.fromValue(id, v)
}

func (d *jdoc) fromValue(id string, v interface{}) *jnode {
	switch x := v.(type) {
	case string:
		if u, ok := strings.CutPrefix(x, "sym:"); ok {
			return d.str(id, Sym{ID: u, T: types.Typ[types.String]})
		}
		return d.str(id, cStr(x))
	case float64:
		return d.leaf(id, "number")
	case bool:
		return d.leaf(fmt.Sprintf("%s:%v", id, x), "boolean")
	case nil:
		return d.leaf(id, "null")
	case []interface{}:
		n := d.arr(id)
		for i, k := range x {
			n.kids = append(n.kids, d.fromValue(fmt.Sprintf("%s[%d]", id, i), k))
		}
		return n
	case map[string]interface{}:
		n := d.obj(id)
		for k := range x {
			n.keys = append(n.keys, k)
		}
		sort.Strings(n.keys)
		for _, k := range n.keys {
			n.kids = append(n.kids, d.fromValue(id+"."+k, x[k]))
		}
		return n
	}
	return nil
}

// with is a copy of an object with one member replaced.
func (d *jdoc) with(n *jnode, key string, k *jnode) *jnode {
	m := &jnode{kind: "object", id: n.id + "{" + key + ":" + k.id + "}", bad: n.bad}
	done := false
	for i, x := range n.keys {
		m.keys = append(m.keys, x)
		if x == key {
			m.kids = append(m.kids, k)
			done = true
		} else {
			m.kids = append(m.kids, n.kids[i])
		}
	}
	if !done {
		m.keys, m.kids = append(m.keys, key), append(m.kids, k)
	}
	return d.add(m)
}

func isStringSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isStringT(s.Elem())
}

const quotePrefix = "JSON string of "

// canon renders a node, the order of the members of objects does not matter.
func (n *jnode) canon() string {
	if n.memo == "" {
		n.memo = n.render()
	}
	return n.memo
}

func (n *jnode) render() string {
	switch n.kind {
	case "string":
		return n.s.Key()
	case "object":
		var ks []string
		for i, k := range n.keys {
			ks = append(ks, strconv.Quote(k)+":"+n.kids[i].canon())
		}
		sort.Strings(ks)
		return "{" + strings.Join(ks, ",") + "}"
	case "array":
		var ks []string
		for _, k := range n.kids {
			ks = append(ks, k.canon())
		}
		return "[" + strings.Join(ks, ",") + "]"
	}
	if n.kind == "boolean" {
		return n.id[strings.LastIndex(n.id, ":")+1:]
	}
	return n.kind + " " + n.id
}

// make registers a node whose identity is its content.
func (d *jdoc) make(n *jnode) *jnode {
	h := fnv.New64a()
	if len(n.canon()) > 12000 {
		undecided("a document grows without end")
	}
	fmt.Fprint(h, n.kind, n.canon())
	for _, k := range n.keys {
		fmt.Fprint(h, "|", k)
	}
	n.id = fmt.Sprintf("made %s %x", n.kind, h.Sum64())
	return d.add(n)
}

// set is a copy with the value at a path replaced or added.
func (d *jdoc) set(n *jnode, keys []string, v *jnode) *jnode {
	if len(keys) == 0 {
		return v
	}
	m := &jnode{kind: n.kind, keys: append([]string{}, n.keys...), kids: append([]*jnode{}, n.kids...)}
	if n.kind == "array" && strings.HasPrefix(keys[0], "[") {
		i, err := strconv.Atoi(strings.Trim(keys[0], "[]"))
		if err != nil || i < 0 || i >= len(n.kids) {
			return nil
		}
		if m.kids[i] = d.set(n.kids[i], keys[1:], v); m.kids[i] == nil {
			return nil
		}
		return d.make(m)
	}
	if n.kind != "object" || strings.HasPrefix(keys[0], "[") {
		return nil
	}
	for i, k := range m.keys {
		if k == keys[0] {
			if m.kids[i] = d.set(n.kids[i], keys[1:], v); m.kids[i] == nil {
				return nil
			}
			return d.make(m)
		}
	}
	k := d.set(d.make(&jnode{kind: "object"}), keys[1:], v)
	if k == nil {
		return nil
	}
	m.keys, m.kids = append(m.keys, keys[0]), append(m.kids, k)
	return d.make(m)
}

// remove is a copy without the value at a path.
func (d *jdoc) remove(n *jnode, keys []string) *jnode {
	if len(keys) == 0 {
		return d.make(&jnode{kind: "null"})
	}
	m := &jnode{kind: n.kind}
	for i, k := range n.kids {
		key := fmt.Sprintf("[%d]", i)
		if n.kind == "object" {
			key = n.keys[i]
		}
		if key == keys[0] {
			if len(keys) == 1 {
				continue
			}
			k = d.remove(k, keys[1:])
		}
		if n.kind == "object" {
			m.keys = append(m.keys, key)
		}
		m.kids = append(m.kids, k)
	}
	if n.kind != "object" && n.kind != "array" {
		return n
	}
	return d.make(m)
}

// parse finds the node a text stands for.
func (d *jdoc) parse(in *Interp, st *State, v Val) *jnode {
	v = in.resolve(st, v)
	if n := d.find(in, st, v); n != nil {
		return n
	}
	switch x := v.(type) {
	case Sym:
		if s, ok := strings.CutPrefix(x.ID, quotePrefix); ok {
			return d.make(&jnode{kind: "string", s: Sym{ID: s, T: types.Typ[types.String]}})
		}
	case Const:
		s, ok := asStr(x)
		if !ok {
			return nil
		}
		return d.fromText("const "+s, s)
	case Cat:
		if len(x.Parts) == 3 {
			a, ok1 := asStr(x.Parts[0])
			b, ok2 := asStr(x.Parts[2])
			if !ok1 || !ok2 || a != "\"" || b != "\"" {
				return nil
			}
			s, ok := in.resolve(st, x.Parts[1]).(Sym)
			if !ok {
				return nil
			}
			if id, ok := strings.CutPrefix(s.ID, escPrefix); ok {
				s.ID = id
			} else if d.escapes {
				s.ID = "unescaped(" + s.ID + ")"
			}
			s.T = types.Typ[types.String]
			return d.make(&jnode{kind: "string", s: s})
		}
	}
	return nil
}

// encode is what encoding/json makes of a value.
func (d *jdoc) encode(in *Interp, st *State, v Val, t types.Type) *jnode {
	sc := &Scenario{c: d.c, in: in, st: st}
	v = in.resolve(st, v)
	null := func() *jnode { return d.make(&jnode{kind: "null"}) }
	if typeKey(t) == "encoding/json.RawMessage" {
		if nilState(st, v) == 1 {
			return null()
		}
		return d.find(in, st, v)
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if nilState(st, v) == 1 {
			return null()
		}
		w, ok := in.load(st, v, u.Elem())
		if !ok {
			return nil
		}
		return d.encode(in, st, w, u.Elem())
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return d.make(&jnode{kind: "string", s: retype(v, types.Typ[types.String])})
		case u.Info()&types.IsBoolean != 0:
			if b, ok := asBool(v); ok {
				return d.leaf(fmt.Sprintf("encoded:%v", b), "boolean")
			}
		}
		return nil
	case *types.Slice:
		if nilState(st, v) == 1 {
			return null()
		}
		el, ok := in.elems(st, v)
		if !ok {
			return nil
		}
		n := &jnode{kind: "array"}
		for _, e := range el {
			k := d.encode(in, st, e, u.Elem())
			if k == nil {
				return nil
			}
			n.kids = append(n.kids, k)
		}
		return d.make(n)
	case *types.Map:
		if nilState(st, v) == 1 {
			return null()
		}
		mv, ok := v.(MapV)
		if !ok {
			return nil
		}
		mc, ok := st.Heap[mv.Obj].V.(MapC)
		if !ok || !mc.Closed {
			return nil
		}
		n := &jnode{kind: "object"}
		for _, ek := range sortedEnts(mc) {
			e := mc.Ents[ek]
			if e.Gone {
				continue
			}
			key, ok := asStr(in.resolve(st, e.K))
			k := d.encode(in, st, e.V, u.Elem())
			if !ok || k == nil {
				return nil
			}
			n.keys, n.kids = append(n.keys, key), append(n.kids, k)
		}
		return d.make(n)
	case *types.Struct:
		n := &jnode{kind: "object"}
		if !d.encodeFields(sc, st, v, u, n) {
			return nil
		}
		return d.make(n)
	}
	return nil
}

func (d *jdoc) encodeFields(sc *Scenario, st *State, v Val, u *types.Struct, n *jnode) bool {
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		tag, opts, _ := strings.Cut(reflect.StructTag(u.Tag(i)).Get("json"), ",")
		if tag == "-" || !f.Exported() {
			continue
		}
		w := sc.in.resolve(st, sc.in.project(v, "f"+strconv.Itoa(i), f.Type()))
		if s, ok := f.Type().Underlying().(*types.Struct); ok && f.Embedded() && tag == "" {
			if !d.encodeFields(sc, st, w, s, n) {
				return false
			}
			continue
		}
		if tag == "" {
			tag = f.Name()
		}
		if strings.Contains(opts, "omitempty") && isEmptyVal(sc.in, st, w) {
			continue
		}
		k := d.encode(sc.in, st, w, f.Type())
		if k == nil {
			return false
		}
		n.keys, n.kids = append(n.keys, tag), append(n.kids, k)
	}
	return true
}

func isEmptyVal(in *Interp, st *State, v Val) bool {
	switch x := v.(type) {
	case Nil:
		return true
	case Const:
		if b, ok := asBool(x); ok {
			return !b
		}
		if s, ok := asStr(x); ok {
			return s == ""
		}
	case Slice:
		return x.Lo == x.Hi
	case MapV:
		if mc, ok := st.Heap[x.Obj].V.(MapC); ok && mc.Closed {
			for _, e := range mc.Ents {
				if !e.Gone {
					return false
				}
			}
			return true
		}
	}
	return nilState(st, v) == 1
}

// ordered makes a node from constant JSON with the members of objects in the order of the text.
func (d *jdoc) ordered(id, text string) *jnode {
	dec := json.NewDecoder(strings.NewReader(text))
	var value func(id string) *jnode
	value = func(id string) *jnode {
		t, err := dec.Token()
		if err != nil {
			undecided("scenario document %s: %v", id, err)
		}
		switch t {
		case json.Delim('{'):
			n := &jnode{kind: "object", id: id}
			for dec.More() {
				k, _ := dec.Token()
				n.keys = append(n.keys, k.(string))
				n.kids = append(n.kids, value(id+"."+k.(string)))
			}
			dec.Token()
			return d.add(n)
		case json.Delim('['):
			n := &jnode{kind: "array", id: id}
			for i := 0; dec.More(); i++ {
				n.kids = append(n.kids, value(fmt.Sprintf("%s[%d]", id, i)))
			}
			dec.Token()
			return d.add(n)
		}
		return d.fromValue(id, t)
	}
	return value(id)
}

// canonNum is canon for documents made apart: numbers and nulls are only compared by kind, the forms of
// a type and a missing or true additionalProperties are the same.
func (n *jnode) canonNum() string {
	c := *n
	switch n.kind {
	case "number", "null":
		c.id = ""
		return n.kind
	case "array", "object":
		c.kids = nil
		var ks []string
		for i, k := range n.kids {
			t := k.canonNum()
			if n.kind == "object" {
				if n.keys[i] == "additionalProperties" && t == "true" {
					continue
				}
				if n.keys[i] == "type" && k.kind == "string" {
					t = "[" + t + "]"
				}
				t = strconv.Quote(n.keys[i]) + ":" + t
			}
			ks = append(ks, t)
		}
		if n.kind == "array" {
			return "[" + strings.Join(ks, ",") + "]"
		}
		sort.Strings(ks)
		return "{" + strings.Join(ks, ",") + "}"
	}
	return n.canon()
}
