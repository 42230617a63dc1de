package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("G11", "the Go code written for Avro compiles with the structs and the Avro packages it belongs to, and run abstractly it writes one record which has the value of each field of the struct, hands on failures, and marks deletes", runG11)
}

// avroRun is a case with the code written for it.
type avroRun struct {
	a     avroCase
	parts map[string]*avroPart
	pkgs  *goPkgs
	skip  bool
}

const avroLib = "github.com/actgardner/gogen-avro/v7/container."

func runG11(c *Ctx) {
	const rule = "Avro code compiles"
	cases := avroCases(c.Thorough)
	runs := make([]*avroRun, len(cases))
	c.Each(len(cases), func(c *Ctx, i int) {
		a := cases[i]
		c.Guard(rule, a.name(), func() {
			g := a.run(c)
			g.s.each(rule, a.name(), func(o Outcome) string {
				if nilState(o.St, o.Ret[0]) != 1 {
					if a.refused() {
						return ""
					}
					return "no code is written: " + describe(o.Ret[0])
				}
				if runs[i] != nil {
					return "there is more than one outcome"
				}
				files, w := g.written(o)
				if w != "" {
					return w
				}
				r := &avroRun{a: a, parts: a.parts(), pkgs: newGoPkgs(c)}
				for t := range r.parts {
					low := strings.ToLower(t)
					if w := r.pkgs.add(avroImport+"/avro/"+low, "/out/pkg/avro/"+low, files); w != "" {
						return "the Avro package of " + t + ": " + w
					}
				}
				if w := r.pkgs.add(avroImport, "/out/pkg", files); w != "" {
					return w
				}
				runs[i] = r
				return ""
			})
		})
	})
	for _, r := range runs {
		if r != nil {
			r.pkgs.code()
		}
	}
	nils := make([]string, len(runs))
	c.Each(len(runs), func(c *Ctx, i int) {
		r := runs[i]
		if r == nil {
			return
		}
		r.pkgs.c = c
		for t := range r.parts {
			name := t + " in " + r.a.name()
			c.Guard("Avro records", name, func() {
				for _, m := range []string{"WriteAvroCF", "WriteAvroDeletedCF"} {
					f := c.Anchor(r.method(t, m), m+" of "+name)
					if w := avroNil(c, r, t, f); w != "" {
						c.Bad("Avro records", name+" "+m, "-", w)
					}
					for n := 0; ; n++ {
						more, w := avroWrites(c, r, t, f, n, m == "WriteAvroDeletedCF")
						if w != "" {
							c.Bad("Avro records", name+" "+m, "-", w)
							break
						}
						c.Ok("Avro records", name+" "+m)
						if !more {
							break
						}
					}
				}
			})
			c.Guard("Avro bulk writer", name, func() {
				f := r.pkgs.ssa[avroImport].Func(t + "BulkAvroWriter")
				c.Anchor(f, t+"BulkAvroWriter of "+name)
				if w := avroBulk(c, r, t, f); w != "" {
					c.Bad("Avro bulk writer", name, "-", w)
				} else {
					c.Ok("Avro bulk writer", name)
				}
			})
			if nils[i] == "" {
				func() {
					defer func() {
						if u, ok := recover().(Undecided); ok {
							nils[i] = name + ": undecided: " + u.Why
						}
					}()
					b := newAvroIn(c, r, t, 0)
					b.nilObjects = true
					if _, w := b.write(r.method(t, "WriteAvroCF"), false); w != "" && b.hadNil {
						nils[i] = "the array of objects which can be null in " + name + ": " + w
					}
				}()
			}
		}
	})
	bad := ""
	for _, n := range nils {
		if n != "" && bad == "" {
			bad = n
		}
	}
	const nilRule = "elements which are null"
	if bad != "" {
		c.Bad(nilRule, "arrays of objects", "-", bad)
	} else {
		c.Ok(nilRule, "arrays of objects")
	}
	c.Need(rule, 250)
	c.Need("Avro records", 400)
	c.Need("Avro bulk writer", 200)
}

func (r *avroRun) typ(name string) types.Type {
	return r.pkgs.pkgs[avroImport].Scope().Lookup(name).Type()
}

func (r *avroRun) method(typ, name string) *ssa.Function {
	o := r.pkgs.pkgs[avroImport].Scope().Lookup(typ)
	if o == nil {
		return nil
	}
	n, ok := o.Type().(*types.Named)
	if !ok {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return r.pkgs.c.P.SSA.FuncValue(n.Method(i))
		}
	}
	return nil
}

// avroIn is a struct to write.
type avroIn struct {
	c          *Ctx
	r          *avroRun
	typ        string
	s          *Scenario
	pattern    int
	picked     int
	nilObjects bool // arrays of pointers to structs have a nil
	hadNil     bool
	z          Val
	want       func(st *State, v Val) string
	n          int
}

// avroPatterns: everything there, everything nil, every other one, and each single one nil or there.
const avroPatterns = 4

func newAvroIn(c *Ctx, r *avroRun, typ string, pattern int) *avroIn {
	b := &avroIn{c: c, r: r, typ: typ, s: c.Scen(), pattern: pattern}
	b.s.in.MaxVer = 400
	b.s.in.Hook = b.hook
	b.s.in.OnRecv = nil
	return b
}

// pick tells if the next optional value is there.
func (b *avroIn) pick() bool {
	b.picked++
	switch p := b.pattern; p {
	case 0:
		return true
	case 1:
		return false
	case 2:
		return b.picked%2 == 0
	case 3:
		return b.picked%2 == 1
	default:
		one := b.picked == (p-avroPatterns)/2+1
		return one == (p%2 == 0)
	}
}

func isTime(t types.Type) bool { return typeKey(t) == "time.Time" }

// build makes a value of a Go type.
func (b *avroIn) build(t types.Type, path string) Val {
	if isTime(t) {
		return Sym{ID: path, T: t}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if !b.pick() {
			return Nil{t}
		}
		return b.ptr(t, u, path)
	case *types.Struct:
		s := Struct{T: t, F: make([]Val, u.NumFields())}
		for i := range s.F {
			s.F[i] = b.build(u.Field(i).Type(), path+"."+u.Field(i).Name())
		}
		return s
	case *types.Slice:
		if !b.pick() {
			return Nil{t}
		}
		p, isPtr := u.Elem().Underlying().(*types.Pointer)
		var es []Val
		if isPtr {
			_, obj := p.Elem().Underlying().(*types.Struct)
			obj = obj && !isTime(p.Elem())
			es = append(es, b.ptr(u.Elem(), p, path+"[0]"))
			if !obj || b.nilObjects {
				if obj {
					b.hadNil = true
				}
				es = append(es, Nil{u.Elem()})
			}
			es = append(es, b.ptr(u.Elem(), p, path+"[1]"))
		} else {
			es = []Val{b.build(u.Elem(), path+"[0]"), b.build(u.Elem(), path+"[1]")}
		}
		return b.s.slice("z"+path, t, es...)
	}
	return Sym{ID: path, T: t}
}

func (b *avroIn) ptr(t types.Type, u *types.Pointer, path string) Val {
	id := "o:scen:z" + path
	b.s.st.Heap[id] = &Obj{V: nil, T: u.Elem()}
	b.s.st.Heap[id].V = b.build(u.Elem(), path)
	return Ptr{Obj: id}
}

// goFields gives the fields of a Go struct by the names they have in JSON, those of embedded structs included: the ones
// which are less deep come first.
func goFields(in *Interp, t types.Type, v Val) map[string]stVal2 {
	type emb struct {
		t types.Type
		v Val
	}
	out, seen := map[string]stVal2{}, map[string]bool{}
	level := []emb{{t, v}}
	for len(level) > 0 {
		var next []emb
		names := map[string]bool{}
		for _, e := range level {
			u := e.t.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				fv := in.project(e.v, fmt.Sprintf("f%d", i), f.Type())
				if f.Embedded() {
					next = append(next, emb{f.Type(), fv})
				}
				n := strings.Split(reflect.StructTag(u.Tag(i)).Get("json"), ",")[0]
				if seen[f.Name()] || n == "" || n == "-" {
					continue
				}
				names[f.Name()] = true
				out[n] = stVal2{fv, f.Type(), f.Name()}
			}
		}
		for n := range names {
			seen[n] = true
		}
		level = next
	}
	return out
}

type stVal2 struct {
	v    Val
	t    types.Type
	name string
}

// same compares what is in an Avro record with a Go value.
func (b *avroIn) same(st *State, path string, gt types.Type, g Val, at types.Type, a Val) string {
	in := b.s.in
	a = in.resolve(st, a)
	opt := false
	if p, ok := gt.Underlying().(*types.Pointer); ok {
		opt = true
		gt = p.Elem()
		if _, isNil := g.(Nil); !isNil {
			g, _ = in.load(st, g, gt)
		}
	}
	_, gnil := g.(Nil)
	if _, ok := gt.Underlying().(*types.Slice); ok {
		opt = false
	}
	if !opt {
		gnil = false
	}
	if ap, ok := at.Underlying().(*types.Pointer); ok {
		name := ap.Elem().(*types.Named).Obj().Name()
		as, isStruct := ap.Elem().Underlying().(*types.Struct)
		if !isStruct {
			return path + " is written as " + typeKey(at)
		}
		if strings.HasPrefix(name, "UnionNull") && as.NumFields() == 3 && as.Field(0).Name() == "Null" {
			if gnil {
				if _, ok := a.(Nil); ok {
					return ""
				}
				return path + " is nil and written as " + describe(a)
			}
			p, ok := a.(Ptr)
			if !ok {
				return path + " is written as " + describe(a)
			}
			v, _ := in.load(st, p, ap.Elem())
			member := as.Field(1).Name()
			ec, ok := ap.Elem().(*types.Named).Obj().Pkg().Scope().Lookup(name + "TypeEnum" + member).(*types.Const)
			if !ok {
				undecided("no constant for the type of %s", name)
			}
			e, ok := in.resolve(st, in.project(v, "f2", as.Field(2).Type())).(Const)
			if !ok || !constant.Compare(e.V, 39, ec.Val()) {
				return path + " is written as a union of another type"
			}
			return b.same(st, path, gt, g, as.Field(1).Type(), in.project(v, "f1", as.Field(1).Type()))
		}
		if m, ok := as.Field(0).Type().Underlying().(*types.Map); ok && as.NumFields() == 1 && strings.HasPrefix(name, "Map") {
			p, ok := a.(Ptr)
			if !ok {
				return path + " is written as " + describe(a)
			}
			v, _ := in.load(st, p, ap.Elem())
			if got := in.resolve(st, in.project(v, "f0", m)); got.Key() != g.Key() {
				return path + " is written as " + describe(got)
			}
			return ""
		}
		if _, ok := gt.Underlying().(*types.Struct); !ok || isTime(gt) {
			return path + " is written as a record"
		}
		if gnil {
			return path + " is nil and written as a record"
		}
		p, ok := a.(Ptr)
		if !ok {
			return path + " is written as " + describe(a)
		}
		v, _ := in.load(st, p, ap.Elem())
		return b.record(st, path, gt, g, ap.Elem(), v, nil)
	}
	if as, ok := at.Underlying().(*types.Slice); ok {
		gs, ok := gt.Underlying().(*types.Slice)
		if !ok {
			return path + " is written as a list"
		}
		var want []Val
		if _, ok := g.(Nil); !ok {
			es, ok := in.elems(st, g)
			if !ok {
				undecided("the elements of %s", path)
			}
			for _, e := range es {
				if _, ok := e.(Nil); !ok {
					want = append(want, e)
				}
			}
		}
		var got []Val
		if _, ok := a.(Nil); !ok {
			if got, ok = in.elems(st, a); !ok {
				return path + " is written as " + describe(a)
			}
		}
		if len(got) != len(want) {
			return fmt.Sprintf("%s has %d elements which are not nil and %d are written", path, len(want), len(got))
		}
		for i := range got {
			if w := b.same(st, fmt.Sprintf("%s[%d]", path, i), gs.Elem(), want[i], as.Elem(), got[i]); w != "" {
				return w
			}
		}
		return ""
	}
	if gnil {
		if typeKey(at.Underlying()) == "bool" {
			if v, ok := asBool(a); ok && !v {
				return ""
			}
		}
		return path + " is nil and written as " + describe(a)
	}
	want := g.Key()
	if isTime(gt) {
		want = "ms(" + want + ")"
	} else if types.Identical(gt.Underlying(), at.Underlying()) == false {
		return path + " is a " + typeKey(gt) + " and written as " + typeKey(at)
	}
	if a.Key() != want {
		return path + " is written as " + describe(a)
	}
	return ""
}

// record compares the fields of an Avro record with those of a Go struct.
func (b *avroIn) record(st *State, path string, gt types.Type, g Val, at types.Type, a Val, meta map[string]string) string {
	in := b.s.in
	fields := goFields(in, gt, g)
	u := at.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		n := strings.Split(reflect.StructTag(u.Tag(i)).Get("json"), ",")[0]
		v := in.resolve(st, in.project(a, fmt.Sprintf("f%d", i), u.Field(i).Type()))
		if w, ok := meta[n]; ok {
			if v.Key() != w {
				return fmt.Sprintf("%s is %s, not %s", n, describe(v), w)
			}
			delete(meta, n)
			continue
		}
		f, ok := fields[n]
		if !ok {
			return path + " has no field for " + n
		}
		delete(fields, n)
		if w := b.same(st, path+"."+f.name, f.t, f.v, u.Field(i).Type(), v); w != "" {
			return w
		}
	}
	var left []string
	for n := range fields {
		left = append(left, n)
	}
	for n := range meta {
		left = append(left, n)
	}
	sort.Strings(left)
	if len(left) > 0 {
		return path + " is written without " + strings.Join(left, ", ")
	}
	return ""
}

func (b *avroIn) hook(ci *CallInfo) []CallOut {
	fork := func(what string, okRet func(st *State) []Val, n int) []CallOut {
		var outs []CallOut
		for _, a := range ci.In.pred(ci.St, "fails "+what, false) {
			if !a.v {
				outs = append(outs, CallOut{Ret: okRet(a.st), St: a.st})
				continue
			}
			var ret []Val
			for i := 0; i < n; i++ {
				ret = append(ret, zero(ci.Sig.Results().At(i).Type()))
			}
			outs = append(outs, CallOut{Ret: append(ret, a.st.nonNil(Sym{ID: "err:" + what, T: errType})), St: a.st})
		}
		return outs
	}
	nilErr := func(st *State) []Val { return []Val{Nil{errType}} }
	name := func(k string) string {
		b := len(events(ci.St, k))
		return fmt.Sprint(k, " ", b)
	}
	switch ci.Name {
	case "time.Now":
		return ok1(ci.St, Sym{ID: "now", T: ci.Sig.Results().At(0).Type()})
	case "(time.Time).IsZero":
		var outs []CallOut
		for _, a := range ci.In.pred(ci.St, "zero "+ci.Args[0].Key(), false) {
			outs = append(outs, CallOut{Ret: []Val{cBool(a.v)}, St: a.st})
		}
		return outs
	case "(time.Time).UnixMilli":
		return ok1(ci.St, Sym{ID: "ms(" + ci.In.resolve(ci.St, ci.Args[0]).Key() + ")", T: ci.Sig.Results().At(0).Type()})
	case avroLib + "NewWriter":
		what := name("new")
		ci.St.event(Event{Kind: "new", Args: ci.Args, Site: what})
		t := ci.Sig.Results().At(0).Type()
		return fork(what, func(st *State) []Val { return []Val{st.nonNil(Sym{ID: "avro writer", T: t}), Nil{errType}} }, 1)
	case "(*" + avroLib + "Writer).WriteRecord":
		what := name("record")
		why := ""
		if b.want != nil {
			if ifc, ok := ci.Args[1].(Iface); ok {
				why = b.want(ci.St, ifc.V)
			} else {
				why = "writes " + describe(ci.Args[1])
			}
		}
		ci.St.event(Event{Kind: "record", Args: []Val{ci.Args[0], cStr(why)}, Site: what})
		return fork(what, nilErr, 0)
	case "(*" + avroLib + "Writer).Flush":
		what := name("flush")
		ci.St.event(Event{Kind: "flush", Args: ci.Args, Site: what})
		return fork(what, nilErr, 0)
	}
	return nil
}

func (b *avroIn) failed(st *State, what string) bool {
	for _, a := range b.s.in.pred(st.Fork(), "fails "+what, false) {
		return a.v
	}
	return false
}

// expect sets up the comparison of a record.
func (b *avroIn) expect(z Val, deleted bool) func(st *State, v Val) string {
	gt := b.r.typ(b.typ)
	at := b.r.pkgs.pkgs[avroImport+"/avro/"+strings.ToLower(b.typ)].Scope().Lookup(b.typ).Type()
	return func(st *State, v Val) string {
		p, ok := v.(Ptr)
		if !ok {
			return "writes " + describe(v)
		}
		rec, _ := b.s.in.load(st, p, at)
		t := "given"
		for _, a := range b.s.in.pred(st.Fork(), "zero given", false) {
			if a.v {
				t = "now"
			}
		}
		meta := map[string]string{"AvroWriteTime": "ms(" + t + ")", "AvroDeleted": fmt.Sprint(deleted)}
		if _, ok := z.(Nil); ok {
			// a delete without fields
			for k, w := range meta {
				if k == "AvroDeleted" {
					w = "true"
				}
				u := at.Underlying().(*types.Struct)
				for i := 0; i < u.NumFields(); i++ {
					if u.Field(i).Name() == k {
						if v := b.s.in.resolve(st, b.s.in.project(rec, fmt.Sprintf("f%d", i), u.Field(i).Type())); v.Key() != w {
							return fmt.Sprintf("%s of a nil item is %s, not %s", k, describe(v), w)
						}
					}
				}
			}
			return ""
		}
		g, _ := b.s.in.load(st, z, gt)
		return b.record(st, b.typ, gt, g, at, rec, meta)
	}
}

func (b *avroIn) args(f *ssa.Function, z Val) []Val {
	b.n++
	sig := f.Signature
	n := sig.Params().Len()
	if n < 2 {
		undecided("%s has %d parameters", f, n)
	}
	return []Val{z, b.s.nn("writer", sig.Params().At(0).Type()), Sym{ID: "given", T: sig.Params().At(1).Type()}}
}

// opened checks how the Avro writer is made.
func (b *avroIn) opened(st *State) string {
	ev := events(st, "new")
	if len(ev) != 1 {
		return fmt.Sprintf("makes %d Avro writers", len(ev))
	}
	a := ev[0].Args
	if a[0].Key() != "writer" {
		return "writes to " + describe(a[0])
	}
	s, ok := asStr(a[3])
	var doc map[string]interface{}
	if !ok || json.Unmarshal([]byte(s), &doc) != nil || doc["name"] != b.typ {
		return "the Avro writer has not the schema of " + b.typ + " but " + describe(a[3])
	}
	return ""
}

// write runs a method and checks what it does.
func (b *avroIn) write(f *ssa.Function, deleted bool) (picked int, why string) {
	gt := b.r.typ(b.typ)
	id := "o:scen:z"
	b.s.st.Heap[id] = &Obj{T: gt}
	b.s.st.Heap[id].V = b.build(gt, "z")
	picked = b.picked
	z := Ptr{Obj: id}
	b.want = b.expect(z, deleted)
	outs := b.s.run(f, b.args(f, z)...)
	for _, o := range outs {
		if why = b.outcome(o); why != "" {
			return
		}
	}
	if len(outs) < 4 {
		why = fmt.Sprintf("there are %d outcomes", len(outs))
	}
	return
}

func (b *avroIn) outcome(o Outcome) string {
	if o.Panic != "" {
		return "panics: " + o.Panic
	}
	if w := b.opened(o.St); w != "" {
		return w
	}
	recs, fl := events(o.St, "record"), events(o.St, "flush")
	ret := nilState(o.St, o.Ret[0])
	fail := func(what string) string {
		if ret != 2 {
			return "a failure of " + what + " is not returned"
		}
		return ""
	}
	if b.failed(o.St, "new 0") {
		if len(recs)+len(fl) > 0 {
			return "goes on without an Avro writer"
		}
		return fail("making the Avro writer")
	}
	if len(recs) != 1 {
		return fmt.Sprintf("writes %d records", len(recs))
	}
	if w, _ := asStr(recs[0].Args[1]); w != "" {
		return w
	}
	if recs[0].Args[0].Key() != "avro writer" {
		return "writes to another Avro writer"
	}
	if b.failed(o.St, "record 0") {
		return fail("writing the record")
	}
	if len(fl) != 1 || fl[0].Args[0].Key() != "avro writer" {
		return "does not flush the Avro writer once"
	}
	order := ""
	for _, e := range o.St.Events {
		if e.Kind == "record" || e.Kind == "flush" {
			order += e.Kind + " "
		}
	}
	if order != "record flush " {
		return "the order is " + order
	}
	if b.failed(o.St, "flush 0") {
		return fail("flushing")
	}
	if ret != 1 {
		return "fails: " + describe(o.Ret[0])
	}
	return ""
}

func avroWrites(c *Ctx, r *avroRun, typ string, f *ssa.Function, n int, deleted bool) (more bool, why string) {
	b := newAvroIn(c, r, typ, n)
	picked, why := b.write(f, deleted)
	limit := avroPatterns + 2*picked
	if !c.Thorough && limit > 12 || deleted && limit > avroPatterns {
		limit = avroPatterns
	}
	if picked == 0 {
		limit = 1
	}
	return n+1 < limit, why
}

// avroNil: a nil pointer is an error and nothing is written.
func avroNil(c *Ctx, r *avroRun, typ string, f *ssa.Function) string {
	b := newAvroIn(c, r, typ, 0)
	for _, o := range b.s.run(f, b.args(f, Nil{types.NewPointer(r.typ(typ))})...) {
		if o.Panic != "" {
			return "panics for a nil pointer: " + o.Panic
		}
		if nilState(o.St, o.Ret[0]) != 2 || len(events(o.St, "new"))+len(events(o.St, "record")) > 0 {
			return "a nil pointer is not an error"
		}
	}
	return ""
}

// avroBulk runs a bulk writer which gets an item, a nil and another item.
func avroBulk(c *Ctx, r *avroRun, typ string, f *ssa.Function) string {
	b := newAvroIn(c, r, typ, 0)
	gt := r.typ(typ)
	id := "o:scen:z"
	b.s.st.Heap[id] = &Obj{T: gt}
	b.s.st.Heap[id].V = b.build(gt, "z")
	pt := types.NewPointer(gt)
	items := []Val{Ptr{Obj: id}, Nil{pt}, Ptr{Obj: id}}
	args := b.args(f, nil)[1:]
	if f.Signature.Params().Len() != 3 {
		undecided("%s has %d parameters", f, f.Signature.Params().Len())
	}
	req := b.s.nn("request", f.Signature.Params().At(2).Type())
	outs := b.s.run(f, append(args, req)...)
	for _, o := range outs {
		if o.Panic != "" {
			return "panics: " + o.Panic
		}
		mk, gos := events(o.St, "make chan"), events(o.St, "go")
		if len(mk) != 1 || o.Ret[0].Key() != mk[0].Args[0].Key() {
			return "does not return the channel it makes"
		}
		if n, ok := asInt(mk[0].Args[1]); !ok || n < 1 {
			return "an error which is not received keeps the writer from ending"
		}
		if len(gos) != 1 || len(gos[0].Args) == 0 {
			return fmt.Sprintf("starts %d routines", len(gos))
		}
		fn, ok := gos[0].Args[0].(Func)
		if !ok {
			undecided("starts %s", describe(gos[0].Args[0]))
		}
		ch := mk[0].Args[0].Key()
		s2 := &Scenario{c: c, in: b.s.in, st: o.St}
		b.s.in.OnRecv = func(st *State, from Val, x *ssa.UnOp) Val {
			if from.Key() != "request" {
				undecided("receives from %s", from.Key())
			}
			n := len(events(st, "receive"))
			st.event(Event{Kind: "receive", Site: fmt.Sprint(n)})
			var v Val = Nil{pt}
			if n < len(items) {
				v = items[n]
			}
			if n > len(items) {
				undecided("receives after the end")
			}
			if x.CommaOk {
				return Tuple{[]Val{v, cBool(n < len(items))}}
			}
			return v
		}
		b.want = func(st *State, v Val) string {
			n := len(events(st, "receive")) - 1
			if n < 0 || n >= len(items) {
				return "writes without having received"
			}
			return b.expect(items[n], false)(st, v)
		}
		for _, p := range s2.runBound(fn.Fn.F, fn.Bind, gos[0].Args[1:]...) {
			if p.Panic != "" {
				return "panics: " + p.Panic
			}
			if w := b.opened(p.St); w != "" {
				return w
			}
			order := ""
			closed := false
			for _, e := range p.St.Events {
				if closed && e.Kind != "make chan" {
					return "goes on after closing the channel of errors"
				}
				switch e.Kind {
				case "record":
					if w, _ := asStr(e.Args[1]); w != "" {
						return w
					}
					order += "record "
				case "flush":
					order += "flush "
				case "send":
					if e.Args[0].Key() != ch {
						return "sends to " + describe(e.Args[0])
					}
					if nilState(p.St, e.Args[1]) != 2 {
						return "sends a nil error"
					}
					order += "send "
				case "close chan":
					if e.Args[0].Key() != ch {
						return "closes " + describe(e.Args[0])
					}
					closed = true
				}
			}
			if !closed {
				return "does not close the channel of errors"
			}
			want := ""
			switch {
			case b.failed(p.St, "new 0"):
				want = "send "
			case b.failed(p.St, "record 0"):
				want = "record send "
			case b.failed(p.St, "record 1"):
				want = "record record send "
			case b.failed(p.St, "record 2"):
				want = "record record record send "
			case b.failed(p.St, "flush 0"):
				want = "record record record flush send "
			default:
				want = "record record record flush "
			}
			if order != want {
				return "does " + order + "not " + want
			}
		}
	}
	if len(outs) == 0 {
		return "does not return"
	}
	return ""
}
