package main

import (
	"encoding/json"
	"fmt"
	"go/format"
	"go/types"
	"path"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"text/template"

	"github.com/actgardner/gogen-avro/v7/generator"
	"github.com/actgardner/gogen-avro/v7/generator/flat"
	avroparser "github.com/actgardner/gogen-avro/v7/parser"
	"github.com/actgardner/gogen-avro/v7/resolver"
	avro "github.com/actgardner/gogen-avro/v7/schema"
)

// The library which writes the Avro serialization code is not analysed: its result for the schema it is given is taken
// as it is. Only the names are asked from the code under analysis.

var avroLock sync.Mutex

type avroNamer struct {
	f   func(string) string
	err string
}

func (n *avroNamer) ToPublicName(s string) string { return n.f(s) }

const avroMod = "github.com/actgardner/gogen-avro/v7/"

// avroDefs are the definitions of a schema, nil when it is not valid.
func avroDefs(text string) (*avroparser.Namespace, error) {
	ns := avroparser.NewNamespace(false)
	if _, err := ns.TypeForSchema([]byte(text)); err != nil {
		return nil, err
	}
	for _, d := range ns.Roots {
		if err := resolver.ResolveDefinition(d, ns.Definitions); err != nil {
			return nil, err
		}
	}
	return ns, nil
}

// gogenModel models the library with files written through put.
func gogenModel(ci *CallInfo, put func(path, text string)) []CallOut {
	if !strings.Contains(ci.Name, avroMod) {
		return nil
	}
	in, st := ci.In, ci.St
	arg := func(i int) Val { return in.resolve(st, ci.Args[i]) }
	keep := func(id string, v Val) { st.Heap["g:avro:"+id] = &Obj{V: v, T: types.Typ[types.String]} }
	kept := func(id string) Val {
		if o := st.Heap["g:avro:"+id]; o != nil {
			return o.V
		}
		return nil
	}
	name := strings.ReplaceAll(ci.Name, avroMod, "")
	switch name {
	case "generator.SetNamer":
		keep("namer", arg(0))
		return []CallOut{{St: st}}
	case "generator.ToPublicSimpleName":
		s, ok := asStr(arg(0))
		if !ok {
			return nil
		}
		return ok1(st, cStr(generator.ToPublicSimpleName(s)))
	case "generator.ToSnake":
		s, ok := asStr(arg(0))
		if !ok {
			return nil
		}
		return ok1(st, cStr(generator.ToSnake(s)))
	case "generator.NewPackage":
		keep("pkg", Tuple{[]Val{arg(0), arg(1)}})
		keep("added", Tuple{})
		return ok1(st, st.nonNil(Sym{ID: "avro:pkg", T: ci.Sig.Results().At(0).Type()}))
	case "generator/flat.NewFlatPackageGenerator":
		keep("containers", arg(1))
		return ok1(st, st.nonNil(Sym{ID: "avro:gen", T: ci.Sig.Results().At(0).Type()}))
	case "parser.NewNamespace":
		t := ci.Sig.Results().At(0).Type().(*types.Pointer).Elem()
		z := zero(t).(Struct)
		id := in.alloc(st, "avro:namespace:"+ci.Site, t, z)
		return ok1(st, Ptr{Obj: id})
	case "(*parser.Namespace).TypeForSchema":
		text, ok := asStr(bytesOf(arg(1)))
		if !ok {
			undecided("the Avro schema is not known: %s", describe(arg(1)))
		}
		p, ok := arg(0).(Ptr)
		if !ok {
			return nil
		}
		ns, err := avroDefs(text)
		if err != nil {
			st.event(Event{Kind: "badschema", Args: []Val{cStr(err.Error() + " in " + text)}, Pos: in.P.Pos(ci.Pos), Site: ci.Site})
			return ok1(st, Nil{ci.Sig.Results().At(0).Type()}, in.newErr(st, "err:avro schema "+err.Error()+" in "+text))
		}
		keep("schema", cStr(text))
		z := st.Heap[p.Obj].V.(Struct)
		f := append([]Val(nil), z.F...)
		str := z.T.Underlying().(*types.Struct)
		for i := range f {
			switch str.Field(i).Name() {
			case "Roots":
				q := Seq{}
				for n, r := range ns.Roots {
					dt := in.P.ExtType(avroMod+"schema", reflect.TypeOf(r).Elem().Name())
					if dt == nil {
						undecided("no type %T", r)
					}
					v := st.nonNil(Sym{ID: fmt.Sprintf("avro:def%d", n), T: types.NewPointer(dt)})
					q.Parts = append(q.Parts, Part{V: Iface{T: types.NewPointer(dt), V: v}})
				}
				id := in.alloc(st, "avro:roots", str.Field(i).Type(), q)
				f[i] = Slice{Obj: id, Lo: 0, Hi: len(q.Parts)}
			case "Definitions":
				f[i] = st.nonNil(Sym{ID: "avro:defs", T: str.Field(i).Type()})
			}
		}
		st.Heap[p.Obj] = &Obj{V: Struct{z.T, f}, T: z.T}
		return ok1(st, st.nonNil(Sym{ID: "avro:type", T: ci.Sig.Results().At(0).Type()}), Nil{errType})
	case "resolver.ResolveDefinition":
		return ok1(st, Nil{errType})
	case "(*generator/flat.FlatPackageGenerator).Add":
		d := arg(1)
		if i, ok := d.(Iface); ok {
			d = in.resolve(st, i.V)
		}
		t, ok := kept("added").(Tuple)
		s, ok2 := d.(Sym)
		if !ok || !ok2 || !strings.HasPrefix(s.ID, "avro:def") {
			undecided("the Avro definition is not known: %s", describe(d))
		}
		keep("added", Tuple{append(append([]Val(nil), t.E...), cStr(s.ID))})
		return ok1(st, Nil{errType})
	case "(*generator.Package).WriteFiles":
		dir, ok := asStr(arg(1))
		text, ok2 := asStr(kept("schema"))
		pk, ok3 := kept("pkg").(Tuple)
		added, ok4 := kept("added").(Tuple)
		if !ok || !ok2 || !ok3 || !ok4 {
			undecided("the Avro code written is not known: %s", describe(ci.Args...))
		}
		pname, ok := asStr(in.resolve(st, pk.E[0]))
		header, ok2 := asStr(in.resolve(st, pk.E[1]))
		containers, ok3 := asBool(in.resolve(st, kept("containers")))
		if !ok || !ok2 || !ok3 {
			undecided("the Avro package is not known: %s", describe(pk))
		}
		want := map[string]bool{}
		for _, a := range added.E {
			s, _ := asStr(a)
			want[s] = true
		}
		cur := st
		nv := kept("namer")
		files, err := gogenFiles(pname, header, text, containers, want, func(s string) string {
			i, ok := nv.(Iface)
			if !ok {
				return generator.ToPublicSimpleName(s)
			}
			m := in.P.SSA.LookupMethod(i.T, nil, "ToPublicName")
			if m == nil {
				undecided("no method ToPublicName")
			}
			v, ns := oneCall(ci, cur, Func{Fn: FnRef{m}}, i.V, cStr(s))
			cur = ns
			out, ok := asStr(in.resolve(cur, v))
			if !ok {
				undecided("the public name is not known: %s", describe(v))
			}
			return out
		})
		if err != nil {
			st.event(Event{Kind: "badavro", Args: []Val{cStr(err.Error())}, Pos: in.P.Pos(ci.Pos), Site: ci.Site})
			return ok1(cur, in.newErr(cur, "err:avro code"))
		}
		var ns []string
		for n := range files {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		ci.St = cur
		for _, n := range ns {
			put(filepath.Join(dir, n), files[n])
		}
		return ok1(cur, Nil{errType})
	}
	if strings.HasSuffix(name, ").AvroName") {
		d := ci.Recv
		if d == nil && len(ci.Args) > 0 {
			d = ci.Args[0]
		}
		d = in.resolve(st, d)
		if i, ok := d.(Iface); ok {
			d = in.resolve(st, i.V)
		}
		n := -1
		if s, ok := d.(Sym); ok {
			fmt.Sscanf(s.ID, "avro:def%d", &n)
		}
		text, ok := asStr(kept("schema"))
		if !ok || n < 0 {
			return nil
		}
		ns, err := avroDefs(text)
		if err != nil || n >= len(ns.Roots) {
			return nil
		}
		q := ns.Roots[n].AvroName()
		t := ci.Sig.Results().At(0).Type()
		f := []Val{}
		str := t.Underlying().(*types.Struct)
		for i := 0; i < str.NumFields(); i++ {
			f = append(f, cStr(reflect.ValueOf(q).FieldByName(str.Field(i).Name()).String()))
		}
		return ok1(st, Struct{t, f})
	}
	if name == "(schema.QualifiedName).String" {
		s, ok := arg(0).(Struct)
		if !ok {
			return nil
		}
		var q avro.QualifiedName
		str := s.T.Underlying().(*types.Struct)
		for i := range s.F {
			x, ok := asStr(in.resolve(st, s.F[i]))
			if !ok {
				return nil
			}
			reflect.ValueOf(&q).Elem().FieldByName(str.Field(i).Name()).SetString(x)
		}
		return ok1(st, cStr(q.String()))
	}
	if strings.HasSuffix(name, ").Name") && strings.HasPrefix(name, "invoke (schema.") {
		return ok1(st, Sym{ID: "name of an Avro definition", T: types.Typ[types.String]})
	}
	return nil
}

func gogenFiles(pname, header, text string, containers bool, add map[string]bool, namer func(string) string) (out map[string]string, err error) {
	avroLock.Lock()
	defer avroLock.Unlock()
	generator.SetNamer(&avroNamer{f: namer})
	defer generator.SetNamer(&generator.DefaultNamer{})
	ns, err := avroDefs(text)
	if err != nil {
		return nil, err
	}
	pkg := generator.NewPackage(pname, header)
	gen := flat.NewFlatPackageGenerator(pkg, containers)
	for i, d := range ns.Roots {
		if add[fmt.Sprintf("avro:def%d", i)] {
			if err := gen.Add(d); err != nil {
				return nil, err
			}
		}
	}
	out = map[string]string{}
	m := reflect.ValueOf(pkg).Elem().FieldByName("files")
	for it := m.MapRange(); it.Next(); {
		b, err := format.Source([]byte(fmt.Sprintf("%v\npackage %v\n%v", header, pname, it.Value().String())))
		if err != nil {
			return nil, fmt.Errorf("%s: %v", it.Key().String(), err)
		}
		out[it.Key().String()] = string(b)
	}
	return out, nil
}

var _ avro.Definition

// tmplModel models text/template with known templates and data.
func tmplModel(ci *CallInfo) []CallOut {
	in, st := ci.In, ci.St
	switch ci.Name {
	case "text/template.New":
		t := ci.Sig.Results().At(0).Type()
		return ok1(st, st.nonNil(Sym{ID: "template()", T: t}))
	case "(*text/template.Template).Parse":
		s, ok := asStr(in.resolve(st, ci.Args[1]))
		if !ok {
			return nil
		}
		if _, err := template.New("").Parse(s); err != nil {
			return ok1(st, Nil{ci.Sig.Results().At(0).Type()}, in.newErr(st, "err:template"))
		}
		return ok1(st, st.nonNil(Sym{ID: "template:" + s, T: ci.Sig.Results().At(0).Type()}), Nil{errType})
	case "text/template.Must":
		return ok1(st, ci.Args[0])
	case "(*text/template.Template).Execute":
		t, ok := in.resolve(st, ci.Args[0]).(Sym)
		if !ok || !strings.HasPrefix(t.ID, "template:") {
			undecided("the template is not known: %s", describe(ci.Args[0]))
		}
		data, ok := ci.plain(ci.Args[2])
		if !ok {
			undecided("the data of a template is not known: %s", in.content(st, ci.Args[2], 3))
		}
		var b strings.Builder
		if err := template.Must(template.New("").Parse(strings.TrimPrefix(t.ID, "template:"))).Execute(&b, data); err != nil {
			return ok1(st, in.newErr(st, "err:template"))
		}
		outs := ci.writeTo(in.resolve(st, ci.Args[1]), cStr(b.String()))
		for i := range outs {
			outs[i].Ret = outs[i].Ret[1:]
		}
		return outs
	}
	return nil
}

// plain gives the Go value of a known value made of maps, slices, structs, texts, numbers and flags.
func (c *CallInfo) plain(v Val) (interface{}, bool) {
	v = c.In.resolve(c.St, v)
	switch x := v.(type) {
	case Iface:
		return c.plain(x.V)
	case Const:
		if s, ok := asStr(x); ok {
			return s, true
		}
		if b, ok := asBool(x); ok {
			return b, true
		}
		if n, ok := asInt(x); ok {
			return n, true
		}
	case Nil:
		return nil, true
	case MapV:
		m, ok := c.St.Heap[x.Obj].V.(MapC)
		if !ok || !m.Closed {
			return nil, false
		}
		out := map[string]interface{}{}
		for _, e := range m.Ents {
			if e.Gone {
				continue
			}
			k, ok := asStr(c.In.resolve(c.St, e.K))
			p, ok2 := c.plain(e.V)
			if !ok || !ok2 {
				return nil, false
			}
			out[k] = p
		}
		return out, true
	case Ptr:
		w, ok := c.In.load(c.St, x, nil)
		if !ok {
			return nil, false
		}
		return c.plain(w)
	case Struct:
		out := map[string]interface{}{}
		str := x.T.Underlying().(*types.Struct)
		for i, f := range x.F {
			p, ok := c.plain(f)
			if !ok {
				return nil, false
			}
			out[str.Field(i).Name()] = p
		}
		return out, true
	case Slice:
		el, ok := c.In.elems(c.St, x)
		if !ok {
			return nil, false
		}
		out := []interface{}{}
		for _, e := range el {
			p, ok := c.plain(e)
			if !ok {
				return nil, false
			}
			out = append(out, p)
		}
		return out, true
	}
	return nil, false
}

var _ = path.Join
var _ = json.Valid
