package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"path/filepath"
	"sort"
	"strings"
)

func init() {
	register("S04", "for every place of a reference below the root, form of reference and set of keys next to it: the schema loaded has the referenced data, found relative to the file with the reference and loaded for the same type and mode, with the keys next to the reference put over it; a reference which can not be resolved is an error", runS04)
}

// refCase is a set of documents, the first of which is loaded.
type refCase struct {
	name    string
	entry   string
	typ     string
	flatten bool
	files   map[string]string
	web     map[string]string
	fails   bool
}

func (r refCase) String() string {
	m := "flatten"
	if !r.flatten {
		m = "not flattening"
	}
	return r.name + ", " + m
}

// refOracle resolves references by the documentation.
type refOracle struct{ r refCase }

type refFail struct{ why string }

func (o *refOracle) doc(text string) map[string]interface{} {
	var v map[string]interface{}
	if err := json.Unmarshal([]byte(text), &v); err != nil {
		undecided("scenario document: %v", err)
	}
	return v
}

// load gives a file with its references resolved and its parts merged.
func (o *refOracle) load(file string) map[string]interface{} {
	text, ok := o.r.files[file]
	if !ok {
		panic(refFail{"no file " + file})
	}
	d := o.doc(text)
	out := map[string]interface{}{}
	for k, v := range d {
		if k != "$ref" {
			out[k] = o.resolve(v, d, file)
		}
	}
	obj := func(v interface{}) map[string]interface{} { m, _ := v.(map[string]interface{}); return m }
	own := out["properties"] != nil
	merge := func(p map[string]interface{}) {
		if pp := obj(p["properties"]); pp != nil {
			n := map[string]interface{}{}
			for k, v := range pp {
				n[k] = v
			}
			for k, v := range obj(out["properties"]) {
				n[k] = v
			}
			out["properties"] = n
		}
		if out["items"] == nil && p["items"] != nil {
			out["items"] = p["items"]
		}
		if q, ok := p["required"].([]interface{}); ok {
			r, _ := out["required"].([]interface{})
			out["required"] = append(append([]interface{}{}, r...), q...)
		}
	}
	if all, ok := out["allOf"].([]interface{}); ok && (o.r.flatten || !own) {
		for _, a := range all {
			merge(obj(a))
		}
	}
	if one, ok := out["oneOf"].([]interface{}); ok {
		for _, a := range one {
			f, _ := obj(a)["fromRef"].(string)
			n, _, _ := strings.Cut(filepath.Base(f), ".")
			if n == o.r.typ {
				merge(obj(a))
			}
		}
	}
	return out
}

func (o *refOracle) resolve(v interface{}, root map[string]interface{}, file string) interface{} {
	switch x := v.(type) {
	case []interface{}:
		var out []interface{}
		for _, k := range x {
			out = append(out, o.resolve(k, root, file))
		}
		return out
	case map[string]interface{}:
		out := map[string]interface{}{}
		if ref, ok := x["$ref"].(string); ok {
			for k, w := range o.target(ref, root, file) {
				out[k] = w
			}
			out["fromRef"] = ref
		}
		for k, w := range x {
			if _, isStr := w.(string); k == "$ref" && isStr {
				continue
			}
			out[k] = o.resolve(w, root, file)
		}
		return out
	}
	return v
}

func (o *refOracle) target(ref string, root map[string]interface{}, file string) map[string]interface{} {
	src, frag, _ := strings.Cut(ref, "#")
	base, full, ctx := interface{}(root), false, file
	switch {
	case src == "":
	case strings.HasPrefix(src, "http://"), strings.HasPrefix(src, "https://"):
		text, ok := o.r.web[src]
		if !ok {
			panic(refFail{"no response"})
		}
		base, root = o.doc(text), nil
	default:
		p := filepath.Join(filepath.Dir(file), src)
		if p != file {
			base, full = o.load(p), true
		}
	}
	for _, k := range strings.Split(strings.Trim(frag, "/"), "/") {
		if k == "" {
			continue
		}
		m, ok := base.(map[string]interface{})
		if !ok || m[k] == nil {
			panic(refFail{"no target " + ref})
		}
		base = m[k]
	}
	if !full && root != nil {
		base = o.resolve(base, root, ctx)
	}
	m, ok := base.(map[string]interface{})
	if !ok {
		panic(refFail{"target of " + ref + " is no object"})
	}
	return m
}

func refCases(deep bool) []refCase {
	type target struct {
		name, ref string
		files     map[string]string
		web       map[string]string
		fails     bool
	}
	leafX := `{"type":"string","description":"sym:described","format":"sym:format","default":"sym:leaf default","enum":["sym:one","sym:two"],"minimum":1}`
	objX := `{"type":"object","properties":{"q":{"type":"string","default":"sym:default"}},"required":["q"],"default":{"q":"sym:object default"},"items":{"type":"string"}}`
	const dir = "/d/s/"
	targets := []target{
		{name: "definition", ref: "#/definitions/x"},
		{name: "nested definition", ref: "#/definitions/group/y"},
		{name: "definition which is a reference", ref: "#/definitions/alias"},
		{name: "definition with references", ref: "#/definitions/z"},
		{name: "property", ref: "#/properties/plain"},
		{name: "missing definition", ref: "#/definitions/none", fails: true},
		{name: "own file", ref: "a.json#/definitions/x"},
		{name: "own file by another path", ref: "../s/a.json#/definitions/x"},
		{name: "file", ref: "b.json", files: map[string]string{dir + "b.json": objX}},
		{name: "file with ./", ref: "./b.json", files: map[string]string{dir + "b.json": leafX}},
		{name: "file with the root as target", ref: "b.json#/", files: map[string]string{dir + "b.json": leafX}},
		{name: "file named like a protocol", ref: "http.json", files: map[string]string{dir + "http.json": leafX}},
		{name: "file in another directory", ref: "../t/b.json", files: map[string]string{"/d/t/b.json": objX, dir + "b.json": leafX, "/d/b.json": leafX}},
		{name: "file of the same name in another directory", ref: "../t/a.json", files: map[string]string{"/d/t/a.json": objX}},
		{name: "file of the same name in another directory with a target", ref: "../t/a.json#/properties/q", files: map[string]string{"/d/t/a.json": objX}},
		{name: "file whose references are relative to it", ref: "../t/b.json", files: map[string]string{"/d/t/b.json": `{"type":"object","properties":{"q":{"$ref":"c.json"},"r":{"$ref":"#/definitions/x"}},"definitions":{"x":{"type":"number"}}}`, "/d/t/c.json": leafX, dir + "c.json": objX}},
		{name: "definition in a file", ref: "b.json#/definitions/x", files: map[string]string{dir + "b.json": `{"type":"object","properties":{},"definitions":{"x":{"type":"boolean"},"y":` + leafX + `}}`}},
		{name: "definition in a file which is a reference there", ref: "b.json#/definitions/x", files: map[string]string{dir + "b.json": `{"type":"object","properties":{},"definitions":{"x":{"$ref":"#/definitions/y"},"y":` + leafX + `}}`}},
		{name: "file with allOf and oneOf", ref: "b.json", files: map[string]string{dir + "b.json": `{"type":"object","properties":{"p":{"type":"string"}},"allOf":[{"$ref":"c.json"}],"oneOf":[{"$ref":"t.json"},{"$ref":"u.json"}]}`, dir + "c.json": `{"type":"object","properties":{"c":{"type":"number"}}}`, dir + "t.json": `{"type":"object","properties":{"t":{"type":"number"}}}`, dir + "u.json": `{"type":"object","properties":{"u":{"type":"number"}}}`}},
		{name: "missing file", ref: "none.json", fails: true},
		{name: "missing definition in a file", ref: "b.json#/definitions/none", files: map[string]string{dir + "b.json": objX}, fails: true},
		{name: "http", ref: "http://h/x.json", web: map[string]string{"http://h/x.json": leafX}},
		{name: "https", ref: "https://h/x.json", web: map[string]string{"https://h/x.json": objX}},
		{name: "definition over http", ref: "http://h/x.json#/definitions/y", web: map[string]string{"http://h/x.json": `{"definitions":{"x":{"type":"number"},"y":` + leafX + `}}`}},
		{name: "missing definition over http", ref: "http://h/x.json#/definitions/none", web: map[string]string{"http://h/x.json": `{"definitions":{"x":{"type":"number"}}}`}, fails: true},
	}
	siblings := []string{``, `"description":"sym:own description",`, `"type":"sym:own type","title":"sym:own title",`, `"properties":{"own":{"type":"string"}},`, `"transform":{"cumulo":{"from":[{"jsonPath":"sym:path"}]}},`,
		`"default":null,"minimum":5,"embed":false,`, `"required":["own"],"enum":["sym:own one",1,null,{"a":[]}],`, `"items":{"type":"number"},"properties":{},"enum":[],"description":"",`, `"default":{"a":{"b":[1,"sym:own deep"]}},"format":null,"maximum":1.5,`}
	defs := `"definitions":{"x":` + leafX + `,"group":{"y":{"type":"integer"}},"alias":{"$ref":"#/definitions/x","title":"sym:alias title"},"z":{"type":"object","properties":{"za":{"$ref":"#/definitions/x"},"zb":{"type":"array","items":{"$ref":"#/definitions/group/y"}}}}}`
	places := []struct{ name, text string }{
		{"property", `{"type":"object","properties":{"plain":{"type":"boolean"},"p":REF,"after":{"type":"string"}},DEFS}`},
		{"only property", `{"type":"object",DEFS,"properties":{"plain":{"type":"boolean"},"p":REF}}`},
		{"nested property", `{"type":"object","properties":{"plain":{"type":"boolean"},"o":{"type":"object","properties":{"p":REF,"n":{"type":"string"}}}},DEFS}`},
		{"items", `{"type":"object","properties":{"plain":{"type":"boolean"},"l":{"type":"array","items":REF}},DEFS}`},
		{"root items", `{"type":"array","items":REF,"properties":{"plain":{"type":"boolean"}},DEFS}`},
		{"allOf", `{"type":"object","properties":{"plain":{"type":"boolean"},"o":{"type":"object","allOf":[{"properties":{"first":{"type":"string"}}},REF,{"properties":{"last":{"type":"string"}}}]}},DEFS}`},
		{"long list", `{"type":"object","properties":{"plain":{"type":"boolean"},"o":{"type":"object","allOf":[{"title":"sym:l0"},{"title":"sym:l1"},{"title":"sym:l2"},"sym:l3",REF,REF,{"title":"sym:l6"}]}},DEFS}`},
		{"root allOf", `{"type":"object","properties":{"plain":{"type":"boolean"}},"allOf":[{"properties":{"first":{"type":"string"}}},REF],DEFS}`},
		{"two properties", `{"type":"object","properties":{"plain":{"type":"boolean"},"p":REF,"p2":REF,"p3":{"$ref":"#/definitions/x"}},DEFS}`},
		{"siblings with references", `{"type":"object","properties":{"plain":{"type":"boolean"},"p":REF,"k":{"$ref":"#/definitions/z","properties":{"own":{"$ref":"#/definitions/x"}}}},DEFS}`},
	}
	var out []refCase
	for pi, p := range places {
		for ti, t := range targets {
			for si, sib := range siblings {
				if !deep && pi > 0 && si > 0 && (pi+ti+si)%7 != 0 {
					continue
				}
				ref := "{" + sib + `"$ref":"` + t.ref + `"}`
				if si%2 == 1 {
					ref = `{"$ref":"` + t.ref + `",` + strings.TrimSuffix(sib, ",") + "}"
				}
				text := strings.ReplaceAll(strings.ReplaceAll(p.text, "REF", ref), "DEFS", defs)
				files := map[string]string{dir + "a.json": text}
				for k, v := range t.files {
					files[k] = v
				}
				for _, fl := range []bool{true, false} {
					if !fl && !deep && len(t.files) == 0 {
						continue
					}
					n := p.name + ": " + t.name
					if sib != "" {
						n += " next to " + strings.ReplaceAll(strings.TrimSuffix(sib, ","), "sym:", "")
					}
					out = append(out, refCase{name: n, entry: dir + "a.json", typ: "t", flatten: fl, files: files, web: t.web, fails: t.fails})
				}
			}
		}
	}
	return out
}

func runS04(c *Ctx) {
	const rule = "resolving references"
	cases := refCases(c.Thorough)
	for _, n := range []int{20} {
		var props, all, defs []string
		deep := `{"$ref":"#/definitions/d0"}`
		for i := 0; i < n; i++ {
			props = append(props, fmt.Sprintf(`"p%02d":{"$ref":"#/definitions/d%d"}`, i, i))
			all = append(all, `{"type":"object","properties":{"x":{"$ref":"#/definitions/d0"}}}`)
			defs = append(defs, fmt.Sprintf(`"d%d":{"type":"string","description":"sym:described %d"}`, i, i))
			deep = fmt.Sprintf(`{"type":"object","properties":{"n%d":%s}}`, i, deep)
		}
		text := `{"type":"object","properties":{` + strings.Join(props, ",") + `,"deep":` + deep + `,"list":{"type":"object","allOf":[` + strings.Join(all, ",") + `]}},"definitions":{` + strings.Join(defs, ",") + `}}`
		cases = append([]refCase{{name: fmt.Sprintf("%d references", n), entry: "/d/s/a.json", typ: "t", flatten: true, files: map[string]string{"/d/s/a.json": text}}}, cases...)
	}
	for _, r := range cases {
		r := r
		if len(c.Viols) > 10 {
			c.Note("cut short", "no further scenarios after ten violations")
			return
		}
		c.Guard(rule, r.String(), func() { refRun(c, rule, r) })
	}
	c.Need(rule, 300)
}

// comparable part of a schema: the keywords an Instance has and the loader does not add on its own.
var refKeys = []string{"type", "properties", "items", "required", "description", "format"}

func refRun(c *Ctx, rule string, r refCase) {
	f := c.Anchor(c.P.Func("jsonschema", loaders(r.flatten)), loaders(r.flatten))
	s := c.Scen()
	s.in.NUnknown = 10
	s.in.MaxSteps = 60000
	s.in.MaxRec = 30
	s.in.MaxVer = 60
	if strings.HasSuffix(r.name, " references") {
		s.in.MaxSteps, s.in.MaxRec, s.in.MaxVer, s.in.MaxCons = 2000000, 60, 400, 5000
	}
	zeroGlobals(c, s, "jsonschema")
	d := newDoc(c)
	d.escapes, d.strict = true, true
	o := &refOracle{r}
	var want map[string]interface{}
	fails := ""
	func() {
		defer func() {
			if e := recover(); e != nil {
				if x, ok := e.(refFail); ok {
					fails = x.why
					return
				}
				panic(e)
			}
		}()
		want = o.load(r.entry)
	}()
	if (fails != "") != r.fails {
		undecided("scenario %s: expected to fail: %v, oracle: %q", r.name, r.fails, fails)
	}
	ch := cacheHook(c)
	s.in.Hook = func(ci *CallInfo) []CallOut {
		if o := ch(ci); o != nil {
			return o
		}
		if ci.Fn != nil && ci.Fn.Name() == "dereference" {
			n := 0
			for _, f := range s.in.stack {
				if f == ci.Fn {
					n++
				}
			}
			if n > 5 {
				undecided("resolving the references of %s does not end", r.name)
			}
		}
		switch {
		case strings.HasSuffix(ci.Name, "jsonschema.NewValidator"):
			return ok1(ci.St, ci.St.nonNil(Sym{ID: "validator", T: ci.Sig.Results().At(0).Type()}), Nil{errType})
		case ci.Name == "path/filepath.Abs":
			if p, ok := asStr(ci.In.resolve(ci.St, ci.Args[0])); ok {
				return ok1(ci.St, cStr(absPath(p)), Nil{errType})
			}
		case ci.Name == "path/filepath.Rel":
			return nil
		case ci.Name == "os.ReadFile":
			p, ok := asStr(ci.In.resolve(ci.St, ci.Args[0]))
			if !ok {
				undecided("reading the file %s", describe(ci.Args[0]))
			}
			t := ci.Sig.Results().At(0).Type()
			text, ok := r.files[absPath(p)]
			if !ok {
				return ok1(ci.St, Nil{t}, ci.In.newErr(ci.St, "err:no file "+p))
			}
			return ok1(ci.St, d.raw(ci.St, d.ordered("file "+absPath(p), text), t), Nil{errType})
		case ci.Name == "net/http.Get" || ci.Name == "(*net/http.Client).Get":
			u, ok := asStr(ci.In.resolve(ci.St, ci.Args[len(ci.Args)-1]))
			if !ok {
				undecided("requesting %s", describe(ci.Args[len(ci.Args)-1]))
			}
			t := ci.Sig.Results().At(0).Type()
			if _, ok := r.web[u]; !ok {
				return ok1(ci.St, Nil{t}, ci.In.newErr(ci.St, "err:request "+u))
			}
			var outs []CallOut
			for _, code := range []int{200, 404, 500} {
				st := ci.St.Fork()
				st.event(Event{Kind: "response", Args: []Val{cInt(code)}, Pos: c.Pos(ci.Pos), Site: fmt.Sprint(len(st.Events))})
				sc := &Scenario{c: c, in: s.in, st: st}
				rt := t.(*types.Pointer).Elem()
				body := st.nonNil(Sym{ID: fmt.Sprintf("body %s %d", u, code), T: rt.Underlying().(*types.Struct).Field(0).Type()})
				resp := sc.object("g:response "+u, rt, map[string]Val{"StatusCode": cInt(code), "Status": cStr(fmt.Sprint(code)), "Body": retype(body, fieldTypeOf(rt, "Body"))})
				outs = append(outs, CallOut{Ret: []Val{resp, Nil{errType}}, St: st})
			}
			st := ci.St.Fork()
			return append(outs, CallOut{Ret: []Val{Nil{t}, ci.In.newErr(st, "err:request failed "+u)}, St: st})
		case ci.Name == "io.ReadAll" || ci.Name == "io/ioutil.ReadAll":
			b, ok := ci.In.resolve(ci.St, ci.Args[0]).(Sym)
			if !ok || !strings.HasPrefix(b.ID, "body ") {
				return nil
			}
			t := ci.Sig.Results().At(0).Type()
			bad := ci.St.Fork()
			fail := CallOut{Ret: []Val{Nil{t}, ci.In.newErr(bad, "err:read "+b.ID)}, St: bad}
			u := strings.Fields(b.ID)
			if u[2] != "200" {
				return []CallOut{fail, {Ret: []Val{d.raw(ci.St, d.ordered(b.ID, `{"not":"the schema"}`), t), Nil{errType}}, St: ci.St}}
			}
			return []CallOut{fail, {Ret: []Val{d.raw(ci.St, d.ordered(b.ID, r.web[u[1]]), t), Nil{errType}}, St: ci.St}}
		}
		return d.model(ci)
	}
	s.run(f, cStr(r.entry), cStr(r.typ))
	good := 0
	s.each(rule, r.String(), func(out Outcome) string {
		switch nilState(out.St, out.Ret[1]) {
		case 0:
			return "it is not known whether an error is returned: " + describe(out.Ret[1])
		case 2:
			k := out.Ret[1].Key()
			if fails == "" && !strings.Contains(k, "err:request failed") && !strings.Contains(k, "err:read body") && !badStatus(out) {
				return "fails: " + describe(out.Ret[1])
			}
			return ""
		}
		if fails != "" {
			return "the schema is returned though a reference can not be resolved: " + fails
		}
		if badStatus(out) {
			return "the schema is returned though the response is not a success"
		}
		good++
		n := d.encode(s.in, out.St, out.Ret[0], f.Signature.Results().At(0).Type())
		if n == nil {
			return "the schema is not known"
		}
		for _, k := range refKeys {
			w := want[k]
			ws := "nothing"
			if w != nil {
				if l, ok := w.([]interface{}); ok && k == "required" {
					sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i]) < fmt.Sprint(l[j]) })
				}
				if t, ok := w.(string); ok && k == "type" {
					w = []interface{}{t}
				}
				ws = d.fromValue("want", w).canonNum()
			}
			gs := "nothing"
			if g := n.get(k); g != nil && g.kind != "null" {
				gs = g.canonNum()
			}
			if gs != ws {
				return k + " is " + gs + ", not " + ws
			}
		}
		return ""
	})
	if fails == "" && good == 0 {
		c.Bad(rule, r.String(), "-", "never succeeds")
	}
}

func badStatus(o Outcome) bool {
	for _, e := range events(o.St, "response") {
		if n, ok := asInt(e.Args[0]); ok && n >= 400 {
			return true
		}
	}
	return false
}

func fieldTypeOf(t types.Type, name string) types.Type {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	undecided("no field %s", name)
	return nil
}
