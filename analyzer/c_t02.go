package main

import (
	"strings"
)

func init() {
	register("T02", "every path through the transform entry points returns either an error and no document, or the serialised result of the root transformer for the parsed input, which (for Transform) the validator of the schema the transformer was built with has accepted", runT02)
}

func runT02(c *Ctx) {
	const rule = "output is valid or an error"
	for _, m := range []string{"Transform", "TransformNoValidation"} {
		c.Guard(rule, m, func() {
			f := c.Anchor(c.P.Method("transform", "Transformer", m), "Transformer."+m)
			s := c.Scen()
			tr := s.nn("tr", f.Params[0].Type())
			raw := s.nn("raw", f.Params[1].Type())
			s.in.Hook = func(ci *CallInfo) []CallOut {
				switch {
				case strings.HasPrefix(ci.Name, "invoke ") && strings.HasSuffix(ci.Name, "instanceTransformer).transform"):
					outs := ci.In.external(ci)
					for _, o := range outs {
						o.St.event(Event{Kind: "root", Args: []Val{ci.Recv, ci.Args[0], o.Ret[0], o.Ret[1]}, Pos: c.Pos(ci.Pos)})
					}
					return outs
				case strings.HasPrefix(ci.Name, "invoke ") && strings.HasSuffix(ci.Name, "Validator).Validate"):
					outs := ci.In.external(ci)
					for _, o := range outs {
						o.St.event(Event{Kind: "validate", Args: []Val{ci.Recv, ci.Args[0], o.Ret[0], o.Ret[1]}, Pos: c.Pos(ci.Pos)})
					}
					return outs
				case ci.Name == "encoding/json.Marshal":
					outs := ci.In.external(ci)
					for _, o := range outs {
						o.St.event(Event{Kind: "marshal", Args: []Val{ci.Args[0], o.Ret[0], o.Ret[1]}, Pos: c.Pos(ci.Pos)})
					}
					return outs
				}
				return nil
			}
			s.run(f, tr, raw)
			good := 0
			s.each(rule, m, func(o Outcome) string {
				doc, err := o.Ret[0], o.Ret[1]
				switch nilState(o.St, err) {
				case 2:
					if nilState(o.St, doc) != 1 {
						return "a document (" + describe(doc) + ") is returned together with an error"
					}
					return ""
				case 0:
					return "it is not known whether an error is returned: " + describe(err)
				}
				// the document
				var marshalled Val
				for _, e := range events(o.St, "marshal") {
					if e.Args[1].Key() == doc.Key() && nilState(o.St, e.Args[2]) == 1 {
						marshalled = e.Args[0]
					}
				}
				if marshalled == nil {
					return "the document returned is not the serialised result: " + describe(doc)
				}
				okRoot := false
				for _, e := range events(o.St, "root") {
					if ident(o.St, s.in, marshalled) == ident(o.St, s.in, e.Args[2]) && nilState(o.St, e.Args[3]) == 1 && strings.Contains(e.Args[0].Key(), "tr.root") {
						if in := s.in.content(o.St, e.Args[1], 4); strings.HasPrefix(in, "json(raw)") || strings.Contains(in, "xmlquery.Parse") && strings.Contains(in, "raw") {
							okRoot = true
						}
					}
				}
				if !okRoot {
					return "what is serialised is not the result of the root transformer for the input: " + describe(marshalled)
				}
				good++
				if m != "Transform" {
					return ""
				}
				for _, e := range events(o.St, "validate") {
					if !strings.HasPrefix(e.Args[0].Key(), "tr.schema.") || e.Args[1].Key() != doc.Key() {
						continue
					}
					if b, ok := asBool(s.in.resolve(o.St, e.Args[2])); ok && b && nilState(o.St, e.Args[3]) == 1 {
						return ""
					}
				}
				return "a document is returned which the validator of the schema has not accepted"
			})
			if good < 2 {
				c.Bad(rule, m, "-", "the transform does not succeed for both JSON and XML input on any path")
			}
		})
	}
	// the validator reports what the validation library found
	c.Guard(rule, "validator", func() {
		f := c.Anchor(c.P.Method("jsonschema", "validator", "Validate"), "validator.Validate")
		s := c.Scen()
		v := s.nn("v", f.Params[0].Type())
		raw := s.nn("raw", f.Params[1].Type())
		n := 0
		s.in.Hook = func(ci *CallInfo) []CallOut {
			switch ci.Name {
			case "(*github.com/GannettDigital/gojsonschema.Result).Valid":
				r := Sym{ID: "VALID(" + ci.In.content(ci.St, ci.Args[0], 3) + ")", T: ci.Sig.Results().At(0).Type()}
				return ok1(ci.St, r)
			case "(*github.com/GannettDigital/gojsonschema.Result).Errors":
				r := Sym{ID: "ERRORS(" + ci.In.content(ci.St, ci.Args[0], 3) + ")", T: ci.Sig.Results().At(0).Type()}
				return ok1(ci.St, r)
			}
			return nil
		}
		s.run(f, v, raw)
		s.each("validation result is reported", "validator.Validate", func(o Outcome) string {
			res := s.in.resolve(o.St, o.Ret[0])
			b, known := asBool(res)
			switch nilState(o.St, o.Ret[1]) {
			case 2:
				if known && !b {
					return ""
				}
				return "valid is reported together with an error"
			case 0:
				return "unknown error " + describe(o.Ret[1])
			}
			if known && !b {
				return ""
			}
			about := func(k string) bool {
				return strings.Contains(k, "v.schema") && strings.Contains(k, "NewBytesLoader(raw)")
			}
			if x, ok := res.(Sym); ok && strings.HasPrefix(x.ID, "VALID(") && about(x.ID) {
				n++
				return ""
			}
			for k, fa := range o.St.Facts {
				if strings.HasPrefix(k, "ERRORS(") && about(k) && (fa.LenMax == 0 || fa.Nil == 1) || strings.HasPrefix(k, "VALID(") && about(k) && fa.Eq != nil && fa.Eq.Key() == "true" {
					n++
					return ""
				}
			}
			return "valid is reported without the library having found so: " + describe(res)
		})
		if n == 0 {
			c.Bad("validation result is reported", "validator.Validate", "-", "never reports valid")
		}
	})
	c.Guard(rule, "newTransformer", func() {
		// the schema validated against is the one the transformer was made with
		for _, name := range []string{"NewTransformer", "NewXMLTransformer"} {
			f := c.Anchor(c.P.Func("transform", name), name)
			s := c.Scen()
			sch := s.nn("schema", f.Params[0].Type())
			id := sym("identifier", f.Params[1].Type())
			s.in.Hook = func(ci *CallInfo) []CallOut {
				n := ci.Name
				if strings.HasSuffix(n, "jsonschema.WalkRaw") || strings.HasSuffix(n, ".newObjectTransformer") || strings.HasSuffix(n, ".newArrayTransformer") {
					return ci.In.external(ci)
				}
				return nil
			}
			s.run(f, sch, id)
			n := 0
			s.each("transformer keeps its schema", name, func(o Outcome) string {
				switch nilState(o.St, o.Ret[1]) {
				case 2:
					if nilState(o.St, o.Ret[0]) != 1 {
						return "a transformer is returned together with an error"
					}
					return ""
				case 0:
					return "unknown error " + describe(o.Ret[1])
				}
				n++
				if got := s.field(o.St, o.Ret[0], "schema"); got.Key() != "schema" {
					return "the schema of the transformer is " + describe(got)
				}
				want := "\"JSON\""
				if name == "NewXMLTransformer" {
					want = "\"XML\""
				}
				if got := s.field(o.St, o.Ret[0], "format"); s.in.resolve(o.St, got).Key() != want {
					return "the format of the transformer is " + describe(got)
				}
				return ""
			})
			if n == 0 {
				c.Bad("transformer keeps its schema", name, "-", "never succeeds")
			}
		}
	})
}
