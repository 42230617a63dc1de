package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

var anyT = types.NewInterfaceType(nil, nil)

// rawTypes are the dynamic types a value in a transform can have.
func rawTypes(c *Ctx) []types.Type {
	node := c.P.ExtType("github.com/antchfx/xmlquery", "Node")
	tm := c.P.ExtType("time", "Time")
	return []types.Type{
		nil,
		types.Typ[types.Bool], types.Typ[types.String], types.Typ[types.Int], types.Typ[types.Int64], types.Typ[types.Float64],
		types.NewSlice(anyT), types.NewMap(types.Typ[types.String], anyT), tm,
		types.NewPointer(node), types.NewSlice(types.NewPointer(node)),
	}
}

func tname(t types.Type) string {
	if t == nil {
		return "nil"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// dynOf tells the dynamic type of an interface value.
func dynOf(st *State, v Val) (types.Type, bool) {
	switch x := v.(type) {
	case Nil:
		return nil, true
	case Iface:
		return x.T, true
	case Sym:
		if f := st.fact(x); f != nil {
			if f.Nil == 1 {
				return nil, true
			}
			if f.Dyn != nil {
				return f.Dyn, true
			}
		}
	}
	return nil, false
}

// unwrap gives the concrete value in an interface value.
func unwrap(in *Interp, st *State, v Val) Val {
	if i, ok := v.(Iface); ok {
		return in.resolve(st, i.V)
	}
	if s, ok := v.(Sym); ok {
		if f := st.fact(s); f != nil && f.Dyn != nil {
			return in.resolve(st, in.dynVal(s, f.Dyn))
		}
	}
	return v
}

type opIn struct {
	t       string // type of the input
	may     bool   // an error is acceptable
	out     string // type of the result
	result  func(s *Scenario, o Outcome, v Val) string
	anyMeta bool
}

type opSpec struct {
	name string
	args [][2]string // a value starting with * is unknown
	in   []opIn
	any  bool // every input is accepted
	free map[string]bool
}

func mentions(subs ...string) func(s *Scenario, o Outcome, v Val) string {
	return func(s *Scenario, o Outcome, v Val) string {
		k := s.in.content(o.St, v, 4)
		for _, x := range subs {
			if !strings.Contains(k, x) && !pinned(o.St, x) {
				return fmt.Sprintf("the result %s does not depend on %s", describe(v), strings.Trim(x, "@"))
			}
		}
		return ""
	}
}

// callOf takes the rendering of a call apart.
func callOf(k string) (string, []string) {
	k = strings.TrimSuffix(k, "!")
	if i := strings.LastIndex(k, "#"); i > 0 && !strings.ContainsAny(k[i:], "()\"") {
		k = k[:i]
	}
	if !strings.HasSuffix(k, ")") {
		return k, nil
	}
	var stack []int
	var commas [][]int
	quoted := false
	for i := 0; i < len(k); i++ {
		switch ch := k[i]; {
		case quoted:
			if ch == '\\' {
				i++
			} else if ch == '"' {
				quoted = false
			}
		case ch == '"':
			quoted = true
		case ch == '(' || ch == '[' || ch == '{':
			stack, commas = append(stack, i), append(commas, nil)
		case ch == ',' && len(stack) > 0:
			commas[len(stack)-1] = append(commas[len(stack)-1], i)
		case (ch == ')' || ch == ']' || ch == '}') && len(stack) > 0:
			from, cs := stack[len(stack)-1], commas[len(stack)-1]
			stack, commas = stack[:len(stack)-1], commas[:len(commas)-1]
			if i < len(k)-1 {
				continue
			}
			var args []string
			at := from + 1
			for _, c := range append(cs, i) {
				if c > at || len(cs) > 0 {
					args = append(args, k[at:c])
				}
				at = c + 1
			}
			return k[:from], args
		}
	}
	return k, nil
}

// calls: the result is one of the given calls, whose arguments are what is given, and only converted between texts and
// bytes. An argument which is itself a pattern is given as f(...), an empty one can be anything.
func calls(terms ...string) func(s *Scenario, o Outcome, v Val) string {
	var match func(st *State, k, pat string) bool
	match = func(st *State, k, pat string) bool {
		if pat == "" || k == pat {
			return true
		}
		if strings.HasPrefix(pat, "@") && pinned(st, pat) && !strings.Contains(k, "@") {
			return true
		}
		h, args := callOf(k)
		if len(args) == 1 && (h == "string" || h == "[]byte" || h == "[]uint8") {
			return match(st, args[0], pat)
		}
		ph, pargs := callOf(pat)
		if len(pargs) == 0 || h != ph || len(args) != len(pargs) {
			return false
		}
		for i := range pargs {
			if pargs[i] != "_" && !match(st, args[i], pargs[i]) {
				return false
			}
		}
		return true
	}
	return func(s *Scenario, o Outcome, v Val) string {
		k := s.in.content(o.St, v, 4)
		for _, t := range terms {
			if match(o.St, k, t) {
				return ""
			}
		}
		if pinned(o.St, "@in@") && !strings.Contains(k, "@") {
			return ""
		}
		return fmt.Sprintf("the result is %s and not %s", describe(v), terms[0])
	}
}

// pinned: the path is one on which something computed from the input is known, so that the result can be a constant.
func pinned(st *State, x string) bool {
	for id, f := range st.Facts {
		if id != x && strings.Contains(id, x) && (f.Eq != nil || f.LenMax == 0) {
			return true
		}
	}
	return false
}

// seconds: the result is 3600, 60 and 1 times the three parts of the text, or less of them where a part is empty.
func seconds(s *Scenario, o Outcome, v Val) string {
	if e := mentions("@in@")(s, o, v); e != "" {
		return e
	}
	poly, ok := parsePoly(s.in.content(o.St, v, 4))
	if !ok {
		return ""
	}
	got := map[int]int64{}
	for atom, k := range poly {
		if atom == "" {
			if k != 0 {
				return fmt.Sprintf("%d is added to the seconds", k)
			}
			continue
		}
		if strings.Contains(atom, "FindStringSubmatch(") && !strings.Contains(atom, ",@in@)[") {
			return "it is not the input which is taken apart: " + describe(v)
		}
		i := partIndex(atom)
		if i == 0 {
			if strings.HasPrefix(atom, "(") && strings.Contains(atom, "FindStringSubmatch(") && strings.Contains(atom, "%") {
				return "only the remainder of a part of the text is counted: " + describe(v)
			}
			return "" // parsed in another way
		}
		if !strings.HasSuffix(atom, "!") {
			got[i] += k
		}
	}
	for i, want := range map[int]int64{1: 3600, 2: 60, 3: 1} {
		part := fmt.Sprintf("[%d]", i)
		empty := false
		for id, f := range o.St.Facts {
			empty = empty || strings.HasSuffix(id, part) && strings.Contains(id, "@in@") && (f.Eq != nil && f.Eq.Key() == "\"\"" || f.LenMax == 0)
		}
		for p, val := range o.St.Preds {
			empty = empty || val && strings.HasPrefix(p, "fails ") && strings.Contains(p, part+")")
		}
		if got[i] != want && !(empty && got[i] == 0) {
			return fmt.Sprintf("part %d of the text counts %d seconds and not %d", i, got[i], want)
		}
	}
	return ""
}

// partIndex is the number of the part of the text which the atom is the number of.
func partIndex(atom string) int {
	if !strings.HasPrefix(atom, "strconv.") || !strings.Contains(atom, "FindStringSubmatch(") {
		return 0
	}
	for i := 1; i <= 3; i++ {
		if strings.Contains(atom, fmt.Sprintf("[%d])", i)) || strings.Contains(atom, fmt.Sprintf("[%d],", i)) {
			return i
		}
	}
	return 0
}

// parsePoly reads the rendering of sums and products of numbers as coefficients of linear terms.
func parsePoly(k string) (map[string]int64, bool) {
	if n, err := strconv.ParseInt(k, 10, 64); err == nil {
		return map[string]int64{"": n}, true
	}
	for _, conv := range []string{"int(", "int64("} {
		if strings.HasPrefix(k, conv) && strings.HasSuffix(k, ")") {
			return parsePoly(k[len(conv) : len(k)-1])
		}
	}
	if !strings.HasPrefix(k, "(") || !strings.HasSuffix(k, ")") || strings.HasPrefix(k, "(*") {
		return map[string]int64{k: 1}, true
	}
	depth, quoted := 0, false
	for i := 1; i < len(k)-1; i++ {
		switch c := k[i]; {
		case quoted:
			if c == '\\' {
				i++
			} else if c == '"' {
				quoted = false
			}
		case c == '"':
			quoted = true
		case c == '(' || c == '[':
			depth++
		case c == ')' || c == ']':
			depth--
		case depth == 0 && i > 1 && (c == '+' || c == '*' || c == '-'):
			l, ok1 := parsePoly(k[1:i])
			r, ok2 := parsePoly(k[i+1 : len(k)-1])
			if !ok1 || !ok2 {
				return nil, false
			}
			if c == '*' {
				if len(l) > 1 || len(l) == 1 && l[""] == 0 {
					l, r = r, l
				}
				f, isConst := l[""]
				if !isConst || len(l) != 1 {
					return nil, false
				}
				out := map[string]int64{}
				for a, n := range r {
					out[a] = n * f
				}
				return out, true
			}
			out := map[string]int64{}
			for a, n := range l {
				out[a] += n
			}
			for a, n := range r {
				if c == '-' {
					n = -n
				}
				out[a] += n
			}
			return out, true
		}
	}
	return map[string]int64{k: 1}, true
}

// same: the result is the given expression of the input.
func same(terms ...string) func(s *Scenario, o Outcome, v Val) string {
	return func(s *Scenario, o Outcome, v Val) string {
		k := v.Key()
		for _, t := range terms {
			if k == t {
				return ""
			}
		}
		// a constant is right when the input is known to be that constant
		if f := o.St.Facts["@in@"]; f != nil && f.Eq != nil && f.Eq.Key() == k && terms[0] == "@in@" {
			return ""
		}
		return fmt.Sprintf("the result is %s and not %s", describe(v), terms[0])
	}
}

// boolWhen: the result is true exactly when cond holds; cond gives 1 true, -1 false, 0 unknown.
func boolWhen(what string, cond func(s *Scenario, o Outcome) int) func(s *Scenario, o Outcome, v Val) string {
	return func(s *Scenario, o Outcome, v Val) string {
		k := cond(s, o)
		b, ok := asBool(v)
		if !ok {
			for _, a := range s.in.truth(o.St.Fork(), v) {
				o2 := o
				o2.St = a.st
				k2 := cond(s, o2)
				if a.v != (k2 == 1) || k2 == 0 {
					return fmt.Sprintf("the result is %v though the input is not known to be such that %s", a.v, what)
				}
			}
			return ""
		}
		if k == 0 {
			return fmt.Sprintf("the result is %v whether or not %s", b, what)
		}
		if b != (k == 1) {
			return fmt.Sprintf("the result is %v though it is %v that %s", b, k == 1, what)
		}
		return ""
	}
}

func lenCond(s *Scenario, o Outcome) int {
	if f := o.St.Facts["@in@"]; f != nil {
		if f.LenMin > 0 || f.Ne["\"\""] {
			return 1
		}
		if f.LenMax == 0 || f.Nil == 1 || f.Eq != nil && f.Eq.Key() == "\"\"" {
			return -1
		}
		if f.Eq != nil {
			return 1
		}
	}
	return 0
}

func nonZero(s *Scenario, o Outcome) int {
	if f := o.St.Facts["@in@"]; f != nil {
		if f.Eq != nil && f.Eq.Key() == "0" {
			return -1
		}
		if f.Eq != nil || f.Ne["0"] {
			return 1
		}
	}
	p := o.St.Preds
	if p["@in@<0"] || p["0<@in@"] {
		return 1
	}
	a, ok1 := p["@in@<0"]
	b, ok2 := p["0<@in@"]
	if ok1 && ok2 && !a && !b {
		return -1
	}
	return 0
}

func inverseCond(s *Scenario, o Outcome) int {
	if f := o.St.Facts["@in@"]; f != nil && f.Eq != nil {
		if b, _ := asBool(f.Eq); b {
			return -1
		}
		return 1
	}
	return 0
}

// sanitized: the result comes from the unchanged input with the tags removed.
func sanitized(s *Scenario, o Outcome, v Val) string {
	k := s.in.content(o.St, v, 4)
	if !strings.Contains(k, "Sanitize") || !strings.Contains(k, "@in@") {
		return "the result is not the input with the tags removed: " + describe(v)
	}
	for at := k; ; {
		h, args := callOf(at)
		if strings.HasSuffix(h, ".Sanitize") || strings.HasSuffix(h, ".SanitizeBytes") {
			if x := args[len(args)-1]; x != "@in@" && x != "[]byte(@in@)" && x != "[]uint8(@in@)" {
				return "it is not the input from which the tags are removed but " + x
			}
			return ""
		}
		next := ""
		for _, a := range args {
			if strings.Contains(a, "@in@") {
				next = a
			}
		}
		if next == "" {
			return ""
		}
		at = next
	}
}

func splitResult(s *Scenario, o Outcome, v Val) string {
	empty := false
	if f := o.St.Facts["@in@"]; f != nil && (f.LenMax == 0 || f.Eq != nil && f.Eq.Key() == "\"\"") {
		empty = true
	}
	sp := Sym{ID: "strings.Split(@in@,@on@)"}
	if _, isNil := v.(Nil); isNil {
		if empty {
			return ""
		}
		if _, max := s.in.lenBounds(o.St, LenV{sp}); max == 0 {
			return ""
		}
		return "no items are returned for a string which is not empty"
	}
	ok, ps := s.in.parts(o.St, v)
	if !ok {
		return "unknown items " + describe(v)
	}
	if empty {
		if len(ps) == 0 {
			return ""
		}
		return "items are returned for an empty string"
	}
	spread := false
	for _, p := range ps {
		spread = spread || p.Spread
		if p.Spread {
			continue
		}
		if t, ok := dynOf(o.St, p.V); !ok || tname(t) != "string" {
			return "an item is no string: " + describe(p.V)
		}
		if !strings.Contains(p.V.Key(), "@in@") {
			return "an item does not come from the input: " + describe(p.V)
		}
	}
	if min, max := s.in.lenBounds(o.St, LenV{sp}); !spread && (min != len(ps) || max != len(ps)) {
		return fmt.Sprintf("%d items are returned for a string with %d to %d parts", len(ps), min, max)
	}
	return ""
}

var opSpecs = []opSpec{
	{name: "duration", in: []opIn{{t: "string", may: true, out: "int", result: seconds}}, free: map[string]bool{"nil": true, "[]interface{}": true}},
	{name: "changeCase", args: [][2]string{{"to", "lower"}}, in: []opIn{{t: "string", out: "string", result: same("strings.ToLower(@in@)")}}},
	{name: "changeCase", args: [][2]string{{"to", "upper"}}, in: []opIn{{t: "string", out: "string", result: same("strings.ToUpper(@in@)")}}},
	{name: "valueExists", in: []opIn{
		{t: "string", out: "bool", result: boolWhen("it is not empty", lenCond)},
		{t: "[]*xmlquery.Node", out: "bool", result: boolWhen("it is not empty", lenCond)}}, free: map[string]bool{}},
	{name: "inverse", in: []opIn{{t: "bool", out: "bool", result: boolWhen("the input is false", inverseCond)}}},
	{name: "replace", args: [][2]string{{"regex", "*re"}, {"new", "*new"}}, in: []opIn{{t: "string", out: "string", result: calls(
		"(*regexp.Regexp).ReplaceAllString(regexp.Compile(@re@),@in@,@new@)", "(*regexp.Regexp).ReplaceAllString(regexp.MustCompile(@re@),@in@,@new@)",
		"(*regexp.Regexp).ReplaceAll(regexp.Compile(@re@),@in@,@new@)", "(*regexp.Regexp).ReplaceAll(regexp.MustCompile(@re@),@in@,@new@)")}}},
	{name: "split", args: [][2]string{{"on", "*on"}}, in: []opIn{{t: "string", out: "[]interface{}", result: splitResult}}},
	{name: "timeParse", args: [][2]string{{"format", "*format"}, {"layout", "*layout"}}, in: []opIn{{t: "string", may: true, out: "string", result: calls(
		"(time.Time).Format(time.Parse(@format@,@in@),@layout@)", "(time.Time).AppendFormat(time.Parse(@format@,@in@),_,@layout@)")}}},
	{name: "currentTime", args: [][2]string{{"format", "*format"}}, any: true},
	{name: "toCamelCase", args: [][2]string{{"delimiter", "*delimiter"}}, in: []opIn{{t: "string", out: "string", result: mentions("@in@")}}},
	{name: "removeHTML", in: []opIn{{t: "string", out: "string", result: sanitized}}},
	{name: "convertToFloat64", in: []opIn{
		{t: "string", may: true, out: "float64", result: calls("strconv.ParseFloat(@in@,64)")},
		{t: "int", out: "float64", result: same("float64(@in@)")},
		{t: "float64", out: "float64", result: same("@in@")}}, free: map[string]bool{"int64": true}},
	{name: "convertToInt64", in: []opIn{
		{t: "string", may: true, out: "int64", result: calls("strconv.ParseInt(@in@,10,64)")},
		{t: "int", out: "int64", result: same("int64(@in@)")},
		{t: "int64", out: "int64", result: same("@in@")},
		{t: "float64", out: "int64", result: same("int64(@in@)")}}},
	{name: "convertToBool", in: []opIn{
		{t: "string", may: true, out: "bool", result: calls("strconv.ParseBool(@in@)")},
		{t: "bool", out: "bool", result: same("@in@")},
		{t: "int", out: "bool", result: boolWhen("it is not 0", nonZero)},
		{t: "int64", out: "bool", result: boolWhen("it is not 0", nonZero)},
		{t: "float64", out: "bool", result: boolWhen("it is not 0", nonZero)},
		{t: "[]interface{}", out: "bool", result: boolWhen("it is not empty", lenCond)}}},
}

func init() {
	register("T06", "each operation, initialised with valid arguments and given an input of every dynamic type a value can have, returns on every path a value of the documented output type computed from the input and arguments, and an error for the types it does not support; max returns an item no other item exceeds", runT06)
}

// newOp initialises an operation and calls f with the states after it.
func (c *Ctx) newOp(name string, args [][2]string, rule, construct string, f func(s *Scenario, op Val)) {
	t := c.P.Type("transform", name)
	ini := c.P.Method("transform", name, "init")
	if t == nil || ini == nil {
		undecided("the operation %s is not there", name)
	}
	s := c.Scen()
	op := s.zeroObject("op", t)
	var kv []Val
	for _, a := range args {
		var v Val = cStr(a[1])
		if strings.HasPrefix(a[1], "*") {
			v = Sym{ID: "@" + a[1][1:] + "@", T: types.Typ[types.String]}
		}
		kv = append(kv, cStr(a[0]), v)
	}
	am := s.dict("args", ini.Params[1].Type(), kv...)
	n := 0
	for _, o := range s.run(ini, op, am) {
		if o.Panic != "" {
			c.Bad(rule, construct, c.Pos(o.Pos), "initialising panics: "+o.Panic, traceOf(o)...)
			continue
		}
		if nilState(o.St, o.Ret[0]) != 1 {
			// a regular expression can be refused, other arguments of the right names not
			if strings.Contains(s.in.content(o.St, o.Ret[0], 4), "regexp.") {
				continue
			}
			c.Bad(rule, construct, c.Pos(o.Pos), "valid arguments are refused: "+describe(o.Ret[0]), traceOf(o)...)
			continue
		}
		n++
		s2 := c.Scen()
		s2.st = o.St
		f(s2, op)
	}
	if n == 0 {
		c.Bad(rule, construct, "-", "initialising never succeeds with valid arguments")
	}
}

func runT06(c *Ctx) {
	const rule = "operation result"
	for _, sp := range opSpecs {
		sp := sp
		con := sp.name
		tf := c.P.Method("transform", sp.name, "transform")
		for _, t := range rawTypes(c) {
			t := t
			c.Guard(rule, con+" of "+tname(t), func() {
				c.Anchor(tf, sp.name+".transform")
				c.newOp(sp.name, sp.args, rule, con+" of "+tname(t), func(s *Scenario, op Val) {
					var raw Val = Nil{}
					if t != nil {
						raw = Iface{t, Sym{ID: "@in@", T: t}}
					}
					s.run(tf, op, raw)
					var want *opIn
					for i := range sp.in {
						if sp.in[i].t == tname(t) {
							want = &sp.in[i]
						}
					}
					good := 0
					s.each(rule, con+" of "+tname(t), func(o Outcome) string {
						failed := nilState(o.St, o.Ret[1])
						if failed == 0 {
							return "unknown error " + describe(o.Ret[1])
						}
						if failed == 1 {
							good++
						}
						res := s.in.resolve(o.St, o.Ret[0])
						switch {
						case sp.any:
							if failed == 2 {
								return "an error is returned"
							}
							if d, ok := dynOf(o.St, res); !ok || tname(d) != "string" {
								return "the result is no string: " + describe(res)
							}
							f := o.St.Facts["@format@"]
							if (f == nil || f.Eq == nil) && !strings.Contains(res.Key(), "@format@") {
								return "the result does not depend on the format"
							}
							return ""
						case want != nil:
							if failed == 2 {
								if want.may {
									return ""
								}
								return "an error is returned for a supported input"
							}
							d, ok := dynOf(o.St, res)
							if !ok || d == nil || tname(d) != want.out {
								return fmt.Sprintf("the result %s is not of type %s", describe(res), want.out)
							}
							return want.result(s, o, unwrap(s.in, o.St, res))
						case sp.free[tname(t)]:
							if failed == 2 {
								return ""
							}
							if d, ok := dynOf(o.St, res); !ok || d == nil || tname(d) != sp.in[0].out {
								return fmt.Sprintf("the result %s is not of type %s", describe(res), sp.in[0].out)
							}
							return ""
						}
						if failed == 1 {
							return fmt.Sprintf("no error is returned for an input of type %s but %s", tname(t), describe(res))
						}
						return ""
					})
					if good == 0 && (want != nil || sp.any) {
						c.Bad(rule, con+" of "+tname(t), "-", "it never succeeds for a supported input")
					}
				})
			})
		}
	}
	c.Need(rule, 150)
	pieces(c)
	maxOrder(c)
}

// pieces checks what camel casing and splitting do with a text of one to three parts.
func pieces(c *Ctx) {
	const rule = "parts of a text"
	str := types.Typ[types.String]
	for _, name := range []string{"split", "toCamelCase"} {
		tf := c.P.Method("transform", name, "transform")
		arg := map[string]string{"split": "on", "toCamelCase": "delimiter"}[name]
		for n := 1; n <= 3; n++ {
			con := fmt.Sprintf("%s of %d parts", name, n)
			c.Guard(rule, con, func() {
				c.Anchor(tf, name+".transform")
				c.newOp(name, [][2]string{{arg, "*sep"}}, rule, con, func(s *Scenario, op Val) {
					var ps []Val
					for i := 0; i < n; i++ {
						ps = append(ps, Sym{ID: fmt.Sprintf("part%d", i), T: str})
					}
					used, other := false, ""
					s.in.NUnknown = 6
					list := s.slice("parts", types.NewSlice(str), ps...)
					s.in.Hook = func(ci *CallInfo) []CallOut {
						switch ci.Name {
						case "strings.Split":
						case "strings.SplitN":
							if ci.In.resolve(ci.St, ci.Args[2]).Key() != "-1" {
								other = "at most " + describe(ci.Args[2]) + " parts"
								return nil
							}
						default:
							return nil
						}
						a, b := ci.In.resolve(ci.St, ci.Args[0]), ci.In.resolve(ci.St, ci.Args[1])
						if a.Key() != "@in@" || b.Key() != "@sep@" {
							other = describe(a) + " at " + describe(b)
							return nil
						}
						used = true
						return ok1(ci.St, list)
					}
					s.st.fact(Sym{ID: "@in@", T: str})
					s.run(tf, op, Iface{str, Sym{ID: "@in@", T: str}})
					s.each(rule, con, func(o Outcome) string {
						if nilState(o.St, o.Ret[1]) != 1 {
							return "an error is returned"
						}
						if other != "" {
							return "it is not the text which is split at the separator but " + other
						}
						if !used {
							return "" // taken apart in another way
						}
						v := unwrap(s.in, o.St, s.in.resolve(o.St, o.Ret[0]))
						if f := o.St.Facts["@in@"]; f != nil && (f.LenMax == 0 || f.Eq != nil && f.Eq.Key() == "\"\"") {
							return "" // the empty text has no parts
						}
						var got []Val
						if name == "split" {
							ok, parts := s.in.parts(o.St, v)
							if !ok {
								return "unknown items " + describe(v)
							}
							for _, p := range parts {
								if p.Spread {
									return "unknown items " + describe(v)
								}
								got = append(got, p.V)
							}
						} else if cat, ok := v.(Cat); ok {
							got = cat.Parts
						} else {
							got = []Val{v}
						}
						if len(got) != n {
							return fmt.Sprintf("the result is %s, made of %d parts and not %d", describe(v), len(got), n)
						}
						for i := range got {
							p := fmt.Sprintf("part%d", i)
							k := s.in.content(o.St, unwrap(s.in, o.St, s.in.resolve(o.St, got[i])), 2)
							switch lower := "strings.ToLower(" + p + ")"; {
							case !strings.Contains(k, p):
								return fmt.Sprintf("part %d of the result is %s", i, describe(got[i]))
							case name == "split" && k != p:
								return fmt.Sprintf("part %d of the text becomes %s", i, describe(got[i]))
							case name == "toCamelCase" && i == 0 && k != lower:
								return fmt.Sprintf("the first part of the text becomes %s", describe(got[i]))
							case name == "toCamelCase" && i > 0 && (k == p || strings.Contains(k, lower) || wholeText(k, p)):
								return fmt.Sprintf("a later part of the text becomes %s", describe(got[i]))
							}
						}
						return ""
					})
				})
			})
		}
	}
	c.Need(rule, 6)
}

// wholeText: the text is a change of the whole part which is not that to a title.
func wholeText(k, part string) bool {
	h, args := callOf(k)
	return len(args) == 1 && args[0] == part && strings.HasPrefix(h, "strings.") && h != "strings.Title" || strings.Contains(k, "strings.Trim")
}

// maxOrder checks that max returns the "return" field of an item whose "by" field no other item exceeds, for arrays of
// up to three items, in every order of their values.
func maxOrder(c *Ctx) {
	const rule = "max returns the maximum"
	tf := c.P.Method("transform", "max", "transform")
	for n := 0; n <= 3; n++ {
		for kind := 0; kind < 3; kind++ {
			con := fmt.Sprintf("max of %d items, %s", n, []string{"float64", "int", "mixed"}[kind])
			kind := kind
			c.Guard(rule, con, func() {
				c.Anchor(tf, "max.transform")
				c.newOp("max", [][2]string{{"by", "@.by"}, {"return", "@.ret"}}, rule, con, func(s *Scenario, op Val) {
					s.in.NUnknown = 12
					var items []Val
					for i := 0; i < n; i++ {
						items = append(items, s.nn(fmt.Sprintf("item%d", i), anyT))
					}
					raw := Iface{types.NewSlice(anyT), s.slice("in", types.NewSlice(anyT), items...)}
					s.in.Hook = func(ci *CallInfo) []CallOut {
						if !strings.HasSuffix(ci.Name, "jsonpath.Get") || len(ci.Args) != 2 {
							return nil
						}
						it := ci.Args[1].Key()
						p, ok := asStr(ci.In.resolve(ci.St, ci.Args[0]))
						if !ok || !strings.HasPrefix(it, "item") {
							return nil
						}
						switch p {
						case "$.by":
							var t types.Type = types.Typ[types.Float64]
							if kind == 1 || kind == 2 && it == "item1" {
								t = types.Typ[types.Int]
							}
							return ok1(ci.St, Iface{t, Sym{ID: "by" + it[4:], T: t}}, Nil{})
						case "$.ret":
							return ok1(ci.St, Sym{ID: "ret" + it[4:], T: anyT}, Nil{})
						}
						return nil
					}
					s.run(tf, op, raw)
					s.each(rule, con, func(o Outcome) string {
						switch nilState(o.St, o.Ret[1]) {
						case 2:
							if n == 0 {
								return ""
							}
							return "an error is returned: " + describe(o.Ret[1])
						case 0:
							return "unknown error"
						}
						if n == 0 {
							return "no error is returned for an empty array"
						}
						k := s.in.resolve(o.St, o.Ret[0]).Key()
						if !strings.HasPrefix(k, "ret") {
							return "the return field of no item is returned but " + describe(o.Ret[0])
						}
						win := "by" + k[3:]
						le := closure(o.St)
						for j := 0; j < n; j++ {
							b := fmt.Sprintf("by%d", j)
							if b != win && !le[b+"<="+win] {
								return fmt.Sprintf("item %s is returned though item %d can be greater", k[3:], j)
							}
							if fmt.Sprint(j) < k[3:] && !le[b+"<"+win] {
								return fmt.Sprintf("item %s is returned though item %d before it can be equal", k[3:], j)
							}
						}
						return ""
					})
				})
			})
		}
	}
	// long lists of known numbers
	for _, n := range cutoffs(c, "transform", 3, 1200) {
		for _, at := range []int{0, n / 2, n - 1} {
			n, at := n, at
			con := fmt.Sprintf("max of %d items, the greatest is at %d", n, at)
			c.Guard(rule, con, func() {
				c.newOp("max", [][2]string{{"by", "@.by"}, {"return", "@.ret"}}, rule, con, func(s *Scenario, op Val) {
					s.in.MaxCons = 5000
					var items []Val
					for i := 0; i < n; i++ {
						items = append(items, s.nn(fmt.Sprintf("item%d", i), anyT))
					}
					s.in.Hook = func(ci *CallInfo) []CallOut {
						if !strings.HasSuffix(ci.Name, "jsonpath.Get") || len(ci.Args) != 2 || !strings.HasPrefix(ci.Args[1].Key(), "item") {
							return nil
						}
						it := ci.Args[1].Key()[4:]
						switch p, _ := asStr(ci.In.resolve(ci.St, ci.Args[0])); p {
						case "$.by":
							v := 1.0
							if it == fmt.Sprint(at) {
								v = 2
							}
							return ok1(ci.St, Iface{types.Typ[types.Float64], Const{constant.MakeFloat64(v), types.Typ[types.Float64]}}, Nil{})
						case "$.ret":
							return ok1(ci.St, Sym{ID: "ret" + it, T: anyT}, Nil{})
						}
						return nil
					}
					s.run(tf, op, Iface{types.NewSlice(anyT), s.slice("in", types.NewSlice(anyT), items...)})
					s.each(rule, con, func(o Outcome) string {
						if nilState(o.St, o.Ret[1]) != 1 {
							return "an error is returned: " + describe(o.Ret[1])
						}
						if k := s.in.resolve(o.St, o.Ret[0]).Key(); k != fmt.Sprintf("ret%d", at) {
							return "the value is " + describe(o.Ret[0])
						}
						return ""
					})
				})
			})
		}
	}
	c.Need(rule, 20)
}

// closure is the order which follows from the comparisons of a path.
func closure(st *State) map[string]bool {
	le := map[string]bool{}
	terms := map[string]bool{}
	norm := func(x string) string {
		for strings.HasPrefix(x, "float64(") && strings.HasSuffix(x, ")") {
			x = x[8 : len(x)-1]
		}
		terms[x] = true
		return x
	}
	for k, v := range st.Preds {
		if a, b, ok := strings.Cut(k, "<"); ok {
			a, b = norm(a), norm(b)
			if v {
				le[a+"<="+b], le[a+"<"+b] = true, true
			} else {
				le[b+"<="+a] = true
			}
		}
		if strings.HasPrefix(k, "eq(") && v {
			if a, b, ok := strings.Cut(strings.TrimSuffix(k[3:], ")"), ","); ok {
				a, b = norm(a), norm(b)
				le[a+"<="+b], le[b+"<="+a] = true, true
			}
		}
	}
	var ts []string
	for t := range terms {
		ts = append(ts, t)
	}
	sort.Strings(ts)
	for _, k := range ts {
		for _, i := range ts {
			for _, j := range ts {
				if le[i+"<="+k] && le[k+"<="+j] {
					le[i+"<="+j] = true
				}
				if le[i+"<"+k] && le[k+"<="+j] || le[i+"<="+k] && le[k+"<"+j] {
					le[i+"<"+j] = true
				}
			}
		}
	}
	return le
}
