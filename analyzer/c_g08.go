package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("G08", "the functions which convert times for Avro give the milliseconds since 1970 of every time, in order, leaving out what is nil", runG08)
}

// msHook has the methods of a time which are known, all others are uninterpreted.
func msHook(ci *CallInfo) []CallOut {
	switch ci.Name {
	case "(time.Time).UTC", "(time.Time).Local", "(time.Time).In":
		return ok1(ci.St, ci.Args[0])
	case "(time.Time).UnixMilli", "(time.Time).Unix", "(time.Time).Nanosecond":
		n := ci.Name[len("(time.Time)."):]
		return ok1(ci.St, Sym{ID: map[string]string{"UnixMilli": "ms", "Unix": "s", "Nanosecond": "ns"}[n] + "(" + ci.In.resolve(ci.St, ci.Args[0]).Key() + ")", T: ci.Sig.Results().At(0).Type()})
	}
	return nil
}

// singleParens drops parentheses which are directly in others.
func singleParens(k string) string {
	match := map[int]int{}
	var open []int
	for i := range k {
		switch k[i] {
		case '(':
			open = append(open, i)
		case ')':
			if len(open) == 0 {
				return k
			}
			match[open[len(open)-1]] = i
			open = open[:len(open)-1]
		}
	}
	drop := map[int]bool{}
	for i := range k {
		if k[i] == '(' && i+1 < len(k) && k[i+1] == '(' && match[i] == match[i+1]+1 {
			drop[i+1], drop[match[i+1]] = true, true
		}
	}
	var b strings.Builder
	for i := range k {
		if !drop[i] {
			b.WriteByte(k[i])
		}
	}
	return b.String()
}

// isMs: the value is the milliseconds of a time.
func isMs(v Val, t string) bool {
	k := strings.NewReplacer(" ", "", "int64(", "(", "(time.Millisecond)", "1000000").Replace(v.Key())
	k = strings.ReplaceAll(singleParens(k), "(ns("+t+"))", "ns("+t+")")
	for _, w := range []string{"ms(" + t + ")", "((s(" + t + ")*1000)+(ns(" + t + ")/1000000))", "((ns(" + t + ")/1000000)+(s(" + t + ")*1000))", "((1000*s(" + t + "))+(ns(" + t + ")/1000000))", "((ns(" + t + ")/1000000)+(1000*s(" + t + ")))"} {
		if k == w || k == "("+w+")" {
			return true
		}
	}
	return false
}

func runG08(c *Ctx) {
	const rule = "milliseconds of a time"
	timeT := c.P.ExtType("time", "Time")
	if timeT == nil {
		undecided("package time is not used")
	}
	ptrT := types.NewPointer(timeT)
	scen := func() *Scenario {
		s := c.Scen()
		s.in.Hook = msHook
		return s
	}
	pointer := func(s *Scenario, id string) Val {
		s.st.Heap["o:scen:"+id] = &Obj{V: Sym{ID: id, T: timeT}, T: timeT}
		return Ptr{Obj: "o:scen:" + id}
	}
	c.Guard(rule, "AvroTime", func() {
		s := scen()
		s.run(c.Anchor(c.P.Func("generate", "AvroTime"), "AvroTime"), Sym{ID: "t", T: timeT})
		s.each(rule, "AvroTime", func(o Outcome) string {
			if !isMs(o.Ret[0], "t") {
				return "gives " + describe(o.Ret[0]) + ", which is not the milliseconds of every time"
			}
			return ""
		})
	})
	for _, isNil := range []bool{true, false} {
		name := fmt.Sprintf("AvroOptionalTime nil: %v", isNil)
		c.Guard(rule, name, func() {
			s := scen()
			var t Val = Nil{ptrT}
			if !isNil {
				t = pointer(s, "t")
			}
			s.run(c.Anchor(c.P.Func("generate", "AvroOptionalTime"), "AvroOptionalTime"), t)
			s.each(rule, name, func(o Outcome) string {
				if n, ok := asInt(o.Ret[0]); isNil && (!ok || n != 0) || !isNil && !isMs(o.Ret[0], "t") {
					return "gives " + describe(o.Ret[0])
				}
				return ""
			})
		})
	}
	max := 4
	if c.Thorough {
		max = 7
	}
	list := func(fn string, ptr bool, n, mask int) {
		name := fmt.Sprintf("%s of %d", fn, n)
		if ptr {
			name += fmt.Sprintf(" nil %b", mask)
		}
		c.Guard(rule, name, func() {
			s := scen()
			var es []Val
			var want []string
			for i := 0; i < n; i++ {
				id := fmt.Sprintf("t%d", i)
				switch {
				case !ptr:
					es = append(es, Sym{ID: id, T: timeT})
				case mask&(1<<i) != 0:
					es = append(es, Nil{ptrT})
					continue
				default:
					es = append(es, pointer(s, id))
				}
				want = append(want, id)
			}
			f := c.Anchor(c.P.Func("generate", fn), fn)
			var arg Val = s.slice("times", f.Signature.Params().At(0).Type(), es...)
			if mask < 0 {
				arg = Nil{f.Signature.Params().At(0).Type()}
			}
			before := describe(es...)
			s.run(f, arg)
			s.each(rule, name, func(o Outcome) string {
				var got []Val
				if _, isNil := o.Ret[0].(Nil); !isNil {
					var ok bool
					if got, ok = s.in.elems(o.St, o.Ret[0]); !ok {
						return "gives " + describe(o.Ret[0])
					}
				}
				if len(got) != len(want) {
					return fmt.Sprintf("gives %d values for %d times", len(got), len(want))
				}
				for i, w := range want {
					if !isMs(s.in.resolve(o.St, got[i]), w) {
						return fmt.Sprintf("value %d is %s", i, describe(got[i]))
					}
				}
				if mask >= 0 {
					if now, ok := s.in.elems(o.St, arg); !ok || describe(now...) != before {
						return "changes the times"
					}
				}
				return ""
			})
		})
	}
	list("AvroTimeSlice", false, 0, -1)
	list("AvroOptionalTimeSlice", true, 0, -1)
	for n := 0; n <= max; n++ {
		list("AvroTimeSlice", false, n, 0)
		for mask := 0; mask < 1<<n; mask++ {
			list("AvroOptionalTimeSlice", true, n, mask)
		}
	}
	c.Need(rule, 40)
}
