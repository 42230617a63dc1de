package main

// avroShapes are schemas beyond those of the structs whose Avro code is looked at.
func avroShapes(deep bool) []*gsch {
	str := func(n string) *gsch { return gLeaf(n, "string") }
	out := []*gsch{
		// equal names at different places
		gObj("", gObj("a", gArr("l", gObj("", str("x")))), gObj("b", gArr("l", gObj("", gLeaf("y", "integer"))))),
		gObj("", gObj("a", gObj("o", str("x"))), gObj("b", gObj("o", gLeaf("y", "integer")))).need("a", "b"),
		gObj("", gObj("a", gObj("o", str("x")).null()).null(), gObj("b", gObj("o", gLeaf("y", "integer")).null()).null()),
		gObj("", str("root"), gObj("o", gObj("root", str("o")))),
		// names starting as the metadata
		gObj("", str("avroName"), gLeaf("Avro", "integer")).need("Avro"),
		gObj("", gObj("avroDetails", str("x"))),
		// deep arrays
		gObj("", gArr("l", gObj("", gArr("m", gObj("", gTime("t"), gTime("u").null(), gArr("v", gTime("")), str("s").null())), gObj("o", gTime("t"), gLeaf("n", "number", "null"), gLeaf("b", "boolean", "null"))))),
		gObj("", gObj("o", gArr("l", gObj("", str("x"), gLeaf("n", "integer").null())), gObj("p", gArr("l", gObj("", gLeaf("b", "boolean"))), gTime("t").null()).null()).null()).need("o"),
		gObj("", gObj("o", gObj("p", gObj("q", gLeaf("b", "boolean"), gTime("t"), str("s").null())).need("q")).need("p")).need("o"),
		gObj("", gObj("o", gObj("p", gObj("q", gLeaf("b", "boolean"), gTime("t"), str("s").null()).null()).null()).null()),
		gObj("", gArr("l", gObj("", gObj("p", str("x")).null()))),
		gObj("", gArr("l", gArr("", str("")).null())),
		// only hydrated fields beside others
		gObj("", gLeaf("h", "graphql-hydration").to("T"), str("a"), gLeaf("i", "graphql-hydration").to("T")),
		gObj("", gLeaf("h", "graphql-hydration").to("T")),
		gObj(""),
		gObj("", str("a_b"), str("c-d"), str("e.f")),
		gObj("", str("schema"), gLeaf("serialize", "integer"), str("schemaName"), str("marshalJSON").null(), gLeaf("unmarshalJSON", "number"), str("avroCRC64Fingerprint"), gLeaf("setBoolean", "boolean"), gLeaf("setInt", "integer"), gTime("setLong"), str("setFloat"), str("setDouble"), str("setBytes"), str("setString"), str("get"), str("setDefault"), str("appendMap"), gArr("appendArray", str("")), str("nullField"), str("finalize")).need("setInt", "setLong", "get"),
		gObj("", str("int"), str("type"), str("z"), str("errors")),
	}
	for i, n := range []string{"schema", "get", "serialize", "finalize", "nullField", "setString", "marshalJSON"} {
		if i > 0 && !deep {
			out = append(out, gObj("", str(n), gObj("p", str(n))))
			continue
		}
		out = append(out,
			gObj("", str(n)),
			gObj("", str(n)).need(n),
			gObj("", gLeaf(n, "boolean").null()),
			gObj("", gTime(n).null()),
			gObj("", gArr(n, str(""))),
			gObj("", gArr(n, gObj("", str("x")))),
			gObj("", gObj(n, str("x"))).need(n),
			gObj("", gObj(n, str("x")).null()),
			gObj("", gObj("o", str(n), gObj("p", str(n)))).need("o"),
			gObj("", gObj(n, str(n), gObj("p", str(n)))).need(n))
	}
	for _, d := range []string{`say "a"`, `back\slash`, "tick ` tick", "tab\there"} {
		out = append(out, gObj("", str("a").about(d)))
	}
	return out
}
