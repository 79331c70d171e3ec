package main

// Documents: quantifiers (C10), the two representations (C11), returned values (C12).

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	E "github.com/octarinesec/MAPL/MAPL_engine"
)

func init() {
	register(&Prop{ID: "C10", Bounds: "quantifiers over all lists up to 3 elements and objects up to 3 entries of a value alphabet, all nestings of two quantifiers, all AND/OR/NOT trees up to 6 nodes inside, unions, deep scans, depth and size sweeps; runs of equal elements, 256, 257 and 1030 elements; both representations; map orders sorted and reversed (all orders of up to 4 entries)", Gen: genC10,
		Assume: []string{"a scalar parent selects nothing; a message without document satisfies neither ANY nor ALL"}})
	register(&Prop{ID: "C11", Bounds: "all condition forms and quantifiers over all documents of a bounded grammar, as bytes in several layouts and decoded", Gen: genC11,
		Assume: []string{"conditions compare scalars or test presence", "numbers compared as text (IN, RE) are written in plain decimal notation", "object keys are distinct"}})
	register(&Prop{ID: "C12", Bounds: "all lists up to 4 elements with every satisfying subset, return paths of every kind, all AND/OR/NOT placements up to 5 nodes of returning and plain children, ALL with return paths, equal records; both representations", Gen: genC12,
		Assume: []string{"records of object entries and deep scans are compared without order", "only the outermost ANY of a nesting returns"}})
}

// orders under which the engine's map iterations are explored
func rev(n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = n - 1 - i
	}
	return o
}

// perms of 0..n-1 in lexicographic order
func perms(n int) [][]int {
	var out [][]int
	var rec func(p []int, used int)
	rec = func(p []int, used int) {
		if len(p) == n {
			out = append(out, append([]int{}, p...))
			return
		}
		for i := 0; i < n; i++ {
			if used&(1<<i) == 0 {
				rec(append(p, i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	return out
}

// underOrders runs f with map iterations sorted and reversed.
func underOrders(f func(order string)) {
	E.VerifOrder = nil
	f("sorted")
	if E.VerifInstrumented {
		E.VerifOrder = rev
		defer func() { E.VerifOrder = nil }()
		f("reversed")
	}
}

// underAllOrders runs f with every order of maps of exactly n keys (others sorted).
func underAllOrders(n int, f func(order string)) {
	if !E.VerifInstrumented {
		f("native")
		return
	}
	defer func() { E.VerifOrder = nil }()
	for _, p := range perms(n) {
		p := p
		E.VerifOrder = func(k int) []int {
			if k == n {
				return p
			}
			o := make([]int, k)
			for i := range o {
				o[i] = i
			}
			return o
		}
		f(fmt.Sprint(p))
	}
}

// docMsgs builds the messages of a list of documents in one representation.
func docMsgs(docs []string, mode string) []*Msg {
	out := make([]*Msg, len(docs))
	base := mkMsg(nil)
	for i, d := range docs {
		out[i] = withDoc(base, d, mode)
	}
	return out
}

// runDocs checks one tree on every document in both representations.
func runDocs(g *Gen, c *C, docs []string) {
	g.Do(func(t *T) {
		txt := c.Text()
		t.Desc(func() string { return fmt.Sprintf("%s on %d documents", txt, len(docs)) })
		mr := anyRule("block", c)
		for _, mode := range modes {
			msgs := docMsgs(docs, mode)
			underOrders(func(order string) {
				rs := t.load(mr)
				r := &rs.Rules[0]
				for i, m := range msgs {
					t.State(txt, docs[i])
					t.expectCond(r, c, m, mode+" "+order)
					if m.M.RequestJsonRawRelative != nil || m.M.RequestRawInterfaceRelative != nil {
						t.Fail("%s: the current sub-document is left behind", mode)
					}
				}
				for i := len(msgs) - 1; i >= 0; i-- {
					t.expectDecision(r, mr, msgs[i], mode+" "+order+" backward")
				}
			})
		}
	})
}

// listDocs: {"a":[...]} for all lists up to n over elems
func listsOf(elems []string, n int) []string {
	out := []string{"[]"}
	lvl := []string{""}
	for i := 0; i < n; i++ {
		var nx []string
		for _, p := range lvl {
			for _, e := range elems {
				s := e
				if p != "" {
					s = p + "," + e
				}
				nx = append(nx, s)
				out = append(out, "["+s+"]")
			}
		}
		lvl = nx
	}
	return out
}

// objectsOf: all objects over the keys with values from vals (or absent)
func objectsOf(keys, vals []string) []string {
	out := []string{""}
	for _, k := range keys {
		var nx []string
		for _, p := range out {
			nx = append(nx, p)
			for _, v := range vals {
				e := js(k) + ":" + v
				if p != "" {
					e = p + "," + e
				}
				nx = append(nx, e)
			}
		}
		out = nx
	}
	for i := range out {
		out[i] = "{" + out[i] + "}"
	}
	return out
}

func wrap(f string, xs []string) []string {
	out := make([]string, len(xs))
	for i, x := range xs {
		out[i] = fmt.Sprintf(f, x)
	}
	return out
}

func quants(f func(op string, q func(p string, k *C) *C)) {
	f("ANY", any_)
	f("ALL", all_)
}

func rel(p, m, v string) *C   { return leaf("jsonpath:$RELATIVE"+p, m, v) }
func relNV(p, m string) *C    { return leafNV("jsonpath:$RELATIVE"+p, m) }
func keyIs(m, v string) *C    { return leaf("jsonpath:$KEY", m, v) }
func valIs(p, m, v string) *C { return leaf("jsonpath:$VALUE"+p, m, v) }

func genC10(g *Gen) {
	elems := []string{`{"x":1}`, `{"x":2}`, `{"y":1}`, `{}`, `1`, `null`, `[{"x":1}]`, `{"x":1,"y":2}`}
	lists := listsOf(elems, 3)
	listDocs := append(wrap(`{"a":%s,"c":1}`, lists), `{}`, `{"a":null}`, `{"a":1}`, `{"a":"x"}`, `{"b":[{"x":1}]}`, `{"a":true,"c":1}`)
	inner := []*C{
		rel(".x", "EQ", "1"), rel(".x", "NEQ", "1"), rel(".x", "GT", "1"), relNV(".x", "EX"), relNV(".x", "NEX"), rel(".x", "IN", "1,3"), rel(".x", "RE", "^[2]$"), rel(".x", "LE", "1"),
		not(rel(".x", "EQ", "1")), and(rel(".x", "EQ", "1"), rel(".y", "EQ", "2")), or(rel(".x", "EQ", "2"), rel(".y", "EQ", "1")),
		leaf("jsonpath:$.c", "EQ", "1"), and(leaf("jsonpath:$.c", "EQ", "1"), rel(".x", "EQ", "1")), leaf("domain", "EQ", "dom"), leaf("domain", "EQ", "other"),
		or(leaf("payloadSize", "LT", "100"), rel(".x", "EQ", "2")),
	}
	inner = append(inner, leaf("jsonpath:$.x", "EQ", "1"), leafNV("jsonpath:$.x", "EX"), leafNV("jsonpath:$.x", "NEX"), leaf("jsonpath:$.x", "NEQ", "1"), or(leaf("jsonpath:$.y", "EQ", "2"), rel(".x", "EQ", "2")), leaf("jsonpath:.x", "EQ", "1"), rel(".c", "EQ", "1"), relNV(".c", "NEX"), rel(".a", "EQ", "1"))
	parents := []string{"jsonpath:$.a[:]", "jsonpath:$.a", "jsonpath:.a[:]", "jsonpath:$..a[:]", "jsonpath:$.a[:],jsonpath:$.b[:]", "jsonpath:$.a[*]"}
	if g.Thorough() {
		elems = append(elems, `{"x":null}`, `"x"`, `[]`, `true`)
		lists = listsOf(elems, 3)
		listDocs = append(wrap(`{"a":%s,"c":1}`, lists), listDocs...)
	}
	quants(func(op string, q func(string, *C) *C) {
		for _, p := range parents {
			for _, in := range inner {
				runDocs(g, q(p, in), listDocs)
				if p == parents[0] {
					runDocs(g, not(q(p, in)), listDocs)
				}
			}
		}
	})
	// lists in lists
	nest := []string{`[{"x":1}]`, `[[{"x":1}]]`, `[[[{"x":1}],{"x":2}]]`, `[{"x":2},[{"x":1},[{"x":2}]]]`, `[[],[[]]]`, `[[[[{"x":1}]]]]`, `[[{"x":1},{"x":2}],[{"x":1}]]`, `[[{"x":2}],{"x":1}]`}
	listInList := wrap(`{"a":%s,"c":1}`, append(listsOf(nest, 2), nest...))
	quants(func(op string, q func(string, *C) *C) {
		for _, p := range []string{"jsonpath:$.a", "jsonpath:$.a[:]", "jsonpath:$..a", "jsonpath:$..a[:]", "jsonpath:$.a[*]", "jsonpath:$.a[0]", "jsonpath:$.a[0][:]", "jsonpath:$.a[:][:]", "jsonpath:$.a[*][*]"} {
			for _, in := range inner[:6] {
				runDocs(g, q(p, in), listInList)
			}
		}
	})
	// whole elements that are strings and numbers are reached through deeper lists only

	// objects: entries, keys and values
	vals := []string{`1`, `2`, `"s"`, `null`, `{"x":1}`, `{"x":2}`, `[{"x":1}]`}
	objDocs := append(wrap(`{"a":%s,"c":1}`, objectsOf([]string{"p", "q", "r"}, vals)), `{}`, `{"a":null}`, `{"a":1}`)
	objDocs = append(objDocs, `{"a":{"k-1":1}}`, `{"a":{"k.1":1,"p":2}}`, `{"a":{"":1}}`, `{"a":{"K":1,"k":2}}`, `{"a":{"é":1}}`, `{"a":{"a\"b":1}}`)
	ent := []*C{
		keyIs("EQ", "p"), keyIs("NEQ", "p"), keyIs("IN", "p,q"), keyIs("RE", "^[qr]$"), keyIs("NIN", "p,q"), keyIs("EQ", "k-1"), keyIs("EQ", "k.1"), keyIs("EQ", "é"), keyIs("EQ", `a"b`), keyIs("EQ", "k"),
		leafNV("jsonpath:$KEY", "EX"), leafNV("jsonpath:$VALUE", "EX"), leafNV("jsonpath:$VALUE", "NEX"),
		valIs("", "EQ", "1"), valIs("", "NEQ", "1"), valIs("", "GT", "1"), valIs("", "EQ", "s"), valIs("", "RE", "s"), valIs(".x", "EQ", "1"), valIs(".x", "NEQ", "1"), leafNV("jsonpath:$VALUE.x", "NEX"), valIs(`["x"]`, "GE", "2"),
		and(keyIs("EQ", "p"), valIs("", "EQ", "1")), or(keyIs("EQ", "q"), valIs("", "EQ", "2")), not(and(keyIs("EQ", "p"), valIs(".x", "EQ", "1"))), and(leaf("jsonpath:$.c", "EQ", "1"), keyIs("EQ", "r")),
		rel(".p", "EQ", "1"), relNV(".q", "EX"), rel(".p.x", "EQ", "1"),
	}
	quants(func(op string, q func(string, *C) *C) {
		for _, in := range ent {
			runDocs(g, q("jsonpath:$.a", in), objDocs)
			runDocs(g, q("jsonpath:$.*", in), objDocs)
		}
		// entries of the elements of a list
		elemDocs := wrap(`{"l":%s}`, listsOf([]string{`{"p":1}`, `{"q":2,"p":2}`, `{}`, `1`, `{"p":{"x":1}}`, `null`}, 2))
		quants(func(op2 string, q2 func(string, *C) *C) {
			for _, in := range ent[:26] {
				runDocs(g, q("jsonpath:$.l[:]", q2("jsonpath:$RELATIVE*", in)), elemDocs)
			}
		})
		// objects inside objects: the entry's value as parent
		deepObj := wrap(`{"a":%s}`, objectsOf([]string{"p", "q"}, objectsOf([]string{"x", "y"}, []string{`1`, `2`})))
		for _, in := range []*C{keyIs("EQ", "x"), valIs("", "EQ", "1"), and(keyIs("EQ", "y"), valIs("", "GT", "1"))} {
			runDocs(g, q("jsonpath:$.a.p", in), deepObj)
			runDocs(g, q("jsonpath:$..p", in), deepObj)
			runDocs(g, q("jsonpath:$.a.p,jsonpath:$.a.q", in), deepObj)
			quants(func(op2 string, q2 func(string, *C) *C) {
				runDocs(g, q("jsonpath:$.a", q2("jsonpath:$RELATIVE.p", in)), deepObj)
			})
		}
	})

	// all orders of the entries of an object
	for n := 2; n <= g.Pick(4, 5); n++ {
		n := n
		for mask := 0; mask < 1<<uint(n); mask++ {
			mask := mask
			quants(func(op string, q func(string, *C) *C) {
				g.Do(func(t *T) {
					var es []string
					for i := 0; i < n; i++ {
						es = append(es, fmt.Sprintf(`"k%d":%d`, i, mask>>uint(i)&1))
					}
					doc := `{"a":{` + strings.Join(es, ",") + `}}`
					c := q("jsonpath:$.a", valIs("", "EQ", "1"))
					t.Desc(func() string { return c.Text() + " on " + doc + " in every order of the entries" })
					for _, mode := range modes {
						m := withDoc(mkMsg(nil), doc, mode)
						rs := t.load(anyRule("block", c))
						underAllOrders(n, func(o string) {
							t.State(op, doc, o)
							t.expectCond(&rs.Rules[0], c, m, mode+" order "+o)
						})
					}
				})
			})
		}
	}

	// nested quantifiers
	il := listsOf([]string{`{"x":1}`, `{"x":2}`, `{}`}, 2)
	var oe []string
	for _, l := range il {
		oe = append(oe, `{"k":`+l+`}`)
	}
	oe = append(oe, `{"w":1,"k":[{"x":1}]}`, `{"w":1}`, `{"k":{"x":1}}`, `{"k":1}`)
	var nestDocs []string
	for _, l := range listsOf(oe, 2) {
		nestDocs = append(nestDocs, `{"a":`+l+`,"b":[{"x":1}],"c":1}`)
	}
	nestDocs = append(nestDocs, `{"a":[{"k":[{"x":1}]}]}`, `{"b":[{"x":2},{"x":1}]}`, `{}`)
	quants(func(o1 string, q1 func(string, *C) *C) {
		quants(func(o2 string, q2 func(string, *C) *C) {
			x1 := rel(".x", "EQ", "1")
			in2 := q2("jsonpath:$RELATIVE.k[:]", x1)
			cs := []*C{
				in2, not(in2), q2("jsonpath:$RELATIVE.k", x1), q2("jsonpath:$RELATIVE.k[:]", not(x1)), q2("jsonpath:$RELATIVE..k[:]", x1),
				and(in2, rel(".w", "EQ", "1")), and(rel(".w", "EQ", "1"), in2), or(in2, rel(".w", "EQ", "1")), or(rel(".w", "EQ", "1"), in2),
				and(not(in2), relNV(".w", "NEX")), and(in2, q2("jsonpath:$RELATIVE.k[:]", rel(".x", "EQ", "2"))), or(in2, not(in2)),
				q2("jsonpath:$.b[:]", x1), and(q2("jsonpath:$.b[:]", x1), relNV(".k", "EX")), and(relNV(".k", "EX"), q2("jsonpath:$.b[:]", x1), in2),
				q2("jsonpath:$RELATIVE.k[:],jsonpath:$.b[:]", x1), q2("jsonpath:$.b[:],jsonpath:$RELATIVE.k[:]", rel(".x", "EQ", "2")),
				q2("jsonpath:$RELATIVE.k[:],jsonpath:$.b[:],jsonpath:$.z[:]", x1), q2("jsonpath:$.z[:],jsonpath:$RELATIVE.k[:],jsonpath:$.b[:]", x1), q2("jsonpath:$.b[:],jsonpath:$.z[:],jsonpath:$RELATIVE.k[:]", rel(".x", "EQ", "2")), q2("jsonpath:$RELATIVE.k[:],jsonpath:$.z[:],jsonpath:$RELATIVE.k[:]", rel(".x", "EQ", "2")),
				q2("jsonpath:$RELATIVE.z[:],jsonpath:$.b[:],jsonpath:$RELATIVE.k[:]", rel(".x", "NEQ", "1")), q2("jsonpath:$.b[:],jsonpath:$RELATIVE.k[:],jsonpath:$RELATIVE.z[:]", rel(".x", "EQ", "1")), q2("jsonpath:$.a[:],jsonpath:$RELATIVE.k[:],jsonpath:$.b[:]", relNV(".x", "EX")),
				q2("jsonpath:$.k[:]", x1), q2("jsonpath:$RELATIVE.b[:]", x1), q2("jsonpath:$RELATIVE.k[:]", leaf("jsonpath:$.x", "EQ", "1")), q2("jsonpath:$RELATIVE.k[:]", rel(".w", "EQ", "1")), q2("jsonpath:$RELATIVE.k[:]", rel(".c", "EQ", "1")),
				q2("jsonpath:$RELATIVE.k[:]", and(x1, leaf("jsonpath:$.c", "EQ", "1"))), q2("jsonpath:$RELATIVE.k[:]", leaf("jsonpath:$.c", "EQ", "1")),
				q2("jsonpath:$RELATIVE.k[:]", any_("jsonpath:$.b[:]", x1)), q2("jsonpath:$RELATIVE.k[:]", and(any_("jsonpath:$.b[:]", x1), x1)),
				q2("jsonpath:$RELATIVE.k[:]", and(all_("jsonpath:$.a[:]", relNV(".k", "EX")), x1)),
			}
			for _, c := range cs {
				runDocs(g, q1("jsonpath:$.a[:]", c), nestDocs)
			}
			runDocs(g, and(q1("jsonpath:$.a[:]", in2), q2("jsonpath:$.b[:]", x1)), nestDocs)
			runDocs(g, or(not(q1("jsonpath:$.a[:]", in2)), q2("jsonpath:$.b[:]", x1), leaf("jsonpath:$.c", "EQ", "2")), nestDocs)
			// a path through the inner list directly
			runDocs(g, q1("jsonpath:$.a[:].k[:]", x1), nestDocs)
			runDocs(g, q1("jsonpath:$..k[:]", x1), nestDocs)
			runDocs(g, q1("jsonpath:$..x", leaf("jsonpath:$.c", "EQ", "1")), nestDocs)
			runDocs(g, q1("jsonpath:$.a[0].k[:]", x1), nestDocs)
			runDocs(g, q1("jsonpath:$.a[1].k", x1), nestDocs)
			// relative references outside of a quantifier select nothing
			runDocs(g, q1("jsonpath:$RELATIVE.a[:]", x1), nestDocs[:20])
		})
	})

	// spellings of the parent path
	spell := []string{"jsonpath:$.p.q-1[:]", `jsonpath:$.p["q-1"][:]`, `jsonpath:$.p['q-1'][:]`, `jsonpath:$.'p'.'q-1'[:]`, `jsonpath:$.p.'q-1'`, `jsonpath:$.p["q-1"]`, "jsonpath:.p.q-1[:]"}
	spDocs := wrap(`{"p":{"q-1":%s,"q":[{"x":3}]}}`, listsOf(elems[:4], 2))
	quants(func(op string, q func(string, *C) *C) {
		for _, p := range spell {
			for _, in := range inner[:5] {
				runDocs(g, q(p, in), spDocs)
			}
			runDocs(g, q(p+",jsonpath:$.p.q[:]", inner[0]), spDocs)
			runDocs(g, q("jsonpath:$.p.q[:],"+p, rel(".x", "EQ", "3")), spDocs)
		}
		// relative spellings
		for _, rp := range []string{".x-1", `.["x-1"]`, `.['x-1']`, `.'x-1'`, `."x-1"`} {
			runDocs(g, q("jsonpath:$.a[:]", rel(rp, "EQ", "1")), wrap(`{"a":%s}`, listsOf([]string{`{"x-1":1}`, `{"x":1}`, `{"x-1":2}`}, 2)))
		}
	})

	// Boolean trees inside a quantifier, two elements with every assignment
	for n := 1; n <= g.Pick(5, 6); n++ {
		for _, s := range shapes(n) {
			c, k := instantiate(s, func(i int) *C { return rel(fmt.Sprintf(".v%d", i), "EQ", "1") })
			if k > 4 {
				continue
			}
			quants(func(op string, q func(string, *C) *C) {
				c := q("jsonpath:$.a[:]", c)
				g.Do(func(t *T) {
					t.Desc(func() string { return c.Text() })
					rs := t.load(anyRule("block", c))
					elem := func(m int) string {
						var p []string
						for i := 0; i < k; i++ {
							p = append(p, fmt.Sprintf(`"v%d":%d`, i, m>>uint(i)&1))
						}
						return "{" + strings.Join(p, ",") + "}"
					}
					for x := 0; x < 1<<uint(k); x++ {
						for y := 0; y < 1<<uint(k); y++ {
							doc := fmt.Sprintf(`{"a":[%s,%s]}`, elem(x), elem(y))
							t.State(c.Text(), doc)
							t.expectCond(&rs.Rules[0], c, withDoc(mkMsg(nil), doc, modes[(x+y)&1]), modes[(x+y)&1])
						}
					}
				})
			})
		}
	}

	// number of elements and position of the deciding one
	for _, n := range append(g.Lits.Sizes(20, 300), 256, 257, 1030) {
		n := n
		quants(func(op string, q func(string, *C) *C) {
			for _, nested := range []bool{false, true} {
				nested := nested
				g.Do(func(t *T) {
					t.Desc(func() string { return fmt.Sprintf("%s over %d elements, nested %v", op, n, nested) })
					base, dev := `{"x":1}`, `{"x":2}`
					if op == "ALL" {
						base, dev = dev, base
					}
					c := q("jsonpath:$.a[:]", rel(".x", "EQ", "2"))
					if nested {
						c = q("jsonpath:$.b[:]", q("jsonpath:$RELATIVE.a[:]", rel(".x", "EQ", "2")))
					}
					rs := t.load(anyRule("block", c))
					for _, p := range append([]int{-1}, positions(n)...) {
						es := make([]string, n)
						for i := range es {
							es[i] = base
						}
						if p >= 0 {
							es[p] = dev
						}
						doc := `{"a":[` + strings.Join(es, ",") + `]}`
						if nested {
							doc = `{"b":[{"a":[` + base + `]},` + doc + `]}`
						}
						for _, mode := range modes {
							t.State(op, fmt.Sprint(n, p, nested))
							t.expectCond(&rs.Rules[0], c, withDoc(mkMsg(nil), doc, mode), fmt.Sprintf("%s deviating position %d of %d", mode, p, n))
						}
					}
				})
			}
			// equal neighbours of several lengths before the deciding one
			if n >= 2 && n <= 12 {
				g.Do(func(t *T) {
					t.Desc(func() string { return fmt.Sprintf("%s over %d elements, runs of equal elements", op, n) })
					c := q("jsonpath:$.a[:]", rel(".x", "EQ", "2"))
					rs := t.load(anyRule("block", c))
					for _, pad := range []int{0, 20, 100, 300} {
						for _, p := range positions(n) {
							for _, like := range []string{"base", "index"} {
								es := make([]string, n)
								for i := range es {
									v := 1
									if op == "ALL" {
										v = 2
									}
									if i == p {
										v = 3 - v
									}
									tag := strings.Repeat("p", pad)
									if like == "index" {
										tag += fmt.Sprint(i / 2)
									}
									es[i] = fmt.Sprintf(`{"p":%q,"x":%d,"q":%q}`, tag, v, tag)
								}
								doc := `{"a":[` + strings.Join(es, ",") + `]}`
								for _, mode := range modes {
									t.State(op, fmt.Sprint("runs", n, p, pad, like))
									t.expectCond(&rs.Rules[0], c, withDoc(mkMsg(nil), doc, mode), mode+" runs of equal elements")
								}
							}
						}
					}
				})
			}
			// number of entries
			g.Do(func(t *T) {
				t.Desc(func() string { return fmt.Sprintf("%s over %d entries", op, n) })
				base, dev := 1, 2
				if op == "ALL" {
					base, dev = 2, 1
				}
				c := q("jsonpath:$.a", valIs("", "EQ", "2"))
				rs := t.load(anyRule("block", c))
				for _, p := range append([]int{-1}, positions(n)...) {
					es := make([]string, n)
					for i := range es {
						v := base
						if i == p {
							v = dev
						}
						es[i] = fmt.Sprintf(`"k%d":%d`, i, v)
					}
					doc := `{"a":{` + strings.Join(es, ",") + `}}`
					for _, mode := range modes {
						t.State(op, fmt.Sprint(n, p, "entries"))
						t.expectCond(&rs.Rules[0], c, withDoc(mkMsg(nil), doc, mode), fmt.Sprintf("%s deviating entry %d of %d", mode, p, n))
					}
				}
			})
			// number of parent paths
			if n > 40 {
				return
			}
			g.Do(func(t *T) {
				t.Desc(func() string { return fmt.Sprintf("%s over the union of %d parents", op, n) })
				base, dev := 1, 2
				if op == "ALL" {
					base, dev = 2, 1
				}
				var ps []string
				for i := 0; i < n; i++ {
					ps = append(ps, fmt.Sprintf("jsonpath:$.a%d[:]", i))
				}
				if n == 0 {
					return
				}
				c := q(strings.Join(ps, ","), rel(".x", "EQ", "2"))
				rs := t.load(anyRule("block", c))
				for _, p := range append([]int{-1}, positions(n)...) {
					for _, miss := range append([]int{-1}, positions(n)...) {
						var es []string
						for i := 0; i < n; i++ {
							v := base
							if i == p {
								v = dev
							}
							if i != miss {
								es = append(es, fmt.Sprintf(`"a%d":[{"x":%d}]`, i, v))
							}
						}
						doc := `{` + strings.Join(es, ",") + `}`
						for _, mode := range modes {
							t.State(op, fmt.Sprint(n, p, miss, "union"))
							t.expectCond(&rs.Rules[0], c, withDoc(mkMsg(nil), doc, mode), fmt.Sprintf("%s deviating parent %d, missing %d of %d", mode, p, miss, n))
						}
					}
				}
			})
		})
	}
	// depth of nesting: one list per level, the leaf at the bottom
	for d := 1; d <= g.Pick(12, 30); d++ {
		for pat := 0; pat < 4; pat++ {
			d, pat := d, pat
			g.Do(func(t *T) {
				ops := make([]bool, d) // true: ANY
				for i := range ops {
					ops[i] = pat == 0 || pat == 2 && i%2 == 0 || pat == 3 && i%2 == 1
				}
				c := rel(".x", "EQ", "1")
				for i := d - 1; i >= 0; i-- {
					p := "jsonpath:$RELATIVE.a[:]"
					if i == 0 {
						p = "jsonpath:$.a[:]"
					}
					if ops[i] {
						c = any_(p, and(c, rel(".m", "EQ", fmt.Sprint(i))))
					} else {
						c = all_(p, or(c, rel(".s", "EQ", "1")))
					}
				}
				t.Desc(func() string { return c.Text() })
				rs := t.load(anyRule("block", c))
				for _, leafv := range []int{1, 2} {
					for _, bad := range append([]int{-1}, positions(d)...) {
						doc := fmt.Sprintf(`{"x":%d`, leafv)
						for i := d - 1; i >= 0; i-- {
							m := i
							if i == bad {
								m = i + 1
							}
							doc = doc + fmt.Sprintf(`,"m":%d}`, m)
							doc = `{"a":[{"s":1},` + doc + `]`
						}
						doc += "}"
						for _, mode := range modes {
							t.State(fmt.Sprint(d, pat, leafv, bad))
							t.expectCond(&rs.Rules[0], c, withDoc(mkMsg(nil), doc, mode), mode)
						}
					}
				}
			})
		}
	}
	// messages without a document
	quants(func(op string, q func(string, *C) *C) {
		for _, c := range []*C{q("jsonpath:$.a[:]", rel(".x", "EQ", "1")), not(q("jsonpath:$.a[:]", rel(".x", "EQ", "1"))), q("jsonpath:$.a[:]", leaf("domain", "EQ", "dom")), or(q("jsonpath:$.a", keyIs("EQ", "p")), leaf("domain", "EQ", "dom"))} {
			c := c
			g.Do(func(t *T) {
				t.Desc(func() string { return c.Text() + " on a message without document" })
				t.State(c.Text())
				rs := t.load(anyRule("block", c))
				t.expectCond(&rs.Rules[0], c, mkMsg(nil), "no document")
			})
		}
	})
}

// ---------------------------------------------------------------------------
// returned values

// record: name -> value; rets: the records of a tree (model)
func rets(c *C, m *Msg, cur *cursor) (bool, []map[string]interface{}) {
	switch c.Op {
	case "AND":
		var out []map[string]interface{}
		for _, k := range c.Kids {
			h, r := rets(k, m, cur)
			if len(r) > 0 {
				out = r
			}
			if !h {
				return false, nil
			}
		}
		return true, out
	case "OR":
		res := false
		var out []map[string]interface{}
		for _, k := range c.Kids {
			h, r := rets(k, m, cur)
			if h {
				res = true
				out = append(out, r...)
			}
		}
		return res, out
	case "ANY":
		subs, ok := selectSubs(c.Parent, m, cur)
		if !ok {
			return false, nil
		}
		res := false
		var out []map[string]interface{}
		for _, s := range subs {
			if holds(c.Kids[0], m, s) {
				res = true
				if len(c.Ret) > 0 {
					out = append(out, record(c.Ret, "jsonpath:$RELATIVE", s.val))
				}
			}
		}
		return res, out
	case "":
		if len(c.Ret) > 0 && strings.HasPrefix(c.Attr, "jsonpath:") && holds(c, m, cur) {
			return true, []map[string]interface{}{record(c.Ret, "jsonpath:$", m.Doc)}
		}
	}
	return holds(c, m, cur), nil
}

// lret: the condition with return paths
func lret(c *C, r map[string]string) *C {
	o := *c
	o.Ret = r
	return &o
}

// record: the values at the return paths
func record(ret map[string]string, prefix string, val interface{}) map[string]interface{} {
	rec := map[string]interface{}{}
	for n, p := range ret {
		if !strings.HasPrefix(p, prefix) {
			continue
		}
		p = strings.TrimPrefix(p, prefix)
		if p == "*" {
			rec[n] = val
			continue
		}
		if prefix == "jsonpath:$" && strings.HasPrefix(p, "RELATIVE") {
			continue // no current sub-document
		}
		vs := jpath("$"+p, val)
		if definite(p) {
			if len(vs) == 1 {
				rec[n] = vs[0]
			}
		} else {
			if vs == nil {
				vs = []interface{}{}
			}
			rec[n] = vs
		}
	}
	return rec
}

// canon renders records for comparison.
func canon(recs []map[string]interface{}, ordered bool) string {
	var out []string
	for _, r := range recs {
		b, err := json.Marshal(r)
		if err != nil {
			out = append(out, err.Error())
			continue
		}
		// numbers: decoded documents hold float64
		var v interface{}
		json.Unmarshal(b, &v)
		b, _ = json.Marshal(v)
		out = append(out, string(b))
	}
	if !ordered {
		sort.Strings(out)
	}
	return "[" + strings.Join(out, " ") + "]"
}

// expectRets compares all ways to obtain the returned values with the model.
func (t *T) expectRets(rs *E.Rules, mr *R, m *Msg, ordered bool, what string) {
	h, want := rets(mr.Cond, m, nil)
	if !h {
		want = nil
	}
	w := canon(want, ordered)
	cmp := func(via string, got []map[string]interface{}) {
		if c := canon(got, ordered); c != w {
			t.Fail("%s: %s returned %s, model says %s\nrule: %s\nmessage: %s", what, via, c, w, mr.Text(), msgText(m))
		}
	}
	r := &rs.Rules[0]
	t.Steps(3)
	d, got := r.Check(&m.M)
	if (d != dDefault) != h {
		t.Fail("%s: decision %d, model says applies=%v\nrule: %s\nmessage: %s", what, d, h, mr.Text(), msgText(m))
	}
	cmp("Rule.Check", got)
	d2, got2 := E.CheckOneRule(&m.M, r)
	if d2 != d {
		t.Fail("%s: CheckOneRule %d after Rule.Check %d", what, d2, d)
	}
	cmp("CheckOneRule", got2)
	d3, _, _, _, _, _, all := E.Check(&m.M, rs)
	if d3 != d || len(all) != 1 {
		t.Fail("%s: Check decision %d with %d results, Rule.Check %d", what, d3, len(all), d)
	}
	cmp("Check", all[0])
	if h {
		tc, got4 := r.TestConditions(&m.M)
		t.Step()
		if !tc {
			t.Fail("%s: TestConditions false on an applying rule", what)
		}
		cmp("TestConditions", got4)
	}
	t.Out(fmt.Sprintf("%d records", min(len(want), 9)))
}

func runRets(g *Gen, c *C, docs []string, ordered bool) {
	g.Do(func(t *T) {
		txt := c.Text()
		t.Desc(func() string { return fmt.Sprintf("%s on %d documents", txt, len(docs)) })
		mr := anyRule("block", c)
		for _, mode := range modes {
			msgs := docMsgs(docs, mode)
			underOrders(func(order string) {
				rs := t.load(mr)
				for i, m := range msgs {
					t.State(txt, docs[i])
					t.expectRets(rs, mr, m, ordered, mode+" "+order)
				}
				for i := len(msgs) - 1; i >= 0; i -= 3 {
					t.expectRets(rs, mr, msgs[i], ordered, mode+" "+order+" backward")
				}
			})
		}
	})
}

func genC12(g *Gen) {
	// every subset of satisfying elements
	elems := []string{`{"x":1,"n":"a","d":{"e":5}}`, `{"x":2,"n":"b"}`, `{"x":1}`, `{"n":"c","x":3,"l":[1,2,{"e":1}]}`, `7`, `[{"x":1,"n":"in"}]`}
	docs := wrap(`{"a":%s,"c":1}`, listsOf(elems, 3))
	for mask := 0; mask < 16; mask++ {
		var es []string
		for i := 0; i < 4; i++ {
			es = append(es, fmt.Sprintf(`{"x":%d,"n":"e%d"}`, mask>>uint(i)&1, i))
		}
		docs = append(docs, `{"a":[`+strings.Join(es, ",")+`]}`)
	}
	docs = append(docs, `{}`, `{"a":null}`, `{"a":[{"x":1,"n":null},{"x":1,"n":""},{"x":1,"n":[]},{"x":1,"n":{}},{"x":1,"n":false},{"x":1,"n":1.5e3},{"x":1,"n":"q\"\\ é"}]}`)
	R1 := "jsonpath:$RELATIVE"
	retSets := []map[string]string{
		{"n": R1 + ".n"}, {"all": R1 + "*"}, {"n": R1 + ".n", "x": R1 + ".x"}, {"e": R1 + ".d.e"}, {"d": R1 + ".d", "none": R1 + ".zz"}, {"none": R1 + ".zz"},
		{"l": R1 + ".l"}, {"l0": R1 + ".l[0]"}, {"q": R1 + `["n"]`}, {"n": R1 + ".n", "all": R1 + "*", "e": R1 + ".d.e"}, {"x": R1 + ".n", "n": R1 + ".x"},
	}
	conds := []*C{rel(".x", "EQ", "1"), rel(".x", "GE", "1"), relNV(".n", "EX"), not(rel(".x", "EQ", "1")), and(rel(".x", "EQ", "1"), relNV(".n", "EX")), leaf("jsonpath:$.c", "EQ", "1"), leaf("domain", "EQ", "zz")}
	for _, r := range retSets {
		for _, c := range conds {
			for _, p := range []string{"jsonpath:$.a[:]", "jsonpath:$.a", "jsonpath:.a[:]"} {
				runRets(g, anyRet(p, r, c), docs, true)
			}
		}
		runRets(g, anyRet("jsonpath:$..a[:]", r, conds[0]), docs, true)
		// ALL yields none even with return paths
		a := all_("jsonpath:$.a[:]", conds[0])
		a.Ret = r
		runRets(g, a, docs, true)
		runRets(g, not(anyRet("jsonpath:$.a[:]", r, conds[0])), docs, true)
		runRets(g, allRet("jsonpath:$.a[:]", r, conds[0]), docs, true)
		runRets(g, and(anyRet("jsonpath:$.a[:]", r, conds[0]), allRet("jsonpath:$.a[:]", r, relNV(".x", "EX"))), docs, true)
		runRets(g, or(allRet("jsonpath:$.a[:]", r, relNV(".x", "EX")), anyRet("jsonpath:$.a[:]", r, conds[0])), docs, true)
		// entries of an object
		runRets(g, anyRet("jsonpath:$.a", r, keyIs("RE", "^[xn]$")), []string{`{"a":{"x":1,"n":"v"}}`, `{"a":{"n":"v","l":[1,2]}}`, `{"a":{"d":{"e":1}}}`, `{"a":{}}`, `{"a":{"x":{"n":1},"n":{"n":2},"z":{"n":3}}}`}, false)
		runRets(g, anyRet("jsonpath:$.a", r, leafNV("jsonpath:$VALUE", "EX")), []string{`{"a":{"x":1,"n":"v"}}`, `{"a":{"n":"v","l":[1,2]}}`, `{"a":{"d":{"e":1}}}`, `{"a":{}}`, `{"a":{"x":{"n":1},"n":{"n":2},"z":{"n":3}}}`}, false)
	}
	// every kind of value at a returned path; names that differ in case, with blanks, dots and other characters
	kinds := []string{`[1]`, `["a"]`, `[{"e":1}]`, `[[1]]`, `[[]]`, `[null]`, `[1,1]`, `{"e":[1]}`, `{"e":{"e":{}}}`, `"[1]"`, `"{}"`, `"5"`, `"null"`, `"true"`, `" a "`, `"a,b"`, `"\"a\""`, `"a\nb"`, `"<&>"`, `"\u0000"`, `"é\u4e2d"`, `-1`, `0`, `0.001`, `1e21`, `123456789`, `true`, `false`, `"` + strings.Repeat("long ", 300) + `"`}
	var kd []string
	for i, k := range kinds {
		kd = append(kd, `{"a":[{"x":1,"n":`+k+`,"N":"big","d":{"e":`+kinds[(i+1)%len(kinds)]+`}},{"x":1,"n":7}],"n":`+k+`,"x":1,"N":`+kinds[(i+3)%len(kinds)]+`}`)
	}
	for _, r := range []map[string]string{{"n": ".n"}, {"n": ".n", "N": ".N"}, {"N": ".n", "n": ".N"}, {"a": ".n", "A": ".d.e", "aA": ".N"}, {"the name": ".n", "the.name": ".N"}, {"": ".n"}, {"*": ".n"}, {"é": ".n", "jsonpath:$": ".N"}, {"rule": ".n", "ANY": ".d", "value": ".N"}, {"1": ".n", "01": ".N"}, {"w": "*", "W": ".n"}} {
		rr, la := map[string]string{}, map[string]string{}
		for k, v := range r {
			rr[k], la[k] = R1+v, "jsonpath:$"+v
		}
		runRets(g, anyRet("jsonpath:$.a[:]", rr, conds[0]), kd, true)
		runRets(g, lret(leaf("jsonpath:$.x", "EQ", "1"), la), kd, true)
	}
	// unions keep the order of the parents
	un := wrap(`{"a":%s,"b":[{"x":1,"n":"b1"},{"x":2,"n":"b2"}]}`, listsOf(elems[:4], 2))
	runRets(g, anyRet("jsonpath:$.a[:],jsonpath:$.b[:]", retSets[0], conds[0]), un, true)
	runRets(g, anyRet("jsonpath:$.b[:],jsonpath:$.a[:]", retSets[2], conds[1]), un, true)

	// equal records are all kept
	eq := wrap(`{"a":%s,"b":[{"x":1,"n":"e"},{"x":1,"n":"e"}],"n":"e","x":1}`, listsOf([]string{`{"x":1,"n":"e"}`, `{"x":1,"n":"f"}`, `{"x":1}`, `{"x":2,"n":"e"}`}, 3))
	ra, rb, rl := anyRet("jsonpath:$.a[:]", retSets[0], conds[0]), anyRet("jsonpath:$.b[:]", retSets[0], conds[0]), lret(leaf("jsonpath:$.x", "EQ", "1"), map[string]string{"n": "jsonpath:$.n"})
	for _, c := range []*C{ra, or(ra, ra), or(ra, rb), or(rb, ra), or(ra, rl), or(rl, ra, rl), or(rl, rl), or(ra, rb, ra), or(or(ra, rl), rb), and(or(ra, rb), leaf("jsonpath:$.x", "EQ", "1")), anyRet("jsonpath:$.a[:],jsonpath:$.b[:]", retSets[0], conds[0]), anyRet("jsonpath:$.a[:],jsonpath:$.a[:]", retSets[0], conds[0]), anyRet("jsonpath:$.a[:]", retSets[5], conds[0])} {
		runRets(g, c, eq, true)
	}

	// nested quantifiers: the records belong to the outermost ANY
	in := listsOf([]string{`{"x":1,"n":"i1"}`, `{"x":2,"n":"i2"}`}, 2)
	var oe []string
	for _, l := range in {
		oe = append(oe, `{"n":"o`+fmt.Sprint(len(oe))+`","k":`+l+`}`)
	}
	nd := wrap(`{"a":%s,"b":[{"x":1,"n":"bb"}]}`, listsOf(oe, 2))
	quants(func(op string, q func(string, *C) *C) {
		k := q("jsonpath:$RELATIVE.k[:]", rel(".x", "EQ", "1"))
		kr := anyRet("jsonpath:$RELATIVE.k[:]", map[string]string{"inner": R1 + ".n"}, rel(".x", "EQ", "1"))
		for _, r := range retSets[:3] {
			runRets(g, anyRet("jsonpath:$.a[:]", r, k), nd, true)
			runRets(g, anyRet("jsonpath:$.a[:]", r, kr), nd, true)
			runRets(g, anyRet("jsonpath:$.a[:]", r, and(k, q("jsonpath:$.b[:]", rel(".x", "EQ", "1")))), nd, true)
			runRets(g, anyRet("jsonpath:$.a[:]", r, and(q("jsonpath:$.b[:]", rel(".x", "EQ", "1")), relNV(".n", "EX"))), nd, true)
			runRets(g, anyRet("jsonpath:$.a[:].k[:]", r, rel(".x", "EQ", "1")), nd, true)
			runRets(g, all_("jsonpath:$.a[:]", kr), nd, true)
			runRets(g, any_("jsonpath:$.a[:]", relNV(".n", "EX")), nd, true)
		}
	})

	// placements under AND, OR and NOT: leaves are returning ANYs over list i or plain conditions
	mk := func(i int) *C {
		return anyRet(fmt.Sprintf("jsonpath:$.l%d[:]", i), map[string]string{"n": R1 + ".n"}, rel(".x", "EQ", "1"))
	}
	plain := func(i int) *C { return leaf(fmt.Sprintf("jsonpath:$.p%d", i), "EQ", "1") }
	lst := []string{`[]`, `[{"x":1,"n":"%da"}]`, `[{"x":1,"n":"%da"},{"x":2,"n":"%db"},{"x":1,"n":"%dc"}]`, `[{"x":2,"n":"%dd"}]`}
	for n := 1; n <= g.Pick(6, 7); n++ {
		for _, s := range shapes(n) {
			_, k := instantiate(s, plain)
			if k > g.Pick(4, 5) {
				continue
			}
			for kinds := 0; kinds < 1<<uint(k); kinds++ { // bit: returning
				kinds := kinds
				c, _ := instantiate(s, func(i int) *C {
					if kinds>>uint(i)&1 == 1 {
						return mk(i)
					}
					return plain(i)
				})
				if kinds == 0 {
					continue
				}
				g.Do(func(t *T) {
					t.Desc(func() string { return c.Text() })
					mr := anyRule("alert", c)
					rs := t.load(mr)
					opt := 1
					for i := 0; i < k; i++ {
						opt *= 4
					}
					for a := 0; a < opt; a++ {
						var p []string
						x := a
						dup := false
						for i := 0; i < k; i++ {
							if kinds>>uint(i)&1 == 1 {
								p = append(p, fmt.Sprintf(`"l%d":`, i)+strings.ReplaceAll(lst[x%4], "%d", fmt.Sprint(i)))
							} else {
								if x%4 > 1 {
									dup = true
								}
								p = append(p, fmt.Sprintf(`"p%d":%d`, i, x%4))
							}
							x /= 4
						}
						if dup {
							continue
						}
						doc := "{" + strings.Join(p, ",") + "}"
						t.State(c.Text(), doc)
						mode := modes[a&1]
						t.expectRets(rs, mr, withDoc(mkMsg(nil), doc, mode), true, mode)
					}
				})
			}
		}
	}
	// conditions outside of quantifiers with return paths
	leafRets := []map[string]string{{"n": "jsonpath:$.n"}, {"n": "jsonpath:$.n", "e": "jsonpath:$.d.e"}, {"d": "jsonpath:$.d"}, {"l": "jsonpath:$.l"}, {"l0": "jsonpath:$.l[0]", "none": "jsonpath:$.zz"}, {"none": "jsonpath:$.zz"},
		{"q": `jsonpath:$["n"]`}, {"rel": "jsonpath:$RELATIVE.n"}, {"rel": "jsonpath:$RELATIVE.n", "n": "jsonpath:$.n"}, {"x": "jsonpath:$.n", "n": "jsonpath:$.x"}, {"z": "jsonpath:$.l[1].e"}, {"u": "jsonpath:$.u-v", "n": "jsonpath:$.n"}, {"u": `jsonpath:$["u.v"].w`}, {"u": `jsonpath:$.['u-v']`}, {"all": "jsonpath:$*"}, {"n": "jsonpath:$.n", "all": "jsonpath:$*"}}
	ldocs := append(append([]string{}, elems[:4]...), `{}`, `{"x":1,"n":null}`, `{"x":1,"n":""}`, `{"x":1,"n":[]}`, `{"x":1,"n":{"a":[1,{"b":2}]}}`, `{"x":1,"n":false,"d":{}}`, `{"x":1,"n":1.5,"d":7}`, `{"x":1,"n":"q\"\\ é"}`, `{"x":2,"l":[0,{"e":"f"}]}`, `{"x":1,"u-v":"uv","u":5,"u.v":{"w":"uvw"}}`, `{"n":"z","a":[{"x":1,"n":"in"}],"x":2}`)
	for _, r := range leafRets {
		a, b, c := lret(leaf("jsonpath:$.x", "EQ", "1"), r), lret(leaf("jsonpath:$.x", "GE", "2"), map[string]string{"b": "jsonpath:$.x"}), leafNV("jsonpath:$.l", "EX")
		q := anyRet("jsonpath:$.a[:]", map[string]string{"in": R1 + ".n"}, lret(rel(".x", "EQ", "1"), map[string]string{"y": "jsonpath:$.n", "z": R1 + ".x"}))
		for _, k := range []*C{a, lret(leafNV("jsonpath:$.n", "EX"), r), lret(leafNV("jsonpath:$.n", "NEX"), r), lret(leaf("jsonpath:$.n", "RE", "^[ab]$"), r), lret(leaf("jsonpath:$.x", "IN", "1,3"), r), lret(leaf("domain", "EQ", "*"), r),
			not(a), and(a, c), and(c, a), or(a, c), or(c, a), or(a, b), or(b, a), and(a, lret(c, map[string]string{"c": "jsonpath:$.l"})), and(lret(c, map[string]string{"c": "jsonpath:$.l"}), a),
			or(and(a, c), b), and(or(a, b), c), not(not(a)), or(q, b), or(a, q), and(q, b), and(b, q), q, all_("jsonpath:$.a[:]", lret(rel(".x", "EQ", "1"), r))} {
			runRets(g, k, ldocs, true)
		}
	}
	// number of records, number of return paths
	for _, n := range append(g.Lits.Sizes(20, 300), 256, 257, 1030) {
		n := n
		g.Do(func(t *T) {
			t.Desc(func() string { return fmt.Sprintf("%d elements", n) })
			mr := anyRule("block", anyRet("jsonpath:$.a[:]", map[string]string{"n": R1 + ".n", "w": R1 + "*"}, rel(".x", "EQ", "1")))
			rs := t.load(mr)
			for pat := 0; pat < 4; pat++ {
				var es []string
				for i := 0; i < n; i++ {
					v := 1
					if pat == 1 && i%2 == 0 || pat == 2 && i != n-1 || pat == 3 && i != n/2 {
						v = 2
					}
					es = append(es, fmt.Sprintf(`{"x":%d,"n":%d}`, v, i))
				}
				for _, mode := range modes {
					t.State(fmt.Sprint(n, pat))
					t.expectRets(rs, mr, withDoc(mkMsg(nil), `{"a":[`+strings.Join(es, ",")+`]}`, mode), true, mode)
				}
			}
		})
		if n > 40 || n == 0 {
			continue
		}
		g.Do(func(t *T) {
			t.Desc(func() string { return fmt.Sprintf("%d return paths", n) })
			r := map[string]string{}
			var es []string
			for i := 0; i < n; i++ {
				r[fmt.Sprintf("r%d", i)] = fmt.Sprintf("%s.f%d", R1, i)
				if i%3 != 2 {
					es = append(es, fmt.Sprintf(`"f%d":%d`, i, i))
				}
			}
			mr := anyRule("block", anyRet("jsonpath:$.a[:]", r, relNV(".f0", "EX")))
			underOrders(func(o string) {
				rs := t.load(mr)
				for _, mode := range modes {
					t.State(fmt.Sprint(n), "paths")
					t.expectRets(rs, mr, withDoc(mkMsg(nil), `{"a":[{`+strings.Join(es, ",")+`},{"f0":1},{"f1":1}]}`, mode), true, mode+" "+o)
				}
			})
		})
	}
	// a rule that does not apply for another reason returns nothing
	for _, f := range []func(r *R){func(r *R) { r.SName = "nobody" }, func(r *R) { r.Op = "POST" }, func(r *R) { r.Decision = "nothing" }, func(r *R) { r.Proto = "tcp"; r.ResName = "1" }} {
		f := f
		g.Do(func(t *T) {
			mr := anyRule("block", anyRet("jsonpath:$.a[:]", map[string]string{"n": R1 + ".n"}, rel(".x", "EQ", "1")))
			f(mr)
			t.Desc(func() string { return mr.Text() })
			rs := t.load(mr)
			for _, mode := range modes {
				m := withDoc(mkMsg(nil), `{"a":[{"x":1,"n":1}]}`, mode)
				t.State(mr.Text())
				t.expectDecision(&rs.Rules[0], mr, m, mode)
			}
		})
	}
}

// layouts of the same document
func layouts(doc string) []string {
	v := decode(doc)
	var spaced func(v interface{}, nl, rv bool) string
	spaced = func(v interface{}, nl, rv bool) string {
		sp := " "
		if nl {
			sp = "\n\t "
		}
		if rv {
			sp = ""
		}
		switch x := v.(type) {
		case map[string]interface{}:
			ks := []string{}
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			if rv {
				sort.Sort(sort.Reverse(sort.StringSlice(ks)))
			}
			var p []string
			for _, k := range ks {
				p = append(p, spaced(k, nl, rv)+sp+":"+sp+spaced(x[k], nl, rv))
			}
			return "{" + sp + strings.Join(p, sp+","+sp) + sp + "}"
		case []interface{}:
			var p []string
			for _, e := range x {
				p = append(p, spaced(e, nl, rv))
			}
			return "[" + sp + strings.Join(p, sp+","+sp) + sp + "]"
		case string:
			if rv { // escaped text
				var b strings.Builder
				b.WriteByte('"')
				for _, r := range x {
					if r < 0x10000 {
						fmt.Fprintf(&b, "\\u%04x", r)
					} else {
						b.WriteRune(r)
					}
				}
				return b.String() + `"`
			}
			return js(x)
		}
		b, _ := json.Marshal(v)
		return string(b)
	}
	ls := []string{doc, spaced(v, false, false), spaced(v, true, false), spaced(v, false, true)}
	if strings.Contains(doc, "/") {
		ls = append(ls, strings.ReplaceAll(doc, "/", `\/`))
	}
	return ls
}

// runBoth compares the representations of every document.
func runBoth(g *Gen, c *C, docs []string, ordered bool) {
	g.Do(func(t *T) {
		txt := c.Text()
		t.Desc(func() string { return fmt.Sprintf("%s on %d documents", txt, len(docs)) })
		mr := anyRule("block", c)
		rs := t.load(mr)
		r := &rs.Rules[0]
		for _, d := range docs {
			containerCompared = false
			m := withDoc(mkMsg(nil), d, "iface")
			h := holds(c, m, nil)
			if containerCompared {
				continue
			}
			t.State(txt, d)
			t.Step()
			dec, data := E.CheckOneRule(&m.M, r)
			cd := canon(data, ordered)
			if (dec != dDefault) != h {
				t.Fail("decoded: decision %d, model says %v\nrule: %s\nmessage: %s", dec, h, mr.Text(), msgText(m))
			}
			for _, l := range layouts(d) {
				b := withDoc(mkMsg(nil), l, "bytes")
				t.Step()
				dec2, data2 := E.CheckOneRule(&b.M, r)
				if dec2 != dec {
					t.Fail("bytes: decision %d, decoded: %d (model %v)\nrule: %s\nmessage: %s", dec2, dec, h, mr.Text(), msgText(b))
				}
				if c2 := canon(data2, ordered); c2 != cd {
					t.Fail("bytes: returned %s, decoded: %s\nrule: %s\nmessage: %s", c2, cd, mr.Text(), msgText(b))
				}
			}
			t.Out(fmt.Sprintf("decision %d, %d records", dec, min(len(data), 5)))
		}
	})
}

func genC11(g *Gen) {
	scal := []string{`1`, `0`, `-1`, `1.5`, `1e3`, `123456789012345`, `0.000001`, `100000000000000000000000`, `-0.00000025`, `"x"`, `""`, `"1"`, `"1Ki"`, `"50%"`, `true`, `false`, `null`, `"a\"b"`, `"é"`, `" x "`, `"[1]"`, `"[]"`, `"{}"`, `"null"`, `"<nil>"`, `"\""`, `"'x'"`, `"a\nb"`, `"a\\b"`, `"<&>"`, `"[\"x\"]"`, `"map[]"`, `"nan"`, `"Inf"`, `"a/b"`, `"a  b"`, `"{ \"x\" : 1 }"`, `"a, b"`, `"a:  [ ]"`}
	cont := []string{`[]`, `{}`, `[1]`, `["x"]`, `[1,2]`, `{"x":1}`, `{"x":""}`, `{"x":null}`, `[{"x":1}]`, `[{"x":"x"},{"x":2}]`, `{"x":{"y":1}}`, `{"x":[]}`, `[[1]]`, `{"x":"x","y":[1,"x"]}`, `[null]`, `[""]`, `[[]]`, `[{}]`}
	var docs []string
	for _, v := range append(append([]string{}, scal...), cont...) {
		docs = append(docs, `{"a":`+v+`,"c":"x"}`)
	}
	for _, v := range scal {
		docs = append(docs, `{"a":{"x":`+v+`}}`, `{"a":[`+v+`]}`, `{"a":[{"x":`+v+`}]}`, `{"a":{"x":{"y":`+v+`}}}`)
	}
	docs = append(docs, `{}`, `{"a-b":1,"a.b":{"x":1}}`, `{"A":1}`, `{"a":{"X":1}}`)
	var textDocs []string // numbers compared as text are written in plain notation
	for _, d := range docs {
		if !strings.Contains(d, "1e3") {
			textDocs = append(textDocs, d)
		}
	}
	paths := []string{"$.a", "$.a.x", "$.a[0]", "$.a[0].x", "$.a.x.y", "$.b", `$.a["x"]`, "$.a[1]", "$.a[1].x", `$.["a"]`, "$.a-b", `$.["a.b"].x`, ".a.x"}
	values := []string{"1", "x", "0", "1024", "true", `a"b`, "é", " x ", "1000", "0.5", "null", "[1]", "[]", "a\\b", "\"", "'x'", "<&>", "-1", "nan", "Inf", "a/b", "a  b", "a, b"}
	cmpM := []string{"EQ", "NEQ", "NE", "LT", "LE", "GT", "GE", "eq", "lt", "ne"}
	setM := []string{"IN", "NIN", "RE", "NRE"}
	for _, p := range paths {
		for _, m := range []string{"EX", "NEX", "ex", "nex"} {
			runBoth(g, leafNV("jsonpath:"+p, m), docs, true)
		}
		for _, v := range values {
			for _, m := range cmpM {
				if _, num := parseNum(v); !num && strings.Contains("LT LE GT GE lt", m) {
					continue
				}
				runBoth(g, leaf("jsonpath:"+p, m, v), docs, true)
			}
		}
		for _, v := range []string{"e", "[.]", "^[0-9.]+$", "^0[.]0", "0{20}$", "^-"} {
			for _, m := range []string{"RE", "NRE"} {
				runBoth(g, leaf("jsonpath:"+p, m, v), textDocs, true)
			}
		}
		for _, v := range []string{"1,x", "x", "1", "true,0", "1000", "0.000001,1", "100000000000000000000000"} {
			for _, m := range setM {
				if strings.HasSuffix(m, "RE") {
					v = strings.ReplaceAll(v, ",", "|")
				}
				runBoth(g, leaf("jsonpath:"+p, m, v), textDocs, true)
			}
		}
	}
	// values returned by single conditions
	for _, p := range paths {
		for _, q := range []string{"$.a", "$.a.x", "$.a[0]", "$.a[0].x", "$.c", `$["a"]`, "$.a-b", "$.A", "$*", "$RELATIVE.a", "$.a['x']", "$.'a'.x", `$.["a.b"].x`, "$.a.b", "$.a.x.y", "$.a[1].x"} {
			runBoth(g, lret(leafNV("jsonpath:"+p, "EX"), map[string]string{"r": "jsonpath:" + q, "c": "jsonpath:$.c"}), docs, true)
		}
	}
	// quantifiers and returned values
	R1 := "jsonpath:$RELATIVE"
	var elems []string
	for _, e := range append(append([]string{}, scal...), cont...) {
		if e != "1e3" {
			elems = append(elems, e)
		}
	}
	var qdocs []string
	for _, e := range elems {
		qdocs = append(qdocs, `{"a":[`+e+`]}`, `{"a":[{"x":`+e+`,"n":"q r"},1]}`, `{"a":{"x":`+e+`}}`, `{"a":{"p":`+e+`,"q-1":{"x":`+e+`}}}`, `{"a":`+e+`}`, `{"a":[{"k":`+e+`}]}`, `{"a":[{"k":[{"x":`+e+`}]},{"k":{"x":`+e+`}}]}`)
	}
	qdocs = append(qdocs, wrap(`{"a":%s}`, listsOf([]string{`{"x":1,"n":"a b"}`, `{"x":"x","n":[1, 2]}`, `[{"x":1}]`, `{"n":{"x":1}}`, `null`}, 2))...)
	leaves := []*C{rel(".x", "EQ", "1"), rel(".x", "NEQ", "x"), relNV(".x", "EX"), relNV(".x", "NEX"), rel(".x", "RE", "x"), rel(".x", "GE", "1"), relNV(".n", "EX"), rel(".n.x", "EQ", "1"),
		keyIs("EQ", "p"), keyIs("EQ", "q-1"), keyIs("NEQ", "x"), valIs("", "EQ", "1"), valIs("", "NEQ", "x"), valIs(".x", "EQ", "x"), leafNV("jsonpath:$VALUE.x", "NEX"), leafNV("jsonpath:$VALUE", "EX"), leafNV("jsonpath:$VALUE", "NEX"), leafNV("jsonpath:$KEY", "NEX"),
		valIs(".x", "GE", "1"), valIs("", "GE", "1"), valIs("", "RE", "^[0-9.x-]+$"), valIs(".x", "NRE", "^[0-9.x-]+$"), rel(".x", "RE", "^[0-9.x-]+$"), rel("", "RE", "^[0-9.-]+$"),
		leaf("jsonpath:$.a.x", "EQ", "1"), not(rel(".x", "EQ", "1"))}
	retSets := []map[string]string{nil, {"x": R1 + ".x"}, {"all": R1 + "*"}, {"x": R1 + ".x", "n": R1 + ".n", "none": R1 + ".none"}, {"nx": R1 + ".n.x", "n0": R1 + ".n[0]", "k": R1 + ".k"}}
	for _, p := range []string{"jsonpath:$.a[:]", "jsonpath:$.a", "jsonpath:$..x", "jsonpath:$..a[:]", "jsonpath:$.a[:].k[:]", "jsonpath:$.a[:].k", "jsonpath:$.a.*", "jsonpath:$.a[*]", "jsonpath:$.a,jsonpath:$.b", "jsonpath:$.*", "jsonpath:$.a[0]", "jsonpath:$.a.q-1", "jsonpath:$..k[:]"} {
		for _, l := range leaves {
			for _, r := range retSets {
				runBoth(g, anyRet(p, r, l), qdocs, false)
			}
			runBoth(g, all_(p, l), qdocs, false)
		}
	}
	for _, l := range leaves {
		quants(func(op string, q func(string, *C) *C) {
			for _, p2 := range []string{R1 + ".k[:]", R1 + "*", R1 + ".k", R1 + ".x", R1 + "..x"} {
				runBoth(g, q("jsonpath:$.a[:]", q(p2, l)), qdocs, false)
				runBoth(g, q("jsonpath:$.a[:]", and(q(p2, l), relNV(".x", "NEX"))), qdocs, false)
			}
		})
	}
}
