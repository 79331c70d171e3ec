package main

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	E "github.com/octarinesec/MAPL/MAPL_engine"
)

func init() {
	register(&Prop{ID: "C07", Gen: genC07, Bounds: "all AND/OR/NOT trees to 6 nodes (thorough 8) with 1..3 children, all 2^k leaf assignments, leaves from labels, attributes and document fields in both representations; constants; widths to 70 and around source constants with one deviating child at every (boundary) position; depths to 40"})
	register(&Prop{ID: "C08", Gen: genC08, Bounds: "every attribute x every method in both cases x rule values x message values around equality, prefix, case, order and emptiness, with all other attributes equal and different; label sets, label names of all texts to length 3 over 7 characters, list lengths to 300, value lengths to 5000"})
	register(&Prop{ID: "C09", Gen: genC09, Bounds: "11 paths in all spellings x every method in both cases x rule values x every JSON value at, above and beside the path, both representations"})
	register(&Prop{ID: "C21", Gen: genC21, Bounds: "all pairs of 21 suffixes and 14 numbers on both sides x 6 methods in both cases, as JSON strings and numbers, both representations"})
}

// ---------------------------------------------------------------------------
// C07

// shapes enumerates all trees with exactly n nodes; leaves are nil-attr nodes
// to be numbered later.
var shapeMemo = map[int][]*C{}

func shapes(n int) []*C {
	if s, ok := shapeMemo[n]; ok {
		return s
	}
	var out []*C
	if n == 1 {
		out = append(out, &C{})
	} else {
		for _, k := range shapes(n - 1) {
			out = append(out, not(k))
			out = append(out, and(k), or(k))
		}
		for a := 1; a <= n-2; a++ {
			b := n - 1 - a
			for _, x := range shapes(a) {
				for _, y := range shapes(b) {
					out = append(out, and(x, y), or(x, y))
				}
			}
		}
		for a := 1; a <= n-3; a++ {
			for b := 1; a+b <= n-2; b++ {
				for _, x := range shapes(a) {
					for _, y := range shapes(b) {
						for _, z := range shapes(n - 1 - a - b) {
							out = append(out, and(x, y, z), or(x, y, z))
						}
					}
				}
			}
		}
	}
	shapeMemo[n] = out
	return out
}

// instantiate copies a shape, replacing leaf i by f(i); returns the number of leaves.
func instantiate(s *C, f func(i int) *C) (*C, int) {
	n := 0
	var rec func(c *C) *C
	rec = func(c *C) *C {
		if c.Op == "" {
			n++
			return f(n - 1)
		}
		o := &C{Op: c.Op, Parent: c.Parent, Ret: c.Ret}
		for _, k := range c.Kids {
			o.Kids = append(o.Kids, rec(k))
		}
		return o
	}
	r := rec(s)
	return r, n
}

func (c *C) walk(f func(c *C)) {
	f(c)
	for _, k := range c.Kids {
		k.walk(f)
	}
}

// varKinds: how variable i is written as a condition and set in a message
var varKinds = []string{"label", "bytes", "iface", "mix"}

func varLeaf(kind string, i int) *C {
	switch kind {
	case "label":
		return leaf(fmt.Sprintf("senderLabel[v%d]", i), "EQ", "1")
	case "bytes", "iface":
		return leaf(fmt.Sprintf("jsonpath:$.v%d", i), "EQ", "1")
	}
	switch i % 8 {
	case 0:
		return leaf("domain", "EQ", "1")
	case 1:
		return leaf("jsonpath:$.v1", "GT", "0")
	case 2:
		return leaf("payloadSize", "GE", "100")
	case 3:
		return leaf("$receiver.namespace", "NEQ", "0")
	case 4:
		return leafNV("jsonpath:$.w4", "EX")
	case 5:
		return leaf("requestUseragent", "RE", "^1")
	case 6:
		return leaf("receiverLabel[v6]", "NE", "0")
	}
	return leaf(fmt.Sprintf("jsonpath:$.d.v%d", i), "IN", "1,2")
}

func varMsg(kind string, k int, on func(i int) bool) *Msg {
	m := mkMsg(nil)
	bit := func(i int) string {
		if on(i) {
			return "1"
		}
		return "0"
	}
	switch kind {
	case "label":
		m.M.SourceLabels = map[string]string{}
		for i := 0; i < k; i++ {
			m.M.SourceLabels[fmt.Sprintf("v%d", i)] = bit(i)
		}
		return m
	case "bytes", "iface":
		var p []string
		for i := 0; i < k; i++ {
			p = append(p, fmt.Sprintf(`"v%d":%s`, i, bit(i)))
		}
		return withDoc(m, "{"+strings.Join(p, ",")+"}", kind)
	}
	m.M.Domain = bit(0)
	m.M.RequestSize = 99
	if on(2) {
		m.M.RequestSize = 100
	}
	m.M.DestinationNamespace = bit(3)
	m.M.RequestUseragent = bit(5)
	m.M.DestinationLabels = map[string]string{"v6": bit(6)}
	doc := fmt.Sprintf(`"v1":%s`, bit(1))
	if on(4) {
		doc += `,"w4":false`
	}
	var p []string
	for i := 7; i < k; i += 8 {
		p = append(p, fmt.Sprintf(`"v%d":%s`, i, bit(i)))
	}
	return withDoc(m, "{"+doc+`,"d":{`+strings.Join(p, ",")+"}}", "bytes")
}

// runTree loads the tree once and checks the assignments forward and backward on the same rule.
func runTree(t *T, kind string, c *C, msgs []*Msg) {
	mr := anyRule("block", c)
	rs := t.load(mr)
	r := &rs.Rules[0]
	txt := c.Text()
	for i := range msgs {
		t.State(kind, txt, fmt.Sprint(i))
		t.expectCond(r, c, msgs[i], "first pass")
	}
	for i := len(msgs) - 1; i >= 0; i-- {
		t.expectDecision(r, mr, msgs[i], "second pass")
	}
}

func genC07(g *Gen) {
	max := g.Pick(6, 7)
	for n := 1; n <= max; n++ {
		for _, s := range shapes(n) {
			ks := varKinds
			if n >= 6 {
				ks = []string{"label", "mix"}
			}
			for _, kind := range ks {
				s, kind := s, kind
				g.Do(func(t *T) {
					c, k := instantiate(s, func(i int) *C { return varLeaf(kind, i) })
					t.Desc(func() string { return kind + " " + c.Text() })
					var msgs []*Msg
					for a := 0; a < 1<<uint(k); a++ {
						a := a
						msgs = append(msgs, varMsg(kind, k, func(i int) bool { return a>>uint(i)&1 == 1 }))
					}
					runTree(t, kind, c, msgs)
				})
			}
		}
	}
	// NOT written with a list: all of them, every other one
	for n := 2; n <= max; n++ {
		for _, s := range shapes(n) {
			for every := 1; every <= 3; every++ {
				s, every := s, every
				c, k := instantiate(s, func(i int) *C { return varLeaf("label", i) })
				nots := 0
				c.walk(func(x *C) {
					if x.Op == "NOT" {
						nots++
						x.List = every == 1 || nots%2 == every-2
					}
				})
				if nots == 0 || every > 1 && nots == 1 {
					continue
				}
				g.Do(func(t *T) {
					t.Desc(func() string { return "NOT lists " + c.Text() })
					var msgs []*Msg
					for a := 0; a < 1<<uint(k); a++ {
						a := a
						msgs = append(msgs, varMsg("label", k, func(i int) bool { return a>>uint(i)&1 == 1 }))
					}
					runTree(t, "not list", c, msgs)
				})
			}
		}
	}
	// constants and repeated variables: leaves over {true, false, v0, v1}
	letters := []*C{leafNV("true", "EQ"), leaf("FALSE", "EQ", ""), leafNV("TRUE", "EX"), leafNV("false", "EX"), varLeaf("label", 0), varLeaf("label", 1)}
	for n := 1; n <= g.Pick(6, 7); n++ {
		if n > g.Pick(4, 5) { // variables only
			letters = []*C{varLeaf("label", 0), varLeaf("label", 1)}
		}
		for _, s := range shapes(n) {
			letters := letters
			_, k := instantiate(s, func(i int) *C { return &C{} })
			idx := make([]int, k)
			for {
				ix := append([]int{}, idx...)
				s := s
				g.Do(func(t *T) {
					c, _ := instantiate(s, func(i int) *C { return letters[ix[i]] })
					t.Desc(func() string { return "constants " + c.Text() })
					var msgs []*Msg
					for a := 0; a < 4; a++ {
						a := a
						msgs = append(msgs, varMsg("label", 2, func(i int) bool { return a>>uint(i)&1 == 1 }))
					}
					runTree(t, "const", c, msgs)
				})
				j := 0
				for ; j < k; j++ {
					idx[j]++
					if idx[j] < len(letters) {
						break
					}
					idx[j] = 0
				}
				if j == k {
					break
				}
			}
		}
	}
	// widths
	for _, w := range append(g.Lits.Sizes(70, 250), 256, 257, 300, 1100) {
		if w == 0 {
			continue
		}
		for _, op := range []string{"AND", "OR"} {
			for wrap := 0; wrap < 4; wrap++ {
				for _, kind := range []string{"label", "iface"} {
					w, op, wrap, kind := w, op, wrap, kind
					g.Do(func(t *T) {
						c := &C{Op: op}
						for i := 0; i < w; i++ {
							l := varLeaf(kind, i)
							if wrap == 1 {
								l = not(l)
							}
							if wrap == 3 {
								l = and(l, l)
							}
							c.Kids = append(c.Kids, l)
						}
						top := c
						if wrap == 2 {
							top = not(c)
						}
						t.Desc(func() string { return fmt.Sprintf("%s of %d %s children, wrap %d", op, w, kind, wrap) })
						msgs := []*Msg{varMsg(kind, w, func(int) bool { return true }), varMsg(kind, w, func(int) bool { return false })}
						for _, p := range positions(w) {
							p := p
							msgs = append(msgs, varMsg(kind, w, func(i int) bool { return i == p }), varMsg(kind, w, func(i int) bool { return i != p }))
						}
						runTree(t, kind, top, msgs)
					})
				}
			}
		}
	}
	// depths: chains of connectives, three patterns, with the leaf at the bottom and a sibling at every level
	for d := 1; d <= g.Pick(40, 100); d++ {
		for pat := 0; pat < 5; pat++ {
			d, pat := d, pat
			g.Do(func(t *T) {
				c := varLeaf("label", d)
				for i := d - 1; i >= 0; i-- {
					switch pat {
					case 0:
						c = not(c)
					case 1:
						c = and(varLeaf("label", i), c)
					case 2:
						c = or(c, varLeaf("label", i))
					case 3:
						if i%2 == 0 {
							c = and(c, varLeaf("label", i))
						} else {
							c = or(varLeaf("label", i), c)
						}
					case 4:
						switch i % 3 {
						case 0:
							c = not(c)
						case 1:
							c = and(c, varLeaf("label", i))
						case 2:
							c = or(varLeaf("label", i), c)
						}
					}
				}
				t.Desc(func() string { return fmt.Sprintf("chain %d of depth %d", pat, d) })
				var msgs []*Msg
				for _, bottom := range []bool{false, true} {
					for _, rest := range []bool{false, true} {
						bottom, rest := bottom, rest
						msgs = append(msgs, varMsg("label", d+1, func(i int) bool {
							if i == d {
								return bottom
							}
							return rest
						}))
						for _, p := range positions(d) {
							p := p
							msgs = append(msgs, varMsg("label", d+1, func(i int) bool {
								if i == d {
									return bottom
								}
								if i == p {
									return !rest
								}
								return rest
							}))
						}
					}
				}
				runTree(t, "chain", c, msgs)
			})
		}
	}
}

// ---------------------------------------------------------------------------
// C08

type strAttr struct {
	name string
	set  func(m *E.MessageAttributes, v string)
}

var strAttrs = []strAttr{
	{"requestUseragent", func(m *E.MessageAttributes, v string) { m.RequestUseragent = v }},
	{"encryptionType", func(m *E.MessageAttributes, v string) { m.EncryptionType = v }},
	{"domain", func(m *E.MessageAttributes, v string) { m.Domain = v }},
	{"$sender.namespace", func(m *E.MessageAttributes, v string) { m.SourceNamespace = v }},
	{"$sender.cluster", func(m *E.MessageAttributes, v string) { m.SourceCluster = v }},
	{"$receiver.namespace", func(m *E.MessageAttributes, v string) { m.DestinationNamespace = v }},
	{"$receiver.cluster", func(m *E.MessageAttributes, v string) { m.DestinationCluster = v }},
	{"senderLabel[app]", func(m *E.MessageAttributes, v string) { m.SourceLabels = setLabel(m.SourceLabels, "app", v) }},
	{"receiverLabel[app]", func(m *E.MessageAttributes, v string) { m.DestinationLabels = setLabel(m.DestinationLabels, "app", v) }},
	{"senderLabel[app.kubernetes.io/name]", func(m *E.MessageAttributes, v string) {
		m.SourceLabels = setLabel(m.SourceLabels, "app.kubernetes.io/name", v)
	}},
	{"receiverLabel[k-8_s]", func(m *E.MessageAttributes, v string) {
		m.DestinationLabels = setLabel(m.DestinationLabels, "k-8_s", v)
	}},
}

func setLabel(l map[string]string, k, v string) map[string]string {
	o := map[string]string{}
	for a, b := range l {
		o[a] = b
	}
	o[k] = v
	return o
}

// attrMsg: the attribute under test is v (absent if v == "-none-"), all others are other
func attrMsg(a strAttr, v, other string) *Msg {
	return mkMsg(func(m *E.MessageAttributes) {
		m.SourceLabels, m.DestinationLabels = map[string]string{}, map[string]string{}
		for _, b := range strAttrs {
			if b.name != a.name {
				b.set(m, other)
			}
		}
		m.SourceService, m.DestinationService, m.RequestHost, m.RequestPath = other, other, other, other
		if v != "-none-" {
			a.set(m, v)
		}
	})
}

var textMethods = []string{"EQ", "eq", "NEQ", "neq", "NE", "ne", "IN", "in", "NIN", "nin", "IS", "RE", "re", "NRE", "nre", "EX", "ex", "NEX", "nex"}
var numMethods = []string{"EQ", "eq", "NEQ", "neq", "NE", "ne", "LT", "lt", "LE", "le", "GT", "gt", "GE", "ge"}

func genC08(g *Gen) {
	vals := []string{"", "a", "A", "ab", "aB", "b", "abc", "a-b", "a_b", "a.b", "axb", "a/b", "10", "010", "1", "a b", "ab ", "Mozilla/5.0 (X11; x64)", "c++", "$x", "^x", "[a]", "a|b", "true", "*", "?", "a.", ".a", "a/", "/a", "-a", "a:80", "a:", ",a", "\"a\"", "'a'", " a", "(a)", "a;b", "a=b", "ab@c", "http://a", "a%20b", "é", "\u0130"}
	eqs := []string{"a", "A", "ab", "b", "abc", "a-b", "a.b", "a/b", "10", "1", "a b", "Mozilla/5.0 (X11; x64)", "c++", "$x", "^x", "a|b", "a*", "*b", "a?b", "*", "?", "", "a,b", "a*c"}
	lists := []string{"a", "a,b", "b,a", "[a,b]", "[ab]", "abc,ab", "10,1", "a,b,abc", "A", "a-b,a_b", "[10]", "a b,b", "b,"}
	res := []string{"a", "^a", "b$", "^ab?$", "a|b", "[ab]+$", "(?i)^A$", "^$", "", "a.b", ".", "^[0-9]+$", "^a,b$"}
	words := g.Lits.Words(`[A-Za-z][A-Za-z0-9]{1,14}`)
	run := func(a strAttr, meth, rv string, vals []string) {
		g.Do(func(t *T) {
			c := leaf(a.name, meth, rv)
			t.Desc(func() string { return fmt.Sprintf("%s against %d values", c.Text(), len(vals)) })
			rs := t.load(anyRule("alert", c))
			var ms []*Msg
			for _, v := range vals {
				ms = append(ms, attrMsg(a, v, "zz9"), attrMsg(a, v, rv))
			}
			if strings.Contains(a.name, "Label[") {
				ms = append(ms, attrMsg(a, "-none-", "zz9"), attrMsg(a, "-none-", rv))
				n := attrMsg(a, "-none-", rv)
				n.M.SourceLabels, n.M.DestinationLabels = nil, nil
				ms = append(ms, n)
			}
			for i, m := range ms {
				t.State(a.name, meth, rv, fmt.Sprint(i))
				t.expectCond(&rs.Rules[0], c, m, "forward")
			}
			for i := len(ms) - 1; i >= 0; i-- {
				t.expectCond(&rs.Rules[0], c, ms[i], "backward")
			}
		})
	}
	for _, a := range strAttrs {
		for _, meth := range textMethods {
			var rvs []string
			vs := vals
			switch up(meth) {
			case "EQ", "NEQ", "NE":
				rvs = append(rvs, eqs...)
			case "IN", "NIN", "IS":
				rvs = lists
			case "RE", "NRE":
				rvs = res
			case "EX", "NEX":
				rvs = []string{"", "a", "don't care"}
				if up(meth) == "NEX" && strings.Contains(a.name, "Label[") {
					vs = vals[1:] // whether an empty label is absent is left open
				}
			}
			for _, rv := range rvs {
				run(a, meth, rv, vs)
			}
			if up(meth) == "EQ" || up(meth) == "NE" || up(meth) == "IN" || up(meth) == "RE" {
				for _, w := range words {
					if strings.HasPrefix(w, "receiverLabel") {
						continue
					}
					run(a, meth, w, []string{w, w + "x", "x" + w, swapCase(w), "a", ""})
				}
			}
		}
	}
	// value lengths and list lengths
	for _, n := range append(g.Lits.Sizes(70, 4100), 256, 257, 5000) {
		if n == 0 {
			continue
		}
		s := strings.Repeat("a", n)
		for _, a := range strAttrs {
			for _, meth := range []string{"EQ", "NEQ", "IN", "RE"} {
				rv := s
				if meth == "RE" {
					rv = "^" + s + "$"
				}
				run(a, meth, rv, []string{s, s + "a", s[:n-1], s[:n-1] + "b", "b" + s[1:]})
			}
		}
		if n > 300 {
			continue
		}
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, fmt.Sprintf("e%d", i))
		}
		for _, a := range []strAttr{strAttrs[0], strAttrs[3], strAttrs[7]} {
			vs := []string{"e", "x", fmt.Sprintf("e%d", n), strings.Join(l, ",")}
			for _, p := range positions(n) {
				vs = append(vs, l[p])
			}
			for _, meth := range []string{"IN", "NIN", "in", "nin", "IS"} {
				run(a, meth, strings.Join(l, ","), vs)
				run(a, meth, "["+strings.Join(l, ",")+"]", vs)
			}
		}
	}
	// label sets of growing size
	for _, n := range append(g.Lits.Sizes(40, 300), 256, 257, 1100) {
		for _, side := range []string{"senderLabel", "receiverLabel"} {
			n, side := n, side
			g.Do(func(t *T) {
				t.Desc(func() string { return fmt.Sprintf("%s sets of %d labels", side, n) })
				for _, p := range append(positions(n), n) {
					c := leaf(fmt.Sprintf("%s[k%d]", side, p), "EQ", fmt.Sprintf("v%d", p))
					rs := t.load(anyRule("alert", c))
					m := mkMsg(func(m *E.MessageAttributes) {
						l, o := map[string]string{}, map[string]string{}
						for i := 0; i < n; i++ {
							l[fmt.Sprintf("k%d", i)] = fmt.Sprintf("v%d", i)
							o[fmt.Sprintf("k%d", i)] = "other"
						}
						if side == "senderLabel" {
							m.SourceLabels, m.DestinationLabels = l, o
						} else {
							m.SourceLabels, m.DestinationLabels = o, l
						}
					})
					t.State("labels", side, fmt.Sprint(n), fmt.Sprint(p))
					t.expectCond(&rs.Rules[0], c, m, "label set")
				}
			})
		}
	}
	// every label name, with other labels of similar names
	for _, k := range uniq(append(g.Lits.Words(`[A-Za-z0-9./_-]{1,20}`), "app", "App", "app.kubernetes.io/name", "a/b", "a-b_c.d", "a b", " a", "0", "a:b", "a,b", "é", "*", "a[b", strings.Repeat("k", 70))) {
		for _, side := range []string{"senderLabel", "receiverLabel"} {
			k, side := k, side
			g.Do(func(t *T) {
				t.Desc(func() string { return side + " " + k })
				near := uniq([]string{strings.TrimSpace(k), k[strings.LastIndex(k, "/")+1:], k[strings.LastIndex(k, ".")+1:], strings.Split(k, "/")[0], strings.Split(k, ".")[0], strings.ToLower(k), strings.ToUpper(k), k + "x", ""})
				for _, meth := range []string{"EQ", "NEQ", "EX", "NEX", "IN", "RE"} {
					c := leaf(side+"["+k+"]", meth, "v")
					rs := t.load(anyRule("alert", c))
					for _, v := range []string{"-none-", "v", "w"} {
						m := mkMsg(func(m *E.MessageAttributes) {
							l, o := map[string]string{}, map[string]string{k: "v"}
							for _, x := range near {
								l[x] = "v"
								if v == "v" {
									l[x] = "w"
								}
							}
							delete(l, k)
							if v != "-none-" {
								l[k] = v
							}
							if side == "senderLabel" {
								m.SourceLabels, m.DestinationLabels = l, o
							} else {
								m.SourceLabels, m.DestinationLabels = o, l
							}
						})
						t.State("label name", side, k, meth, v)
						t.expectCond(&rs.Rules[0], c, m, "label "+k)
					}
				}
			})
		}
	}
	// sender against receiver
	for _, sa := range []string{"$sender.namespace", "$sender.cluster"} {
		for _, ra := range []string{"$receiver.namespace", "$receiver.cluster"} {
			for _, meth := range []string{"EQ", "eq", "NEQ", "neq", "NE", "ne"} {
				sa, ra, meth := sa, ra, meth
				g.Do(func(t *T) {
					c := leaf(sa, meth, ra)
					t.Desc(func() string { return c.Text() })
					rs := t.load(anyRule("alert", c))
					vs := []string{"", "a", "b", "A", "*", "a*", "$receiver"}
					for _, a := range vs {
						for _, b := range vs {
							for _, a2 := range []string{"b", "a"} {
								m := mkMsg(func(m *E.MessageAttributes) {
									m.SourceNamespace, m.SourceCluster, m.DestinationNamespace, m.DestinationCluster = a2, a2, a2, a2
									if sa == "$sender.namespace" {
										m.SourceNamespace = a
									} else {
										m.SourceCluster = a
									}
									if ra == "$receiver.namespace" {
										m.DestinationNamespace = b
									} else {
										m.DestinationCluster = b
									}
								})
								t.State(sa, ra, meth, a, b, a2)
								t.expectCond(&rs.Rules[0], c, m, "objects")
							}
						}
					}
				})
			}
		}
	}
	// label names: the exact name selects the label, with all other names present under another value
	var labelNames []string
	for _, x := range listsOf2([]string{"a", "B", ".", "/", "-", " ", ":"}, 3) {
		labelNames = append(labelNames, strings.Join(x, ""))
	}
	labelNames = append(labelNames, "a.b/c/d", "x.y.z/a.b/c", "a/b/c/d/e", "a[b", "#a", "*", "a*", "$a", "jsonpath:$.a", "\u00e9", strings.Repeat("n", 300))
	for _, k := range labelNames {
		k := k
		g.Do(func(t *T) {
			t.Desc(func() string { return fmt.Sprintf("label name %q", k) })
			msg := func(own, rest string) *Msg {
				return mkMsg(func(m *E.MessageAttributes) {
					m.SourceLabels, m.DestinationLabels = map[string]string{}, map[string]string{}
					for _, n := range labelNames {
						v := rest
						if n == k {
							v = own
						}
						if v != "" {
							m.SourceLabels[n], m.DestinationLabels[n] = v, v
						}
					}
				})
			}
			for _, c := range []*C{leaf("senderLabel["+k+"]", "EQ", "v"), leaf("receiverLabel["+k+"]", "EQ", "v"), leafNV("senderLabel["+k+"]", "EX"), leafNV("receiverLabel["+k+"]", "EX"), leaf("senderLabel["+k+"]", "EQ", "receiverLabel["+k+"]")} {
				t.State(c.Text())
				rs := t.load(anyRule("alert", c))
				for _, m := range []*Msg{msg("v", "w"), msg("w", "v"), msg("", "v"), msg("v", ""), msg("", "")} {
					t.expectCond(&rs.Rules[0], c, m, "label name")
				}
				m := msg("v", "w")
				m.M.DestinationLabels = msg("w", "v").M.DestinationLabels
				t.expectCond(&rs.Rules[0], c, m, "label name, receiver different")
			}
		})
	}
	for _, k1 := range []string{"x", "y", "a.b/c"} {
		for _, k2 := range []string{"x", "y", "a.b/c"} {
			for _, meth := range []string{"EQ", "eq", "NEQ", "neq", "NE", "ne"} {
				k1, k2, meth := k1, k2, meth
				g.Do(func(t *T) {
					c := leaf("senderLabel["+k1+"]", meth, "receiverLabel["+k2+"]")
					t.Desc(func() string { return c.Text() })
					rs := t.load(anyRule("alert", c))
					vs := []string{"-none-", "a", "b", "A", "*", "a*", "receiverLabel"}
					for _, a := range vs {
						for _, b := range vs {
							for _, cross := range []bool{false, true} {
								m := mkMsg(func(m *E.MessageAttributes) {
									m.SourceLabels, m.DestinationLabels = map[string]string{}, map[string]string{}
									if cross { // the same names on the other side
										m.DestinationLabels[k1] = "a"
										m.SourceLabels[k2] = "a"
									}
									delete(m.SourceLabels, k1)
									delete(m.DestinationLabels, k2)
									if a != "-none-" {
										m.SourceLabels[k1] = a
									}
									if b != "-none-" {
										m.DestinationLabels[k2] = b
									}
								})
								t.State("ll", k1, k2, meth, a, b, fmt.Sprint(cross))
								t.expectCond(&rs.Rules[0], c, m, "labels")
							}
						}
					}
				})
			}
		}
	}
	// numbers
	ints := []int64{0, 1, 2, 9, 10, 11, 99, 100, 101, -1, -2, -100, 999, 1000, 1001, 1023, 1024, 1025, 1 << 31, 1<<31 - 1, 1 << 32, 1<<53 - 1, 1 << 53, 1<<53 + 1, math.MaxInt64 - 1, math.MaxInt64, math.MinInt64, math.MinInt64 + 1}
	for _, k := range g.Lits.Ints {
		ints = append(ints, int64(k)-1, int64(k), int64(k)+1)
	}
	var refs []string
	for _, i := range ints {
		refs = append(refs, fmt.Sprint(i))
	}
	refs = uniq(append(refs, "1.5", "0.5", "99.5", "100.5", "-0.5", "1K", "1Ki", "1e3", "0.1K", "100.0", "2m", "1000m", "10000%", "+5", "007", "010", "0100", "-010", "0011", "010.5", "010Ki", "01000m"))
	for _, meth := range numMethods {
		for _, ref := range refs {
			meth, ref := meth, ref
			g.Do(func(t *T) {
				c := leaf("payloadSize", meth, ref)
				t.Desc(func() string { return c.Text() })
				rs := t.load(anyRule("alert", c))
				_, isInt := parseInt(ref)
				m := mkMsg(nil)
				for _, v := range ints {
					if !isInt && (v > 1<<52 || v < -1<<52) {
						continue
					}
					m.M.RequestSize = v
					t.State("size", meth, ref, fmt.Sprint(v))
					t.expectCond(&rs.Rules[0], c, m, "size")
				}
				for _, v := range []int64{5, 6, 7, 8} {
					m.M.RequestSize = v
					t.expectCond(&rs.Rules[0], c, m, "size")
				}
			})
		}
	}
	hours := []float64{0, 0.25, 0.5, 1, 1.5, 6, 11.999, 12, 12.001, 12.5, 23, 23.5, 23.9997, 3, 10, 9.75, 0.1, 0.3, 1.1, 1.2, 1.3, 1.30000001, 2.7, 16777217, 1e-9}
	hrefs := []string{"0", "0.25", "0.5", "1", "1.5", "6", "12", "12.0", "12.5", "23", "23.5", "3", "10", "9.75", "24", "-1", "1e1", "+6", "06", "012", "010.0", ".5", "0.1", "0.3", "1.1", "1.2", "1.3", "1.20", "2.7", "16777216", "0.000000001"}
	for _, meth := range numMethods {
		for _, ref := range hrefs {
			for _, attr := range []string{"utcHoursFromMidnight", "encryptionVersion"} {
				if attr == "encryptionVersion" && (up(meth) == "NEQ" || up(meth) == "NE") {
					continue
				}
				meth, ref, attr := meth, ref, attr
				g.Do(func(t *T) {
					c := leaf(attr, meth, ref)
					t.Desc(func() string { return c.Text() })
					rs := t.load(anyRule("alert", c))
					for _, h := range hours {
						for _, o := range []float64{0, 6, 12.5} {
							m := mkMsg(func(m *E.MessageAttributes) {
								hh, oo := h, o
								if attr == "encryptionVersion" {
									m.EncryptionVersion, m.RequestTimeHoursFromMidnightUTC = &hh, oo
								} else {
									m.EncryptionVersion, m.RequestTimeHoursFromMidnightUTC = &oo, hh
								}
								m.RequestTimeSecondsFromMidnightUTC, m.RequestTimeMinutesFromMidnightUTC = o*7, o*3
							})
							t.State(attr, meth, ref, fmt.Sprint(h, o))
							t.expectCond(&rs.Rules[0], c, m, "number")
						}
					}
					m := mkMsg(func(m *E.MessageAttributes) { m.EncryptionVersion = nil })
					t.expectCond(&rs.Rules[0], c, m, "no version")
				})
			}
		}
	}
}

// ---------------------------------------------------------------------------
// C09

type docPath struct {
	spell []string                // equivalent spellings of the attribute
	docs  func(v string) []string // documents with the JSON value v at the path
	none  []string                // documents where the path leads nowhere
}

func genC09(g *Gen) {
	strV := []string{`"a"`, `"A"`, `"ab"`, `"b"`, `"5"`, `"5.0"`, `"05"`, `"5 "`, `"-5"`, `"true"`, `"null"`, `"x y"`, `"é"`, `"a\"b"`, `"a\\b"`, `"a/b"`, `"[a]"`, `"\"q\""`, `"a,b"`, `"a"`, `"\n"`, `" "`, `"a.b"`, `"*"`, `"{}"`, `"[]"`, `"5Ki"`, `"50%"`, `"1.5.2"`, `"v5"`, `"0"`, `"nan"`, `"NaN"`, `"inf"`, `"-Inf"`, `"Infinity"`}
	numV := []string{`0`, `5`, `-5`, `5.5`, `0.1`, `1000`, `6`, `4`, `123456789`, `1234567890123`, `0.001`, `-0.5`, `50`, `55`}
	otherV := []string{`true`, `false`, `null`, `""`}
	cont := []string{`{}`, `{"x":1}`, `[]`, `[1]`, `["a"]`, `[{"x":1}]`, `{"a":"b"}`, `[null]`, `[false]`, `[0]`, `[[1]]`, `[{}]`, `[""]`, `[[]]`, `["\""]`}
	scal := append(append(append([]string{}, strV...), numV...), otherV...)
	eqs := []string{"a", "A", "ab", "5", "5.0", "05", "-5", "5.5", "0.1", "1000", "1e3", "0", "true", "false", "null", "x y", "é", `a"b`, `a\b`, "a/b", "[a]", `"q"`, "a,b", "\n", " ", "a.b", "*", "a*", "{}", "[]", "5Ki", "5120", "50%", "0.5", "1.5.2", "v5", "123456789", "1234567890123", "+5", "", "nan", "NaN", "inf", "-Inf", "Infinity"}
	ords := []string{"5", "5.0", "-5", "0", "5.5", "0.1", "4.9", "1000", "5Ki", "1e3", "50%", "-1"}
	lists := []string{"a", "a,b", "[a,ab]", "5", "5,6", "true,x y", "A", "[5.5,0.1]", "null", "false", "a/b,é", "1000"}
	res := []string{"a", "^a$", "b$", "^5", "5$", "^5$", "^true$", "a.b", "^.$", "x y", "é", `"`, `\\`, "^$", "", "^[0-9]+$", "^(a|5)$", "(?i)^A$", `\n`}
	wrap := func(pre, suf string) func(string) []string {
		return func(v string) []string { return []string{pre + v + suf} }
	}
	paths := []docPath{
		{[]string{"$.a", ".a", "$['a']x", `$.["a"]`, `$.['a']`, `$."a"`, `$.'a'`, `.["a"]`, `.'a'`}, func(v string) []string {
			return []string{`{"a":` + v + `}`, `{"b":{"a":7},"a":` + v + `,"A":3,"aa":"a"}`, "{ \"z\" : \"a\" ,\n \"a\" :\t" + v + " }"}
		}, []string{`{}`, `{"b":5}`, `{"A":"a"}`, `{"aa":5}`, `{"b":{"a":5}}`, `[]`, `[{"b":5}]`, `5`, `"a"`, `null`}},
		{[]string{"$.a.b", ".a.b", `$.a["b"]`, `$.a['b']`, `$.['a']['b']`, `$.a."b"`, `$.'a'.'b'`, `$.a.["b"]`, `$.["a"].["b"]`, `$.['a'].['b']`, `$."a".['b']`, `.["a"].b`}, func(v string) []string {
			return []string{`{"a":{"b":` + v + `}}`, `{"b":"a","a":{"a":5,"b":` + v + `,"c":"a"}}`}
		}, []string{`{"a":{}}`, `{"a":5}`, `{"a":"b"}`, `{"a":null}`, `{"b":{"b":5}}`, `{"b":5}`, `{"a":{"c":5}}`, `{"a":{"bb":"a"}}`, `{"a":[]}`, `{}`}},
		{[]string{"$.a.b.c", `$.a['b'].c`, `.a.b['c']`, `$.["a"].["b"].["c"]`, `$.'a'.'b'.'c'`}, func(v string) []string {
			return []string{`{"a":{"b":{"c":` + v + `}}}`, `{"c":7,"a":{"c":"a","b":{"b":1,"c":` + v + `}}}`}
		}, []string{`{"a":{"b":{}}}`, `{"a":{"b":5}}`, `{"a":{}}`, `{"c":5}`, `{"a":{"c":5}}`}},
		{[]string{"$.l[0]", ".l[0]", `$.['l'][0]`, `$.l.[0]`}, func(v string) []string {
			return []string{`{"l":[` + v + `]}`, `{"l":[` + v + `,"a",5]}`}
		}, []string{`{"l":[]}`, `{}`, `{"l":5}`, `{"l":null}`}},
		{[]string{"$.l[2]", ".l[2]"}, func(v string) []string {
			return []string{`{"l":["a",5,` + v + `]}`, `{"l":[5,"a",` + v + `,6,"b"]}`}
		}, []string{`{"l":["a",5]}`, `{"l":[]}`, `{"l":[[5,5,5]]}`}},
		{[]string{"$.l[1].x", `$.l[1]['x']`, `$.['l'].[1].['x']`}, func(v string) []string {
			return []string{`{"l":[{"x":"a"},{"x":` + v + `}]}`, `{"l":[5,{"y":1,"x":` + v + `},{"x":5}]}`}
		}, []string{`{"l":[{"x":5}]}`, `{"l":[{"x":5},{}]}`, `{"l":[{"x":"a"},5]}`}},
		{[]string{`$.a["b.c"]`, `$.a['b.c']`, `.a['b.c']`}, func(v string) []string {
			return []string{`{"a":{"b.c":` + v + `,"b":{"c":7}}}`}
		}, []string{`{"a":{"b":{"c":5}}}`, `{"a":{"b":5,"c":5}}`}},
		{[]string{`$.a.b-c`, `$.a['b-c']`}, wrap(`{"a":{"b":"b","c":7,"b-c":`, `}}`), []string{`{"a":{"b":5,"c":5}}`}},
		{[]string{`$.a["b/c"]`, `$.a['b/c']`}, wrap(`{"a":{"b":7,"b/c":`, `}}`), []string{`{"a":{"b":5}}`}},
		{[]string{`$.a["app.kubernetes.io/name"]`, `$.a['app.kubernetes.io/name']`}, wrap(`{"a":{"app":7,"app.kubernetes.io/name":`, `}}`), []string{`{"a":{"app":{"kubernetes":{"io/name":5}}}}`}},
		{[]string{`$.a_1.B2`, `$.a_1['B2']`}, wrap(`{"a_1":{"b2":7,"B2":`, `}}`), []string{`{"a_1":{"b2":5}}`}},
	}
	for _, w := range g.Lits.Words(`[A-Za-z]{1,24}`) {
		w := w
		paths = append(paths, docPath{[]string{"$." + w, "$.q." + w}, nil, nil})
		_ = w
	}
	run := func(attr, meth, rv string, noval bool, docs []string) {
		g.Do(func(t *T) {
			c := leaf("jsonpath:"+attr, meth, rv)
			c.NoVal = noval
			t.Desc(func() string { return fmt.Sprintf("%s on %d documents", c.Text(), len(docs)) })
			rs := t.load(anyRule("alert", c))
			base := mkMsg(nil)
			for _, d := range docs {
				for _, mode := range modes {
					m := withDoc(base, d, mode)
					t.State(attr, meth, rv, d, mode)
					t.expectCond(&rs.Rules[0], c, m, mode)
				}
			}
			t.expectCond(&rs.Rules[0], c, base, "no document")
			for i := len(docs) - 1; i >= 0; i-- {
				t.expectCond(&rs.Rules[0], c, withDoc(base, docs[i], modes[i%2]), "backward")
			}
		})
	}
	docsFor := func(p docPath, vals []string) []string {
		var out []string
		for _, v := range vals {
			out = append(out, p.docs(v)...)
		}
		return append(out, p.none...)
	}
	all := append(append([]string{}, numMethods...), "IN", "in", "NIN", "nin", "IS", "RE", "re", "NRE", "nre", "EX", "ex", "NEX", "nex")
	for pi, p := range paths {
		for si, sp := range p.spell {
			if strings.HasSuffix(sp, "x") && strings.HasPrefix(sp, "$['a']") {
				continue
			}
			if p.docs == nil { // words of the source as field names
				pre, suf := `{"`+sp[2:]+`":`, `}`
				if strings.HasPrefix(sp, "$.q.") {
					pre, suf = `{"q":{"`+sp[4:]+`":`, `}}`
				}
				ds := []string{pre + `"a"` + suf, pre + `5` + suf, pre + `null` + suf, `{}`, `{"q":5}`}
				for _, meth := range []string{"EQ", "NEQ", "EX", "NEX", "LE", "IN", "RE"} {
					run(sp, meth, "5", false, ds)
				}
				run(sp, "EQ", "a", false, ds)
				continue
			}
			for _, meth := range all {
				full := pi < 2 && si == 0 || g.Thorough()
				var rvs []string
				vals := scal
				switch up(meth) {
				case "EQ", "NEQ", "NE":
					rvs = eqs
				case "LT", "LE", "GT", "GE":
					rvs = ords
				case "IN", "NIN", "IS":
					rvs = lists
				case "RE", "NRE":
					rvs = res
				case "EX", "NEX":
					vals = append(append([]string{}, scal...), cont...)
					run(sp, meth, "", true, docsFor(p, vals))
					rvs = []string{"", "don't care", "5"}
				}
				if !full {
					rvs = rvs[:min(len(rvs), 5)]
				}
				for _, rv := range rvs {
					run(sp, meth, rv, false, docsFor(p, vals))
				}
			}
		}
	}
	// every source word and every word of the vocabulary as a value
	for _, w := range uniq(append(g.Lits.Words(`[ -~]{1,30}`), "yes", "on", "NaN-x", "0x1G", "e3", "Ki", "%", "m", "-", "+", ".")) {
		if _, bad := weird(w); bad || reference(w) {
			continue
		}
		for _, meth := range []string{"EQ", "NEQ"} {
			run("$.a", meth, w, false, []string{`{"a":` + js(w) + `}`, `{"a":` + js(w+"x") + `}`, `{"a":` + js(swapCase(w)) + `}`, `{"a":5}`, `{"b":` + js(w) + `}`})
		}
	}
	// long values, long names, long arrays, deep paths
	for _, n := range append(g.Lits.Sizes(70, 4100), 256, 257, 5000) {
		if n == 0 {
			continue
		}
		s := strings.Repeat("a", n)
		ds := []string{`{"a":` + js(s) + `}`, `{"a":` + js(s+"a") + `}`, `{"a":` + js(s[1:]) + `}`, `{"a":` + js(s[1:]+"b") + `}`}
		for _, meth := range []string{"EQ", "NEQ", "IN", "RE", "EX"} {
			rv := s
			if meth == "RE" {
				rv = "^" + s + "$"
			}
			run("$.a", meth, rv, false, ds)
		}
		run("$.n"+s, "EQ", "5", false, []string{`{"n` + s + `":5}`, `{"n` + s + `a":5}`, `{"n` + s[1:] + `":5}`})
		if n <= 300 {
			for _, p := range positions(n) {
				mk := func(v string) string {
					var e []string
					for i := 0; i < n; i++ {
						if i == p {
							e = append(e, v)
						} else {
							e = append(e, "7")
						}
					}
					return `{"l":[` + strings.Join(e, ",") + `]}`
				}
				run(fmt.Sprintf("$.l[%d]", p), "EQ", "5", false, []string{mk("5"), mk("7"), mk("null")})
			}
		}
		if n <= 40 {
			deep := "$" + strings.Repeat(".d", n)
			mk := func(v string) string { return strings.Repeat(`{"d":`, n) + v + strings.Repeat("}", n) }
			run(deep, "EQ", "5", false, []string{mk("5"), mk("6"), mk("null"), mk(`{"d":5}`)})
			run(deep, "EX", "", true, []string{mk("5"), mk("null"), mk("{}")})
		}
	}
}

// weird: texts that Go's number parser accepts but that are not decimal numbers
func weird(s string) (string, bool) {
	l := strings.ToLower(s)
	for _, p := range []string{"inf", "nan", "0x", "_", "infinity"} {
		if strings.Contains(l, p) {
			return s, true
		}
	}
	return s, false
}

// ---------------------------------------------------------------------------
// C21

func genC21(g *Gen) {
	sfx := []string{"", "%", "e3", "e6", "e9", "e12", "e15", "e18", "Ki", "Mi", "Gi", "Ti", "Pi", "Ei", "K", "M", "G", "T", "P", "E", "m"}
	nums := []string{"0", "1", "2", "5", "10", "100", "1000", "1024", "1023", "-1", "-5", "0.5", "1.5", "0.25", "2.048"}
	if g.Thorough() {
		nums = append(nums, "3", "7", "999", "1001", "1025", "1048576", "1000000", "0.001", "-0.5", "+5", "007", "5.0", ".5")
	}
	meths := numMethods
	if !g.Thorough() {
		meths = []string{"EQ", "NEQ", "NE", "LT", "LE", "GT", "GE", "eq", "lt", "ge"}
	}
	exact := func(s string) (*big.Rat, bool) { // exact value, and whether number times factor is exact in binary
		base, f := s, "1"
		for _, u := range units {
			if strings.HasSuffix(s, u.s) {
				base, f = s[:len(s)-len(u.s)], u.f
				break
			}
		}
		b, ok := parseDec(base)
		if !ok {
			return nil, false
		}
		r, _ := new(big.Rat).SetString(f)
		v := new(big.Rat).Mul(b, r)
		_, e1 := b.Float64()
		_, e2 := r.Float64()
		_, e3 := v.Float64()
		return v, e1 && e2 && e3
	}
	for _, rs := range sfx {
		for _, rn := range nums {
			for _, meth := range meths {
				rv, meth := rn+rs, meth
				g.Do(func(t *T) {
					c := leaf("jsonpath:$.a", meth, rv)
					t.Desc(func() string { return c.Text() + " against all numbers and suffixes" })
					rules := t.load(anyRule("alert", c))
					ref, rex := exact(rv)
					base := mkMsg(nil)
					for _, vs := range sfx {
						for _, vn := range nums {
							dv := vn + vs
							val, vex := exact(dv)
							if dv != rv && !(rex && vex) {
								// rounding decides: skip values closer than 1e-9
								d := new(big.Rat).Sub(ref, val)
								d.Abs(d)
								s := new(big.Rat).Abs(ref)
								if x := new(big.Rat).Abs(val); x.Cmp(s) > 0 {
									s = x
								}
								if d.Mul(d, big.NewRat(1e9, 1)).Cmp(s) <= 0 {
									continue
								}
							}
							want := numCompare(meth, num{val}, num{ref})
							docs := []string{`{"a":"` + dv + `"}`}
							if vs == "" && !strings.HasPrefix(dv, "+") && !strings.HasPrefix(dv, ".") && dv != "007" {
								docs = append(docs, `{"a":`+dv+`}`)
							}
							for _, d := range docs {
								for _, mode := range modes {
									m := withDoc(base, d, mode)
									t.Step()
									t.State(rv, meth, d, mode)
									got, _ := rules.Rules[0].TestConditions(&m.M)
									if got != want {
										t.Fail("document %s (%s) %s %s: %v, model says %v", d, mode, meth, rv, got, want)
									}
									t.Out(fmt.Sprint(up(meth), " ", got))
								}
							}
						}
					}
				})
			}
		}
	}
	// every unit against plain numbers just below, at and just above
	for _, u := range append(units, struct{ s, f string }{"", "1"}) {
		for _, n := range []string{"1", "2", "3", "5", "7", "10", "64", "100", "250", "512", "1000", "1024", "1500", "0.5", "1.5", "0.1", "12.75"} {
			for _, sg := range []string{"", "-"} {
				u, n, sg := u, n, sg
				g.Do(func(t *T) {
					v := sg + n + u.s
					t.Desc(func() string { return v + " against plain numbers around it" })
					val, ex := exact(v)
					for _, k := range []*big.Rat{big.NewRat(1, 1000), big.NewRat(1, 2), big.NewRat(999, 1000), big.NewRat(1, 1), big.NewRat(1001, 1000), big.NewRat(2, 1), big.NewRat(1000, 1), big.NewRat(-1, 1)} {
						w := new(big.Rat).Mul(val, k)
						plain := w.FloatString(12)
						pv, pex := exact(plain)
						if k.Cmp(big.NewRat(1, 1)) == 0 && !(ex && pex) {
							continue // rounding decides
						}
						for _, meth := range []string{"EQ", "NEQ", "LT", "LE", "GT", "GE"} {
							for _, way := range []string{"unit in rule", "unit in document"} {
								rv, dv, want := v, plain, numCompare(meth, num{pv}, num{val})
								if way == "unit in document" {
									rv, dv, want = plain, v, numCompare(meth, num{val}, num{pv})
								}
								rules := t.load(anyRule("alert", leaf("jsonpath:$.a", meth, rv)))
								for _, mode := range modes {
									m := withDoc(mkMsg(nil), `{"a":"`+dv+`"}`, mode)
									t.Step()
									t.State(rv, meth, dv, mode)
									if got, _ := rules.Rules[0].TestConditions(&m.M); got != want {
										t.Fail("document value %s (%s) %s %s: %v, model says %v", dv, mode, meth, rv, got, want)
									}
								}
							}
						}
					}
				})
			}
		}
	}
	// things that look like units but are not: not numbers
	for _, bad := range []string{"5KB", "5k", "5mi", "Ki", "%", "5 Ki", "5KiKi", "5%%", "5Kim", "5e", "5ee3", "m", "E", "5x", "K5", "5KiB", "5mm", "1e3e3", "Ki5", "5ki"} {
		for _, meth := range []string{"EQ", "NEQ", "LT", "LE", "GT", "GE"} {
			bad, meth := bad, meth
			g.Do(func(t *T) {
				c := leaf("jsonpath:$.a", meth, "5")
				t.Desc(func() string { return c.Text() + " against " + bad })
				rules := t.load(anyRule("alert", c))
				for _, mode := range modes {
					m := withDoc(mkMsg(nil), `{"a":"`+bad+`"}`, mode)
					t.State("bad", bad, meth, mode)
					t.expectCond(&rules.Rules[0], c, m, mode)
				}
			})
		}
	}
}

// reference tells whether a condition value refers to something else (a predefined string or
// list, or another attribute) instead of standing for itself.
func reference(w string) bool {
	for _, p := range []string{"#", "$sender", "$receiver", "senderLabel[", "receiverLabel["} {
		if strings.HasPrefix(w, p) {
			return true
		}
	}
	return false
}
