package main

// Histories (C17), message loading (C19), robustness (C24).

import (
	"encoding/json"
	"fmt"
	"math"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	E "github.com/octarinesec/MAPL/MAPL_engine"
	"go.mongodb.org/mongo-driver/bson"
)

func init() {
	register(&Prop{ID: "C17", Bounds: "all sequences of 2 operations over 19 rules (some carrying their own hash, two sharing one) and 6 messages sharing objects, message objects refilled between checks, all sequences of 3 (thorough 4) over a smaller alphabet, and one history per start operation in which every ordered pair of operations occurs", Gen: genC17,
		Assume: []string{"the reference result of an operation is its result on freshly loaded objects with the same definitions; decisions are also compared with the model"}})
	register(&Prop{ID: "C19", Bounds: "every field; every hour x boundary minutes and seconds x fractions x zones; label sets up to 3 entries; 1 to 5 messages with an invalid entry at every position", Gen: genC19})
	register(&Prop{ID: "C24", Bounds: "every attribute, method and path kind at every tree position x documents with every JSON type at every place up to depth 3 x malformed bytes x messages with every attribute missing x every operation", Gen: genC24})
}

// ---------------------------------------------------------------------------
// C17

// world is a set of objects shared by the operations of a history.
type world struct {
	list *E.Rules
	msgs []*Msg
	defs []int // definitions of each rule
}

var histDefs = []defs{{}, {S: map[string]string{"s": "dom", "n": "svc-a*"}, L: map[string][]string{"l": {"1", "5"}, "h": {"host.*", "x"}}}, {S: map[string]string{"s": "other", "h": "zz"}, L: map[string][]string{"l": {"q", "#s"}, "n": {"svc-b", "svc-a.*"}}},
	{L: map[string][]string{"s": {"dom"}, "l": {"1", "q"}, "n": {"svc-a.*"}, "h": {"host*"}}}, {L: map[string][]string{"s": {"other"}, "l": {"7"}, "n": {"zz"}, "h": {"host"}}}}

func histRules() []*R {
	a := []*R{
		anyRule("block", nil),
		anyRule("alert", leaf("jsonpath:$.a.y", "EQ", "1")),
		anyRule("block", any_("jsonpath:$.l[:]", rel(".x", "EQ", "1"))),
		anyRule("alert", all_("jsonpath:$.l[:]", rel(".x", "GE", "1"))),
		anyRule("block", anyRet("jsonpath:$.l[:]", map[string]string{"x": "jsonpath:$RELATIVE.x", "w": "jsonpath:$RELATIVE"}, or(rel(".x", "in", "1,5"), any_("jsonpath:$RELATIVE.b[:]", rel("", "LT", "2"))))),
		anyRule("allow", and(leaf("senderLabel[app]", "IN", "x,y"), not(leaf("payloadSize", "GT", "1Ki")))),
		anyRule("block", any_("jsonpath:$.a", and(keyIs("RE", "^x"), valIs("", "EQ", "s")))),
		anyRule("alert", or(leaf("jsonpath:$RELATIVE.x", "EQ", "1"), rel("", "EX", ""))), // relative outside of a quantifier
		anyRule("block", leaf("domain", "EQ", "#s")),
		anyRule("alert", any_("jsonpath:$.l[:]", rel(".x", "IN", "#l"))),
		{SName: "#n", SType: "workload", RName: "#h", RType: "hostname", Proto: "*", ResType: "*", ResName: "*", Op: "*", Decision: "alert"},
		anyRule("block", not(any_("jsonpath:$..x", any_("jsonpath:$.l[:]", rel(".x", "NEQ", "1"))))),
		{ID: "n", SName: "svc-a.*,10.*", SType: "workload", RName: "10.9.0.0/16", RType: "subnet", Proto: "http", ResType: "path", ResName: "/book/*", Op: "read", Decision: "alert", Cond: leaf("encryptionVersion", "GE", "1.2"), Meta: map[string]string{"description": "d"}},
		anyRule("alert", or(lret(leaf("jsonpath:$.x", "EX", ""), map[string]string{"x": "jsonpath:$.x", "r": "jsonpath:$RELATIVE.x"}), lret(leaf("jsonpath:$.a.x", "EQ", "s"), map[string]string{"y": "jsonpath:$.a.y"}))),
		// one text in several roles
		{SName: "*", SType: "*", RName: "*", RType: "*", Proto: "HTTP", ResType: "*", ResName: "/book/1,GET,dom", Op: "/book/1,GET,dom", Decision: "alert"},
		anyRule("block", leaf("domain", "EQ", "/book/1,GET,dom")),
		anyRule("alert", leaf("domain", "RE", "/book/1,GET,dom|m$")),
		// different rules under one id and one hash
		anyRule("block", leaf("domain", "EQ", "dom")),
		anyRule("alert", leaf("domain", "EQ", "other")),
	}
	for i, r := range a {
		r.ID = fmt.Sprint("r", i)
		if i >= len(a)-2 {
			r.ID, r.Hash = "twin", "0123456789abcdef"
		}
	}
	return a
}

func histMsgs() []*Msg {
	d1 := `{"a":{"x":"s","y":1},"l":[{"x":1,"b":[1]},{"x":"q"},{"x":5}]}`
	d2 := `{"l":[{"x":5,"":3,"b":[]},{"x":7}],"x":1,"":{"":1},"a":{"":0,"y":2}}`
	loose := strings.NewReplacer(":", " :  ", ",", " ,\n\t", "[", "[ ", "{", "{  ", "}", " }", `"q"`, `"\u0071"`)
	d1b, d2b := loose.Replace(d1)+"\n", loose.Replace(d2)
	m := []*Msg{mkMsg(nil), withDoc(mkMsg(nil), d1b, "bytes"), withDoc(mkMsg(nil), d1, "iface"), withDoc(mkMsg(func(m *E.MessageAttributes) { m.Domain = "other"; m.RequestSize = 5000 }), d2, "iface"), withDoc(mkMsg(func(m *E.MessageAttributes) {
		m.SourceLabels, m.DestinationLabels = nil, nil
		m.SourceLabelsJson, m.DestinationLabelsJson = "{app:x}", "{app:x}"
		m.Domain = "x"
		m.SourceNetIp, m.RequestTime = nil, "2018-07-29T14:30:00Z"
	}), d2b, "bytes"),
		withDoc(mkMsg(func(m *E.MessageAttributes) { m.RequestMethod = "POST"; m.EncryptionVersion = nil }), d1b, "both")}
	for i := range m {
		m[i].M.MessageID = fmt.Sprint("m", i)
	}
	return m
}

func (t *T) newWorld(rules []*R) *world {
	w := &world{list: t.load(rules...), msgs: histMsgs(), defs: make([]int, len(rules))}
	for i := range w.list.Rules { // rules that carry their own hash
		if r := &w.list.Rules[i]; i%2 == 0 && r.Hash == "" {
			r.Hash = E.RuleMD5Hash(*r)
		}
	}
	return w
}

type histOp struct {
	kind string
	r, m int
	d    int
}

func (o histOp) String() string { return fmt.Sprintf("%s(r%d,m%d,d%d)", o.kind, o.r, o.m, o.d) }

// sortRecs makes returned records comparable (entries of objects come in map order)
func recText(d [][]map[string]interface{}) string {
	var p []string
	for _, x := range d {
		p = append(p, canon(x, true))
	}
	return strings.Join(p, "|")
}

func (w *world) run(o histOp) string {
	r := &w.list.Rules[o.r]
	m := &w.msgs[o.m].M
	switch o.kind {
	case "CheckOneRule":
		d, x := E.CheckOneRule(m, r)
		return fmt.Sprint(d, canon(x, true))
	case "Rule.Check":
		d, x := r.Check(m)
		return fmt.Sprint(d, canon(x, true))
	case "TestConditions":
		d, x := r.TestConditions(m)
		if !d {
			x = nil
		}
		return fmt.Sprint(d, canon(x, true))
	case "Check":
		a, b, c, d, e, f, x := E.Check(m, w.list)
		return fmt.Sprint(a, b, c, d, e, f, recText(x))
	case "CheckAlone":
		a, b, c, d, e, f, x := E.Check(m, &E.Rules{Rules: []E.Rule{*r}})
		return fmt.Sprint(a, b, c, d, e, f, recText(x))
	case "hash":
		return E.RuleMD5Hash(*r) + E.RuleMD5HashConditions(*r) + r.String()
	case "json":
		b, err := json.Marshal(r)
		return fmt.Sprint(noCaches(b), err)
	case "jsonlist":
		b, err := json.Marshal(w.list)
		return fmt.Sprint(noCaches(b), err)
	case "bson":
		b, err := bson.Marshal(r)
		if err != nil {
			return err.Error()
		}
		var o E.Rule
		if err := bson.Unmarshal(b, &o); err != nil {
			return err.Error()
		}
		return o.String()
	case "validate":
		return fmt.Sprint(E.ValidateRule(r) == nil)
	case "prepare":
		return fmt.Sprint(E.PrepareOneRule(r))
	case "sides": // not for rules with references: the rule itself is tested
		return fmt.Sprint(E.TestSender(r, m), E.TestReceiver(r, m))
	case "mongo":
		q, err := r.ToMongoQuery("raw")
		if err != nil {
			return "error"
		}
		b, err := json.Marshal(q.Query)
		return fmt.Sprint(q.Type, string(b), err)
	case "coverage":
		ms := E.Messages{}
		for _, m := range w.msgs {
			ms.Messages = append(ms.Messages, m.M)
		}
		return coverageOf(w.list, &ms)
	case "define":
		p, err := E.YamlReadStringListsFromString(histDefs[o.d].text())
		if err != nil {
			return "bad definitions"
		}
		err = r.SetPredefinedStringsAndLists(p)
		w.defs[o.r] = o.d
		return fmt.Sprint(err == nil)
	case "message":
		b, err := m.ToJson()
		return fmt.Sprint(b, err)
	}
	panic(o.kind)
}

// noCaches removes what preparing a rule in place adds to its encoding
func noCaches(b []byte) string {
	if s, ok := noCacheMemo[string(b)]; ok {
		return s
	}
	s := string(b)
	if len(noCacheMemo) > 50000 {
		noCacheMemo = map[string]string{}
	}
	noCacheMemo[s] = stripCaches(b)
	return noCacheMemo[s]
}

var noCacheMemo = map[string]string{}

func stripCaches(b []byte) string {
	var v interface{}
	if err := json.Unmarshal(b, &v); err != nil {
		return string(b)
	}
	var strip func(v interface{}) interface{}
	strip = func(v interface{}) interface{} {
		switch x := v.(type) {
		case map[string]interface{}:
			for _, k := range []string{"-", "operationRegex"} {
				delete(x, k)
			}
			for k := range x {
				x[k] = strip(x[k])
			}
		case []interface{}:
			for i := range x {
				x[i] = strip(x[i])
			}
		}
		return v
	}
	b, _ = json.Marshal(strip(v))
	return string(b)
}

// content is what can be seen of the objects without using them
func (w *world) content() string {
	var b strings.Builder
	for i := range w.list.Rules {
		j, _ := json.Marshal(&w.list.Rules[i])
		fmt.Fprintf(&b, "%s %s\n", noCaches(j), E.RuleMD5Hash(w.list.Rules[i]))
	}
	for _, m := range w.msgs {
		b.WriteString(msgText(m))
		b.WriteString("\n")
	}
	return b.String()
}

func coverageOf(rs *E.Rules, ms *E.Messages) string {
	a, b := E.Coverage(ms, rs)
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return string(x) + string(y)
}

func genC17(g *Gen) {
	rules := histRules()
	nm := len(histMsgs())
	refRules := map[int]bool{8: true, 9: true, 10: true}
	var ops []histOp
	for _, k := range []string{"CheckOneRule", "Rule.Check", "TestConditions", "CheckAlone"} {
		for i := range rules {
			for j := 0; j < nm; j++ {
				ops = append(ops, histOp{kind: k, r: i, m: j})
			}
		}
	}
	for j := 0; j < nm; j++ {
		ops = append(ops, histOp{kind: "Check", m: j}, histOp{kind: "message", m: j})
	}
	for i := range rules {
		for _, k := range []string{"hash", "json", "bson", "validate", "mongo", "prepare"} {
			ops = append(ops, histOp{kind: k, r: i})
		}
		for j := 0; j < nm && !refRules[i]; j += 2 {
			ops = append(ops, histOp{kind: "sides", r: i, m: j})
		}
		ops = append(ops, histOp{kind: "define", r: i, d: 0})
		if refRules[i] {
			for d := 1; d < len(histDefs); d++ {
				ops = append(ops, histOp{kind: "define", r: i, d: d})
			}
		}
	}
	ops = append(ops, histOp{kind: "coverage"}, histOp{kind: "jsonlist"})

	// reference results on fresh objects with the same definitions
	memo := map[string]string{}
	ref := func(t *T, o histOp, w *world) string {
		key := fmt.Sprint(o, w.defs)
		if x, ok := memo[key]; ok {
			return x
		}
		f := t.newWorld(rules)
		for i, d := range w.defs {
			if d != 0 {
				f.run(histOp{kind: "define", r: i, d: d})
			}
		}
		x := f.run(o)
		memo[key] = x
		// the reference itself against the model
		if o.kind == "CheckOneRule" {
			want := dDefault
			if e, ok := histDefs[w.defs[o.r]].expandRule(rules[o.r]); ok {
				want = decide(e, f.msgs[o.m])
			}
			if d, _ := E.CheckOneRule(&f.msgs[o.m].M, &f.list.Rules[o.r]); d != want {
				t.Fail("fresh %v: decision %d, model says %d", o, d, want)
			}
		}
		return x
	}
	content := ""
	play := func(t *T, seq []histOp) {
		w := t.newWorld(rules)
		if content == "" {
			content = w.content()
		}
		for i, o := range seq {
			t.Step()
			want := ref(t, o, w)
			if o.kind == "define" { // the reference world has its definitions already
				want = ""
			}
			got := w.run(o)
			if want != "" && got != want {
				t.Fail("%v after %v: %s\non fresh objects: %s", o, tailOps(seq[:i]), got, want)
			}
		}
		if c := w.content(); c != content {
			t.Fail("%v changed the rules or messages to\n%s\nfrom\n%s", tailOps(seq), c, content)
		}
	}
	g.Do(func(t *T) {
		t.Desc(func() string { return "every operation on fresh objects" })
		for _, o := range ops {
			t.State(o.String())
			play(t, []histOp{o})
		}
	})
	for _, a := range ops {
		a := a
		g.Do(func(t *T) {
			t.Desc(func() string { return "every operation after " + a.String() })
			for k, b := range ops {
				if !g.Thorough() && a.r != b.r && a.m != b.m && (k+a.r*7+a.m)%5 != 0 {
					continue // operations without a common object: one in five
				}
				t.State(a.String(), b.String())
				play(t, []histOp{a, b})
			}
			t.Out("pairs")
		})
	}
	// every small tree: each operation leaves the rule as it was
	trees := textTrees(g.Pick(4, 5))
	for _, q := range []func(p string, c *C) *C{any_, all_, func(p string, c *C) *C {
		return anyRet(p, map[string]string{"w": "jsonpath:$RELATIVE", "x": "jsonpath:$RELATIVE.x", "s": "jsonpath:$RELATIVE*"}, c)
	}} {
		for _, p := range []string{"jsonpath:$.l[:]", "jsonpath:$.l", "jsonpath:$.a", "jsonpath:$", "jsonpath:$..b", "jsonpath:$.l[*]", "jsonpath:$*", "jsonpath:$.l[:].b[:]"} {
			for _, c := range []*C{keyIs("EQ", "x"), keyIs("NEQ", "x"), valIs("", "EQ", "s"), valIs(".x", "NEX", ""), rel(".x", "GE", "1"), rel("", "EX", ""), any_("jsonpath:$RELATIVE*", keyIs("EQ", "x")), all_("jsonpath:$RELATIVE.b[:]", rel("", "EQ", "1"))} {
				trees = append(trees, q(p, c))
			}
		}
	}
	for _, a := range []string{"jsonpath:$.x", "jsonpath:$.l[0].x", "jsonpath:$.a", "jsonpath:$.zz", "domain", "senderLabel[app]", "payloadSize"} {
		for _, m := range []string{"EQ", "NEQ", "NE", "IN", "NIN", "IS", "RE", "NRE", "EX", "NEX", "LT", "LE", "GT", "GE", "nex", "in", "ge"} {
			for _, v := range []string{"1", "x", "5,1", "1Ki"} {
				trees = append(trees, leaf(a, m, v))
			}
		}
	}
	for _, c := range trees {
		mr := anyRule("block", c)
		mr.ID = "r0"
		g.Do(func(t *T) {
			t.Desc(func() string { return "every operation on " + mr.Text() })
			if _, err := E.YamlReadRulesFromString(rulesText([]*R{mr})); err != nil {
				t.Out("not a valid rule")
				return
			}
			w := t.newWorld([]*R{mr})
			before := w.content()
			var want []string
			for j := range w.msgs {
				f := t.newWorld([]*R{mr})
				want = append(want, f.run(histOp{kind: "CheckOneRule", m: j}))
			}
			for _, k := range []string{"hash", "validate", "CheckOneRule", "mongo", "json", "bson", "define", "Check", "jsonlist", "prepare", "TestConditions", "coverage", "sides", "Rule.Check", "CheckAlone", "message"} {
				o := histOp{kind: k, m: len(k) % nm}
				t.State(mr.Text(), k)
				t.Steps(1 + nm)
				w.run(o)
				if got := w.content(); got != before {
					t.Fail("%v changed the rule or a message to\n%s\nfrom\n%s", o, got, before)
				}
				for j := range w.msgs {
					if got := w.run(histOp{kind: "CheckOneRule", m: j}); got != want[j] {
						t.Fail("message %d after %v: %s, on fresh objects %s", j, o, got, want[j])
					}
				}
			}
			t.Out("tree")
		})
	}
	// one history in which every ordered pair occurs, from every start
	for s := 0; s < len(ops); s += g.Pick(37, 11) {
		s := s
		g.Do(func(t *T) {
			t.Desc(func() string { return fmt.Sprintf("all ordered pairs with %v in one history", ops[s]) })
			var seq []histOp
			for i := range ops {
				seq = append(seq, ops[s], ops[(s+i)%len(ops)])
			}
			for i := range ops {
				seq = append(seq, ops[(i*89+s)%len(ops)])
			}
			t.State("long", fmt.Sprint(s))
			play(t, seq)
			t.Out("long history")
		})
	}
	// one message object that is filled again and again, its document in the same place
	for i := range rules {
		for j := 0; j < nm; j++ {
			i, j := i, j
			g.Do(func(t *T) {
				t.Desc(func() string { return fmt.Sprintf("rule %d on a message object first used for message %d", i, j) })
				for k := 0; k < nm; k++ {
					for v := 0; v < 4; v++ {
						inPlace, kind := v%2 == 1, []string{"CheckOneRule", "Check"}[v/2]
						w := t.newWorld(rules)
						t.State("refilled", fmt.Sprint(i, j, k, inPlace, kind))
						m := &w.msgs[j].M
						raw, iface := m.RequestJsonRaw, m.RequestRawInterface
						var got []string
						srcs := []int{j, k, j}
						for _, src := range srcs {
							from := histMsgs()[src].M
							*m = from
							if raw != nil && from.RequestJsonRaw != nil {
								if inPlace { // the same bytes, as long as they suffice
									*raw = append((*raw)[:0], *from.RequestJsonRaw...)
								} else {
									*raw = *from.RequestJsonRaw
								}
								m.RequestJsonRaw = raw
							}
							if iface != nil && from.RequestRawInterface != nil {
								*iface = *from.RequestRawInterface
								m.RequestRawInterface = iface
							}
							t.Step()
							got = append(got, w.run(histOp{kind: kind, r: i, m: j}))
						}
						for x, src := range srcs {
							if want := ref(t, histOp{kind: kind, r: i, m: src}, w); got[x] != want {
								t.Fail("%s with the content of message %d: %s\non fresh objects: %s", kind, src, got[x], want)
							}
						}
					}
				}
				t.Out("refilled")
			})
		}
	}
	// deeper, small alphabets around one rule with two messages
	depth := g.Pick(3, 4)
	for i := range rules {
		var small []histOp
		for _, j := range []int{1, 3} {
			small = append(small, histOp{kind: "CheckOneRule", r: i, m: j}, histOp{kind: "TestConditions", r: i, m: j + 1}, histOp{kind: "Check", m: j})
		}
		small = append(small, histOp{kind: "json", r: i}, histOp{kind: "mongo", r: i}, histOp{kind: "define", r: i}, histOp{kind: "validate", r: i}, histOp{kind: "hash", r: i}, histOp{kind: "prepare", r: i})
		if refRules[i] {
			for d := 1; d < len(histDefs); d++ {
				small = append(small, histOp{kind: "define", r: i, d: d})
			}
		}
		for _, a := range stepSeqs(len(small), depth-2) {
			if len(a) != depth-2 {
				continue
			}
			a, i := a, i
			g.Do(func(t *T) {
				t.Desc(func() string {
					return fmt.Sprintf("histories of %d operations on rule %d starting with %v", depth, i, small[a[0]])
				})
				for _, b := range stepSeqs(len(small), 2) {
					if len(b) != 2 {
						continue
					}
					var seq []histOp
					for _, x := range append(append([]int{}, a...), b...) {
						seq = append(seq, small[x])
					}
					t.State(fmt.Sprint(seq))
					play(t, seq)
				}
				t.Out("deep histories")
			})
		}
	}
}

func tailOps(s []histOp) []histOp {
	if len(s) > 6 {
		return s[len(s)-6:]
	}
	return s
}

// ---------------------------------------------------------------------------
// C19

type msgField struct {
	key string
	set func(m *E.MessageAttributes, v string)
}

var msgFields = []msgField{
	{"message_id", func(m *E.MessageAttributes, v string) { m.MessageID = v }},
	{"sender_ip", func(m *E.MessageAttributes, v string) { m.SourceIp = v }},
	{"sender_namespace", func(m *E.MessageAttributes, v string) { m.SourceNamespace = v }},
	{"sender_cluster", func(m *E.MessageAttributes, v string) { m.SourceCluster = v }},
	{"sender_service", func(m *E.MessageAttributes, v string) { m.SourceService = v }},
	{"receiver_ip", func(m *E.MessageAttributes, v string) { m.DestinationIp = v }},
	{"receiver_port", func(m *E.MessageAttributes, v string) { m.DestinationPort = v }},
	{"receiver_namespace", func(m *E.MessageAttributes, v string) { m.DestinationNamespace = v }},
	{"receiver_cluster", func(m *E.MessageAttributes, v string) { m.DestinationCluster = v }},
	{"receiver_service", func(m *E.MessageAttributes, v string) { m.DestinationService = v }},
	{"request_path", func(m *E.MessageAttributes, v string) { m.RequestPath = v }},
	{"request_host", func(m *E.MessageAttributes, v string) { m.RequestHost = v }},
	{"request_method", func(m *E.MessageAttributes, v string) { m.RequestMethod = v }},
	{"request_user_agent", func(m *E.MessageAttributes, v string) { m.RequestUseragent = v }},
	{"request_protocol", func(m *E.MessageAttributes, v string) { m.ContextProtocol = v }},
	{"encryption_type", func(m *E.MessageAttributes, v string) { m.EncryptionType = v }},
	{"domain", func(m *E.MessageAttributes, v string) { m.Domain = v }},
}

// msgSpec is one written message and what it must be read as.
type msgSpec struct {
	text []string // key: value lines
	want E.MessageAttributes
	secs float64
	bad  bool
}

func (s *msgSpec) put(key, v string) { s.text = append(s.text, key+": "+v) }

func newSpec() *msgSpec { return &msgSpec{} }

func (s *msgSpec) time(ts string, secs float64) *msgSpec {
	s.put("request_time", js(ts))
	s.want.RequestTime = ts
	s.secs = secs
	return s
}

func (s *msgSpec) field(k int, v string) *msgSpec {
	s.put(msgFields[k].key, js(v))
	msgFields[k].set(&s.want, v)
	return s
}

func (s *msgSpec) proto(v string) *msgSpec {
	for k, f := range msgFields {
		if f.key == "request_protocol" {
			s.field(k, v)
		}
	}
	return s
}

func specsText(ss []*msgSpec, flow bool) string {
	var b strings.Builder
	if flow {
		var p []string
		for _, s := range ss {
			p = append(p, "{"+strings.Join(s.text, ", ")+"}")
		}
		return "messages: [" + strings.Join(p, ", ") + "]"
	}
	b.WriteString("messages:\n")
	for _, s := range ss {
		for i, l := range s.text {
			if i == 0 {
				b.WriteString("  - " + l + "\n")
			} else {
				b.WriteString("    " + l + "\n")
			}
		}
	}
	return b.String()
}

func (t *T) expectMessages(ss []*msgSpec) {
	bad := false
	for _, s := range ss {
		bad = bad || s.bad
	}
	for _, flow := range []bool{false, true} {
		text := specsText(ss, flow)
		t.State(text)
		dir, err := os.MkdirTemp("", "c19")
		if err != nil {
			panic(err)
		}
		f := filepath.Join(dir, "m.yaml")
		os.WriteFile(f, []byte(text), 0o600)
		t.Steps(2)
		a, e1 := E.YamlReadMessagesFromString(text)
		b, e2 := E.YamlReadMessagesFromFile(f)
		os.RemoveAll(dir)
		if (e1 != nil) != bad || (e2 != nil) != bad {
			t.Fail("reading: %v, from file: %v, expected failure: %v\n%s", e1, e2, bad, text)
		}
		if bad {
			if len(a.Messages)+len(b.Messages) != 0 {
				t.Fail("messages returned together with an error\n%s", text)
			}
			t.Out("rejected")
			continue
		}
		if len(a.Messages) != len(ss) || len(b.Messages) != len(ss) {
			t.Fail("%d and %d messages of %d\n%s", len(a.Messages), len(b.Messages), len(ss), text)
		}
		for i, s := range ss {
			for _, got := range []E.MessageAttributes{a.Messages[i], b.Messages[i]} {
				for k, p := range []struct{ got, want float64 }{{got.RequestTimeSecondsFromMidnightUTC, s.secs}, {got.RequestTimeMinutesFromMidnightUTC, s.secs / 60}, {got.RequestTimeHoursFromMidnightUTC, s.secs / 3600}} {
					if math.Abs(p.got-p.want) > 1e-8*math.Max(1, math.Abs(p.want)) {
						t.Fail("message %d: time value %d is %v, expected %v\n%s", i, k, p.got, p.want, text)
					}
				}
				w := s.want
				w.SourceNetIp, w.DestinationNetIp = net.ParseIP(w.SourceIp), net.ParseIP(w.DestinationIp)
				w.ContextType = map[string]string{"HTTP": "path", "http": "path", "TCP": "port", "tcp": "port"}[w.ContextProtocol]
				w.RequestTimeSecondsFromMidnightUTC, w.RequestTimeMinutesFromMidnightUTC, w.RequestTimeHoursFromMidnightUTC = got.RequestTimeSecondsFromMidnightUTC, got.RequestTimeMinutesFromMidnightUTC, got.RequestTimeHoursFromMidnightUTC
				if !w.SourceNetIp.Equal(got.SourceNetIp) || !w.DestinationNetIp.Equal(got.DestinationNetIp) {
					t.Fail("message %d: addresses %v %v\n%s", i, got.SourceNetIp, got.DestinationNetIp, text)
				}
				w.SourceNetIp, w.DestinationNetIp = got.SourceNetIp, got.DestinationNetIp
				if jsMap(w.SourceLabels) != jsMap(got.SourceLabels) || jsMap(w.DestinationLabels) != jsMap(got.DestinationLabels) {
					t.Fail("message %d: labels %v %v, expected %v %v\n%s", i, got.SourceLabels, got.DestinationLabels, w.SourceLabels, w.DestinationLabels, text)
				}
				w.SourceLabels, w.DestinationLabels = got.SourceLabels, got.DestinationLabels
				w.SourceLabelsJson, w.DestinationLabelsJson = got.SourceLabelsJson, got.DestinationLabelsJson
				if !reflect.DeepEqual(w, got) {
					t.Fail("message %d is %s, expected %s\n%s", i, msgText(&Msg{M: got}), msgText(&Msg{M: w}), text)
				}
			}
		}
		t.Out("loaded")
	}
}

const okTime = "2018-07-29T14:30:00Z"

func genC19(g *Gen) {
	run := func(what string, ss ...*msgSpec) {
		g.Do(func(t *T) {
			t.Desc(func() string { return what + "\n" + specsText(ss, false) })
			t.expectMessages(ss)
		})
	}
	base := func() *msgSpec { return newSpec().time(okTime, 14.5*3600) }
	// times of day
	fr := []struct {
		s string
		v float64
	}{{"", 0}, {".5", .5}, {".123", .123}, {".000000001", 1e-9}, {".999999999", .999999999}}
	zones := []string{"Z", "+00:00", "-07:00", "+05:30", "+14:00", "-12:00"}
	for h := 0; h < 24; h++ {
		var ss []*msgSpec
		for _, mi := range []int{0, 1, 9, 29, 30, 31, 58, 59} {
			for _, s := range []int{0, 1, 30, 59} {
				for k, f := range fr {
					z := zones[(h+mi+s+k)%len(zones)]
					ss = append(ss, newSpec().time(fmt.Sprintf("2018-07-29T%02d:%02d:%02d%s%s", h, mi, s, f.s, z), float64(h*3600+mi*60+s)+f.v))
				}
			}
		}
		run("times", ss...)
		for _, z := range zones {
			for _, day := range []string{"2018-01-01", "2020-02-29", "1999-12-31", "2000-03-01", "0001-01-01", "9999-12-31", "2018-03-25", "2018-10-28"} {
				run("days and zones", newSpec().time(fmt.Sprintf("%sT%02d:59:01%s", day, h, z), float64(h*3600+59*60+1)))
			}
		}
	}
	badTimes := []string{"", "x", "2018-07-29", "14:30:00", "2018-07-29 14:30:00Z", "2018-07-29T14:30:00", "2018-07-29T24:00:00Z", "2018-07-29T14:60:00Z", "2018-07-29T14:30:61Z", "2018-02-30T14:30:00Z", "2018-13-01T14:30:00Z", "2018-07-29T14:30Z", "2018-7-29T14:30:00Z", "2018-07-29T14:30:00+0700", "2018-07-29T14:30:00 Z", " 2018-07-29T14:30:00Z", "2018-07-29T14:30:00Zx", "1532874600", "2019-02-29T00:00:00Z"}
	bad := func(ts string) *msgSpec { s := newSpec().time(ts, 0); s.bad = true; return s }
	noTime := func() *msgSpec { s := newSpec().field(0, "1"); s.bad = true; return s }
	for _, ts := range badTimes {
		run("invalid time", bad(ts))
	}
	run("no time", noTime())
	for n := 1; n <= 5; n++ {
		for p := 0; p < n; p++ {
			for k := -1; k < 6; k++ {
				var ss []*msgSpec
				for i := 0; i < n; i++ {
					s := newSpec().time(fmt.Sprintf("2018-07-29T%02d:30:00Z", i), float64(i*3600+1800)).field(0, fmt.Sprint("m", i)).proto([]string{"HTTP", "tcp", "kafka"}[i%3])
					if i == p && k >= 0 {
						switch k {
						case 4:
							s = bad("")
						case 5:
							s = noTime()
						default:
							s = bad(badTimes[k*4+1])
						}
					}
					ss = append(ss, s)
				}
				run("invalid entry", ss...)
			}
		}
	}
	// fields
	vals := uniq(append([]string{"", "x", "a b", "A", "1", "true", "null", "é", `q"uote`, "a:b", "a, b", "#c", "{x}", "[y]", "*", "/a/b?c=d&e", "10.0.0.1", "0x10", "1.0", "~", "- x", "'s'", "%d", "\\n"}, g.Lits.Words(`^[!-~]{1,24}$`)...))
	for k := range msgFields {
		for _, v := range vals {
			run("field", base().field(k, v))
		}
		for k2 := range msgFields {
			if k2 != k {
				run("two fields", base().field(k, "first").field(k2, "second"))
			}
		}
	}
	all := func(i int) *msgSpec {
		s := newSpec().time(fmt.Sprintf("2018-07-29T%02d:00:00Z", i%24), float64(i%24)*3600)
		for k := range msgFields {
			v := fmt.Sprintf("v%d-%d", i, k)
			switch msgFields[k].key {
			case "sender_ip":
				v = fmt.Sprintf("10.0.0.%d", i%250)
			case "receiver_ip":
				v = fmt.Sprintf("fe80::%x", i%250)
			case "request_protocol":
				v = []string{"HTTP", "http", "TCP", "tcp", "Http", "kafka", "", "UDP", "Tcp"}[i%9]
			}
			s.field(k, v)
		}
		s.put("request_size", fmt.Sprint(i*1000))
		s.want.RequestSize = int64(i * 1000)
		f := float64(i) / 4
		s.put("encryption_version", fmt.Sprint(f))
		s.want.EncryptionVersion = &f
		s.put("sender_labels", js(fmt.Sprintf("{a:%d,b%d:x}", i, i)))
		s.want.SourceLabels = map[string]string{"a": fmt.Sprint(i), fmt.Sprint("b", i): "x"}
		s.put("receiver_labels", js(fmt.Sprintf("{c:%d}", i)))
		s.want.DestinationLabels = map[string]string{"c": fmt.Sprint(i)}
		return s
	}
	for i := 0; i < 30; i++ {
		run("all fields", all(i))
	}
	// counts: each message keeps its own values
	for _, n := range append(g.Lits.Sizes(12, 300), 256, 257) {
		if n == 0 {
			continue
		}
		var ss []*msgSpec
		for i := 0; i < n; i++ {
			s := all(i)
			if i%3 == 1 {
				s = newSpec().time(fmt.Sprintf("2018-07-29T%02d:00:10Z", i%24), float64(i%24)*3600+10).proto("tcp")
			}
			ss = append(ss, s)
		}
		run("count", ss...)
	}
	// messages that have one attribute in common with, or one different from, the message before
	for k := range msgFields {
		for _, n := range []int{2, 3} {
			var a, b []*msgSpec
			for i := 0; i < n; i++ {
				v := fmt.Sprintf("same%d", k)
				switch msgFields[k].key {
				case "sender_ip", "receiver_ip":
					v = "10.1.2.3"
				case "request_protocol":
					v = "kafka"
				}
				s, o := all(i), all(0)
				s.field(k, v)
				if i == n-1 {
					o.field(k, v)
				}
				a, b = append(a, s), append(b, o)
			}
			run("one attribute in common", a...)
			run("one attribute different", b...)
		}
	}
	// protocols, addresses, sizes, versions
	for _, p := range uniq(append([]string{"HTTP", "http", "TCP", "tcp", "kafka", "KAFKA", "", "grpc", "*"}, g.Lits.Words(`^[A-Za-z]{2,8}$`)...)) {
		if p == "Http" || p == "Tcp" {
			continue
		}
		s := base().proto(p)
		run("protocol", s)
		s = base()
		s.put("request_type", js("consumerGroup"))
		s.proto(p)
		run("given type", s)
	}
	for _, ip := range []string{"10.0.0.1", "0.0.0.0", "255.255.255.255", "256.1.1.1", "1.2.3", "::1", "::ffff:10.0.0.1", "fe80::1", "FE80::1", "2001:db8:0:0:0:0:0:1", "x", "10.0.0.1/8", " 10.0.0.1", "10.0.0.01", ":::"} {
		run("address", base().field(1, ip))
		run("address", base().field(5, ip))
		run("addresses", base().field(1, ip).field(5, "1.2.3.4"), base().field(5, ip))
	}
	for _, n := range []int64{0, 1, -1, 1023, 1024, 2147483647, 2147483648, 9223372036854775807, -9223372036854775808} {
		s := base()
		s.put("request_size", fmt.Sprint(n))
		s.want.RequestSize = n
		run("size", s)
	}
	for _, f := range []float64{0, 1, 1.2, 1.25, 3, -1, 0.1} {
		f := f
		s := base()
		s.put("encryption_version", fmt.Sprint(f))
		s.want.EncryptionVersion = &f
		run("version", s)
	}
	// labels
	keys := []string{"a", "b", "app.kubernetes.io/name", "k-1", "A"}
	lv := []string{"x", "1", "v-1", "a.b", "x_y", "true"}
	type lab struct {
		k, v string
	}
	var sets [][]lab
	sets = append(sets, nil)
	for _, k := range keys {
		for _, v := range lv {
			sets = append(sets, []lab{{k, v}})
			for _, k2 := range keys {
				if k2 != k {
					sets = append(sets, []lab{{k, v}, {k2, lv[len(v)%len(lv)]}})
					for _, k3 := range keys[:3] {
						if k3 != k && k3 != k2 {
							sets = append(sets, []lab{{k, v}, {k2, "y"}, {k3, "z"}})
						}
					}
				}
			}
		}
	}
	for c := rune('!'); c <= '~'; c++ {
		if strings.ContainsRune(",:{}\"\\", c) { // written by the notation itself
			continue
		}
		x := string(c)
		for _, w := range uniq([]string{x, x + x, "a" + x, x + "a", "a" + x + "b", "a" + x + x + "b", x + "a" + x}) {
			sets = append(sets, []lab{{"k", w}}, []lab{{w, "v"}}, []lab{{"k", w}, {"z", "v"}}, []lab{{"k" + w, "v"}, {w, w}})
		}
	}
	for i, set := range sets {
		for sp := 0; sp < 4; sp++ {
			m := map[string]string{}
			var p []string
			for _, l := range set {
				m[l.k] = l.v
				p = append(p, l.k+[]string{":", ": ", " : ", ":"}[sp]+l.v)
			}
			text := "{" + strings.Join(p, []string{",", ", ", " , ", ","}[sp]) + "}"
			if sp == 3 {
				text = "{ " + strings.Join(p, ",") + " }"
			}
			s := base()
			if i%3 != 1 {
				s.put("sender_labels", js(text))
				s.want.SourceLabels = m
			}
			if i%3 != 2 {
				s.put("receiver_labels", js(text))
				s.want.DestinationLabels = m
			}
			run("labels", s, base())
		}
	}
	for _, n := range append(g.Lits.Sizes(8, 200), 256, 257) {
		if n == 0 {
			continue
		}
		m := map[string]string{}
		var p []string
		for i := 0; i < n; i++ {
			m[fmt.Sprint("k", i)] = fmt.Sprint("v", i)
			p = append(p, fmt.Sprintf("k%d:v%d", i, i))
		}
		s := base()
		s.put("sender_labels", js("{"+strings.Join(p, ",")+"}"))
		s.want.SourceLabels = m
		run("many labels", s, base())
	}
	g.Do(func(t *T) {
		t.Desc(func() string { return "no messages, unreadable input" })
		t.State("none")
		t.Steps(4)
		if ms, err := E.YamlReadMessagesFromString("messages: []"); err != nil || len(ms.Messages) != 0 {
			t.Fail("empty list: %v", err)
		}
		if _, err := E.YamlReadMessagesFromString("messages: ["); err == nil {
			t.Fail("broken YAML accepted")
		}
		if _, err := E.YamlReadMessagesFromFile("/nonexistent/file"); err == nil {
			t.Fail("missing file accepted")
		}
		if _, err := E.YamlReadMessagesFromString("messages: [{request_size: abc, request_time: \"" + okTime + "\"}]"); err == nil {
			t.Fail("non-numeric size accepted")
		}
	})
}

// ---------------------------------------------------------------------------
// C24

// everything runs every operation on the rule.
func (t *T) everything(mr *R, msgs []*Msg, text string) {
	rs, err := E.YamlReadRulesFromString(`{"rules": [` + text + `]}`)
	if err != nil {
		t.Out("not accepted")
		return
	}
	t.everythingRules(&rs, msgs)
}

func (t *T) everythingRules(rs *E.Rules, msgs []*Msg) {
	for i := range rs.Rules {
		r := &rs.Rules[i]
		t.Steps(8)
		_ = E.RuleMD5Hash(*r) + E.RuleMD5HashConditions(*r) + r.String()
		verr := E.ValidateRule(r)
		if _, err := json.Marshal(r); err != nil {
			t.Fail("encoding to JSON: %v", err)
		}
		if _, err := bson.Marshal(r); err != nil {
			t.Fail("encoding to BSON: %v", err)
		}
		_, merr := r.ToMongoQuery("raw")
		if verr != nil && merr == nil {
			t.Fail("a rule that cannot be prepared (%v) is translated", verr)
		}
		for _, m := range msgs {
			t.Steps(3)
			r.TestConditions(&m.M)
			d, _ := r.Check(&m.M)
			if verr != nil && d != dDefault {
				t.Fail("a rule that cannot be prepared (%v) applies: decision %d", verr, d)
			}
			E.Check(&m.M, rs)
		}
		var ms E.Messages
		for k, m := range msgs {
			x := m.M
			x.MessageID = fmt.Sprint(k)
			ms.Messages = append(ms.Messages, x)
		}
		coverageOf(rs, &ms)
	}
	t.Out("returned")
}

// jsonValues: all values up to a depth with every type
func jsonValues(depth int) []string {
	base := []string{"null", "true", "false", "0", "1", "-1.5", "1e300", `""`, `"s"`, `"x"`, `"1"`, `"q\"\\\n"`, `"[\"z\"]"`, `"5Ki"`, "[]", "{}"}
	out := append([]string{}, base...)
	if depth > 0 {
		sub := jsonValues(depth - 1)
		for _, s := range sub {
			out = append(out, "["+s+"]", `{"x":`+s+`}`, `{"a":`+s+`}`)
		}
		for _, s := range []string{"null", "1", `"s"`, "[]", "{}", `{"x":1}`, "[1]"} {
			for _, u := range []string{"null", "1", `"s"`, "[]", "{}", `{"x":1}`, "[1]"} {
				out = append(out, "["+s+","+u+"]", `{"x":`+s+`,"a":`+u+`}`)
			}
		}
	}
	return out
}

func bareMsg(f func(m *E.MessageAttributes)) *Msg {
	m := &Msg{}
	if f != nil {
		f(&m.M)
	}
	return m
}

func rawBytes(s string) *Msg {
	m := mkMsg(nil)
	b := []byte(s)
	m.M.RequestJsonRaw = &b
	return m
}

func genC24(g *Gen) {
	// documents
	vals := jsonValues(g.Pick(2, 2))
	var docs []*Msg
	for _, v := range vals {
		for _, mode := range modes {
			docs = append(docs, withDoc(mkMsg(nil), v, mode), withDoc(mkMsg(nil), `{"a":`+v+`}`, mode))
		}
	}
	var odd []*Msg
	for _, s := range []string{"", " ", "{", "}", "[", "]", "[1,", `{"a"`, `{"a":`, `{"a":1`, `{"a":1,}`, "nul", "tru", `"`, `"abc`, "\x00", "\xff\xfe", "{a:1}", "[1 2]", "{}{}", "[][]", `{"a":"\u12"}`, `{"a":[1,{"x":]}`, "-", "1e", "\n\n", `{"a":[[[[[[1]]]]]]}`, `{"a":[`, `{"a":{"x":`, `{"a":[{"x":1},`, `{"a":"s`, `[{"x":1}`, `{"":1}`, `{"a":{"":{"":1}}}`, "//", "\ufeff{}", strings.Repeat("[", 200), strings.Repeat(`{"a":`, 100)} {
		odd = append(odd, rawBytes(s))
	}
	nilBytes := []byte(nil)
	var nilIface interface{}
	var intIface interface{} = 5
	var strIface interface{} = "s"
	var mapIface interface{} = map[string]string{"a": "x"}
	var yamlIface interface{} = map[interface{}]interface{}{"a": 1}
	var typedIface interface{} = map[string]interface{}{"a": []string{"x"}, "l": []int{1}, "i": int64(5), "n": json.Number("5")}
	odd = append(odd, bareMsg(nil), mkMsg(nil),
		bareMsg(func(m *E.MessageAttributes) { m.RequestJsonRaw = &nilBytes }),
		bareMsg(func(m *E.MessageAttributes) { m.RequestRawInterface = &nilIface }),
		bareMsg(func(m *E.MessageAttributes) { m.RequestRawInterface = &intIface }),
		bareMsg(func(m *E.MessageAttributes) { m.RequestRawInterface = &strIface }),
		bareMsg(func(m *E.MessageAttributes) { m.RequestRawInterface = &mapIface }),
		bareMsg(func(m *E.MessageAttributes) { m.RequestRawInterface = &yamlIface }),
		bareMsg(func(m *E.MessageAttributes) { m.RequestRawInterface = &typedIface }),
		mkMsg(func(m *E.MessageAttributes) { m.EncryptionVersion = nil }),
		mkMsg(func(m *E.MessageAttributes) { m.SourceLabels, m.DestinationLabels = nil, nil }),
		mkMsg(func(m *E.MessageAttributes) { m.SourceLabels = map[string]string{} }),
		mkMsg(func(m *E.MessageAttributes) { m.SourceIp, m.DestinationIp = "", "x" }),
		mkMsg(func(m *E.MessageAttributes) { m.RequestSize = -9223372036854775808 }),
		mkMsg(func(m *E.MessageAttributes) { m.RequestTimeHoursFromMidnightUTC = math.NaN() }),
		mkMsg(func(m *E.MessageAttributes) { f := math.Inf(1); m.EncryptionVersion = &f }))
	// conditions
	paths := []string{"$.a", ".a", "$.a.x", "$.a[0]", "$.a[1].x", `$.a["x"]`, "$.a.x.x", "$.zz", "$RELATIVE", "$RELATIVE.x", "$RELATIVE.a[0]", "$KEY", "$VALUE", "$VALUE.x", "$VALUE[0]", "$.a.'x'", "$.a.x-y", "$.*", "$.a.*", "$..x", "$.a..x", "$.a.", "$.", "$..", "$.a[99999999999999999999]", "$.'", `$."`, "$.a['", "$.a b", "$.[0]", "$RELATIVE.", "$RELATIVE..x", "$VALUE.", "$.a,b", "$.a()", "$.length()", "$.a.length", "$.@", "$.$", "$.a[0", "$.a]", "$.a[\"x]", "$.é"}
	mv := [][2]string{{"EQ", "1"}, {"EQ", ""}, {"EQ", "s"}, {"NEQ", "x"}, {"ne", "1"}, {"LT", "5"}, {"ge", "1Ki"}, {"GT", "50%"}, {"RE", "^s"}, {"nre", ".*"}, {"RE", ""}, {"IN", "s,x"}, {"nin", "1"}, {"IS", "s"}, {"EX", ""}, {"nex", ""}, {"EQ", "receiverLabel[app]"}, {"NEQ", "$receiver.namespace"}, {"EQ", "$receiver.nosuch"}, {"EQ", "#undefined"}, {"IN", "#undefined"}, {"RE", "#undefined"}, {"IN", "["}, {"IN", ","}, {"EQ", "["}, {"EQ", "\\"}, {"NEQ", "("}, {"EX", "("}, {"IN", "[]"}, {"EQ", "*"}}
	attrs := []string{"true", "FALSE", "payloadSize", "requestUseragent", "utcHoursFromMidnight", "encryptionType", "encryptionVersion", "domain", "$sender.namespace", "$receiver.cluster", "$sender.nosuch", "$sender.", "$receiver.", "senderLabel[app]", "receiverLabel[nosuch]", "senderLabel[]", "receiverLabel[]", "senderLabel[a]b"}
	for _, p := range paths {
		attrs = append(attrs, "jsonpath:"+p)
	}
	parents := []string{"jsonpath:$.a[:]", "jsonpath:$.a", "jsonpath:$.*", "jsonpath:$..x", "jsonpath:$.a.x[:]", "jsonpath:$.a[:].x[:]", "jsonpath:$RELATIVE.x", "jsonpath:$RELATIVE", "jsonpath:$RELATIVE.x[:]", "jsonpath:$.a[:],jsonpath:$.x", "jsonpath:.a", "jsonpath:$.a[*]", "jsonpath:$.a[0]", "jsonpath:$.a['x']", "jsonpath:$.zz[:]", "jsonpath:$.", "jsonpath:.", "jsonpath:$..", "jsonpath:$.a,", "jsonpath:$RELATIVE,", "jsonpath:$.a[:", "jsonpath:$..*", "jsonpath:$RELATIVE.KEY", "jsonpath:$RELATIVE$KEY", "jsonpath:$.a[0:1]", "jsonpath:$.a[-1]", "jsonpath:$.a[?(@.x==1)]", "jsonpath:$.a..x[:]", "jsonpath:$*", "jsonpath:$RELATIVE*"}
	var wraps []func(c *C) *C
	id := func(c *C) *C { return c }
	wraps = append(wraps, id, not0)
	for _, p := range parents {
		p := p
		wraps = append(wraps, func(c *C) *C { return any_(p, c) }, func(c *C) *C { return all_(p, c) },
			func(c *C) *C {
				return anyRet(p, map[string]string{"w": "jsonpath:$RELATIVE", "x": "jsonpath:$RELATIVE.x", "y": "jsonpath:$RELATIVE.x.y[0]", "z": "jsonpath:$RELATIVE.zz"}, c)
			})
	}
	for _, p := range []string{"jsonpath:$RELATIVE.x[:]", "jsonpath:$RELATIVE", "jsonpath:$RELATIVE.x"} {
		p := p
		wraps = append(wraps, func(c *C) *C { return any_("jsonpath:$.a[:]", all_(p, c)) }, func(c *C) *C { return all_("jsonpath:$.a", any_(p, and(c, c))) }, func(c *C) *C { return not(any_("jsonpath:$.*", or(not(any_(p, c)), c))) })
	}
	sample := func(i, n int) []*Msg { // a slice of the documents, rotating, so that all occur with every wrapper
		if g.Thorough() {
			return docs
		}
		var o []*Msg
		for k := i % n; k < len(docs); k += n {
			o = append(o, docs[k])
		}
		return o
	}
	cnt := 0
	for _, a := range attrs {
		for mi, m := range mv {
			for wi, w := range wraps {
				if !g.Thorough() && wi > 1 && mi%5 != wi%5 && wi%8 != 2 { // every wrapper with a fifth of the methods, one in eight with all
					continue
				}
				c := w(leaf(a, m[0], m[1]))
				ms := odd
				if strings.HasPrefix(a, "jsonpath:") || wi > 1 {
					ms = append(append([]*Msg{}, odd...), sample(cnt, 64)...)
				}
				cnt++
				g.Do(func(t *T) {
					mr := anyRule("block", c)
					t.Desc(func() string { return mr.Text() })
					t.State(mr.Text())
					t.everything(mr, ms, mr.Text())
				})
			}
		}
	}
	// conditions with return paths
	for _, q := range append([]string{"", "x", "$", "jsonpath:", "jsonpath:$", "jsonpath:$*", "jsonpath:$RELATIVE*"}, paths...) {
		if strings.HasPrefix(q, "$") || strings.HasPrefix(q, ".") {
			q = "jsonpath:" + q
		}
		for _, a := range []string{"jsonpath:$.a", "jsonpath:$RELATIVE", "jsonpath:$RELATIVE.x", "jsonpath:$KEY", "domain"} {
			for k, w := range wraps[:9] {
				c := w(lret(leaf(a, []string{"EX", "NEX", "NEQ"}[k%3], "x"), map[string]string{"q": q, "w": "jsonpath:$.a"}))
				g.Do(func(t *T) {
					mr := anyRule("block", c)
					t.Desc(func() string { return mr.Text() })
					t.State(mr.Text())
					t.everything(mr, append(append([]*Msg{}, odd...), docs[:40]...), mr.Text())
				})
			}
		}
		for _, p := range parents[:10] {
			c := anyRet(p, map[string]string{"q": strings.Replace(q, "jsonpath:$", "jsonpath:$RELATIVE", 1), "w": "jsonpath:$RELATIVE.x"}, leafNV("jsonpath:$RELATIVE", "EX"))
			g.Do(func(t *T) {
				mr := anyRule("block", c)
				t.Desc(func() string { return mr.Text() })
				t.State(mr.Text())
				t.everything(mr, append(append([]*Msg{}, odd...), docs[:40]...), mr.Text())
			})
		}
	}
	// malformed labels and references on both sides
	for _, a := range []string{"senderLabel[", "senderLabel[a", "senderLabel]", "senderLabel]a[", "receiverLabel[", "receiverLabel[a", "receiverLabel]a[", "senderLabel[[a]", "senderLabel[app]", "receiverLabel[app]", "$sender", "$receiver", "$sender.namespace", "$receiver.namespace", "domain", "jsonpath:", "jsonpath:$RELATIVE", "jsonpath:$.a", "payloadSize"} {
		for _, v := range []string{"receiverLabel[", "receiverLabel[a", "receiverLabel]", "receiverLabel]a[", "receiverLabel[]", "receiverLabel[[", "receiverLabel[a]]", "receiverLabel", "senderLabel[a", "senderLabel[app]", "$receiver", "$receiver.", "$receiver.x.y", "$sender.", "$receiver.namespace", "#", "##", "#receiverLabel[", "jsonpath:", "jsonpath:$.a"} {
			for _, m := range []string{"EQ", "neq", "IN", "nin", "RE", "EX", "LT"} {
				for _, w := range wraps[:4] {
					c := w(leaf(a, m, v))
					g.Do(func(t *T) {
						mr := anyRule("block", c)
						t.Desc(func() string { return mr.Text() })
						t.State(mr.Text())
						t.everything(mr, append(append([]*Msg{}, odd...), docs[1], docs[2], docs[len(docs)-1]), mr.Text())
					})
				}
			}
		}
	}
	// all documents with a core of conditions
	for _, p := range []string{"$.a", "$.a.x", "$.a[0]", "$RELATIVE.x", "$KEY", "$VALUE", "$VALUE.x", "$RELATIVE"} {
		for _, m := range [][2]string{{"EQ", "s"}, {"LT", "5"}, {"RE", "s"}, {"NIN", "1"}, {"EX", ""}} {
			for _, par := range []string{"", "jsonpath:$.a[:]", "jsonpath:$.a", "jsonpath:$.*", "jsonpath:$..x", "jsonpath:$..a[:]", "jsonpath:$RELATIVE"} {
				for k := 0; k < len(docs); k += 200 {
					c := leaf("jsonpath:"+p, m[0], m[1])
					if par != "" {
						c = anyRet(par, map[string]string{"w": "jsonpath:$RELATIVE", "x": "jsonpath:$RELATIVE.x"}, c)
					}
					ms := docs[k:min(k+200, len(docs))]
					k := k
					g.Do(func(t *T) {
						mr := anyRule("block", c)
						t.Desc(func() string { return fmt.Sprintf("documents %d.. %s", k, mr.Text()) })
						t.State(mr.Text(), fmt.Sprint(k))
						t.everything(mr, ms, mr.Text())
					})
				}
			}
		}
	}
	// leaves with return paths, quantifiers with odd return paths
	for _, rp := range []string{"jsonpath:$RELATIVE.x", "jsonpath:$.a", "jsonpath:$RELATIVE", "jsonpath:$RELATIVE.", "jsonpath:$RELATIVE[0]", "jsonpath:$RELATIVE..x", "jsonpath:$RELATIVE['", "x", "", "jsonpath:$KEY", "jsonpath:$RELATIVE$VALUE", "jsonpath:$RELATIVE.x[:]", "jsonpath:$RELATIVE*"} {
		for _, at := range []string{"jsonpath:$.a", "jsonpath:$RELATIVE.x", "domain", "jsonpath:$KEY", "true"} {
			for _, par := range []string{"", "jsonpath:$.a[:]", "jsonpath:$.a", "jsonpath:$..x"} {
				for _, retAt := range []string{"leaf", "node"} {
					lf := fmt.Sprintf(`{"attribute": %s, "method": "EX", "returnValueJsonpath": {"n": %s, "m": "jsonpath:$.a"}}`, js(at), js(rp))
					c := lf
					if par != "" {
						if retAt == "node" {
							c = fmt.Sprintf(`{"ANY": {"parentJsonpathAttribute": %s, "returnValueJsonpath": {"n": %s}, "condition": {"attribute": %s, "method": "EX"}}}`, js(par), js(rp), js(at))
						} else {
							c = fmt.Sprintf(`{"ANY": {"parentJsonpathAttribute": %s, "condition": %s}}`, js(par), lf)
						}
					}
					ms := append(append([]*Msg{}, odd...), sample(len(rp), 4)...)
					g.Do(func(t *T) {
						t.Desc(func() string { return c })
						t.State(c)
						t.everything(nil, ms, ruleWith(c))
					})
				}
			}
		}
	}
	// rule fields
	texts := uniq(append([]string{"", "*", "?", ",", ",,", "a,", ",a", "a,*", "#", "#x", "(", "[", "\\", "a\\", "+", "^", "$", "{", "}", "|", ")", "]", "a(b", "é", "\x01", " ", "\n", "10.0.0.1", "10.0.0.0/8", "10.0.0.0/99", "::1", "*.x", "%", "-1"}, g.Lits.Words(`^[!-~]{1,20}$`)...))
	for _, s := range texts {
		for k := 0; k < 12; k++ {
			mr := fullRule(nil)
			switch k {
			case 0:
				mr.SName = s
			case 1:
				mr.SName, mr.SType = s, "subnet"
			case 2:
				mr.RName = s
			case 3:
				mr.RName, mr.RType = s, "subnet"
			case 4:
				mr.RName, mr.RType = s, "hostname"
			case 5:
				mr.SType = s
			case 6:
				mr.RType = s
			case 7:
				mr.Proto = s
			case 8:
				mr.ResType = s
			case 9:
				mr.ResName = s
			case 10:
				mr.Op = s
			case 11:
				mr.Decision = s
			}
			g.Do(func(t *T) {
				t.Desc(func() string { return mr.Text() })
				t.State(mr.Text())
				t.everything(mr, odd, mr.Text())
			})
		}
	}
	for _, txt := range []string{`{}`, `{"decision": "block"}`, `{"sender": {}, "decision": "allow"}`, `{"conditions": {"attribute": "true", "method": "EQ"}}`, `{"metadata": {}}`, `{"ruleID": "x"}`, `{"sender": null, "receiver": null, "resource": null, "decision": "block"}`, `{"conditions": null, "decision": "alert"}`, `null`} {
		g.Do(func(t *T) {
			t.Desc(func() string { return txt })
			t.State(txt)
			t.everything(nil, append(append([]*Msg{}, odd...), docs[:40]...), txt)
			var r E.Rules
			if json.Unmarshal([]byte(`{"rules":[`+txt+`]}`), &r) == nil {
				t.everythingRules(&r, odd)
			}
		})
	}
	g.Do(func(t *T) {
		t.Desc(func() string { return "no rules, no messages" })
		t.State("empty")
		for _, m := range odd {
			E.Check(&m.M, &E.Rules{})
		}
		coverageOf(&E.Rules{}, &E.Messages{})
	})
	// depth and width
	for _, n := range g.Lits.Sizes(4, g.Pick(130, 500)) {
		if n == 0 {
			continue
		}
		n := n
		g.Do(func(t *T) {
			t.Desc(func() string { return fmt.Sprintf("size %d", n) })
			t.State("size", fmt.Sprint(n))
			deep, list := "1", make([]string, n)
			for i := 0; i < n; i++ {
				deep = []string{`{"a":` + deep + `}`, `[` + deep + `]`}[i%2]
				list[i] = []string{`{"x":1}`, `[1]`, "null", `"s"`}[i%4]
			}
			ms := []*Msg{}
			for _, d := range []string{deep, `{"a":[` + strings.Join(list, ",") + `]}`} {
				ms = append(ms, withDoc(mkMsg(nil), d, "bytes"), withDoc(mkMsg(nil), d, "iface"))
			}
			for _, c := range []*C{any_("jsonpath:$..a", rel(".a", "EX", "")), all_("jsonpath:$.a[:]", rel(".x", "EQ", "1")), anyRet("jsonpath:$.a[:]", map[string]string{"x": "jsonpath:$RELATIVE.x"}, rel(".x", "EQ", "1")), leaf("jsonpath:$.a.a", "EX", "")} {
				mr := anyRule("block", c)
				t.everything(mr, ms, mr.Text())
			}
		})
	}
}
