package main

// The written forms of rules: round trips (C14), hashes (C15), spellings (C22).

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	E "github.com/octarinesec/MAPL/MAPL_engine"
	"go.mongodb.org/mongo-driver/bson"
)

func init() {
	register(&Prop{ID: "C14", Bounds: "every rule of a set covering all tree shapes, operators and fields x every sequence of up to 3 (thorough 4) encode/decode/use steps; every printable and control ASCII character and selected others at every text position", Gen: genC14})
	register(&Prop{ID: "C15", Bounds: "all pairs within a set of rules with every single-field difference and all trees of up to 5 nodes over 3 leaves, all child permutations, before and after use", Gen: genC15,
		Assume: []string{"a connective with a single child counts as that child", "texts do not contain the separators of the canonical text"}})
	register(&Prop{ID: "C22", Bounds: "all trees of up to 3 leaves in every spelling of one node, of two nodes and of all nodes, YAML and JSON, and every listed corruption at every node, under every order of maps of up to 4 keys", Gen: genC22})
}

// textMsgs are the messages on which decisions are compared.
func textMsgs() []*Msg {
	docs := []string{`{"a":{"b":[1,{"x":1}],"x":"s"},"l":[{"x":1,"b":[1]},{"x":"q"}],"v0":"1","v1":1}`, `{"v0":"0","v1":"1","l":[]}`, `{"l":[{"x":5},{"x":1}],"a":"1"}`}
	var out []*Msg
	out = append(out, mkMsg(nil))
	for i, d := range docs {
		out = append(out, withDoc(mkMsg(func(m *E.MessageAttributes) {
			m.SourceLabels = map[string]string{"v0": fmt.Sprint(i % 2), "v1": fmt.Sprint(i / 2), "v2": "1"}
			m.RequestMethod = []string{"GET", "POST", "PUT"}[i]
			m.Domain = []string{"1", "x", "dom"}[i]
		}), d, modes[i%2]))
	}
	return out
}

// observe returns everything visible of a rule.
func (t *T) observe(r *E.Rule, msgs []*Msg) string {
	var b strings.Builder
	fmt.Fprintf(&b, "id=%q sender=%q/%q receiver=%q/%q proto=%q res=%q/%q op=%q dec=%q hash=%q meta=%s", r.RuleID, r.Sender.SenderName, r.Sender.SenderType, r.Receiver.ReceiverName, r.Receiver.ReceiverType, r.Protocol, r.Resource.ResourceType, r.Resource.ResourceName, r.Operation, r.Decision, r.Hash, jsMap(r.Metadata))
	t.Steps(3)
	fmt.Fprintf(&b, "\nmd5=%s cond=%s", E.RuleMD5Hash(*r), E.RuleMD5HashConditions(*r))
	j, err := json.Marshal(r)
	fmt.Fprintf(&b, "\njson=%s %v", noCaches(j), err)
	for i, m := range msgs {
		t.Step()
		dec, _, _, res, _, _, extra := E.Check(&m.M, &E.Rules{Rules: []E.Rule{*r}})
		var recs []map[string]interface{}
		for _, e := range extra {
			recs = append(recs, e...)
		}
		fmt.Fprintf(&b, "\nm%d: %d %v %s", i, dec, res, canon(recs, false))
	}
	return b.String()
}

// treeForm is the conditions block of decoded JSON in one spelling.
func treeForm(v interface{}) string {
	m, ok := v.(map[string]interface{})
	if !ok {
		return fmt.Sprint("?", v)
	}
	ret := func(m map[string]interface{}) string {
		b, _ := json.Marshal(m["returnValueJsonpath"])
		return string(b)
	}
	if _, ok := m["attribute"]; ok {
		val := ""
		if x, ok := m["value"]; ok {
			val = fmt.Sprint(x)
		}
		return fmt.Sprintf("%q %q %q %s", m["attribute"], m["method"], val, ret(m))
	}
	if p, ok := m["parentJsonpathAttribute"]; ok {
		o := fmt.Sprintf("%q %s", p, ret(m))
		for k, x := range m {
			if k != "parentJsonpathAttribute" && k != "returnValueJsonpath" {
				o += " " + treeForm(map[string]interface{}{k: x})
			}
		}
		return o
	}
	if len(m) == 0 {
		return "none"
	}
	if len(m) != 1 {
		return fmt.Sprint("?", v)
	}
	for k, x := range m {
		if k == "condition" || k == "conditions" || k == "conditionsTree" {
			return treeForm(x)
		}
		if l, ok := x.([]interface{}); ok {
			o := []string{}
			for _, e := range l {
				o = append(o, treeForm(e))
			}
			return k + "(" + strings.Join(o, ", ") + ")"
		}
		return k + "(" + treeForm(x) + ")"
	}
	return ""
}

// expectTree compares the conditions in the encoding of the rule with those the rule was written with.
func (t *T) expectTree(r *E.Rule, mr *R, what string) {
	t.Step()
	b, err := json.Marshal(r)
	if err != nil {
		t.Fail("%s: encoding to JSON: %v", what, err)
	}
	form := func(b []byte) string {
		var x struct {
			Conditions map[string]interface{} `json:"conditions"`
		}
		if err := json.Unmarshal(b, &x); err != nil {
			t.Fail("%s: the encoding is not JSON: %v\n%s", what, err, b)
		}
		return treeForm(x.Conditions)
	}
	if got, want := form(b), form([]byte(mr.Text())); got != want {
		t.Fail("%s: the encoded conditions are\n%s\nwritten\n%s", what, got, want)
	}
}

func jsonTrip(t *T, r *E.Rule) *E.Rule {
	t.Steps(2)
	b, err := json.Marshal(r)
	if err != nil {
		t.Fail("encoding to JSON: %v", err)
	}
	var o E.Rule
	if err := json.Unmarshal(b, &o); err != nil {
		t.Fail("decoding own JSON: %v\n%s", err, b)
	}
	return &o
}

func jsonListTrip(t *T, r *E.Rule) *E.Rule {
	t.Steps(2)
	b, err := json.Marshal(E.Rules{Rules: []E.Rule{*r, *r}})
	if err != nil {
		t.Fail("encoding to JSON: %v", err)
	}
	var o E.Rules
	if err := json.Unmarshal(b, &o); err != nil {
		t.Fail("decoding own JSON: %v\n%s", err, b)
	}
	if len(o.Rules) != 2 {
		t.Fail("%d rules decoded", len(o.Rules))
	}
	return &o.Rules[1]
}

func bsonTrip(t *T, r *E.Rule) *E.Rule {
	t.Steps(2)
	b, err := bson.Marshal(r)
	if err != nil {
		t.Fail("encoding to BSON: %v", err)
	}
	var o E.Rule
	if err := bson.Unmarshal(b, &o); err != nil {
		t.Fail("decoding own BSON: %v", err)
	}
	return &o
}

type textStep struct {
	name string
	f    func(t *T, r *E.Rule, msgs []*Msg) *E.Rule
}

var textSteps = []textStep{
	{"json", func(t *T, r *E.Rule, _ []*Msg) *E.Rule { return jsonTrip(t, r) }},
	{"bson", func(t *T, r *E.Rule, _ []*Msg) *E.Rule { return bsonTrip(t, r) }},
	{"jsonlist", func(t *T, r *E.Rule, _ []*Msg) *E.Rule { return jsonListTrip(t, r) }},
	{"use", func(t *T, r *E.Rule, msgs []*Msg) *E.Rule {
		for _, m := range msgs {
			t.Step()
			E.CheckOneRule(&m.M, r)
		}
		return r
	}},
	{"validate", func(t *T, r *E.Rule, _ []*Msg) *E.Rule {
		t.Steps(3)
		E.ValidateRule(r)
		r.SetPredefinedStringsAndLists(E.PredefinedStringsAndLists{})
		r.ToMongoQuery("raw")
		return r
	}},
	{"prepare in place", func(t *T, r *E.Rule, msgs []*Msg) *E.Rule {
		t.Steps(3)
		E.PrepareOneRule(r)
		E.TestSender(r, &msgs[0].M)
		E.TestReceiver(r, &msgs[0].M)
		return r
	}},
}

func stepSeqs(n, depth int) [][]int {
	out := [][]int{}
	var rec func(p []int)
	rec = func(p []int) {
		if len(p) > 0 {
			out = append(out, append([]int{}, p...))
		}
		if len(p) < depth {
			for i := 0; i < n; i++ {
				rec(append(p, i))
			}
		}
	}
	rec(nil)
	return out
}

// quantified wraps a tree's leaves so that every shape also occurs under quantifiers.
func textTrees(n int) []*C {
	lf := func(i int) *C {
		switch i % 3 {
		case 0:
			return leaf("jsonpath:$.v0", "EQ", "1")
		case 1:
			return leaf("senderLabel[v1]", "IN", "1,2")
		}
		return leafNV("jsonpath:$.l", "EX")
	}
	rl := func(i int) *C {
		switch i % 3 {
		case 0:
			return leaf("jsonpath:$RELATIVE.x", "GE", "1")
		case 1:
			return leaf("jsonpath:$RELATIVE.x", "re", "^q|5$")
		}
		return leaf("domain", "NIN", "x")
	}
	var out []*C
	for k := 1; k <= n; k++ {
		for _, s := range shapes(k) {
			c, _ := instantiate(s, lf)
			out = append(out, c)
			q, _ := instantiate(s, rl)
			out = append(out, any_("jsonpath:$.l[:]", q), all_("jsonpath:$.l[:]", q),
				anyRet("jsonpath:$.l[:]", map[string]string{"x": "jsonpath:$RELATIVE.x", "whole": "jsonpath:$RELATIVE"}, q),
				allRet("jsonpath:$.l[:]", map[string]string{"x": "jsonpath:$RELATIVE.x"}, q),
				allRet("jsonpath:$.l[:]", map[string]string{"y": "jsonpath:$RELATIVE.b", "whole": "jsonpath:$RELATIVE"}, q),
				and(c, any_("jsonpath:$.l[:]", q)), not(all_("jsonpath:$.l[:]", q)))
		}
	}
	return out
}

func fullRule(c *C) *R {
	return &R{ID: "id-1", SName: "svc-a.*", SType: "workload", RName: "svc-b.ns2,svc-c", RType: "workload", Proto: "HTTP", ResType: "path", ResName: "/book/*", Op: "*", Decision: "Block", Cond: c, Meta: map[string]string{"description": "some text", "k": "v"}}
}

func genC14(g *Gen) {
	msgs := textMsgs()
	trip := func(mr *R, seq []int) {
		g.Do(func(t *T) {
			names := []string{}
			for _, s := range seq {
				names = append(names, textSteps[s].name)
			}
			t.Desc(func() string { return strings.Join(names, ",") + " on " + mr.Text() })
			ref := t.load(mr)
			want := t.observe(&ref.Rules[0], msgs)
			rs := t.load(mr)
			r := &rs.Rules[0]
			for i, s := range seq {
				t.State(mr.Text(), fmt.Sprint(seq[:i+1]))
				n := textSteps[s].f(t, r, msgs)
				if !strings.ContainsAny(mr.Text(), "\u0085\u2028\u2029") { // line breaks of YAML
					t.expectTree(n, mr, fmt.Sprint("after ", names[:i+1]))
				}
				if got := t.observe(n, msgs); got != want {
					t.Fail("after %v the rule is\n%s\nbefore\n%s", names[:i+1], got, want)
				}
				if n != r { // the encoded rule is not changed either
					if got := t.observe(r, msgs); got != want {
						t.Fail("encoding (%s) changed the rule to\n%s\nfrom\n%s", names[i], got, want)
					}
				}
				r = n
			}
			t.Out("round trip " + names[len(names)-1])
		})
	}
	// the decisions of the loaded rule itself are right
	trees := textTrees(g.Pick(4, 5))
	seqs := stepSeqs(len(textSteps), g.Pick(3, 4))
	short := [][]int{{0}, {1}, {2}, {3, 0}, {3, 1}, {4, 0, 1}, {0, 3, 1}, {1, 0}, {5, 1}, {5, 0}}
	for _, c := range trees {
		for _, s := range short {
			trip(anyRule("alert", c), s)
		}
	}
	rich := []*R{fullRule(nil), fullRule(leaf("payloadSize", "GT", "1Ki")), fullRule(and(leaf("$sender.namespace", "EQ", "$receiver.namespace"), leaf("senderLabel[app]", "NEQ", "receiverLabel[app]"))),
		fullRule(anyRet("jsonpath:$.l[:]", map[string]string{"x": "jsonpath:$RELATIVE.x"}, or(rel(".x", "in", "1,5"), any_("jsonpath:$RELATIVE.b[:]", rel("", "LT", "2"))))),
		fullRule(not(all_("jsonpath:$.a", and(keyIs("RE", "^x"), valIs("", "EQ", "s"))))),
		fullRule(any_(`jsonpath:$.a["b"][:],jsonpath:$.l[:]`, rel(".x", "IS", "1"))),
		fullRule(or(leaf(`jsonpath:$.a['x']`, "EQ", "s"), leaf("encryptionVersion", "GE", "1.2"), leaf("true", "EQ", ""))),
		fullRule(leaf("domain", "IN", "#undefined")),
		fullRule(or(lret(leaf("jsonpath:$.v1", "EQ", "1"), map[string]string{"v": "jsonpath:$.v0", "a": "jsonpath:$.a['x']"}), lret(leafNV("jsonpath:$.l", "EX"), map[string]string{"l": "jsonpath:$.l[0].x"}))),
		fullRule(and(lret(leaf("jsonpath:$.v1", "NEQ", "7"), map[string]string{"v": "jsonpath:$RELATIVE.v0"}), leafNV("jsonpath:$.l", "EX"))),
		fullRule(any_("jsonpath:$.l[:]", lret(rel(".x", "EQ", "1"), map[string]string{"x": "jsonpath:$RELATIVE.x"}))),
		fullRule(or(lret(leafNV("jsonpath:$..x", "EX"), map[string]string{"x": "jsonpath:$..x"}), leaf("jsonpath:$.l", "NEX", "kept"), leaf("domain", "EX", "kept, too"), leaf("jsonpath:$..x", "ex", "1"))),
		fullRule(and(leaf("domain", "NEQ", `back\\slash \"quote\" `), leaf("jsonpath:$.v1", "NEQ", `C:\dir\file`), leaf("domain", "NRE", `^\d+\.\w$`))),
		{SName: "10.0.0.0/8", SType: "subnet", RName: "*", RType: "hostname", Proto: "tcp", ResType: "port", ResName: "80,443", Op: "read", Decision: "ALERT"},
		{Decision: "allow"}}
	for _, r := range rich {
		r.Hash = "h4"
		for _, s := range seqs {
			trip(r, s)
		}
	}
	// a rule as prepared for checking, written and read again, decides the same
	for _, mr := range append(append([]*R{}, rich...), func() (o []*R) {
		for _, c := range trees {
			o = append(o, anyRule("alert", c))
		}
		return
	}()...) {
		if mr.Cond != nil && mr.Cond.Value == "#undefined" {
			continue
		}
		for again := 0; again < 2; again++ {
			mr, again := mr, again
			g.Do(func(t *T) {
				t.Desc(func() string { return fmt.Sprintf("prepared rule written, %d: %s", again, mr.Text()) })
				t.State("prepared", mr.Text(), fmt.Sprint(again))
				rs := t.load(mr)
				r := &rs.Rules[0]
				for i := 0; i <= again; i++ {
					t.Steps(3)
					if err := r.SetPredefinedStringsAndLists(E.PredefinedStringsAndLists{}); err != nil {
						t.Fail("prepare: %v", err)
					}
					b, err := json.Marshal(r.GetPreparedRule())
					if err != nil {
						t.Fail("json: %v", err)
					}
					var o E.Rule
					if err := json.Unmarshal(b, &o); err != nil {
						t.Fail("json: %v\n%s", err, b)
					}
					r = &o
					if x, y := E.RuleMD5Hash(*r), E.RuleMD5Hash(rs.Rules[0]); x != y {
						t.Fail("the hash is %s, was %s\n%s", x, y, b)
					}
					for _, m := range msgs {
						t.expectDecision(r, mr, m, "prepared rule read again")
					}
				}
				t.Out("prepared rule")
			})
		}
	}
	// characters
	var chars []string
	for i := 1; i < 128; i++ {
		chars = append(chars, string(rune(i)))
	}
	chars = append(chars, `\"`, `\\`, `"x"`, "\\n", "\\u0041", "</b>&", "\u2028", "\u2029", "%", "%v", "%d%s", "é", "日本", "😀", "\u0085", "\u00a0", "a b", `\`, `'`, `\'`, "{}", "[]", `","x":"`, `"}}`, "\t\n", "null", "true", "5", "{{", "$", "\ufeff", "\u007f")
	chars = uniq(append(chars, g.Lits.Words(`^.{1,40}$`)...))
	type pos struct {
		name string
		f    func(s string) *R
	}
	poss := []pos{
		{"value", func(s string) *R { return anyRule("block", leaf("jsonpath:$.a", "EQ", s)) }},
		{"value2", func(s string) *R {
			return anyRule("block", and(leaf("domain", "NEQ", "p"+s+"q"), any_("jsonpath:$.l[:]", rel(".x", "NEQ", s+s))))
		}},
		{"path", func(s string) *R { return anyRule("block", leaf("jsonpath:$.q["+`"p`+s+`"`+"]", "NEX", "")) }},
		{"key", func(s string) *R { return anyRule("block", leaf("senderLabel[p"+s+"]", "EX", "")) }},
		{"parent", func(s string) *R { return anyRule("block", all_(`jsonpath:$.p["`+s+`"][:]`, rel(".x", "EQ", "1"))) }},
		{"ret", func(s string) *R {
			return anyRule("block", anyRet("jsonpath:$.l[:]", map[string]string{"n" + s: "jsonpath:$RELATIVE.x", "m": "jsonpath:$RELATIVE.p" + s}, rel(".x", "EX", "")))
		}},
		{"ret of ALL", func(s string) *R {
			return anyRule("block", allRet("jsonpath:$.l[:]", map[string]string{"n" + s: "jsonpath:$RELATIVE.p" + s}, rel(".x", "EX", "")))
		}},
		{"sender", func(s string) *R { r := anyRule("block", nil); r.SName = s; return r }},
		{"receiver", func(s string) *R { r := anyRule("block", nil); r.RName, r.RType = "x"+s, "service"; return r }},
		{"resource", func(s string) *R {
			r := anyRule("block", nil)
			r.ResName, r.ResType, r.Proto = s, "t"+s, "p"+s
			return r
		}},
		{"operation", func(s string) *R { r := anyRule("block", nil); r.Op = s; return r }},
		{"meta", func(s string) *R {
			r := anyRule("block", nil)
			r.ID, r.Meta = "i"+s, map[string]string{"k" + s: s, "description": s + "d"}
			return r
		}},
		{"decision", func(s string) *R { return anyRule(s, nil) }},
	}
	for _, ch := range chars {
		for _, p := range poss {
			if p.name == "operation" && strings.Contains(ch, "\x00") {
				continue
			}
			mr := p.f(ch)
			ok := func() bool { // rules the language does not accept are out of the space
				rs, err := E.YamlReadRulesFromString(rulesText([]*R{mr}))
				return err == nil && len(rs.Rules) == 1
			}
			for _, s := range [][]int{{0, 1, 0}, {3, 1}, {3, 0, 3, 0}} {
				s := s
				if !g.Mine() {
					g.Skip()
					continue
				}
				if !ok() {
					g.Do(func(t *T) { t.Out("not accepted") })
					continue
				}
				trip(mr, s)
			}
		}
	}
	// strings and files
	files := append([]*R{}, rich...)
	for _, ch := range []string{`\`, `\\`, `\n`, "é", "😀", "#", " #x", "'", `"`, "%s", "${HOME}", "$x", "{{x}}", "a  b", "~", "\t", ": ", "---", "../x", "<a>", "|", "&x", "*x", "!x", "@", "`"} {
		for _, p := range poss {
			if mr := p.f(ch); (p.name == "value" || p.name == "meta" || p.name == "value2" || p.name == "ret") && mr != nil {
				files = append(files, mr)
			}
		}
	}
	for i, mr := range files {
		for _, block := range []bool{false, true} {
			i, mr, block := i, mr, block
			g.Do(func(t *T) {
				rs := []*R{mr, files[(i+1)%len(files)], mr}
				for k := range rs {
					c := *rs[k]
					if c.ID == "" {
						c.ID = "x"
					}
					c.Hash = ""
					rs[k] = &c
				}
				text := rulesText(rs)
				if block {
					text = rulesBlock(rs)
				}
				t.Desc(func() string { return text })
				t.State("file", text)
				dir, err := os.MkdirTemp("", "c14")
				if err != nil {
					panic(err)
				}
				defer os.RemoveAll(dir)
				f := filepath.Join(dir, "r.yaml")
				os.WriteFile(f, []byte(text), 0o600)
				t.Steps(2)
				a, e1 := E.YamlReadRulesFromString(text)
				b, e2 := E.YamlReadRulesFromFile(f)
				if e1 != nil || e2 != nil || len(a.Rules) != 3 || len(b.Rules) != 3 {
					t.Fail("string: %v, %d rules; file: %v, %d rules", e1, len(a.Rules), e2, len(b.Rules))
				}
				for k := range a.Rules {
					want := t.observe(&t.load(rs[k]).Rules[0], msgs)
					if x, y := t.observe(&a.Rules[k], msgs), t.observe(&b.Rules[k], msgs); x != y || x != want {
						t.Fail("rule %d from the string\n%s\nfrom the file\n%s\nalone\n%s", k, x, y, want)
					}
				}
			})
		}
	}
}

// ---------------------------------------------------------------------------
// C15

// canonical text of the model: equal exactly for rules that must have equal hashes
func (c *C) canonical() string {
	switch c.Op {
	case "":
		return fmt.Sprintf("%q.%q.%q", c.Attr, c.Method, c.Value)
	case "AND", "OR":
		if len(c.Kids) == 1 {
			return c.Kids[0].canonical()
		}
		var k []string
		for _, x := range c.Kids {
			k = append(k, x.canonical())
		}
		sort.Strings(k)
		return c.Op + "{" + strings.Join(k, ";") + "}"
	case "NOT":
		return "NOT{" + c.Kids[0].canonical() + "}"
	}
	return fmt.Sprintf("%s{%q;%s;%s}", c.Op, c.Parent, jsMap(c.Ret), c.Kids[0].canonical())
}

func (r *R) canonical() string {
	c := "none"
	if r.Cond != nil {
		c = r.Cond.canonical()
	}
	l := strings.ToLower
	return fmt.Sprintf("%q %q %q %q %q %q %q %q %q %s", l(r.Decision), r.SName, l(r.SType), r.RName, l(r.RType), l(r.Op), l(r.Proto), r.ResType, r.ResName, c)
}

// permuted returns the tree with the children of every AND/OR permuted in all ways (bounded by lim).
func permuted(c *C, lim int) []*C {
	if c.Op == "" {
		return []*C{c}
	}
	opts := make([][]*C, len(c.Kids))
	for i, k := range c.Kids {
		opts[i] = permuted(k, lim)
	}
	var prod [][]*C
	prod = append(prod, nil)
	for _, o := range opts {
		var nx [][]*C
		for _, p := range prod {
			for _, x := range o {
				nx = append(nx, append(append([]*C{}, p...), x))
			}
		}
		prod = nx
	}
	var out []*C
	for _, p := range prod {
		for _, q := range perms(len(p)) {
			d := *c
			d.Kids = nil
			for _, i := range q {
				d.Kids = append(d.Kids, p[i])
			}
			out = append(out, &d)
			if len(out) >= lim {
				return out
			}
		}
	}
	return out
}

// comparePairs compares the hashes of all pairs of rules with their meanings.
func comparePairs(t *T, rules []*R) {
	t.Desc(func() string { return fmt.Sprintf("all pairs of %d rules", len(rules)) })
	byHash, byCanon := map[string]*R{}, map[string]string{}
	cByHash, cByCanon := map[string]*R{}, map[string]string{}
	var distinct []*E.Rule // with different conditions
	for _, mr := range rules {
		t.State(mr.Text())
		t.Steps(2)
		r := &t.load(mr).Rules[0]
		h, ch := E.RuleMD5Hash(*r), E.RuleMD5HashConditions(*r)
		cn, cc := mr.canonical(), "none"
		if mr.Cond != nil {
			cc = mr.Cond.canonical()
		}
		if o, ok := byHash[h]; ok && o.canonical() != cn {
			t.Fail("different rules, same hash %s\n%s\n%s", h, o.Text(), mr.Text())
		}
		if o, ok := byCanon[cn]; ok && o != h {
			t.Fail("equivalent rules, different hashes\n%s\n%s", byHash[o].Text(), mr.Text())
		}
		byHash[h], byCanon[cn] = mr, h
		if o, ok := cByHash[ch]; ok {
			oc := "none"
			if o.Cond != nil {
				oc = o.Cond.canonical()
			}
			if oc != cc {
				t.Fail("different conditions, same conditions hash %s\n%s\n%s", ch, o.Text(), mr.Text())
			}
		}
		if o, ok := cByCanon[cc]; ok && o != ch {
			t.Fail("equivalent conditions, different conditions hashes\n%s\n%s", cByHash[o].Text(), mr.Text())
		}
		if _, ok := cByCanon[cc]; !ok && len(distinct) < 400 && len(cc) < 400 {
			distinct = append(distinct, r)
		}
		cByHash[ch], cByCanon[cc] = mr, ch
	}
	for i, a := range distinct {
		t.Step()
		for _, b := range distinct[:i] {
			if a.ConditionsEqual(*b) || b.ConditionsEqual(*a) {
				t.Fail("different conditions reported equal\n%s\n%s", a, b)
			}
		}
	}
	t.Out(fmt.Sprintf("%d hashes", len(byHash)))
}

func genC15(g *Gen) {
	msgs := textMsgs()[:3]
	var rules []*R
	base := []*R{fullRule(nil), fullRule(leaf("domain", "EQ", "x")), anyRule("block", nil)}
	for _, b := range base {
		mut := func(f func(r *R)) { r := *b; f(&r); rules = append(rules, &r) }
		mut(func(r *R) {})
		for _, s := range []string{"svc-a.*", "svc-A.*", "svc-b", "", "*", "svc-a", "a,b", "b,a", " a", "service:svc", "svc a", "svca", "svc  a", "a b,c", "ab,c", "a,bc", "a.b", "a*b", "a?b", "svc/a", "svc/A/", "svc_a", "svc-à", "svc\ta", "\"a\"", "'a'", "(a)", "[a]", "{a}", "a|b", "a&b", "a;b", "a=b", "a@b", "a%20b", "a\\b", "#a", "~a", "+a", "0", "00", "a,,b", "a,b,", ",a,b"} {
			mut(func(r *R) { r.SName = s })
			mut(func(r *R) { r.RName = s })
			mut(func(r *R) { r.ResName = s })
		}
		for _, s := range []string{"service", "Service", "SERVICE", "subnet", "hostname", "*", "", "workload"} {
			mut(func(r *R) { r.SType = s })
			mut(func(r *R) { r.RType = s })
		}
		for _, s := range []string{"path", "Path", "port", "kafkaTopic", "kafkatopic", "", "*"} {
			mut(func(r *R) { r.ResType = s })
		}
		for _, s := range []string{"*", "GET", "get", "read", "READ", "write", "", "GET,POST", "POST,GET"} {
			mut(func(r *R) { r.Op = s })
		}
		for _, s := range []string{"*", "HTTP", "http", "tcp", "TCP", "", "kafka"} {
			mut(func(r *R) { r.Proto = s })
		}
		for _, s := range []string{"allow", "ALLOW", "Allow", "block", "alert", "BLOCK", "", "deny"} {
			mut(func(r *R) { r.Decision = s })
		}
		mut(func(r *R) { r.ID = "other" })
		mut(func(r *R) { r.ID = "" })
		mut(func(r *R) { r.Meta = nil })
		mut(func(r *R) { r.Meta = map[string]string{"z": "z"} })
		mut(func(r *R) { r.Hash = "abc" })
		mut(func(r *R) { r.SName, r.RName = b.RName, b.SName })
		mut(func(r *R) { r.SType, r.RType = "service", "subnet"; r.SName, r.RName = "*", "10.0.0.1" })
		mut(func(r *R) { r.SType, r.RType = "subnet", "service"; r.SName, r.RName = "10.0.0.1", "*" })
		mut(func(r *R) { r.Op, r.Proto = "http", "http" })
		mut(func(r *R) { r.Op, r.Proto = "http", "" })
		mut(func(r *R) { r.Op, r.Proto = "", "http" })
	}
	// all leaves of a grid
	attrs := []string{"domain", "payloadSize", "requestUseragent", "encryptionType", "$sender.namespace", "$receiver.namespace", "$sender.cluster", "senderLabel[a]", "senderLabel[b]", "receiverLabel[a]", "jsonpath:$.a", "jsonpath:$.a.b", "jsonpath:$.A", "jsonpath:.a", "jsonpath:$RELATIVE.a", "jsonpath:$KEY", "jsonpath:$VALUE", "true", "false", "TRUE"}
	for _, a := range attrs {
		for _, m := range methodsAll {
			for _, v := range []string{"", "1", "2", "1.0", "x", "X", "x,y", "y,x", "receiverLabel[a]", "$receiver.namespace", "x ", "1Ki"} {
				c := leaf(a, m, v)
				if validLeaf(c) {
					rules = append(rules, anyRule("block", c))
				}
			}
		}
	}
	// trees
	ls := []*C{leaf("domain", "EQ", "x"), leaf("jsonpath:$RELATIVE.a", "GT", "1"), leaf("senderLabel[a]", "IN", "x,y")}
	max := g.Pick(5, 6)
	for n := 1; n <= max; n++ {
		for _, s := range shapes(n) {
			nl := 0
			instantiate(s, func(int) *C { nl++; return ls[0] })
			tot := 1
			for i := 0; i < nl; i++ {
				tot *= len(ls)
			}
			if n == max && tot > 9 {
				tot = 9
			}
			for k := 0; k < tot; k++ {
				c, _ := instantiate(s, func(i int) *C {
					d := k
					for ; i > 0; i-- {
						d /= 3
					}
					return ls[d%3]
				})
				rules = append(rules, anyRule("block", c))
			}
		}
	}
	// quantifiers
	for _, p := range []string{"jsonpath:$.a[:]", "jsonpath:$.b[:]", "jsonpath:$.a", "jsonpath:$..a", "jsonpath:$RELATIVE.a[:]", "jsonpath:.a[:]", "jsonpath:$.a[:],jsonpath:$.b[:]", "jsonpath:$.b[:],jsonpath:$.a[:]", `jsonpath:$.["a"]`, "jsonpath:$.a.b[:]"} {
		for _, rt := range []map[string]string{nil, {"x": "jsonpath:$RELATIVE.x"}, {"x": "jsonpath:$RELATIVE.y"}, {"y": "jsonpath:$RELATIVE.x"}, {"x": "jsonpath:$RELATIVE.x", "y": "jsonpath:$RELATIVE.y"}, {"x": "jsonpath:$RELATIVE.y", "y": "jsonpath:$RELATIVE.x"}, {"x": "jsonpath:$RELATIVE"}} {
			for _, k := range []*C{ls[0], ls[1], and(ls[0], ls[1]), or(ls[0], ls[1]), not(ls[1]), any_("jsonpath:$RELATIVE.z[:]", ls[1]), all_("jsonpath:$RELATIVE.z[:]", ls[1])} {
				for _, op := range []string{"ANY", "ALL"} {
					q := &C{Op: op, Parent: p, Ret: rt, Kids: []*C{k}}
					rules = append(rules, anyRule("block", q), anyRule("block", not(q)), anyRule("block", and(q, ls[2])), anyRule("block", or(ls[2], q)))
				}
			}
		}
	}
	var long []*R
	// texts of growing length that differ in the last or the middle character
	for _, n := range append(g.Lits.Sizes(40, 300), 210, 257, 520, 1000) {
		if n < 2 {
			continue
		}
		for _, x := range []string{strings.Repeat("v", n-1) + "1", strings.Repeat("v", n-1) + "2", strings.Repeat("v", n/2) + "3" + strings.Repeat("v", n-1-n/2)} {
			for _, f := range []func(r *R){func(r *R) { r.SName = x }, func(r *R) { r.RName = x }, func(r *R) { r.ResName = x }, func(r *R) { r.ResType = x }, func(r *R) { r.Op = x }, func(r *R) { r.Proto = x }, func(r *R) { r.SType = x }, func(r *R) { r.RType = x }, func(r *R) { r.Decision = x },
				func(r *R) { r.Cond = leaf("domain", "EQ", x) }, func(r *R) { r.Cond = leaf("jsonpath:$."+x, "EX", "") }, func(r *R) { r.Cond = any_("jsonpath:$."+x+"[:]", ls[1]) }, func(r *R) { r.Cond = all_("jsonpath:$."+x, ls[1]) }, func(r *R) { r.Cond = anyRet("jsonpath:$.a[:]", map[string]string{x: "jsonpath:$RELATIVE.x"}, ls[1]) },
				func(r *R) {
					r.Cond = anyRet("jsonpath:$.a[:]", map[string]string{"x": "jsonpath:$RELATIVE." + x}, ls[1])
				}, func(r *R) { r.Cond = and(not(leaf("domain", "EQ", x)), ls[0]) }, func(r *R) { r.Cond = leaf("senderLabel["+x+"]", "EX", "") }} {
				r := anyRule("block", nil)
				f(r)
				long = append(long, r)
			}
		}
	}
	// connectives of growing width that differ in one child
	for _, n := range g.Lits.Sizes(20, g.Pick(130, 300)) {
		if n < 2 {
			continue
		}
		for _, p := range append(positions(n), -1) {
			var ks []*C
			for i := 0; i < n; i++ {
				v := fmt.Sprint("x", i)
				if i == p {
					v = "y"
				}
				ks = append(ks, leaf("domain", "EQ", v))
			}
			long = append(long, anyRule("block", &C{Op: "AND", Kids: ks}), anyRule("block", &C{Op: "OR", Kids: ks}))
		}
	}
	// rules that only differ in where the pieces of a text lie
	cut := func(f func(r *R)) *R { r := anyRule("block", nil); f(r); return r }
	cutC := func(c *C) *R { return anyRule("block", c) }
	for _, p := range []struct {
		name string
		a, b *R
	}{{"attribute/value", cutC(leaf("jsonpath:$.a", "EQ", "b-EQ-c")), cutC(leaf("jsonpath:$.a-EQ-b", "EQ", "c"))},
		{"dash", cutC(leaf("jsonpath:$.a", "EQ", "-x")), cutC(leaf("jsonpath:$.a-", "EQ", "x"))},
		{"connective", cutC(or(and(ls[0], ls[1]), ls[2])), cutC(and(or(ls[0], ls[1]), ls[2]))},
		{"connective in value", cutC(leaf("domain", "EQ", "x> && <domain-EQ-y")), cutC(and(leaf("domain", "EQ", "x"), leaf("domain", "EQ", "y")))},
		{"connective in the value of one of several", cutC(and(leaf("domain", "EQ", "x> && <domain-EQ-y"), leaf("domain", "EQ", "z"))), cutC(and(leaf("domain", "EQ", "x"), leaf("domain", "EQ", "y"), leaf("domain", "EQ", "z")))},
		{"operation/protocol", cut(func(r *R) { r.Op, r.Proto = "get-x", "y" }), cut(func(r *R) { r.Op, r.Proto = "get", "x-y" })},
		{"resource type/name", cut(func(r *R) { r.ResType, r.ResName = "a-b", "c" }), cut(func(r *R) { r.ResType, r.ResName = "a", "b-c" })},
		{"sender type/name", cut(func(r *R) { r.SType, r.SName = "a:b", "c" }), cut(func(r *R) { r.SType, r.SName = "a", "b:c" })},
		{"sender/receiver", cut(func(r *R) { r.SName, r.RType = "a>-<b:c", "d" }), cut(func(r *R) { r.SName, r.RType = "a", "b:c>-<d" })}} {
		p := p
		g.Do(func(t *T) {
			t.Desc(func() string { return "text moved between " + p.name + ": " + p.a.Text() + " and " + p.b.Text() })
			t.State(p.a.Text(), p.b.Text())
			x, y := t.load(p.a), t.load(p.b)
			t.Steps(4)
			if E.RuleMD5Hash(x.Rules[0]) == E.RuleMD5Hash(y.Rules[0]) || p.a.Cond != nil && E.RuleMD5HashConditions(x.Rules[0]) == E.RuleMD5HashConditions(y.Rules[0]) {
				t.Fail("different rules, same hash: %s", x.Rules[0].String())
			}
		})
	}
	// the pair test: one trace holds the whole set, so that all pairs are compared
	pairs := func(rules []*R) {
		g.Do(func(t *T) { comparePairs(t, rules) })
	}
	pairs(rules)
	pairs(long)
	// use and child order do not change hashes
	for i, mr := range rules {
		i, mr := i, mr
		g.Do(func(t *T) {
			t.Desc(func() string { return mr.Text() })
			t.State("use", mr.Text())
			rs := t.load(mr)
			r := &rs.Rules[0]
			h, ch, s := E.RuleMD5Hash(*r), E.RuleMD5HashConditions(*r), r.String()
			same := func(x *E.Rule, what string) {
				t.Steps(3)
				if E.RuleMD5Hash(*x) != h || E.RuleMD5HashConditions(*x) != ch || x.String() != s || !x.ConditionsEqual(*r) || !r.ConditionsEqual(*x) {
					t.Fail("%s: hash %s of %s, was %s of %s", what, E.RuleMD5Hash(*x), x.String(), h, s)
				}
			}
			underOrders(func(order string) { same(&t.load(mr).Rules[0], "loaded again, maps "+order) })
			E.ValidateRule(r)
			same(r, "after validation")
			E.Check(&msgs[1].M, rs)
			same(r, "after Check")
			for _, m := range msgs {
				E.CheckOneRule(&m.M, r)
			}
			same(r, "after CheckOneRule")
			r.TestConditions(&msgs[2].M)
			r.SetPredefinedStringsAndLists(E.PredefinedStringsAndLists{})
			r.ToMongoQuery("raw")
			json.Marshal(r)
			same(r, "after preparation and translation")
			if i%5 == 0 {
				same(jsonTrip(t, r), "after JSON")
				same(bsonTrip(t, r), "after BSON")
			}
			if mr.Cond != nil {
				for _, p := range permuted(mr.Cond, 24) {
					o := *mr
					o.Cond = p
					same(&t.load(&o).Rules[0], "with children in another order")
				}
			}
			if mr.ResType == strings.ToLower(mr.ResType) {
				x := t.load(mr).Rules[0]
				x.ToLower()
				if E.RuleMD5Hash(x) != h {
					t.Fail("ToLower changes the hash of %s to that of %s", s, x.String())
				}
			}
		})
	}
	// wide nodes, the differing child at every position
	for _, n := range g.Lits.Sizes(8, g.Pick(70, 300)) {
		if n < 2 {
			continue
		}
		n := n
		g.Do(func(t *T) {
			t.Desc(func() string { return fmt.Sprintf("%d children", n) })
			mk := func(op string, p int, v string, rot int) *R {
				c := &C{Op: op}
				for i := 0; i < n; i++ {
					k := leaf("domain", "EQ", fmt.Sprint("v", (i+rot)%n))
					if (i+rot)%n == p {
						k.Value = v
					}
					c.Kids = append(c.Kids, k)
				}
				return anyRule("block", c)
			}
			seen := map[string]string{}
			for _, op := range []string{"AND", "OR"} {
				for _, p := range positions(n) {
					for _, v := range []string{"other", "otherX"} {
						mr := mk(op, p, v, 0)
						t.State(mr.Text())
						t.Steps(3)
						h := E.RuleMD5Hash(t.load(mr).Rules[0])
						if o, ok := seen[h]; ok {
							t.Fail("%s and %s have one hash", o, mr.Cond.Text())
						}
						seen[h] = mr.Cond.Text()
						for _, rot := range []int{1, n / 2, n - 1} {
							if h2 := E.RuleMD5Hash(t.load(mk(op, p, v, rot)).Rules[0]); h2 != h {
								t.Fail("rotating the children by %d changes the hash of %s", rot, mr.Cond.Text())
							}
						}
					}
				}
			}
		})
	}
}

// ---------------------------------------------------------------------------
// C22

// spelling of one node
type spelling struct {
	name string
	f    func(c *C, direct func() string) string
}

func keyOrder(parts []string, p []int) string {
	var o []string
	for _, i := range p {
		if i < len(parts) {
			o = append(o, parts[i])
		}
	}
	return "{" + strings.Join(o, ", ") + "}"
}

func leafParts(c *C, caps int) []string {
	k := []string{"attribute", "method", "value"}
	for i := range k {
		if caps&(1<<i) != 0 {
			k[i] = strings.Title(k[i])
		}
	}
	p := []string{js(k[0]) + ": " + js(c.Attr), js(k[1]) + ": " + js(c.Method)}
	if !c.NoVal {
		p = append(p, js(k[2])+": "+js(c.Value))
	}
	return p
}

var wraps = []func(s string) string{
	func(s string) string { return s },
	func(s string) string { return `{"condition": ` + s + `}` },
	func(s string) string { return `{"conditionsTree": ` + s + `}` },
	func(s string) string { return `[` + s + `]` },
	func(s string) string { return `[{"condition": ` + s + `}]` },
	func(s string) string { return `{"conditionsTree": {"condition": ` + s + `}}` },
	func(s string) string { return `[{"conditionsTree": ` + s + `}]` },
	func(s string) string { return `[[` + s + `]]` },
}

// style: how one node is written
type style struct {
	wrap, caps, order int
}

var permOrders = perms(3)

// spell writes the tree; st gives the style of the k-th node (preorder).
func spell(c *C, st func(k int) style) string {
	k := 0
	var block func(c *C, st0 bool) string
	var body func(c *C, s style) string
	body = func(c *C, s style) string {
		switch c.Op {
		case "":
			return keyOrder(leafParts(c, s.caps), permOrders[s.order])
		case "AND", "OR":
			var p []string
			for _, x := range c.Kids {
				p = append(p, block(x, true))
			}
			return fmt.Sprintf(`{"%s": [%s]}`, c.Op, strings.Join(p, ", "))
		case "NOT":
			return fmt.Sprintf(`{"NOT": %s}`, block(c.Kids[0], true))
		}
		parts := []string{`"parentJsonpathAttribute": ` + js(c.Parent)}
		kid := c.Kids[0]
		ks := st(k)
		k++
		kt := body(kid, ks)
		switch {
		case kid.Op == "" || ks.wrap%3 == 1:
			key := "condition"
			if ks.wrap%3 == 2 {
				key = "conditionsTree"
			}
			parts = append(parts, js(key)+": "+kt)
		case ks.wrap%3 == 2:
			parts = append(parts, `"conditionsTree": `+kt)
		default:
			parts = append(parts, kt[1:len(kt)-1])
		}
		if len(c.Ret) > 0 {
			parts = append(parts, `"returnValueJsonpath": `+jsMap(c.Ret))
		}
		return fmt.Sprintf(`{"%s": %s}`, c.Op, keyOrder(parts, permOrders[s.order]))
	}
	block = func(c *C, _ bool) string {
		s := st(k)
		k++
		return wraps[s.wrap](body(c, s))
	}
	return block(c, true)
}

func nodes(c *C) int {
	n := 1
	for _, k := range c.Kids {
		n += nodes(k)
	}
	return n
}

func ruleWith(cond string) string {
	return `{"ruleID": "r", "sender": {"senderName": "*", "senderType": "*"}, "receiver": {"receiverName": "*", "receiverType": "*"}, "protocol": "*", "resource": {"resourceType": "*", "resourceName": "*"}, "operation": "*", "conditions": ` + cond + `, "decision": "block"}`
}

// blockYaml rewrites flow text in block style.
func blockYaml(text string) string {
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	var b strings.Builder
	var val func(ind string, inList bool)
	val = func(ind string, inList bool) {
		tok, err := d.Token()
		if err != nil {
			panic(err)
		}
		switch x := tok.(type) {
		case json.Delim:
			if x == '{' {
				first := true
				if !d.More() {
					b.WriteString(" {}\n")
				}
				for d.More() {
					if first && !inList {
						b.WriteString("\n")
					}
					k, _ := d.Token()
					if first && inList {
						b.WriteString(" " + js(k.(string)) + ":")
					} else {
						b.WriteString(ind + js(k.(string)) + ":")
					}
					first = false
					val(ind+"  ", false)
				}
				d.Token()
			} else {
				if !d.More() {
					b.WriteString(" []\n")
				} else if !inList {
					b.WriteString("\n")
				}
				first := true
				for d.More() {
					if first && inList {
						b.WriteString(" -")
					} else {
						b.WriteString(ind + "-")
					}
					first = false
					val(ind+"  ", true)
				}
				d.Token()
			}
		case string:
			b.WriteString(" " + js(x) + "\n")
		case nil:
			b.WriteString(" null\n")
		default:
			fmt.Fprintf(&b, " %v\n", x)
		}
	}
	val("", false)
	return strings.TrimPrefix(b.String(), "\n")
}

// readers of one rule text
type reader struct {
	name string
	f    func(rule string) (*E.Rule, error)
}

var readers = []reader{
	{"yaml", func(s string) (*E.Rule, error) {
		rs, err := E.YamlReadRulesFromString(`{"rules": [` + s + `]}`)
		if err != nil {
			return nil, err
		}
		return &rs.Rules[0], nil
	}},
	{"yaml block", func(s string) (*E.Rule, error) {
		rs, err := E.YamlReadRulesFromString(blockYaml(`{"rules": [` + s + `]}`))
		if err != nil {
			return nil, err
		}
		return &rs.Rules[0], nil
	}},
	{"json", func(s string) (*E.Rule, error) {
		var r E.Rule
		return &r, json.Unmarshal([]byte(s), &r)
	}},
	{"json list", func(s string) (*E.Rule, error) {
		var rs E.Rules
		if err := json.Unmarshal([]byte(`{"rules":[`+s+`]}`), &rs); err != nil {
			return nil, err
		}
		return &rs.Rules[0], nil
	}},
}

func genC22(g *Gen) {
	msgs := textMsgs()
	same := func(c *C, conds []string, what string, allOrders bool) {
		g.Do(func(t *T) {
			t.Desc(func() string { return what + ": " + strings.Join(conds, "\n") })
			mr := anyRule("block", c)
			ref := t.load(mr)
			want := t.observe(&ref.Rules[0], msgs)
			wantText := t.observe(&ref.Rules[0], nil)
			for _, m := range msgs {
				t.expectDecision(&ref.Rules[0], mr, m, "canonical spelling")
			}
			for _, cond := range conds {
				t.State(cond)
				run := func(order string) {
					for _, rd := range readers {
						t.Step()
						r, err := rd.f(ruleWith(cond))
						if err != nil {
							t.Fail("%s, %s, maps %s: %v\n%s", rd.name, what, order, err, cond)
						}
						ms, want := msgs, want
						if order != "reversed" || len(rd.name) > 4 { // decisions follow from the conditions read
							ms, want = nil, wantText
						}
						if got := t.observe(r, ms); got != want {
							t.Fail("%s, %s, maps %s: the rule is\n%s\nexpected\n%s\nwritten as\n%s", rd.name, what, order, got, want, cond)
						}
					}
				}
				if allOrders {
					for _, n := range []int{2, 3, 4} {
						underAllOrders(n, run)
					}
				} else {
					underOrders(run)
				}
			}
			t.Out("accepted")
		})
	}
	trees := textTrees(g.Pick(4, 5))
	trees = append(trees, any_("jsonpath:$.a", and(keyIs("EQ", "x"), valIs("", "EQ", "s"))), all_("jsonpath:$.l[:]", any_("jsonpath:$RELATIVE.b[:]", rel("", "EQ", "1"))),
		anyRet("jsonpath:$.l[:]", map[string]string{"a": "jsonpath:$RELATIVE.x", "b": "jsonpath:$RELATIVE.b", "c": "jsonpath:$RELATIVE"}, not(any_("jsonpath:$RELATIVE.b[:]", rel("", "GT", "1")))))
	single := []style{}
	for w := range wraps {
		for caps := 0; caps < 8; caps++ {
			for o := range permOrders {
				if w != 0 && caps != 0 && caps != 7 && o != 0 {
					continue
				}
				single = append(single, style{w, caps, o})
			}
		}
	}
	for ti, c := range trees {
		n := nodes(c)
		var all, one, two []string
		for _, s := range single {
			s := s
			if n > 2 && s.caps != 0 && s.caps != 7 && s.caps != 2 {
				continue
			}
			all = append(all, spell(c, func(int) style { return s }))
			for k := 0; k < n; k++ {
				if n > 4 && (s.order+s.wrap+k)%3 != 0 {
					continue
				}
				one = append(one, spell(c, func(i int) style {
					if i == k {
						return s
					}
					return style{}
				}))
			}
		}
		for w1 := range wraps {
			for w2 := range wraps {
				for k := 0; k+1 < n; k++ {
					if w1 == 0 || w2 == 0 || n > 4 && (w1+w2+k)%4 != 0 {
						continue
					}
					two = append(two, spell(c, func(i int) style {
						switch i {
						case k:
							return style{wrap: w1, order: w2 % 6}
						case k + 1:
							return style{wrap: w2, caps: w1, order: w1 % 6}
						}
						return style{}
					}))
				}
			}
		}
		chunk := func(l []string, what string, ao bool) {
			l = uniq(l)
			for i := 0; i < len(l); i += 12 {
				j := i + 12
				if j > len(l) {
					j = len(l)
				}
				same(c, l[i:j], what, ao)
			}
		}
		chunk(all, "all nodes", false)
		chunk(one, "one node", false)
		chunk(two, "two nodes", false)
		if n <= 4 && ti%2 == 0 {
			chunk([]string{c.Text(), spell(c, func(int) style { return style{1, 7, 3} })}, "every map order", true)
		}
	}
	// conditions with return paths
	four := perms(4)
	for _, lf := range []*C{leaf("jsonpath:$.v1", "EQ", "1"), leafNV("jsonpath:$.l", "EX"), leaf("jsonpath:$.l[0].x", "GE", "1")} {
		for _, ret := range []map[string]string{{"y": "jsonpath:$.v0"}, {"y": "jsonpath:$.v0", "z": "jsonpath:$.l[0].x"}} {
			lf, ret := lf, ret
			var conds []string
			for caps := 0; caps < 16; caps++ {
				for o := range four {
					key := "returnValueJsonpath"
					if caps >= 8 {
						key = "ReturnValueJsonpath"
					}
					conds = append(conds, keyOrder(append(leafParts(lf, caps%8), js(key)+": "+jsMap(ret)), four[o]))
				}
			}
			conds = uniq(conds)
			for i := 0; i < len(conds); i += 16 {
				i := i
				g.Do(func(t *T) {
					t.Desc(func() string { return "return paths: " + strings.Join(conds[i:min(i+16, len(conds))], "\n") })
					want := ""
					for k, cond := range append([]string{conds[0]}, conds[i:min(i+16, len(conds))]...) {
						t.State("return paths", cond)
						for _, rd := range readers {
							r, err := rd.f(ruleWith(cond))
							if err != nil {
								t.Fail("%s: %v\n%s", rd.name, err, cond)
							}
							got := t.observe(r, msgs)
							if k == 0 && want == "" {
								want = got
								for _, m := range msgs { // the returned values themselves
									d, extra := E.CheckOneRule(&m.M, r)
									hit := decide(anyRule("block", lf), m) == dBlock
									if (d == E.BLOCK) != hit || hit && (len(extra) != 1 || len(extra[0]) > len(ret)) {
										t.Fail("%s: decision %d, returned %v, model says applies %v\n%s", rd.name, d, extra, hit, cond)
									}
								}
							}
							if got != want {
								t.Fail("%s: the rule is\n%s\nexpected\n%s\nwritten as\n%s", rd.name, got, want, cond)
							}
						}
					}
					t.Out("return paths")
				})
			}
		}
	}
	// values that are not written as strings
	type nv struct{ raw, text string }
	for _, v := range []nv{{"0", "0"}, {"1", "1"}, {"-1", "-1"}, {"5", "5"}, {"1.5", "1.5"}, {"-0.25", "-0.25"}, {"100000", "100000"}, {"1000000", "1000000"}, {"12345678", "12345678"}, {"1234567.5", "1234567.5"}, {"100000000000000000000", "100000000000000000000"}, {"9007199254740992", "9007199254740992"}, {"0.000001", "0.000001"}, {"0.0000001", "0.0000001"}, {"true", "true"}, {"false", "false"}, {"123456789012", "123456789012"}, {"21", "21"}, {"1000000.25", "1000000.25"}} {
		v := v
		for _, a := range []string{"jsonpath:$.v1", "payloadSize", "domain"} {
			for _, m := range []string{"EQ", "GE", "NEQ", "IN"} {
				c := leaf(a, m, v.text)
				if !validLeaf(c) {
					continue
				}
				same(c, []string{fmt.Sprintf(`{"attribute": %s, "method": %s, "value": %s}`, js(a), js(m), v.raw), fmt.Sprintf(`[{"Attribute": %s, "Method": %s, "Value": %s}]`, js(a), js(m), v.raw)}, "unquoted value", false)
			}
		}
	}
	// malformed
	lf := `{"attribute": "domain", "method": "EQ", "value": "x"}`
	lf2 := `{"attribute": "jsonpath:$RELATIVE.x", "method": "EQ", "value": "x"}`
	P := `"parentJsonpathAttribute": "jsonpath:$.l[:]"`
	bad := []string{
		`{"attribute": "domain", "value": "x"}`, `{"method": "EQ", "value": "x"}`, `{"attribute": "domain"}`, `{"value": "x"}`, `{"method": "EQ"}`,
		`{"attribute": "domain", "method": "EQ", "value": "x", "foo": "y"}`, `{"attribute": "domain", "method": "EQ", "foo": "y"}`, `{"Attribut": "domain", "method": "EQ", "value": "x"}`, `{"ATTRIBUTE": "domain", "METHOD": "EQ", "VALUE": "x"}`,
		`{"attribute": "domain", "method": "EQ", "value": "x", "AND": [` + lf + `]}`,
		`{"attribute": "nosuch", "method": "EQ", "value": "x"}`, `{"attribute": "domain", "method": "XX", "value": "x"}`,
		`[` + lf + `, ` + lf + `]`, `[` + lf + `, ` + lf + `, ` + lf + `]`, `[{"AND": [` + lf + `]}, {"OR": [` + lf + `]}]`, `{"condition": [` + lf + `, ` + lf + `]}`, `{"conditionsTree": [` + lf + `, ` + lf + `]}`,
		`{"XOR": [` + lf + `]}`, `{"and": [` + lf + `, ` + lf + `]}`, `{"And": [` + lf + `, ` + lf + `]}`, `{"or": [` + lf + `]}`, `{"NOR": [` + lf + `]}`, `{"not": ` + lf + `}`, `{"any": {` + P + `, "condition": ` + lf2 + `}}`, `{"ANYALL": {` + P + `, "condition": ` + lf2 + `}}`, `{"": [` + lf + `]}`, `{"AND ": [` + lf + `]}`, `{"conditionz": ` + lf + `}`, `{"NAND": [` + lf + `]}`, `{"IF": ` + lf + `}`,
		`{"AND": [` + lf + `], "OR": [` + lf + `]}`, `{"AND": [` + lf + `], "NOT": ` + lf + `}`, `{"NOT": ` + lf + `, "OR": [` + lf + `]}`, `{"condition": ` + lf + `, "AND": [` + lf + `]}`, `{"AND": [` + lf + `], "foo": 1}`, `{"ANY": {` + P + `, "condition": ` + lf2 + `}, "ALL": {` + P + `, "condition": ` + lf2 + `}}`,
		`{"AND": []}`, `{"OR": []}`, `{"NOT": []}`, `{"AND": "x"}`, `{"OR": 5}`, `{"NOT": "x"}`, `{"NOT": null}`, `{"AND": null}`, `{"AND": [null]}`, `{"AND": [5]}`, `{"OR": ["x"]}`, `{"AND": [` + lf + `, 5]}`, `{"OR": [` + lf + `, null]}`, `{"OR": [` + lf + `, []]}`, `{"OR": [` + lf + `, {}]}`, `{"AND": [true, ` + lf + `]}`, `{"AND": [[` + lf + `, ` + lf + `], ` + lf + `]}`,
		`{"NOT": [` + lf + `, ` + lf + `]}`, `{"NOT": {"AND": [` + lf + `], "OR": [` + lf + `]}}`, `{"NOT": {}}`, `{"NOT": {"XOR": [` + lf + `]}}`, `{"NOT": {"NOT": [` + lf + `, ` + lf + `]}}`,
		`{"ANY": {"condition": ` + lf2 + `}}`, `{"ALL": {"condition": ` + lf2 + `}}`, `{"ANY": ` + lf2 + `}`, `{"ALL": ` + lf2 + `}`, `{"ANY": {` + P + `}}`, `{"ALL": {` + P + `}}`, `{"ANY": {}}`, `{"ANY": []}`, `{"ALL": [` + lf2 + `]}`, `{"ANY": "x"}`, `{"ANY": null}`, `{"ANY": 5}`,
		`{"ANY": {"parentjsonpathAttribute": "jsonpath:$.l[:]", "condition": ` + lf2 + `}}`, `{"ANY": {"parent": "jsonpath:$.l[:]", "condition": ` + lf2 + `}}`, `{"ANY": {` + P + `, "AND": [` + lf2 + `], "OR": [` + lf2 + `]}}`, `{"ALL": {` + P + `, "condition": ` + lf2 + `, "AND": [` + lf2 + `]}}`, `{"ANY": {` + P + `, "condition": ` + lf2 + `, "foo": "x"}}`, `{"ANY": {` + P + `, "XOR": [` + lf2 + `]}}`, `{"ANY": {` + P + `, "condition": [` + lf2 + `, ` + lf2 + `]}}`, `{"ANY": {` + P + `, "condition": "x"}}`, `{"ALL": {` + P + `, "condition": null}}`, `{"ANY": {` + P + `, "condition": {}}}`,
		`{}`, `"x"`, `5`, `true`, `[]`, `[[]]`, `[5]`, `[null]`, `[{}]`, `""`,
	}
	for _, q := range []string{"ANY", "ALL"} {
		for _, p := range []string{`""`, `"x"`, `"$.l[:]"`, `"jsonpath:"`, `"jsonpath:l[:]"`, `"jsonpath:$l"`, `5`, `null`, `["jsonpath:$.l[:]"]`, `{}`, `true`, `"jsonpath:$KEY"`, `"Jsonpath:$.l[:]"`, `"jsonpath: $.l[:]"`, `"jsonpath:$.l["`, `"jsonpath:$.l[x"`} {
			bad = append(bad, fmt.Sprintf(`{"%s": {"parentJsonpathAttribute": %s, "condition": %s}}`, q, p, lf2), fmt.Sprintf(`{"%s": {"parentJsonpathAttribute": %s, "returnValueJsonpath": {"a": "jsonpath:$RELATIVE.x"}, "AND": [%s]}}`, q, p, lf2))
		}
		for _, r := range []string{`"x"`, `5`, `null`, `["jsonpath:$RELATIVE.x"]`, `{"a": "x"}`, `{"a": "$RELATIVE.x"}`, `{"a": "jsonpath:$.x"}`, `{"a": "jsonpath:RELATIVE.x"}`, `{"a": 5}`, `{"a": null}`, `{"a": ["jsonpath:$RELATIVE.x"]}`, `{"a": "jsonpath:$RELATIVE.x", "b": "x"}`, `{"a": "x", "b": "jsonpath:$RELATIVE.x"}`, `{"a": "jsonpath:$RELATIVE.x", "b": "jsonpath:$RELATIVE.x", "c": "jsonpath:$.x"}`, `{"a": ""}`, `true`} {
			bad = append(bad, fmt.Sprintf(`{"%s": {%s, "returnValueJsonpath": %s, "condition": %s}}`, q, P, r, lf2))
		}
	}
	// keys close to the known ones, instead of them and besides them
	near := func(k string, known ...string) []string {
		var o []string
		for _, x := range uniq([]string{k + "s", k + " ", " " + k, k[:len(k)-1], k[1:], k + k, strings.ToLower(k), up(k), up(k[:1]) + k[1:], strings.ToLower(k[:1]) + k[1:], up(k[:1]) + strings.ToLower(k[1:]), k + "_", "$" + k, k + "1", k + "."}) {
			ok := x != k
			for _, y := range known {
				ok = ok && x != y
			}
			if ok {
				o = append(o, x)
			}
		}
		return o
	}
	lk := []string{"attribute", "Attribute", "method", "Method", "value", "Value", "returnValueJsonpath", "ReturnValueJsonpath"}
	for i, k := range []string{"attribute", "method", "value"} {
		v := []string{`"domain"`, `"EQ"`, `"x"`}[i]
		for _, x := range near(k, lk...) {
			bad = append(bad, strings.Replace(lf, js(k), js(x), 1), lf[:len(lf)-1]+`, `+js(x)+`: `+v+`}`)
		}
	}
	rv := `{"a": "jsonpath:$.x"}`
	for _, x := range near("returnValueJsonpath", lk...) {
		bad = append(bad, `{"attribute": "jsonpath:$.x", "method": "EX", `+js(x)+`: `+rv+`}`)
	}
	for _, q := range []string{"ANY", "ALL"} {
		kids := []string{`"condition": ` + lf2, `"AND": [` + lf2 + `]`, `"NOT": ` + lf2}
		for _, x := range near("parentJsonpathAttribute") {
			bad = append(bad, `{"`+q+`": {`+js(x)+`: "jsonpath:$.l[:]", `+kids[0]+`}}`, `{"`+q+`": {`+P+`, `+js(x)+`: "jsonpath:$.l[:]", `+kids[0]+`}}`, `{"`+q+`": {`+js(x)+`: "jsonpath:$.l[:]", "returnValueJsonpath": {"a": "jsonpath:$RELATIVE.x"}, `+kids[1]+`}}`)
		}
		for _, x := range near("returnValueJsonpath") {
			bad = append(bad, `{"`+q+`": {`+P+`, `+js(x)+`: {"a": "jsonpath:$RELATIVE.x"}, `+kids[0]+`}}`, `{"`+q+`": {`+P+`, "returnValueJsonpath": {"a": "jsonpath:$RELATIVE.x"}, `+js(x)+`: {"a": "jsonpath:$RELATIVE.x"}, `+kids[2]+`}}`)
		}
		for _, k := range []string{"condition", "conditionsTree", "AND", "OR", "NOT"} {
			v := lf2
			if k == "AND" || k == "OR" {
				v = `[` + lf2 + `]`
			}
			for _, x := range near(k, "condition", "conditionsTree", "AND", "OR", "NOT", "ANY", "ALL") {
				bad = append(bad, `{"`+q+`": {`+P+`, `+js(x)+`: `+v+`}}`, `{"`+q+`": {`+P+`, `+js(x)+`: `+v+`, `+kids[0]+`}}`, `{"`+q+`": {`+P+`, `+kids[1]+`, `+js(x)+`: `+v+`}}`)
			}
		}
	}
	for _, k := range []string{"condition", "conditionsTree", "AND", "OR", "NOT", "ANY", "ALL"} {
		v := lf
		switch k {
		case "AND", "OR":
			v = `[` + lf + `]`
		case "ANY", "ALL":
			v = `{` + P + `, "condition": ` + lf2 + `}`
		}
		for _, x := range near(k, "condition", "conditionsTree", "AND", "OR", "NOT", "ANY", "ALL") {
			bad = append(bad, `{`+js(x)+`: `+v+`}`, `{"AND": [`+lf+`], `+js(x)+`: `+v+`}`, `{`+js(k)+`: `+v+`, `+js(x)+`: `+v+`}`)
		}
	}
	// keys that are not texts (YAML)
	for _, k := range []string{"true", "5", "null", "1.5", "~", "false", "[x]", "{x: y}"} {
		bad = append(bad, lf[:len(lf)-1]+`, `+k+`: "x"}`, `{`+k+`: "x", "AND": [`+lf+`, `+lf+`]}`, `{"OR": [`+lf+`], `+k+`: [`+lf+`]}`, `{`+k+`: `+lf+`}`, `{"NOT": `+lf+`, `+k+`: `+lf+`}`, `{"ANY": {`+P+`, "condition": `+lf2+`, `+k+`: "x"}}`, `{"ALL": {`+P+`, `+k+`: `+lf2+`}}`, `{"condition": `+lf+`, `+k+`: 1}`)
	}
	bad = uniq(bad)
	ctxs := []func(s string) string{
		func(s string) string { return s },
		func(s string) string { return `{"condition": ` + s + `}` },
		func(s string) string { return `{"conditionsTree": ` + s + `}` },
		func(s string) string { return `[` + s + `]` },
		func(s string) string { return `{"NOT": ` + s + `}` },
		func(s string) string { return `{"AND": [` + s + `]}` },
		func(s string) string { return `{"AND": [` + s + `, ` + lf + `]}` },
		func(s string) string { return `{"OR": [` + lf + `, ` + s + `]}` },
		func(s string) string { return `{"OR": [` + lf + `, ` + s + `, ` + lf + `]}` },
		func(s string) string { return `{"ANY": {` + P + `, "condition": ` + s + `}}` },
		func(s string) string { return `{"ALL": {` + P + `, "NOT": ` + s + `}}` },
		func(s string) string {
			return `{"ANY": {"AND": [` + lf2 + `, ` + s + `], ` + P + `, "returnValueJsonpath": {"a": "jsonpath:$RELATIVE.x"}}}`
		},
	}
	reject := func(cond string, what string) {
		g.Do(func(t *T) {
			t.Desc(func() string { return what + ": " + cond })
			t.State(cond)
			run := func(order string) {
				for _, rd := range readers {
					if cond == `""` && strings.HasPrefix(rd.name, "yaml") || !json.Valid([]byte(cond)) && strings.Contains(rd.name, "block") {
						continue
					}
					t.Step()
					r, err := rd.f(ruleWith(cond))
					if err == nil {
						t.Step()
						err = E.ValidateRule(r)
					}
					if err == nil {
						b, _ := json.Marshal(r)
						t.Fail("%s, maps %s: accepted as %s", rd.name, order, b)
					}
				}
			}
			underOrders(run)
			underAllOrders(2, run)
			underAllOrders(3, run)
			t.Out("rejected")
		})
	}
	for i, b := range bad {
		for j, f := range ctxs {
			if (b == `{}` || b == `[]`) && (j == 0 || j == 1 || j == 2) {
				continue // a block without any condition
			}
			if b == `[`+lf+`, `+lf+`]` && false {
				continue
			}
			_ = i
			reject(f(b), "malformed")
			if g.Thorough() {
				for _, f2 := range ctxs[3:] {
					reject(f2(f(b)), "malformed")
				}
			}
		}
	}
	// keys that are not strings (YAML only)
	for _, b := range []string{`{5: [` + lf + `]}`, `{true: [` + lf + `]}`, `{null: ` + lf + `}`, `{attribute: domain, method: EQ, 5: x}`, `{ANY: {` + P + `, 5: ` + lf2 + `}}`, `{ANY: {` + P + `, returnValueJsonpath: {5: "jsonpath:$RELATIVE.x"}, condition: ` + lf2 + `}}`, `{[a]: ` + lf + `}`} {
		for _, f := range ctxs {
			cond := f(b)
			g.Do(func(t *T) {
				t.Desc(func() string { return "not a string key: " + cond })
				t.State(cond)
				underOrders(func(order string) {
					t.Step()
					if r, err := readers[0].f(ruleWith(cond)); err == nil {
						b, _ := json.Marshal(r)
						t.Fail("accepted as %s", b)
					}
				})
			})
		}
	}
	// a malformed rule does not hide in a list of rules
	for n := 2; n <= 4; n++ {
		for p := 0; p < n; p++ {
			for _, b := range []string{bad[0], bad[12], bad[17], bad[30]} {
				n, p, b := n, p, b
				g.Do(func(t *T) {
					var l []string
					for i := 0; i < n; i++ {
						if i == p {
							l = append(l, ruleWith(b))
						} else {
							l = append(l, ruleWith(lf))
						}
					}
					text := `{"rules": [` + strings.Join(l, ",\n") + `]}`
					t.Desc(func() string { return text })
					t.State(text)
					t.Steps(2)
					if _, err := E.YamlReadRulesFromString(text); err == nil {
						t.Fail("accepted from YAML")
					}
					var rs E.Rules
					if err := json.Unmarshal([]byte(text), &rs); err == nil {
						t.Fail("accepted from JSON")
					}
				})
			}
		}
	}
}
