package main

// Definitions (C13) and validation (C16).

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	E "github.com/octarinesec/MAPL/MAPL_engine"
)

func init() {
	register(&Prop{ID: "C13", Bounds: "all reference positions x all methods x all definition sets over 2 strings and 2 lists, every sequence of up to 3 redefinitions, global and per-rule definitions in every combination, definitions changed in place and set again, references that nearly name a definition, list sizes and names swept", Gen: genC13,
		Assume: []string{"definitions are read from text or set as global definitions", "ordering methods take no references (rejected when the rule is loaded)", "after a rejected redefinition the old definitions are not used"}})
	register(&Prop{ID: "C16", Bounds: "all attributes x methods x values of the validation alphabet at every position of trees, in YAML and JSON; every duplicated key of a rule file; subnet lists", Gen: genC16,
		Assume: []string{"values starting with # (references) are not part of the grid"}})
}

// ---------------------------------------------------------------------------
// validity (model)

var methodsAll = []string{"ge", "GE", "gt", "GT", "le", "LE", "lt", "LT", "re", "RE", "nre", "NRE", "in", "IN", "nin", "NIN", "eq", "EQ", "neq", "NEQ", "ne", "NE", "ex", "EX", "nex", "NEX", "IS"}

func isMethod(m string) bool {
	for _, x := range methodsAll {
		if x == m {
			return true
		}
	}
	return false
}

var bracketRe = regexp.MustCompile(`\[[^\[\]]*\]`)

func validPath(p string) bool {
	switch {
	case p == "$RELATIVE" || p == "$KEY" || p == "$VALUE":
		return true
	case strings.HasPrefix(p, "$RELATIVE."), strings.HasPrefix(p, "$VALUE."), strings.HasPrefix(p, "$VALUE["), strings.HasPrefix(p, "$."), strings.HasPrefix(p, "."):
	default:
		return false
	}
	for _, b := range bracketRe.FindAllString(p, -1) {
		in := b[1 : len(b)-1]
		if len(in) >= 2 && (in[0] == '"' && in[len(in)-1] == '"' || in[0] == '\'' && in[len(in)-1] == '\'') {
			continue
		}
		if in == "" || strings.Trim(in, "0123456789") != "" {
			return false
		}
	}
	rest := bracketRe.ReplaceAllString(p, "")
	return !strings.ContainsAny(rest, "[]")
}

// validLeaf: the documented acceptance of one condition
func validLeaf(c *C) bool {
	label, object, path := false, false, false
	switch {
	case strings.HasPrefix(c.Attr, "senderLabel["), strings.HasPrefix(c.Attr, "receiverLabel["):
		if strings.Index(c.Attr, "]") != len(c.Attr)-1 {
			return false
		}
		label = true
	case strings.HasPrefix(c.Attr, "$sender."), strings.HasPrefix(c.Attr, "$receiver."):
		object = true
	case strings.HasPrefix(c.Attr, "jsonpath:"):
		if !validPath(strings.TrimPrefix(c.Attr, "jsonpath:")) {
			return false
		}
		path = true
	default:
		ok := false
		for _, a := range []string{"true", "TRUE", "false", "FALSE", "payloadSize", "requestUseragent", "utcHoursFromMidnight", "encryptionType", "encryptionVersion", "domain"} {
			ok = ok || a == c.Attr
		}
		if !ok {
			return false
		}
	}
	_ = path
	if !isMethod(c.Method) {
		return false
	}
	if c.Attr == "encryptionVersion" && !strings.Contains(" EQ LT LE GT GE ", " "+up(c.Method)+" ") {
		return false
	}
	if strings.HasPrefix(c.Value, "receiverLabel[") && strings.Index(c.Value, "]") != len(c.Value)-1 {
		return false
	}
	switch up(c.Method) {
	case "LT", "LE", "GT", "GE":
		if label || object {
			return false
		}
		if _, ok := parseNum(c.Value); !ok {
			return false
		}
	case "RE", "NRE":
		if _, err := regexp.Compile(c.Value); err != nil {
			return false
		}
	case "IN", "NIN", "IS":
		if c.Value == "" {
			return false
		}
	}
	return true
}

func validTree(c *C) bool {
	if c.Op == "" {
		return validLeaf(c)
	}
	for _, k := range c.Kids {
		if !validTree(k) {
			return false
		}
	}
	return true
}

// accepted loads, validates and prepares the rule by every way and returns the
// common verdict.
func (t *T) accepted(mr *R) (bool, string) {
	text := rulesText([]*R{mr})
	verdict := func(rs *E.Rules, err error) (bool, string) {
		if err != nil {
			return false, err.Error()
		}
		if len(rs.Rules) != 1 {
			return false, fmt.Sprintf("%d rules", len(rs.Rules))
		}
		r := &rs.Rules[0]
		t.Steps(2)
		e1 := E.ValidateRule(r)
		e2 := r.SetPredefinedStringsAndLists(E.PredefinedStringsAndLists{})
		if (e1 == nil) != (e2 == nil) {
			t.Fail("ValidateRule: %v, SetPredefinedStringsAndLists: %v\n%s", e1, e2, text)
		}
		if e1 != nil {
			return false, e1.Error()
		}
		// an accepted rule can be checked
		for _, m := range checkMsgs {
			t.Step()
			r.Check(&m.M)
		}
		return true, ""
	}
	t.Steps(2)
	rs, err := E.YamlReadRulesFromString(text)
	a, why := verdict(&rs, err)
	var js E.Rules
	err = json.Unmarshal([]byte(text), &js)
	b, why2 := verdict(&js, err)
	if a != b {
		t.Fail("accepted from YAML: %v (%s), from JSON: %v (%s)\n%s", a, why, b, why2, text)
	}
	return a, why
}

var checkMsgs = []*Msg{mkMsg(nil), withDoc(mkMsg(nil), `{"a":{"b":[1,{"x":1}],"x":"s"},"l":[{"x":1,"b":[1]},{"x":"q"}]}`, "bytes"), withDoc(mkMsg(nil), `{"a":{"b":[1,{"x":1}],"x":"s"},"l":[{"x":1,"b":[1]},{"x":"q"}]}`, "iface")}

func genC16(g *Gen) {
	attrs := []string{"true", "TRUE", "false", "FALSE", "payloadSize", "requestUseragent", "utcHoursFromMidnight", "encryptionType", "encryptionVersion", "domain",
		"$sender.namespace", "$receiver.cluster", "senderLabel[a]", "receiverLabel[a.b/c]", "jsonpath:$.a", "jsonpath:.a", "jsonpath:$RELATIVE.a", "jsonpath:$KEY", "jsonpath:$VALUE", "jsonpath:$VALUE.x",
		// unknown
		"", "True", "payloadsize", "PayloadSize", "payloadSize ", " payloadSize", "payload", "payloadSizes", "userAgent", "domains", "Domain", "senderlabel[a]", "sender.namespace", "$sender", "$receiver", "sender", "encryptionversion", "requestUserAgent", "jsonpath", "jsonpath$.a", "JSONPATH:$.a", "$.a", "label[a]", "senderLabel", "utcHoursFromMidnight2", "xdomain",
		// malformed labels
		"senderLabel[a", "senderLabel[a]x", "senderLabel[a]]", "receiverLabel[", "receiverLabel[a].b", "receiverLabel[a][b]"}
	for _, a := range attrs[:20] { // a supported attribute inside another text
		for _, pre := range []string{"x", " ", "the ", ".", "!", "not:", "$sender", "jsonpath"} {
			attrs = append(attrs, pre+a)
		}
	}
	paths := []string{"$.a", ".a", "$.a.b", "$.a.b.c", "$.a[0]", "$.a[10].b", "$.a[0][1]", `$.a["b"]`, `$.a['b']`, `$.a['b'].c[2]`, "$.a.'b'", `$.a."b"`, "$RELATIVE", "$RELATIVE.a", "$RELATIVE.a[0]", "$RELATIVE.a.b", "$KEY", "$VALUE", "$VALUE.a", "$VALUE.a[1]", "$.a-b", "$.a/b", "$.a_b", "$.A", "$.a[00]",
		"a", "", "a.b", "$a", "$", "[0]", "$[0]", "$RELATIV.a", "RELATIVE.a", "KEY", "$KEY.x", "$KEY.x.y", "$.a[:]", "$.a[:].b", "$.b.a[:]", "$.a[0][:]", "$RELATIVE.a[:]", "$.a[]", "$.a[].b", "$.a[-1]", "$.a[x]", "$.a[*]", "$.a[1:2]", "$.a[1,2]", "$.a[0:]", "$.a[?(@.x>1)]", "$.a[0].b[x]", "$.a[1.5]", "$.a[1 ]", "$.a[ ]", "$.a[0", "$.a[", "$VALUE.a[:]", "$VALUE.a[x]", "/a", "@.a", "'a'"}
	methods := append(append([]string{}, methodsAll...), "", "Eq", "EQUAL", "==", "is", "Is", "NOT", "GEE", "E", "EQ ", " EQ", "NIN2", "nEQ", "Re", "in ", "EXX", "LIKE", "gte")
	vals := []string{"", "1", "-1", "1.5", "0", "1e3", "1Ki", "50%", "100m", "x", "1x", "x1", "1 ", "1,2", "a,b", "[a,b]", "^a$", "a|b", "a+", "*", "a*", "?", "(", ")", "a(b", "[", "]", "[a", "a[0-", "a{2,1}", "\\", "a\\", "receiverLabel[a]", "receiverLabel[a", "receiverLabel[a]x", "$receiver.namespace", "--1", "1.2.3", "+5", "true", "1K", "K", "%", "m", "1KiKi", "é", `"q"`}
	one := func(c *C) {
		g.Do(func(t *T) {
			mr := anyRule("block", c)
			t.Desc(func() string { return mr.Text() })
			t.State(c.Text())
			want := validTree(c)
			got, why := t.accepted(mr)
			if got != want {
				t.Fail("accepted: %v (%s), model says valid: %v", got, why, want)
			}
			t.Out(fmt.Sprintf("accepted %v", got))
		})
	}
	skipVal := func(m, v string) bool { // values whose meaning for the method is not documented
		if _, odd := weird(v); odd {
			return true
		}
		switch up(m) {
		case "IN", "NIN", "IS":
			// what an element may look like is documented for plain text only
			return strings.ContainsAny(strings.Trim(v, "[]"), `[](){}*+?\\|^$`) || v == "[" || v == "]" || v == "[a"
		}
		return false
	}
	for _, a := range attrs {
		for _, m := range methods {
			for _, v := range vals {
				if skipVal(m, v) {
					continue
				}
				one(leaf(a, m, v))
			}
			one(leafNV(a, m))
		}
	}
	for _, p := range paths {
		for _, m := range []string{"EQ", "LT", "EX", "RE", "NIN", "ne", "XX"} {
			for _, v := range []string{"1", "x", "", "("} {
				if m == "NIN" && v == "(" {
					continue
				}
				one(leaf("jsonpath:"+p, m, v))
			}
		}
	}
	// every source word as attribute, method and value
	for _, w := range g.Lits.Words(`^[ -~]{1,30}$`) {
		if reference(w) || strings.HasPrefix(w, "$sender.") || strings.HasPrefix(w, "$receiver.") || strings.ContainsAny(w, "[]") || strings.HasPrefix(w, "jsonpath:") {
			continue
		}
		one(leaf(w, "EQ", "1"))
		one(leaf("domain", w, "1"))
		one(leaf("payloadSize", w, "1"))
		one(leaf("jsonpath:$.a", w, "1"))
		if !skipVal("", w) {
			for _, m := range []string{"EQ", "GT", "RE", "NEX"} {
				one(leaf("domain", m, w))
				one(leaf("jsonpath:$.a", m, w))
			}
		}
	}
	// positions in trees
	bads := []*C{leaf("nosuch", "EQ", "1"), leaf("domain", "XX", "1"), leaf("payloadSize", "GT", "x"), leaf("senderLabel[a]", "LT", "1"), leaf("$sender.namespace", "GE", "1"), leaf("$receiver.cluster", "le", "1"), leaf("domain", "RE", "("), leaf("jsonpath:$.a", "IN", ""), leaf("senderLabel[a", "EQ", "1"), leaf("jsonpath:$.a[:]", "EQ", "1"), leaf("jsonpath:a", "EQ", "1"), leaf("encryptionVersion", "NEQ", "1"), leaf("jsonpath:$RELATIVE.a[x]", "EQ", "1")}
	good := leaf("domain", "EQ", "x")
	var place []func(c *C) *C
	id := func(c *C) *C { return c }
	place = append(place, id, not0, func(c *C) *C { return any_("jsonpath:$.l[:]", c) }, func(c *C) *C { return all_("jsonpath:$.l[:]", c) })
	for n := 1; n <= 4; n++ {
		for p := 0; p < n; p++ {
			for _, op := range []string{"AND", "OR"} {
				n, p, op := n, p, op
				place = append(place, func(c *C) *C {
					o := &C{Op: op}
					for i := 0; i < n; i++ {
						if i == p {
							o.Kids = append(o.Kids, c)
						} else {
							o.Kids = append(o.Kids, good)
						}
					}
					return o
				})
			}
		}
	}
	for _, b := range append(bads, good) {
		for _, p1 := range place {
			one(p1(b))
			for _, p2 := range place {
				one(p1(p2(b)))
				if g.Thorough() {
					for _, p3 := range place {
						one(p1(p2(p3(b))))
					}
				}
			}
		}
	}
	// depth and width
	for _, n := range append(g.Lits.Sizes(12, 300), 256, 257) {
		if n == 0 {
			continue
		}
		for _, b := range []*C{bads[0], bads[2], good} {
			for _, pos := range positions(n) {
				o := &C{Op: "OR"}
				for i := 0; i < n; i++ {
					if i == pos {
						o.Kids = append(o.Kids, b)
					} else {
						o.Kids = append(o.Kids, good)
					}
				}
				one(o)
			}
			if n <= 40 {
				c := b
				for i := 0; i < n; i++ {
					c = place[1+i%5](c)
				}
				one(c)
			}
		}
	}
	// parents and operations of other rules of the same list do not hide an invalid one
	for n := 1; n <= 4; n++ {
		for p := 0; p < n; p++ {
			for _, b := range bads {
				n, p, b := n, p, b
				g.Do(func(t *T) {
					var rs []*R
					for i := 0; i < n; i++ {
						r := anyRule("block", good)
						if i == p {
							r.Cond = b
						}
						rs = append(rs, r)
					}
					text := rulesText(rs)
					t.Desc(func() string { return text })
					t.State(text)
					t.Step()
					l, err := E.YamlReadRulesFromString(text)
					rejected := err != nil
					for i := range l.Rules {
						if E.ValidateRule(&l.Rules[i]) != nil {
							rejected = true
						}
					}
					if !rejected {
						t.Fail("a list with an invalid rule is accepted")
					}
				})
			}
		}
	}
	// subnets
	okNets := []string{"10.0.0.1", "10.0.0.0/8", "*", "::1", "2001:db8::/32", "0.0.0.0/0"}
	badNets := []string{"10.0.0", "10.0.0.256", "10.0.0.0/33", "abc", "10.0.0.0/", "10.0.0.0/-1", "::1/129", "10.0.0.1.2", ":::1", "10.0.0.0/8/8", "10.0.0.*", "1", "host"}
	for _, side := range []string{"s", "r"} {
		for n := 1; n <= 4; n++ {
			for p := 0; p < n; p++ {
				for k, e := range append(append([]string{}, okNets...), badNets...) {
					if e == "*" && n > 1 {
						continue
					}
					side, n, p, e, bad := side, n, p, e, k >= len(okNets)
					g.Do(func(t *T) {
						l := make([]string, n)
						for i := range l {
							l[i] = []string{"10.0.0.1", "10.1.0.0/16"}[i%2]
						}
						l[p] = e
						mr := anyRule("block", nil)
						if side == "s" {
							mr.SName, mr.SType = strings.Join(l, ","), "subnet"
						} else {
							mr.RName, mr.RType = strings.Join(l, ","), "subnet"
						}
						t.Desc(func() string { return mr.Text() })
						t.State(mr.Text())
						got, why := t.accepted(mr)
						if got == bad {
							t.Fail("accepted: %v (%s), model says valid: %v", got, why, !bad)
						}
					})
				}
			}
		}
	}
	// duplicate keys of a rule file
	dupKeys(g)
}

func not0(c *C) *C { return not(c) }

// kv is an ordered mapping used to write rule files.
type kv struct {
	k string
	v interface{} // string (scalar, already quoted), []kv or []interface{}
}

func writeKV(b *strings.Builder, m []kv, ind string) {
	for _, e := range m {
		b.WriteString(ind + e.k + ":")
		writeVal(b, e.v, ind)
	}
}

func writeVal(b *strings.Builder, v interface{}, ind string) {
	switch x := v.(type) {
	case string:
		b.WriteString(" " + x + "\n")
	case []kv:
		b.WriteString("\n")
		writeKV(b, x, ind+"  ")
	case []interface{}:
		b.WriteString("\n")
		for _, e := range x {
			var s strings.Builder
			writeKV(&s, e.([]kv), ind+"    ")
			t := s.String()
			b.WriteString(ind + "  - " + t[len(ind)+4:])
		}
	}
}

// dups returns every variant of the document with one key written twice.
func dups(v interface{}) []interface{} {
	var out []interface{}
	switch x := v.(type) {
	case []kv:
		for i := range x {
			// the repeated pair at the end and right after
			rep := append(append([]kv{}, x...), x[i])
			out = append(out, rep)
			mid := append(append(append([]kv{}, x[:i+1]...), x[i]), x[i+1:]...)
			out = append(out, mid)
			for _, d := range dups(x[i].v) {
				y := append([]kv{}, x...)
				y[i] = kv{x[i].k, d}
				out = append(out, y)
			}
		}
	case []interface{}:
		for i := range x {
			for _, d := range dups(x[i]) {
				y := append([]interface{}{}, x...)
				y[i] = d
				out = append(out, y)
			}
		}
	}
	return out
}

func ruleKV(c []kv) []kv {
	r := []kv{{"ruleID", `"0"`}, {"sender", []kv{{"senderName", `"a"`}, {"senderType", `"*"`}}}, {"receiver", []kv{{"receiverName", `"b"`}, {"receiverType", `"*"`}}},
		{"protocol", `"http"`}, {"resource", []kv{{"resourceType", `"path"`}, {"resourceName", `"/x"`}}}, {"operation", `"GET"`}}
	if c != nil {
		r = append(r, kv{"conditions", c})
	}
	return append(r, kv{"decision", `"block"`}, kv{"metadata", []kv{{"description", `"d"`}, {"other", `"e"`}}})
}

func dupKeys(g *Gen) {
	lf := func(v string) []kv { return []kv{{"attribute", `"domain"`}, {"method", `"EQ"`}, {"value", v}} }
	conds := [][]kv{nil, lf(`"x"`), {{"AND", []interface{}{lf(`"x"`), lf(`"y"`)}}}, {{"NOT", lf(`"x"`)}},
		{{"ANY", []kv{{"parentJsonpathAttribute", `"jsonpath:$.a[:]"`}, {"returnValueJsonpath", []kv{{"nm", `"jsonpath:$RELATIVE.n"`}, {"mm", `"jsonpath:$RELATIVE.m"`}}}, {"condition", lf(`"z"`)}}}},
		{{"OR", []interface{}{lf(`"x"`), []kv{{"NOT", lf(`"y"`)}}}}}}
	run := func(name, text string, bad bool) {
		g.Do(func(t *T) {
			t.Desc(func() string { return name + "\n" + text })
			t.State(text)
			dir, err := os.MkdirTemp("", "c16")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			f := filepath.Join(dir, "rules.yaml")
			if err := os.WriteFile(f, []byte(text), 0o600); err != nil {
				panic(err)
			}
			t.Steps(2)
			_, err = E.YamlReadRulesFromFile(f)
			_, err2 := E.YamlReadRulesFromFileWithPredefinedStrings(f, E.PredefinedStringsAndLists{})
			if (err != nil) != bad || (err2 != nil) != bad {
				t.Fail("reading the file: %v / with definitions: %v, duplicate key: %v", err, err2, bad)
			}
			t.Out(fmt.Sprintf("duplicate %v", bad))
		})
	}
	for n := 1; n <= 3; n++ {
		for i := range conds {
			var rl []interface{}
			for k := 0; k < n; k++ {
				rl = append(rl, ruleKV(conds[(i+k)%len(conds)]))
			}
			doc := []kv{{"rules", rl}}
			var b strings.Builder
			writeKV(&b, doc, "")
			run("no duplicate", b.String(), false)
			for _, d := range dups(doc) {
				var b strings.Builder
				writeKV(&b, d.([]kv), "")
				run("one key twice", b.String(), true)
			}
		}
	}
}

// ---------------------------------------------------------------------------
// C13

// defs are definitions as written
type defs struct {
	S map[string]string
	L map[string][]string
}

func (d defs) text() string {
	var p []string
	if d.S != nil {
		p = append(p, `"predefinedStrings": `+jsMap(d.S))
	}
	if d.L != nil {
		var q []string
		for _, k := range sortedKeys(d.L) {
			var e []string
			for _, x := range d.L[k] {
				e = append(e, js(x))
			}
			q = append(q, js(k)+": ["+strings.Join(e, ", ")+"]")
		}
		p = append(p, `"predefinedLists": {`+strings.Join(q, ", ")+"}")
	}
	return "{" + strings.Join(p, ", ") + "}"
}

// ok: every reference inside a list is a defined string
func (d defs) ok() bool {
	for _, l := range d.L {
		for _, e := range l {
			if strings.HasPrefix(e, "#") {
				if _, ok := d.S[e[1:]]; !ok {
					return false
				}
			}
		}
	}
	return true
}

func (d defs) list(name string) ([]string, bool) {
	l, ok := d.L[name]
	if !ok {
		return nil, false
	}
	out := []string{}
	for _, e := range l {
		if strings.HasPrefix(e, "#") {
			e = d.S[e[1:]]
		}
		out = append(out, e)
	}
	return out, true
}

func (d defs) expand(v, sep string) (string, bool) {
	if !strings.HasPrefix(v, "#") {
		return v, true
	}
	if l, ok := d.list(v[1:]); ok {
		return strings.Join(l, sep), true
	}
	s, ok := d.S[v[1:]]
	return s, ok
}

func (d defs) expandTree(c *C) (*C, bool) {
	o := *c
	if c.Op == "" {
		sep := ","
		if up(c.Method) == "RE" || up(c.Method) == "NRE" {
			sep = "|"
		}
		v, ok := d.expand(c.Value, sep)
		o.Value = v
		return &o, ok
	}
	o.Kids = nil
	for _, k := range c.Kids {
		x, ok := d.expandTree(k)
		if !ok {
			return nil, false
		}
		o.Kids = append(o.Kids, x)
	}
	return &o, true
}

// expandRule: the rule the references stand for; ok=false: rejected
func (d defs) expandRule(r *R) (*R, bool) {
	o := *r
	var ok bool
	if o.SName, ok = d.expand(r.SName, ","); !ok {
		return nil, false
	}
	if o.RName, ok = d.expand(r.RName, ","); !ok {
		return nil, false
	}
	if r.Cond != nil {
		if o.Cond, ok = d.expandTree(r.Cond); !ok {
			return nil, false
		}
		if !validTree(o.Cond) {
			return nil, false
		}
	}
	for _, x := range [][2]string{{o.SType, o.SName}, {o.RType, o.RName}} {
		if x[0] == "subnet" {
			if _, ok := subnetMatch(x[1], "1.2.3.4"); !ok {
				return nil, false
			}
		}
	}
	return &o, true
}

func (t *T) readDefs(d defs) E.PredefinedStringsAndLists {
	t.Step()
	p, err := E.YamlReadStringListsFromString(d.text())
	if err != nil {
		t.Fail("valid definitions rejected: %v\n%s", err, d.text())
	}
	return p
}

// expectDefined compares a rule with definitions with its expansion.
func (t *T) expectDefined(r *E.Rule, err error, mr *R, d defs, msgs []*Msg, what string) {
	x, ok := d.expandRule(mr)
	if ok != (err == nil) {
		t.Fail("%s: error %v, model accepts: %v\nrule: %s\ndefinitions: %s", what, err, ok, mr.Text(), d.text())
	}
	for _, m := range msgs {
		want := dDefault
		if ok {
			want = decide(x, m)
		}
		t.Step()
		got, _ := E.CheckOneRule(&m.M, r)
		if got != want {
			t.Fail("%s: decision %d, model says %d\nrule: %s\ndefinitions: %s\nmessage: %s", what, got, want, mr.Text(), d.text(), msgText(m))
		}
		t.Out(fmt.Sprintf("decision %d accepted %v", got, ok))
	}
}

func c13Msgs() []*Msg {
	var out []*Msg
	for _, v := range []string{"x", "y", "x,y", "z", "", "xx", "x|y", "#s", "s", "#l", "#t", "t"} {
		m := mkMsg(func(m *E.MessageAttributes) {
			m.SourceService, m.DestinationService, m.Domain, m.SourceNamespace, m.RequestHost = v, v, v, v, v
			m.SourceLabels = map[string]string{"a": v + "-"}
			if v != "" {
				m.SourceLabels["a"] = v
			}
		})
		doc := fmt.Sprintf(`{"a":%s,"l":[{"a":"q"},{"a":%s}]}`, js(v), js(v))
		out = append(out, withDoc(m, doc, "bytes"), withDoc(m, doc, "iface"))
	}
	return out
}

// listsOf2: all lists of 1 to n of the elements
func listsOf2(elems []string, n int) [][]string {
	var out [][]string
	lvl := [][]string{nil}
	for i := 0; i < n; i++ {
		var nx [][]string
		for _, p := range lvl {
			for _, e := range elems {
				nx = append(nx, append(append([]string{}, p...), e))
			}
		}
		out = append(out, nx...)
		lvl = nx
	}
	return out
}

func genC13(g *Gen) {
	msgs := c13Msgs()
	// definition sets over strings s, t and lists l, s (a list may have the name of a string)
	var sets []defs
	opt := []string{"-", "x", "y", "x,y", "z", "", "#t"}
	for _, s := range opt {
		for _, tt := range []string{"-", "y"} {
			for _, l := range []string{"-", "[]", "x", "x y", "#s", "y #s", "#s #t", "x #t z", "x y #t #s"} {
				for _, s2 := range []string{"-", "y", "#t"} {
					d := defs{S: map[string]string{}, L: map[string][]string{}}
					if s != "-" {
						d.S["s"] = s
					}
					if tt != "-" {
						d.S["t"] = tt
					}
					switch l {
					case "-":
					case "[]":
						d.L["l"] = []string{}
					default:
						d.L["l"] = strings.Fields(l)
					}
					if s2 != "-" {
						d.L["s"] = []string{s2}
					}
					sets = append(sets, d)
				}
			}
		}
	}
	refs := []string{"#s", "#l", "#t", "#u", "#S", "# s", "#", "s", "#s,#t", "##s"}
	methods := []string{"EQ", "NEQ", "NE", "IN", "NIN", "IS", "RE", "NRE", "in", "re", "nre", "nin", "eq", "EX"}
	attrs := []string{"domain", "jsonpath:$.a", "$sender.namespace", "senderLabel[a]"}
	var rules []*R
	for _, r := range refs {
		x := anyRule("block", nil)
		x.SName = r
		rules = append(rules, x)
		y := anyRule("alert", nil)
		y.RName = r
		rules = append(rules, y)
		z := anyRule("alert", nil)
		z.RName, z.RType = r, "hostname"
		rules = append(rules, z)
		for _, m := range methods {
			for _, a := range attrs {
				if strings.Contains(" IN NIN IS RE NRE ", " "+up(m)+" ") && strings.HasPrefix(a, "$sender") && false {
					continue
				}
				rules = append(rules, anyRule("block", leaf(a, m, r)))
			}
		}
	}
	for _, r := range refs[:4] {
		lf := leaf("domain", "IN", r)
		p := leaf("domain", "EQ", "x")
		for _, c := range []*C{and(p, lf), and(lf, p), or(leaf("domain", "EQ", "z"), lf), or(lf, leaf("domain", "EQ", "z")), not(lf), any_("jsonpath:$.l[:]", leaf("jsonpath:$RELATIVE.a", "IN", r)), all_("jsonpath:$.l[:]", or(leaf("jsonpath:$RELATIVE.a", "NIN", r), p)),
			any_("jsonpath:$.l[:]", and(leaf("jsonpath:$RELATIVE.a", "RE", r), p)), not(and(lf, or(lf, p)))} {
			rules = append(rules, anyRule("block", c))
		}
	}
	both := anyRule("block", leaf("domain", "IN", "#l"))
	both.SName, both.RName = "#s", "#l"
	rules = append(rules, both)
	for _, mr := range rules {
		mr := mr
		g.Do(func(t *T) {
			t.Desc(func() string { return fmt.Sprintf("%s under %d definition sets", mr.Text(), len(sets)) })
			for i, d := range sets {
				t.State(mr.Text(), d.text())
				if !d.ok() {
					t.Step()
					if _, err := E.YamlReadStringListsFromString(d.text()); err == nil {
						t.Fail("definitions with an undefined reference are accepted\n%s", d.text())
					}
					continue
				}
				p := t.readDefs(d)
				ms := msgs
				if i%4 != 0 {
					ms = []*Msg{msgs[0], msgs[3], msgs[4]}
				}
				switch i % 3 {
				case 0:
					rs := t.load(mr)
					err := rs.Rules[0].SetPredefinedStringsAndLists(p)
					t.expectDefined(&rs.Rules[0], err, mr, d, ms, "SetPredefinedStringsAndLists")
				case 1:
					t.Step()
					rs, err := E.YamlReadRulesFromStringWithPredefinedStrings(rulesText([]*R{mr}), p)
					if err != nil {
						t.expectDefined(nil, err, mr, d, nil, "YamlReadRulesFromStringWithPredefinedStrings")
					} else {
						t.expectDefined(&rs.Rules[0], nil, mr, d, ms, "YamlReadRulesFromStringWithPredefinedStrings")
					}
				case 2: // global definitions
					func() {
						defer E.SetGlobalPredefinedStringsAndLists(E.PredefinedStringsAndLists{})
						t.Step()
						if err := E.SetGlobalPredefinedStringsAndLists(p); err != nil {
							t.Fail("valid global definitions rejected: %v", err)
						}
						rs := t.load(mr)
						x, ok := d.expandRule(mr)
						for _, m := range ms {
							want := dDefault
							if ok {
								want = decide(x, m)
							}
							t.Steps(2)
							dec, _, _, _, _, _, _ := E.Check(&m.M, rs)
							dec2, _ := E.CheckOneRule(&m.M, &rs.Rules[0])
							if dec != want || dec2 != want {
								t.Fail("global definitions: Check %d, CheckOneRule %d, model says %d\nrule: %s\ndefinitions: %s\nmessage: %s", dec, dec2, want, mr.Text(), d.text(), msgText(m))
							}
						}
					}()
				}
			}
		})
	}
	// subnets through references
	for _, v := range []string{"10.1.2.3", "10.1.0.0/16", "10.2.0.0/16", "zzz", "10.1.2.3,10.9.0.0/16"} {
		for _, side := range []int{0, 1} {
			v, side := v, side
			g.Do(func(t *T) {
				for _, d := range []defs{{S: map[string]string{"n": v}}, {L: map[string][]string{"n": strings.Split(v, ",")}}, {S: map[string]string{"x": "10.1.2.3"}, L: map[string][]string{"n": {"#x", "10.9.8.7"}}}} {
					mr := anyRule("block", nil)
					if side == 0 {
						mr.SName, mr.SType = "#n", "subnet"
					} else {
						mr.RName, mr.RType = "#n", "subnet"
					}
					t.Desc(func() string { return mr.Text() + d.text() })
					t.State(mr.Text(), d.text())
					rs := t.load(mr)
					err := rs.Rules[0].SetPredefinedStringsAndLists(t.readDefs(d))
					t.expectDefined(&rs.Rules[0], err, mr, d, []*Msg{mkMsg(nil), mkMsg(func(m *E.MessageAttributes) { m.SourceIp, m.DestinationIp = "10.9.8.7", "10.1.2.3" })}, "subnet")
				}
			})
		}
	}
	// sequences of redefinitions
	seqSets := []defs{{}, {S: map[string]string{"s": "x"}}, {S: map[string]string{"s": "y"}, L: map[string][]string{"l": {"x", "#s"}}}, {L: map[string][]string{"s": {"z"}, "l": {"y"}}}, {S: map[string]string{"s": "z", "l": "x"}}}
	seqRules := []*R{}
	for _, r := range []string{"#s", "#l"} {
		a := anyRule("block", nil)
		a.SName = r
		b := anyRule("alert", nil)
		b.RName = r
		seqRules = append(seqRules, a, b, anyRule("block", leaf("domain", "IN", r)), anyRule("alert", not(leaf("jsonpath:$.a", "EQ", r))), anyRule("alert", any_("jsonpath:$.l[:]", leaf("jsonpath:$RELATIVE.a", "RE", r))))
	}
	depth := g.Pick(3, 4)
	var seqs [][]int
	var rec func(p []int)
	rec = func(p []int) {
		if len(p) > 0 {
			seqs = append(seqs, append([]int{}, p...))
		}
		if len(p) == depth {
			return
		}
		for i := range seqSets {
			rec(append(p, i))
		}
	}
	rec(nil)
	for _, mr := range seqRules {
		for _, s := range seqs {
			for _, glob := range []bool{false, true} {
				mr, s, glob := mr, s, glob
				g.Do(func(t *T) {
					t.Desc(func() string {
						return fmt.Sprintf("%s redefined %v (other global definitions: %v)", mr.Text(), s, glob)
					})
					defer E.SetGlobalPredefinedStringsAndLists(E.PredefinedStringsAndLists{})
					gd := defs{}
					if glob {
						gd = defs{S: map[string]string{"s": "xx"}, L: map[string][]string{"l": {"xx"}}}
						if err := E.SetGlobalPredefinedStringsAndLists(t.readDefs(gd)); err != nil {
							t.Fail("global definitions: %v", err)
						}
					}
					rs := t.load(mr)
					r := &rs.Rules[0]
					for step, i := range s {
						d := seqSets[i]
						t.State(mr.Text(), fmt.Sprint(s[:step+1], glob))
						t.Step()
						err := r.SetPredefinedStringsAndLists(t.readDefs(d))
						ms := msgs[:6]
						if _, ok := d.expandRule(mr); !ok && glob {
							ms = nil // whether the global definitions are used then is not specified
							if err == nil {
								t.Fail("undefined reference accepted")
							}
							continue
						}
						t.expectDefined(r, err, mr, d, ms, fmt.Sprintf("after step %d", step))
						// the list check uses the rule's own definitions too
						if x, ok := d.expandRule(mr); ok {
							for _, m := range ms {
								t.Step()
								dec, _, _, _, _, _, _ := E.Check(&m.M, rs)
								if dec != decide(x, m) {
									t.Fail("Check after step %d: %d, model says %d\nmessage: %s", step, dec, decide(x, m), msgText(m))
								}
							}
						}
					}
				})
			}
		}
	}
	// rules of one list keep their own definitions
	for i := range seqSets {
		for j := range seqSets {
			i, j := i, j
			g.Do(func(t *T) {
				mr := anyRule("block", leaf("domain", "IN", "#s"))
				t.Desc(func() string { return fmt.Sprintf("two rules with definitions %d and %d", i, j) })
				t.State(fmt.Sprint("own", i, j))
				rs := t.load(mr, mr)
				e1 := rs.Rules[0].SetPredefinedStringsAndLists(t.readDefs(seqSets[i]))
				e2 := rs.Rules[1].SetPredefinedStringsAndLists(t.readDefs(seqSets[j]))
				t.expectDefined(&rs.Rules[0], e1, mr, seqSets[i], msgs[:8], "first rule")
				t.expectDefined(&rs.Rules[1], e2, mr, seqSets[j], msgs[:8], "second rule")
				t.expectDefined(&rs.Rules[0], e1, mr, seqSets[i], msgs[:8], "first rule again")
			})
		}
	}
	// global: rejected definitions leave the old ones in force; new ones replace them
	for i := range seqSets {
		for j := range seqSets {
			for _, bad := range []bool{false, true} {
				i, j, bad := i, j, bad
				g.Do(func(t *T) {
					defer E.SetGlobalPredefinedStringsAndLists(E.PredefinedStringsAndLists{})
					t.Desc(func() string { return fmt.Sprintf("global definitions %d then %d, second rejected: %v", i, j, bad) })
					t.State(fmt.Sprint("global", i, j, bad))
					set := func(d defs) error {
						t.Step()
						return E.SetGlobalPredefinedStringsAndLists(E.PredefinedStringsAndLists{PredefinedStrings: d.S, PredefinedLists: d.L})
					}
					if err := set(seqSets[i]); err != nil {
						t.Fail("global definitions rejected: %v", err)
					}
					cur := seqSets[i]
					if bad {
						d := defs{S: map[string]string{"s": "zz"}, L: map[string][]string{"l": {"#nosuch"}}}
						if err := set(d); err == nil {
							t.Fail("definitions with an undefined reference accepted")
						}
					} else {
						if err := set(seqSets[j]); err != nil {
							t.Fail("global definitions rejected: %v", err)
						}
						cur = seqSets[j]
					}
					for _, mr := range seqRules {
						rs := t.load(mr)
						x, ok := cur.expandRule(mr)
						for _, m := range msgs[:6] {
							want := dDefault
							if ok {
								want = decide(x, m)
							}
							t.Step()
							if got, _ := E.CheckOneRule(&m.M, &rs.Rules[0]); got != want {
								t.Fail("decision %d, model says %d\nrule: %s\nmessage: %s", got, want, mr.Text(), msgText(m))
							}
						}
					}
				})
			}
		}
	}
	// definitions that were already set, then changed in place and set again
	inPlace := append(append([]defs{}, seqSets...), defs{S: map[string]string{"s": "x"}, L: map[string][]string{"l": {"z"}}}, defs{S: map[string]string{"s": "z"}, L: map[string][]string{"l": {"x", "#s"}}}, defs{L: map[string][]string{"s": {"x"}, "l": {"y"}}})
	for i := range inPlace {
		for j := range inPlace {
			i, j := i, j
			g.Do(func(t *T) {
				defer E.SetGlobalPredefinedStringsAndLists(E.PredefinedStringsAndLists{})
				t.Desc(func() string { return fmt.Sprintf("global definitions %d changed in place to %d", i, j) })
				t.State(fmt.Sprint("in place", i, j))
				p := t.readDefs(inPlace[i])
				if p.PredefinedStrings == nil {
					p.PredefinedStrings = map[string]string{}
				}
				if p.PredefinedLists == nil {
					p.PredefinedLists = map[string][]string{}
				}
				for _, k := range []int{i, j, i} {
					for n := range p.PredefinedStrings {
						delete(p.PredefinedStrings, n)
					}
					for n := range p.PredefinedLists {
						delete(p.PredefinedLists, n)
					}
					for n, v := range inPlace[k].S {
						p.PredefinedStrings[n] = v
					}
					for n, v := range inPlace[k].L {
						p.PredefinedLists[n] = append([]string{}, v...)
					}
					t.Step()
					if err := E.SetGlobalPredefinedStringsAndLists(p); err != nil {
						t.Fail("global definitions rejected: %v", err)
					}
					for _, mr := range seqRules {
						rs := t.load(mr)
						x, ok := inPlace[k].expandRule(mr)
						for _, m := range msgs[:6] {
							want := dDefault
							if ok {
								want = decide(x, m)
							}
							t.Step()
							if got, _ := E.CheckOneRule(&m.M, &rs.Rules[0]); got != want {
								t.Fail("decision %d, model says %d\nrule: %s\nmessage: %s", got, want, mr.Text(), msgText(m))
							}
						}
					}
				}
			})
		}
	}
	// elements with blanks, empty, of one another's form, equal elements
	for _, l := range append(listsOf2([]string{"x", " x", "x ", "", "x y", "X", "#w", "xx"}, 2), listsOf2([]string{"x", "", "z"}, 3)...) {
		l := l
		g.Do(func(t *T) {
			d := defs{S: map[string]string{"w": " y"}, L: map[string][]string{"l": l}}
			t.Desc(func() string { return d.text() })
			ms := append([]*Msg{}, msgs[:6]...)
			for _, v := range []string{" x", "x ", "", "x y", " y", "y", "X", "^x$", "x."} {
				v := v
				ms = append(ms, withDoc(mkMsg(func(m *E.MessageAttributes) { m.Domain = v }), `{"a":`+js(v)+`}`, "bytes"))
			}
			pd := t.readDefs(d)
			for _, a := range []string{"domain", "jsonpath:$.a"} {
				for _, meth := range []string{"IN", "NIN", "RE", "NRE", "EQ"} {
					mr := anyRule("block", leaf(a, meth, "#l"))
					t.State(mr.Text(), d.text())
					rs := t.load(mr)
					err := rs.Rules[0].SetPredefinedStringsAndLists(pd)
					t.expectDefined(&rs.Rules[0], err, mr, d, ms, "elements")
				}
			}
		})
	}
	// references that nearly name a definition, and definitions with such names
	near := []string{"w", "#w", " w", "w ", "W", "ww", "", "#", "w#"}
	for _, name := range near {
		for _, ref := range near {
			name, ref := name, ref
			g.Do(func(t *T) {
				t.Desc(func() string { return fmt.Sprintf("definition %q, reference %q", name, "#"+ref) })
				for k, d := range []defs{{S: map[string]string{name: "x"}, L: map[string][]string{"l": {"#" + ref}}}, {S: map[string]string{name: "x"}, L: map[string][]string{"l": {"y", "#" + ref, "z"}}}, {S: map[string]string{name: "x"}}, {L: map[string][]string{name: {"y", "x"}}}} {
					t.State("near", name, ref, fmt.Sprint(k))
					if !d.ok() {
						t.Step()
						if _, err := E.YamlReadStringListsFromString(d.text()); err == nil {
							t.Fail("a list with an undefined reference was accepted: %s", d.text())
						}
						continue
					}
					r := "#l"
					if k >= 2 {
						r = "#" + ref
					}
					a, b := anyRule("block", nil), anyRule("alert", nil)
					a.SName, b.RName = r, r
					for _, mr := range []*R{a, b, anyRule("block", leaf("domain", "IN", r)), anyRule("alert", leaf("jsonpath:$.a", "RE", r))} {
						rs := t.load(mr)
						err := rs.Rules[0].SetPredefinedStringsAndLists(t.readDefs(d))
						t.expectDefined(&rs.Rules[0], err, mr, d, msgs[:6], "nearly a name")
					}
				}
			})
		}
	}
	// list sizes, the deciding element at every position; names of definitions
	for _, n := range append(g.Lits.Sizes(12, 300), 256, 257, 600) {
		if n == 0 {
			continue
		}
		n := n
		g.Do(func(t *T) {
			t.Desc(func() string { return fmt.Sprintf("list of %d elements", n) })
			for _, viaRef := range []bool{false, true} {
				for _, p := range append([]int{-1}, positions(n)...) {
					d := defs{S: map[string]string{"w": "x"}, L: map[string][]string{}}
					for i := 0; i < n; i++ {
						e := fmt.Sprintf("e%d", i)
						if i == p {
							e = "x"
							if viaRef {
								e = "#w"
							}
						}
						d.L["l"] = append(d.L["l"], e)
					}
					pd := t.readDefs(d)
					for k, mr := range []*R{seqRules[5], seqRules[6], seqRules[7], anyRule("block", leaf("domain", "NRE", "#l"))} {
						t.State(fmt.Sprint("size", n, p, viaRef, k))
						rs := t.load(mr)
						err := rs.Rules[0].SetPredefinedStringsAndLists(pd)
						t.expectDefined(&rs.Rules[0], err, mr, d, msgs[:4], "list size")
					}
				}
			}
		})
	}
	for _, name := range append([]string{"a.b", "a-b", "A", "a b", "ü", "0", "true", "a#b", "s,t", "*"}, g.Lits.Words(`^[A-Za-z_$.:\[\]-]{1,20}$`)...) {
		name := name
		g.Do(func(t *T) {
			t.Desc(func() string { return "definition named " + name })
			for k, d := range []defs{{S: map[string]string{name: "x"}}, {L: map[string][]string{name: {"x", "y"}}}, {S: map[string]string{name: "x"}, L: map[string][]string{"q": {"y", "#" + name}}}, {S: map[string]string{name + "2": "x"}}} {
				ref := "#" + name
				if k == 2 {
					ref = "#q"
				}
				a := anyRule("block", nil)
				a.SName = ref
				for _, mr := range []*R{a, anyRule("alert", leaf("domain", "IN", ref))} {
					t.State(name, fmt.Sprint(k), mr.Text())
					rs := t.load(mr)
					err := rs.Rules[0].SetPredefinedStringsAndLists(t.readDefs(d))
					t.expectDefined(&rs.Rules[0], err, mr, d, msgs[:4], "name")
				}
			}
		})
	}
	// definitions from a file
	for i := range seqSets {
		i := i
		g.Do(func(t *T) {
			d := seqSets[i]
			t.Desc(func() string { return "definitions from a file " + d.text() })
			t.State("file", d.text())
			dir, err := os.MkdirTemp("", "c13")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			os.WriteFile(filepath.Join(dir, "d.yaml"), []byte(d.text()), 0o600)
			for _, mr := range seqRules {
				os.WriteFile(filepath.Join(dir, "r.yaml"), []byte(rulesBlock([]*R{mr})), 0o600)
				t.Steps(2)
				p, err := E.YamlReadStringListsFromFile(filepath.Join(dir, "d.yaml"))
				if err != nil {
					t.Fail("definitions file rejected: %v", err)
				}
				rs, err := E.YamlReadRulesFromFileWithPredefinedStrings(filepath.Join(dir, "r.yaml"), p)
				if err != nil {
					t.expectDefined(nil, err, mr, d, nil, "file")
				} else {
					t.expectDefined(&rs.Rules[0], nil, mr, d, msgs[:6], "file")
				}
			}
		})
	}
}

func sortedKeys(m map[string][]string) []string {
	x := map[string]string{}
	for k := range m {
		x[k] = ""
	}
	return sortedStr(x)
}
