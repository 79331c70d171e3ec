package main

// Interleavings of operations on shared rules (C23).

import (
	"encoding/json"
	"fmt"
	"strings"

	E "github.com/octarinesec/MAPL/MAPL_engine"
	"go.mongodb.org/mongo-driver/bson"
)

func init() {
	register(&Prop{ID: "C23", Gen: genC23, Phases: []string{"MC_YIELD_BIN", "MC_RACE_BIN"},
		Bounds: "2 goroutines: all interleavings with up to 2 preemptions (every kind of rule: 1, a core of rules: 2; thorough: all 2), 3 goroutines: up to 1 preemption, at every statement that may touch shared memory; the same with 1 preemption under the race detector with hand-overs it cannot see, and free running",
		Assume: []string{"a statement is atomic for results; conflicting accesses inside of statements are left to the race detector", "statements that use only local variables and strings are not scheduling points", "code of the dependencies runs without scheduling points"}})
}

// conc is a set of operations on the same rules.
type conc struct {
	name     string
	rules    func(u string) []*R
	prepared bool
	ops      []string
	msgs     []int
}

// concRules: one rule of every kind; u makes every text of it new.
func concRules(u string) []*R {
	p := func(s string) string { return strings.ReplaceAll(s, "@", u) }
	return []*R{
		anyRule("block", leaf(p("jsonpath:$.a@"), "EQ", p("s@"))),
		anyRule("alert", leaf(p("jsonpath:$.n@"), "GE", "1Ki")),
		anyRule("block", anyRet(p("jsonpath:$.l@[:]"), map[string]string{"x": "jsonpath:$RELATIVE.x", "b": "jsonpath:$RELATIVE.b"}, rel(".x", "EQ", p("q@")))),
		anyRule("alert", all_(p("jsonpath:$.l@[:]"), rel(".x", "RE", p("^[a-z]@")))),
		anyRule("block", any_(p("jsonpath:$.o@"), and(keyIs("EQ", p("k@")), valIs("", "EQ", "1")))),
		anyRule("alert", any_(p("jsonpath:$.l@[:]"), any_("jsonpath:$RELATIVE.b[:]", rel("", "GT", "1")))),
		anyRule("allow", and(leaf(p("senderLabel[app@]"), "IN", p("x@,y")), not(leaf("payloadSize", "GT", "1000")))),
		anyRule("alert", or(leaf("domain", "EQ", p("d@*")), leaf("requestUseragent", "RE", p("k@.*l")))),
		anyRule("block", leaf("domain", "EQ", p("#s@"))),
		anyRule("alert", any_(p("jsonpath:$.l@[:]"), rel(".x", "IN", p("#l@")))),
		{ID: "r", SName: p("svc-a@.*,10.*"), SType: "workload", RName: "10.9.0.0/16", RType: "subnet", Proto: "http", ResType: "path", ResName: p("/book@/*"), Op: "read", Decision: "alert", Cond: leaf("encryptionVersion", "GE", "1.2"), Meta: map[string]string{"description": p("d@")}},
		anyRule("alert", leaf(p("jsonpath:$..x@"), "EX", "")),
		// from here on: one scenario of each kind
		anyRule("block", leaf("$sender.namespace", "EQ", "$receiver.namespace")),
		anyRule("alert", or(leaf("$receiver.cluster", "RE", p("^c@1")), leaf("$sender.cluster", "EQ", "$receiver.namespace"))),
		anyRule("block", and(leaf(p("senderLabel[app@]"), "EQ", p("receiverLabel[app@]")), leaf(p("receiverLabel[app@]"), "IN", p("x@,y")))),
		anyRule("alert", or(leaf("payloadSize", "GE", "500"), leaf("utcHoursFromMidnight", "LT", "3.5"), leaf("encryptionType", "EQ", p("tls@*")))),
		anyRule("block", or(leaf(p("jsonpath:$.a@"), "IN", p("s@,x")), leafNV(p("jsonpath:$.p.y@"), "EX"))),
		anyRule("alert", lret(leaf(p("jsonpath:$.n@"), "NEQ", "7"), map[string]string{"a": p("jsonpath:$.a@"), "o": p("jsonpath:$.o@")})),
		anyRule("block", not(all_(p("jsonpath:$.o@"), or(keyIs("NEQ", p("k@")), valIs("", "GE", "2"))))),
		anyRule("alert", anyRet(p("jsonpath:$..x,jsonpath:$.l@[:]"), map[string]string{"w": "jsonpath:$RELATIVE*"}, or(rel("", "EQ", p("q@")), rel(".x", "EQ", "w")))),
		{ID: "r", SName: "10.1.2.3,10.2.0.0/16", SType: "subnet", RName: p("h@.*,i@"), RType: "hostname", Proto: "*", ResType: "*", ResName: "*", Op: "GET,P*", Decision: "block"},
		anyRule("alert", and(leaf("requestUseragent", "RE", p("c@.*l")), leaf("$sender.cluster", "NEQ", "$receiver.cluster"), leafNV(p("jsonpath:$.p.x@"), "EX"))),
	}
}

func concMsgs(u string) []*Msg {
	p := func(s string) string { return strings.ReplaceAll(s, "@", u) }
	d := []string{
		p(`{"a@":"s@","n@":"2Ki","l@":[{"x":"q@","b":[1]},{"x":"w","b":[2]}],"o@":{"k@":1,"z":2}}`),
		p(`{"a@":"t","n@":10,"l@":[{"x":"r@"},{"x":"q@","b":[]}],"o@":{"k@":3},"p":{"x@":0}}`),
	}
	set := func(k int) func(m *E.MessageAttributes) {
		return func(m *E.MessageAttributes) {
			m.MessageID = fmt.Sprint("m", k)
			m.Domain = p([]string{"d@x", "v@"}[k%2])
			m.SourceService = p([]string{"svc-a@.ns", "other"}[k%2])
			m.RequestPath = p("/book@/1")
			m.RequestUseragent = p([]string{"curl", "c@url"}[k%2])
			m.SourceLabels = map[string]string{p("app@"): p([]string{"x@", "z"}[k%2])}
			m.DestinationLabels = map[string]string{p("app@"): p("x@")}
			m.SourceNamespace, m.DestinationNamespace = p([]string{"a@", "b@"}[k%2]), p([]string{"a@", "a@"}[k%2])
			m.SourceCluster, m.DestinationCluster = p("c@1"), p([]string{"c@1", "c@2"}[k%2])
			m.RequestSize = int64([]int{100, 600}[k%2])
			m.RequestTimeHoursFromMidnightUTC = []float64{5, 4}[k%2]
			m.EncryptionType = p([]string{"tls@1", "none"}[1-k%2])
			m.SourceIp, m.RequestHost, m.DestinationPort = []string{"10.2.1.1", "10.3.1.1"}[k%2], p([]string{"h@.x", "i@"}[k%2]), []string{"80", "81"}[k%2]
		}
	}
	return []*Msg{withDoc(mkMsg(set(0)), d[0], "bytes"), withDoc(mkMsg(set(1)), d[1], "bytes"), withDoc(mkMsg(set(2)), d[0], "iface"), withDoc(mkMsg(set(3)), d[1], "iface"), withDoc(mkMsg(set(1)), d[0], "bytes"), withDoc(mkMsg(set(0)), d[1], "iface")}
}

func (c *conc) build(t *T, u string) []func() string {
	rs := t.load(c.rules(u)...)
	if c.prepared {
		p, err := E.YamlReadStringListsFromString(defs{S: map[string]string{"s" + u: "v" + u}, L: map[string][]string{"l" + u: {"zz" + u, "w"}}}.text())
		if err != nil {
			t.Fail("definitions rejected: %v", err)
		}
		for i := range rs.Rules {
			if err := rs.Rules[i].SetPredefinedStringsAndLists(p); err != nil {
				t.Fail("rule %s cannot be prepared: %v", c.rules(u)[i].Text(), err)
			}
		}
	}
	ms := concMsgs(u)
	var out []func() string
	for k, o := range c.ops {
		o, m := o, &ms[c.msgs[k%len(c.msgs)]].M
		r := &rs.Rules[0]
		out = append(out, func() string {
			switch o {
			case "Check":
				a, b, c, d, e, f, x := E.Check(m, rs)
				return fmt.Sprint(a, b, c, d, e, f, recText(x))
			case "CheckOneRule":
				d, x := E.CheckOneRule(m, r)
				return fmt.Sprint(d, canon(x, true))
			case "Rule.Check":
				d, x := r.Check(m)
				return fmt.Sprint(d, canon(x, true))
			case "TestConditions":
				d, x := r.TestConditions(m)
				if !d {
					x = nil
				}
				return fmt.Sprint(d, canon(x, true))
			case "Coverage":
				return coverageOf(rs, &E.Messages{Messages: []E.MessageAttributes{*m}})
			case "hash":
				return E.RuleMD5Hash(*r) + E.RuleMD5HashConditions(*r)
			case "print":
				return r.String() + fmt.Sprint(r.Conditions)
			case "json":
				b, err := json.Marshal(rs)
				return fmt.Sprint(string(b), err)
			case "bson":
				b, err := bson.Marshal(rs)
				var v bson.M
				if err == nil {
					err = bson.Unmarshal(b, &v)
				}
				b, _ = json.Marshal(v)
				return fmt.Sprint(string(b), err)
			}
			panic(o)
		})
	}
	return out
}

func concScenarios(th bool) (full, core, three []*conc) {
	pick := func(ks ...int) func(u string) []*R {
		return func(u string) []*R {
			all := concRules(u)
			var o []*R
			for i, k := range ks {
				r := *all[k]
				r.ID = fmt.Sprint("r", i)
				o = append(o, &r)
			}
			return o
		}
	}
	n := len(concRules(""))
	add := func(l *[]*conc, name string, rules func(u string) []*R, prepared bool, msgs []int, ops ...string) {
		*l = append(*l, &conc{name: name, rules: rules, prepared: prepared, msgs: msgs, ops: ops})
	}
	pairs := [][]int{{0, 1}, {2, 3}, {0, 3}}
	for k := 12; k < n; k++ {
		name := fmt.Sprint("rule ", k)
		add(&full, name, pick(k), false, pairs[k%3], "Check", "Check")
		add(&full, name, pick(k), true, pairs[(k+1)%3], "CheckOneRule", "CheckOneRule")
		add(&full, name, pick(k), k%2 == 0, pairs[0], "Check", []string{"hash", "json", "print"}[k%3])
	}
	for k := 0; k < 12; k++ {
		name := fmt.Sprint("rule ", k)
		for _, p := range pairs {
			add(&full, name, pick(k), false, p, "Check", "Check")
			add(&full, name, pick(k), true, p, "Check", "Check")
			add(&full, name, pick(k), true, p, "CheckOneRule", "CheckOneRule")
		}
		add(&full, name, pick(k), true, pairs[k%3], "TestConditions", "Rule.Check")
		add(&full, name, pick(k), false, pairs[k%3], "Coverage", "Check")
		for _, o := range []string{"hash", "print", "json", "bson"} {
			add(&full, name, pick(k), false, pairs[k%3], "Check", o)
			add(&full, name, pick(k), true, pairs[k%3], "CheckOneRule", o)
			add(&full, name, pick(k), k%2 == 0, pairs[k%3], o, o)
		}
	}
	for i, o := range []string{"hash", "print", "json", "bson"} {
		for _, q := range []string{"hash", "print", "json", "bson"}[i+1:] {
			add(&full, "rule 2", pick(2), false, pairs[0], o, q)
		}
	}
	add(&full, "several rules", pick(0, 2, 6), false, pairs[0], "Check", "Check")
	add(&full, "several rules", pick(0, 2, 6), true, pairs[0], "Check", "Check")
	for _, k := range []int{0, 1, 2, 4, 7} {
		add(&core, fmt.Sprint("rule ", k), pick(k), true, pairs[k%2], "CheckOneRule", "CheckOneRule")
	}
	add(&core, "rule 7", pick(7), false, pairs[0], "Check", "Check")
	add(&core, "rule 0", pick(0), false, pairs[0], "Check", "Check")
	if th {
		core = full
	}
	for _, k := range []int{0, 2, 4, 7} {
		add(&three, fmt.Sprint("rule ", k), pick(k), false, []int{0, 1, 2}, "Check", "Check", "Check")
		add(&three, fmt.Sprint("rule ", k), pick(k), true, []int{0, 1, 2}, "CheckOneRule", "CheckOneRule", "CheckOneRule")
		add(&three, fmt.Sprint("rule ", k), pick(k), false, []int{0, 1, 2}, "Check", "hash", "json")
	}
	return
}

func genC23(g *Gen) {
	g.Block = 1
	if !E.VerifYields {
		g.Trunc = true // not instrumented: only the orders of whole operations and free runs
	}
	serial := 0
	ref := map[string]string{}
	full, core, three := concScenarios(g.Thorough())
	waits := map[*T]bool{} // traces in which threads wait for each other
	lost := 0
	try := func(t *T, c *conc, plan []turn, free bool, patient int) bool {
		serial++
		u := fmt.Sprintf("u%dv", serial)
		got, followed := interleave(c.build(t, u), plan, free, patient)
		t.Steps(len(got))
		for i, x := range got {
			key := fmt.Sprintf("%s %v %s %d", c.name, c.prepared, c.ops[i], c.msgs[i%len(c.msgs)])
			want, ok := ref[key]
			if !ok || c.ops[i] == "hash" {
				want = strings.ReplaceAll(c.build(t, u)[i](), u, "@")
				ref[key] = want
			}
			if x = strings.ReplaceAll(x, u, "@"); x != want {
				t.Fail("%s of goroutine %d under %v: %s\nalone: %s", c.ops[i], i, plan, x, want)
			}
		}
		return followed
	}
	// one executes a plan
	one := func(t *T, c *conc, plan []turn, free bool) {
		patient := 5
		if waits[t] {
			patient = 1
		}
		followed := try(t, c, plan, free, patient)
		if !followed && !waits[t] { // standing still, or only slow?
			if followed = try(t, c, plan, free, 50); !followed {
				waits[t] = true
			}
		}
		if !followed {
			t.Out("a thread waited for another")
		}
		if free {
			return
		}
		t.State(c.name, fmt.Sprint(c.prepared, c.ops, c.msgs), fmt.Sprint(plan))
		t.Out(fmt.Sprint(len(plan), " planned segments"))
		if lost++; followed {
			lost = 0
		}
	}
	// reached: the k-th stop was reached (or a wait hides it)
	reached := func(k int) bool { return schReached(k) || lost > 0 && lost < 20 }
	const classes = 8
	// every position of the preemption that is r modulo the number of classes
	points := func(c *conc, what string, run func(t *T, p int32) bool) {
		for r := int32(0); r < classes; r++ {
			r := r
			g.Do(func(t *T) {
				t.Desc(func() string {
					return fmt.Sprintf("%s prepared=%v %v messages %v: %s, points %d modulo %d\nrules: %s", c.name, c.prepared, c.ops, c.msgs, what, r, classes, c.rules("@")[0].Text())
				})
				for p := r; ; p += classes {
					if !run(t, p) {
						return
					}
				}
			})
		}
	}
	// orders of whole operations, free runs
	for _, c := range append(append([]*conc{}, full...), three...) {
		c := c
		g.Do(func(t *T) {
			t.Desc(func() string {
				return fmt.Sprintf("%s prepared=%v %v messages %v: whole operations\nrules: %s", c.name, c.prepared, c.ops, c.msgs, c.rules("@")[0].Text())
			})
			for _, p := range perms(len(c.ops)) {
				var plan []turn
				for _, i := range p {
					plan = append(plan, turn{int32(i), -1})
				}
				one(t, c, plan, false)
			}
			for i := 0; i < g.Pick(4, 50); i++ {
				one(t, c, nil, true)
			}
		})
	}
	if !E.VerifYields {
		return
	}
	for _, c := range full {
		c := c
		for f := int32(0); f < 2; f++ {
			f := f
			if !g.Thorough() && f == 1 && c.ops[0] == c.ops[1] && g.Phase == 1 {
				continue // the mirror image
			}
			points(c, fmt.Sprintf("goroutine %d preempted once", f), func(t *T, p int32) bool {
				one(t, c, []turn{{f, p}, {1 - f, -1}, {f, -1}}, false)
				return reached(0)
			})
		}
	}
	for _, c := range three {
		c := c
		for _, q := range perms(3) {
			a, b, d := int32(q[0]), int32(q[1]), int32(q[2])
			for _, plan := range [][]turn{{{a, 0}, {b, -1}, {d, -1}, {a, -1}}, {{a, 0}, {b, -1}, {a, -1}, {d, -1}}} {
				plan := plan
				points(c, fmt.Sprintf("goroutine %d preempted, then %d", a, b), func(t *T, p int32) bool {
					pl := append([]turn{}, plan...)
					pl[0].stop = p
					one(t, c, pl, false)
					return reached(0)
				})
			}
		}
	}
	if g.Phase == 1 {
		return
	}
	for _, c := range core {
		c := c
		for f := int32(0); f < 2; f++ {
			f := f
			points(c, fmt.Sprintf("goroutine %d preempted, then the other", f), func(t *T, p int32) bool {
				for q := int32(0); ; q++ {
					one(t, c, []turn{{f, p}, {1 - f, q}, {f, -1}, {1 - f, -1}}, false)
					if !reached(0) {
						return false
					}
					if !reached(1) {
						return true
					}
					if q%64 == 0 {
						t.beat()
					}
				}
			})
		}
	}
}
