package main

import (
	"fmt"
	"reflect"
	"strings"

	E "github.com/octarinesec/MAPL/MAPL_engine"
)

func init() {
	register(&Prop{ID: "C01", Gen: genC01, Bounds: "all rule lists to length 4 (thorough 5) over 13 rule letters; lengths 0..70 and around every integer constant of the source with one deviating rule at every (boundary) position; prepared and unprepared; 3 checks per list on reused objects; equal, empty and case-differing ids and hashes; lists of 257, 300 and 1100 rules"})
	register(&Prop{ID: "C02", Gen: genC02, Bounds: "full product of 10 sender, 12 receiver, 6 operation, 12 protocol/resource and 10 condition variants; each alone, in lists, with irrelevant attributes varied; every text attribute of the message empty and at every word of the source; all pairs of single-part rules, also with equal id, hash and metadata; every two edits of one rule side by side; metadata keys at every word of the source"})
	register(&Prop{ID: "C03", Gen: genC03, Bounds: "all patterns to length 4 (thorough 5) over {a,b,*,?,.} x all values to length 4 over {a,b,.} in 6 fields; every special character; lists to 3 elements with blanks; name lengths and list lengths 0..70 and around source constants; source literals as names"})
	register(&Prop{ID: "C04", Gen: genC04, Bounds: "every IPv4 and IPv6 prefix length x boundary addresses and single-bit flips, both sides; lists to 3 elements; list lengths to 70; malformed elements at every position"})
	register(&Prop{ID: "C05", Gen: genC05, Bounds: "all operation spellings and 2/3-element lists x all methods, near misses and source literals"})
	register(&Prop{ID: "C06", Gen: genC06, Bounds: "full product of 15 rule protocols x 6 resource types x 9 names x 13 message protocols x 6 message types x 6 paths x 5 ports; every other text attribute holding ports, paths and protocols with those missing"})
	register(&Prop{ID: "C20", Gen: genC20, Bounds: "all applicability matrices to 3 rules x 3 messages x decisions, four kinds of identifiers; sizes to 70, 256, 257"})
}

// --------------------------------------------------------------------- C01

type letter struct {
	name  string
	apply bool
	dec   string
	kind  string // reason for not applying
	desc  bool
}

var c01Letters = []letter{
	{"A-allow-d", true, "allow", "", true},
	{"A-ALLOW", true, "ALLOW", "", false},
	{"A-alert-d", true, "alert", "", true},
	{"A-Alert", true, "Alert", "", false},
	{"A-block-d", true, "block", "", true},
	{"A-BLOCK", true, "BLOCK", "", false},
	{"A-deny-d", true, "deny", "", true},
	{"A-empty", true, "", "", false},
	{"N-block-d", false, "block", "sender", true},
	{"N-allow", false, "allow", "cond", false},
	{"N-alert-d", false, "alert", "op", true},
	{"A-Block-d", true, "Block", "", true},
	{"A-Allow-d", true, "Allow", "", true},
}

var c01Extra = []letter{
	{"A-ALERT-d", true, "ALERT", "", true},
	{"A-bLock", true, "bLock", "", true},
	{"A-blocked", true, "blocked", "", true},
	{"A-none", true, "none", "", true},
	{"A-default", true, "default", "", true},
	{"A-block-blank", true, "block ", "", true},
	{"A-blank-alert", true, " alert", "", true},
	{"A-allow-list", true, "allow,block", "", true},
	{"A-block-lines", true, "block", "lines", true},
	{"A-allow-blanks", true, "allow", "blanks", true},
	{"A-alert-quotes", true, "alert", "quotes", true},
	{"A-block-capital", true, "block", "capital", false},
	{"A-allow-others", true, "allow", "others", false},
	{"A-alert-long", true, "alert", "long", true},
}

func (l letter) rule(pos int) *R {
	r := anyRule(l.dec, nil)
	r.ID = fmt.Sprint(pos)
	switch l.kind {
	case "sender":
		r.SName = "nobody"
	case "op":
		r.Op = "PATCH"
	case "cond":
		r.Cond = leaf("domain", "EQ", "other")
	}
	if l.desc {
		r.Meta = map[string]string{"description": fmt.Sprintf("description %d", pos), "name": "n"}
	} else if pos%2 == 0 {
		r.Meta = map[string]string{"descriptions": "x"}
	}
	switch l.kind { // unusual descriptions
	case "lines":
		r.Meta["description"] = fmt.Sprintf("first line %d\nsecond line\n\nlast", pos)
	case "blanks":
		r.Meta["description"] = fmt.Sprintf("  two  blanks %d\t ", pos)
	case "quotes":
		r.Meta["description"] = fmt.Sprintf("\"quoted\", %d%% <b> {x} [y] #z: \u00e9", pos)
	case "capital":
		r.Meta = map[string]string{"Description": "x", "DESCRIPTION": "y"}
	case "others":
		r.Meta = map[string]string{"name": "n", "desc": "d", "message": "m", "title": "t"}
	case "long":
		r.Meta["description"] = strings.Repeat(fmt.Sprintf("long %d ", pos), 200)
	}
	return r
}

func checkAggregate(t *T, rs *E.Rules, mrs []*R, m *Msg, what string) {
	t.Step()
	dec, txt, rel, results, applied, desc, extra := E.Check(&m.M, rs)
	wantRes := make([]int, len(mrs))
	wantApplied := []int{}
	wd, wrel, wdesc := dDefault, -1, ""
	for i, r := range mrs {
		wantRes[i] = decide(r, m)
		if wantRes[i] != dDefault {
			wantApplied = append(wantApplied, i)
		}
		if wantRes[i] > wd {
			wd, wrel, wdesc = wantRes[i], i, r.Meta["description"]
		}
	}
	bad := func(n string, g, w interface{}) {
		t.Fail("%s: %s is %v, model says %v\nrules: %s", what, n, g, w, rulesText(mrs))
	}
	if dec != wd {
		bad("decision", dec, wd)
	}
	if txt != decisionText[wd] {
		bad("decision text", txt, decisionText[wd])
	}
	if rel != wrel {
		bad("relevant index", rel, wrel)
	}
	if desc != wdesc {
		bad("description", desc, wdesc)
	}
	if len(results) != len(wantRes) || (len(wantRes) > 0 && !reflect.DeepEqual(results, wantRes)) {
		bad("per-rule results", results, wantRes)
	}
	if len(applied) != len(wantApplied) || (len(wantApplied) > 0 && !reflect.DeepEqual(applied, wantApplied)) {
		bad("applied indices", applied, wantApplied)
	}
	if len(extra) != len(mrs) {
		bad("number of returned value lists", len(extra), len(mrs))
	}
	t.Out(fmt.Sprintf("decision %d applied %d", dec, len(applied)))
}

func c01Trace(t *T, ls []letter, viaText bool, cache map[string]E.Rule) {
	var mrs []*R
	var key []string
	for i, l := range ls {
		mrs = append(mrs, l.rule(i))
		key = append(key, l.name)
	}
	t.Desc(func() string { return "rules " + strings.Join(key, " ") })
	var rs *E.Rules
	if viaText || cache == nil {
		rs = t.load(mrs...)
	} else {
		rs = &E.Rules{}
		for i, l := range ls {
			c, ok := cache[l.name]
			if !ok {
				c = t.load(l.rule(0)).Rules[0]
				cache[l.name] = c
			}
			c.RuleID = mrs[i].ID
			c.Metadata = mrs[i].Meta
			rs.Rules = append(rs.Rules, c)
		}
	}
	m1 := mkMsg(nil)
	m2 := mkMsg(func(m *E.MessageAttributes) {
		m.SourceService = "nobody"
		m.RequestMethod = "PATCH"
		m.Domain = "other"
	})
	t.State(strings.Join(key, " "), "m1")
	t.State(strings.Join(key, " "), "m2")
	checkAggregate(t, rs, mrs, m1, "first check")
	checkAggregate(t, rs, mrs, m2, "second message")
	t.prepare(rs)
	checkAggregate(t, rs, mrs, m1, "prepared")
	checkAggregate(t, rs, mrs, m2, "prepared, second message")
	checkAggregate(t, rs, mrs, m1, "prepared, again")
}

func genC01(g *Gen) {
	max := g.Pick(4, 5)
	var rec func(ls []letter)
	rec = func(ls []letter) {
		c := append([]letter{}, ls...)
		g.Do(func(t *T) { c01Trace(t, c, true, nil) })
		if len(ls) == max {
			return
		}
		for _, l := range c01Letters {
			if len(ls) >= 3 && len(ls) < 5 && (l.name == "A-Allow-d" || l.name == "A-Block-d") && !g.Thorough() {
				continue
			}
			rec(append(ls, l))
		}
	}
	rec(nil)
	all := append(append([]letter{}, c01Letters...), c01Extra...)
	for _, w := range g.Lits.Words(`[A-Za-z0-9 _-]+`) {
		for _, wd := range uniq([]string{w, strings.ToUpper(w), strings.ToLower(w)}) {
			all = append(all, letter{"A-lit-" + wd, true, wd, "", true})
		}
	}
	for _, a := range all {
		for _, b := range c01Letters {
			a, b := a, b
			g.Do(func(t *T) { c01Trace(t, []letter{a, b}, true, nil) })
			g.Do(func(t *T) { c01Trace(t, []letter{b, a, b}, true, nil) })
		}
	}
	// equal, empty and missing ids
	for _, ids := range [][]string{{"x", "x", "x"}, {"", "", ""}, {"x", "", "x"}, {"0", "00", "0"}, {"x", "X", "x"}} {
		for _, a := range c01Letters {
			for _, b := range c01Letters {
				a, b, ids := a, b, ids
				g.Do(func(t *T) {
					mrs := []*R{a.rule(0), b.rule(1), a.rule(2)}
					for i := range mrs {
						mrs[i].ID = ids[i]
						mrs[i].Hash = ids[len(ids)-1-i]
					}
					t.Desc(func() string { return rulesText(mrs) })
					rs := t.load(mrs...)
					m := mkMsg(nil)
					t.State("ids", strings.Join(ids, ","), a.name, b.name)
					checkAggregate(t, rs, mrs, m, "equal ids")
					t.prepare(rs)
					checkAggregate(t, rs, mrs, m, "equal ids, prepared")
				})
			}
		}
	}
	// long lists
	cache := map[string]E.Rule{}
	for _, n := range []int{257, 300, g.Pick(1100, 70000)} {
		for _, ab := range [][2]int{{9, 0}, {9, 4}, {0, 4}, {4, 8}, {2, 4}, {4, 0}, {6, 2}} {
			for _, p := range []int{0, 127, 128, 255, 256, n - 1} {
				n, a, b, p := n, c01Letters[ab[0]], c01Letters[ab[1]], p
				g.Do(func(t *T) {
					ls := make([]letter, n)
					for i := range ls {
						ls[i] = a
					}
					ls[p] = b
					if p == 0 {
						ls[n-1] = b
					}
					c01Trace(t, ls, false, cache)
					t.Desc(func() string { return fmt.Sprintf("%d rules %s with %s at %d", n, a.name, b.name, p) })
				})
			}
		}
	}
	bases := []letter{c01Letters[0], c01Letters[2], c01Letters[9], c01Letters[4]}
	devs := []letter{c01Letters[0], c01Letters[3], c01Letters[4], c01Letters[8], c01Letters[6]}
	for _, n := range g.Lits.Sizes(g.Pick(70, 140), g.Pick(300, 1100)) {
		if n == 0 {
			continue
		}
		for bi, b := range bases {
			for di, d := range devs {
				ps := positions(n)
				if !g.Thorough() && n > 12 && (bi+di)%2 == 1 {
					ps = []int{0, n / 2, n - 1}
				}
				for _, p := range ps {
					n, b, d, p := n, b, d, p
					g.Do(func(t *T) {
						ls := make([]letter, n)
						for i := range ls {
							ls[i] = b
						}
						ls[p] = d
						c01Trace(t, ls, false, cache)
						t.Desc(func() string { return fmt.Sprintf("%d rules %s with %s at %d", n, b.name, d.name, p) })
					})
				}
			}
		}
	}
}

// --------------------------------------------------------------------- C02

func genC02(g *Gen) {
	type v struct{ a, b, c string }
	senders := []v{{"svc-a.ns1", "workload", ""}, {"svc-x", "workload", ""}, {"svc-?.ns1", "*", ""}, {"svc", "*", ""}, {"10.1.2.3", "subnet", ""}, {"10.1.2.4", "subnet", ""}, {"10.1.0.0/16", "subnet", ""}, {"10.2.0.0/16", "subnet", ""}, {"svc-a.ns1", "hostname", ""}, {"*", "unknown", ""}, {"*", "", ""}}
	receivers := []v{{"svc-b.ns2", "workload", ""}, {"svc-a.ns1", "workload", ""}, {"*.ns2", "*", ""}, {"*.ns1", "*", ""}, {"host.example", "hostname", ""}, {"svc-b.ns2", "hostname", ""}, {"10.9.8.7", "subnet", ""}, {"10.1.2.3", "subnet", ""}, {"10.9.8.0/24", "subnet", ""}, {"10.1.2.0/24", "subnet", ""}, {"*", "unknown", ""}}
	ops := []string{"*", "read", "write", "GET", "POST", "G*"}
	ress := []v{{"*", "path", "/nope"}, {"tcp", "port", "8080"}, {"tcp", "port", "80"}, {"tcp", "path", "/book/1"}, {"http", "path", "/book/*"}, {"HTTP", "*", "/book/1"}, {"http", "port", "/book/1"}, {"http", "path", "8080"}, {"kafka", "path", "/book/1"}, {"http", "*", "/"}, {"TCP", "port", "8080"}}
	conds := []*C{nil, leafNV("true", "EX"), leaf("false", "EQ", "x"), leaf("domain", "EQ", "dom"), leaf("domain", "EQ", "other"), leaf("senderLabel[app]", "EQ", "x"), leaf("senderLabel[app]", "EQ", "y"), leaf("jsonpath:$.kind", "EQ", "Pod"), leaf("jsonpath:$.kind", "EQ", "Job"), and(leaf("payloadSize", "GE", "100"), not(leaf("jsonpath:$.n", "GT", "5")))}
	decs := []string{"allow", "alert", "block", "Allow", "BLOCK"}
	k := 0
	doc := `{"kind":"Pod","n":5}`
	for _, s := range senders {
		for _, r := range receivers {
			for _, o := range ops {
				for _, rs := range ress {
					for _, c := range conds {
						k++
						s, r, o, rs, c, d, mode := s, r, o, rs, c, decs[k%len(decs)], modes[k%2]
						g.Do(func(t *T) {
							mr := &R{ID: "r", SName: s.a, SType: s.b, RName: r.a, RType: r.b, Op: o, Proto: rs.a, ResType: rs.b, ResName: rs.c, Cond: c, Decision: d}
							t.Desc(func() string { return mr.Text() })
							rules := t.load(mr)
							base := withDoc(mkMsg(nil), doc, mode)
							irr := withDoc(mkMsg(func(m *E.MessageAttributes) {
								m.MessageID, m.RequestUseragent, m.EncryptionType, m.SourceNamespace, m.DestinationCluster = "other", "ua", "none", "nsX", "cX"
								m.RequestTime = "2020-01-01T00:00:00Z"
								m.RequestTimeHoursFromMidnightUTC = 0
								m.DestinationLabels = nil
							}), doc, mode)
							oth := withDoc(mkMsg(func(m *E.MessageAttributes) {
								m.SourceService, m.DestinationService, m.SourceIp, m.DestinationIp = "svc-x", "svc-a.ns1", "10.2.0.9", "10.1.2.3"
								m.RequestHost, m.RequestMethod, m.RequestPath, m.DestinationPort = "svc-b.ns2", "POST", "/", "80"
							}), `{"kind":"Job","n":6}`, mode)
							t.State(mr.Text(), "base")
							t.State(mr.Text(), "oth")
							t.expectDecision(&rules.Rules[0], mr, base, "alone")
							t.expectDecision(&rules.Rules[0], mr, irr, "irrelevant attributes changed")
							t.expectDecision(&rules.Rules[0], mr, oth, "other message")
							t.Step()
							if got, _ := rules.Rules[0].Check(&base.M); got != decide(mr, base) {
								t.Fail("rule.Check gives %d", got)
							}
							b1, b2 := anyRule("allow", nil), &R{SName: "zz", SType: "*", RName: "*", RType: "*", Op: "*", Proto: "*", ResType: "*", ResName: "*", Decision: "block"}
							lst := t.load(b1, mr, b2, mr)
							checkAggregate(t, lst, []*R{b1, mr, b2, mr}, base, "in a list")
							checkAggregate(t, lst, []*R{b1, mr, b2, mr}, oth, "in a list, other message")
						})
					}
				}
			}
		}
	}
	// rules of which all parts or all but one match, every text attribute of the message empty and at every word of the source
	specific := func() *R {
		return &R{ID: "r", SName: "svc-a.ns1", SType: "workload", RName: "svc-b.ns2", RType: "workload", Op: "GET", Proto: "http", ResType: "path", ResName: "/book/*", Cond: leaf("jsonpath:$.kind", "EQ", "Pod"), Decision: "block"}
	}
	open := func(p string) *R {
		r := anyRule("alert", leaf("payloadSize", "EQ", "100"))
		r.Proto = p
		return r
	}
	edits := []func(*R){func(*R) {}, func(r *R) { r.SName = "svc-x" }, func(r *R) { r.RName = "svc-x" }, func(r *R) { r.Op = "write" }, func(r *R) { r.ResName = "/nope" }, func(r *R) { r.Cond = leaf("jsonpath:$.kind", "EQ", "Job") }, func(r *R) { r.Cond = nil },
		func(r *R) { r.Cond = leaf("false", "EQ", "x") }, func(r *R) { r.Decision = "deny" }, func(r *R) { r.ResType = "*" }, func(r *R) { r.SType, r.SName = "subnet", "10.1.2.0/24" }, func(r *R) { r.RType, r.RName = "hostname", "host.*" }}
	attrs := textAttributes()
	words := append([]string{"", " ", "x", "*", "svc-a.ns1", "10.9.8.7"}, g.Lits.Words(`[^\x00-\x1f]{1,20}`)...)
	for _, mk := range []func() *R{specific, func() *R { return open("*") }, func() *R { return open("tcp") }, func() *R { return open("HTTP") }} {
		for _, e := range edits {
			for _, at := range attrs {
				mr, at := mk(), at
				e(mr)
				g.Do(func(t *T) {
					t.Desc(func() string { return "attribute " + at + " of the message swept; rule " + mr.Text() })
					rules := t.load(mr)
					for i, w := range words {
						m := withDoc(mkMsg(func(m *E.MessageAttributes) { setText(m, at, w) }), doc, modes[i%2])
						t.expectDecision(&rules.Rules[0], mr, m, "attribute "+at+" is "+w)
					}
					t.State("attribute", at, mr.Text())
				})
			}
		}
	}
	// metadata and hash of any content do not matter
	metaKeys := append([]string{"description", "enabled", "disabled", "severity", "x", ""}, g.Lits.Words(`^[A-Za-z_.-]{1,24}$`)...)
	for _, k := range metaKeys {
		k := k
		g.Do(func(t *T) {
			t.Desc(func() string { return "metadata " + k })
			for _, v := range []string{"", "true", "false", "0", "1", "no", "yes", "block", "allow", k} {
				for i, mk := range []func() *R{specific, func() *R { return open("*") }} {
					a, b := mk(), mk()
					b.SName = "svc-x"
					a.Meta, b.Meta = map[string]string{k: v}, map[string]string{k: v, "z": "y"}
					a.Hash, b.Hash = v, k
					mrs := []*R{a, b, a}
					t.State("meta", k, v, fmt.Sprint(i))
					rs := t.load(mrs...)
					checkAggregate(t, rs, mrs, withDoc(mkMsg(nil), doc, modes[i]), "metadata")
				}
			}
		})
	}
	// every two rules that differ in at most two parts, side by side
	for i, e1 := range edits {
		for j, e2 := range edits {
			for _, mk := range []func() *R{specific, func() *R { return open("*") }, func() *R { return open("HTTP") }} {
				a, b := mk(), mk()
				e1(a)
				e2(b)
				i, j := i, j
				g.Do(func(t *T) {
					mrs := []*R{a, b, a}
					t.Desc(func() string { return rulesText(mrs) })
					rs := t.load(mrs...)
					t.State("similar", fmt.Sprint(i, j), a.Text())
					for _, mode := range modes {
						m := withDoc(mkMsg(nil), doc, mode)
						m2 := withDoc(mkMsg(func(m *E.MessageAttributes) { m.RequestMethod, m.SourceService = "POST", "svc-x" }), doc, mode)
						checkAggregate(t, rs, mrs, m, "similar rules")
						checkAggregate(t, rs, mrs, m2, "similar rules")
						t.prepare(rs)
						checkAggregate(t, rs, mrs, m, "similar rules, prepared")
					}
				})
			}
		}
	}
	// lists of several lengths in which every rule applies, with one that does not at every (boundary) place
	for _, n := range g.Lits.Sizes(g.Pick(40, 140), g.Pick(300, 1100)) {
		for _, dec := range []string{"block", "alert", "allow"} {
			if n == 0 {
				continue
			}
			n, dec := n, dec
			g.Do(func(t *T) {
				var mrs []*R
				for i := 0; i < n; i++ {
					r := anyRule(dec, leaf("payloadSize", "EQ", "100"))
					r.ID = fmt.Sprint(i)
					if i == n/2 {
						r.SName = "nobody"
					}
					mrs = append(mrs, r)
				}
				t.Desc(func() string { return fmt.Sprintf("%d rules %s", n, dec) })
				rs := t.load(mrs...)
				t.State("length", dec, fmt.Sprint(n))
				checkAggregate(t, rs, mrs, mkMsg(nil), "long list")
				t.prepare(rs)
				checkAggregate(t, rs, mrs, mkMsg(nil), "long list, prepared")
			})
		}
	}
	// every pair of rules that use one part each, both orders; also with the same id, hash and metadata
	parts := []*R{}
	for _, s := range senders {
		r := anyRule("allow", nil)
		r.SName, r.SType = s.a, s.b
		parts = append(parts, r)
	}
	for _, s := range receivers {
		r := anyRule("alert", nil)
		r.RName, r.RType = s.a, s.b
		parts = append(parts, r)
	}
	for _, s := range ops {
		r := anyRule("block", nil)
		r.Op = s
		parts = append(parts, r)
	}
	for _, s := range ress {
		r := anyRule("allow", nil)
		r.Proto, r.ResType, r.ResName = s.a, s.b, s.c
		parts = append(parts, r)
	}
	for _, c := range conds {
		parts = append(parts, anyRule("block", c))
	}
	for _, a := range parts {
		for _, b := range parts {
			a, b := a, b
			g.Do(func(t *T) {
				t.Desc(func() string { return rulesText([]*R{a, b}) })
				m := withDoc(mkMsg(nil), doc, "bytes")
				m2 := withDoc(mkMsg(nil), doc, "iface")
				rs := t.load(a, b)
				checkAggregate(t, rs, []*R{a, b}, m, "pair")
				t.prepare(rs)
				checkAggregate(t, rs, []*R{a, b}, m2, "pair prepared")
				checkAggregate(t, rs, []*R{a, b}, m, "pair prepared")
				t.State("pair", a.Text(), b.Text())
				a2, b2 := *a, *b
				rs = t.load(a, b)
				for i, r := range []*R{&a2, &b2} {
					r.ID, r.Meta = "same", map[string]string{"description": "same", "name": "same"}
					rs.Rules[i].RuleID, rs.Rules[i].Hash, rs.Rules[i].Metadata = r.ID, "same", r.Meta
				}
				checkAggregate(t, rs, []*R{&a2, &b2}, m, "pair with the same id and hash")
			})
		}
	}
}

// --------------------------------------------------------------------- C03

type nameField struct {
	name string
	rule func(p string) *R
	set  func(m *E.MessageAttributes, v string)
}

var nameFields = []nameField{
	{"sender workload", func(p string) *R { r := anyRule("block", nil); r.SName, r.SType = p, "workload"; return r }, func(m *E.MessageAttributes, v string) { m.SourceService = v }},
	{"sender *", func(p string) *R { r := anyRule("block", nil); r.SName = p; return r }, func(m *E.MessageAttributes, v string) { m.SourceService = v }},
	{"receiver workload", func(p string) *R { r := anyRule("block", nil); r.RName, r.RType = p, "workload"; return r }, func(m *E.MessageAttributes, v string) { m.DestinationService = v }},
	{"receiver *", func(p string) *R { r := anyRule("block", nil); r.RName = p; return r }, func(m *E.MessageAttributes, v string) { m.DestinationService = v }},
	{"receiver hostname", func(p string) *R { r := anyRule("block", nil); r.RName, r.RType = p, "hostname"; return r }, func(m *E.MessageAttributes, v string) { m.RequestHost = v }},
	{"path", func(p string) *R {
		r := anyRule("block", nil)
		r.Proto, r.ResType, r.ResName = "http", "path", p
		return r
	}, func(m *E.MessageAttributes, v string) { m.RequestPath = v }},
	{"port", func(p string) *R {
		r := anyRule("block", nil)
		r.Proto, r.ResType, r.ResName = "tcp", "port", p
		return r
	}, func(m *E.MessageAttributes, v string) { m.DestinationPort = v }},
}

func nameTrace(g *Gen, f nameField, p string, vals []string) {
	g.Do(func(t *T) {
		mr := f.rule(p)
		t.Desc(func() string { return fmt.Sprintf("%s pattern %q against %d values", f.name, p, len(vals)) })
		rs := t.load(mr)
		m := mkMsg(nil)
		run := func(v string) {
			f.set(&m.M, v)
			t.Step()
			got, _ := E.CheckOneRule(&m.M, &rs.Rules[0])
			want := dDefault
			if wildList(p, v) {
				want = dBlock
			}
			if got != want {
				t.Fail("%s pattern %q value %q: decision %d, model says %d", f.name, p, v, got, want)
			}
			t.State(f.name, p, v)
			t.Out(fmt.Sprint("match ", got != 0))
		}
		for _, v := range vals {
			run(v)
		}
		for i := len(vals) - 1; i >= 0; i -= 7 {
			run(vals[i])
			t.expectSides(&rs.Rules[0], mr, m)
		}
	})
}

const nameRe = `[A-Za-z0-9_./:$^-]+`

func genC03(g *Gen) {
	pats := strsUpTo([]string{"a", "b", "*", "?", "."}, g.Pick(4, 5))
	vals := strsUpTo([]string{"a", "b", "."}, 4)
	vals = append(vals, "A", "aA", "Ab", "x", "ax", "axb", "xa", "abx", "xab", "a b", "aab", "abab", "aaaaaa", "ababab.a")
	for _, f := range nameFields {
		for _, p := range pats {
			nameTrace(g, f, p, vals)
		}
		// special characters
		for _, c := range []string{"-", "_", "/", ":", "$", "^", "1", "A", "z", "0", "Z"} {
			ps := []string{c, "a" + c, c + "a", "a" + c + "b", "*" + c, c + "*", "?" + c, c + "?", "*" + c + "*", c + c, "a" + c + "*", "." + c, c + ".", "a*" + c + "b", c + "*" + c}
			vs := []string{"", c, c + c, "a", "b", "ab", "a" + c, c + "a", "a" + c + "b", "." + c, c + ".", "a.b", "axb", "a" + c + "xb", c + "x" + c, swapCase(c), "a" + c + "x", "xa" + c, "a" + c + c + "b", "a$b", "a^b", "a/b", "a-b", "a_b", "a:b"}
			for _, p := range ps {
				nameTrace(g, f, p, uniq(vs))
			}
		}
		// realistic names and source literals
		words := append([]string{"svc-a.ns1", "A.my_namespace", "/book/v1.0/list", "redis-master:3337", "8080", "api.example.com", "$root", "^start"}, g.Lits.Words(nameRe)...)
		for _, w := range uniq(words) {
			vs := uniq([]string{w, w + "x", "x" + w, w + w, w[:len(w)-1], w[1:], swapCase(w), strings.Replace(w, ".", "x", 1), strings.ToUpper(w), strings.ToLower(w), "", "a", "x" + w + "x", w + ".", "." + w, w + "-", "-" + w})
			for _, p := range uniq([]string{w, w + "*", "*" + w, "*" + w + "*", "?" + w, w + "?", "?" + w[1:], w[:len(w)-1] + "?", w[:1] + "*", "a," + w, w + ",a"}) {
				nameTrace(g, f, p, vs)
			}
		}
		// lists
		ls := []string{"a", "b", "ab", "a*", "*b", "?", "a.b", "??", "*", "B"}
		for _, p := range ls {
			for _, q := range ls {
				for _, sep := range []string{",", ", ", " ,", " , ", ",  "} {
					nameTrace(g, f, p+sep+q, vals)
				}
				for _, s := range []string{"c", "a?", "*."} {
					nameTrace(g, f, p+","+q+","+s, vals)
					nameTrace(g, f, s+", "+p+","+q, vals)
				}
			}
		}
		// elements that nearly cover each other
		cov := []string{"a*b", "ab*", "a*", "a?b", "aa", "ab", "abb", "a*.", "*a", "*ab", "b*a", "?a", "aab"}
		for _, p := range cov {
			for _, q := range cov {
				nameTrace(g, f, p+","+q, vals)
			}
		}
		// empty elements and ranges
		for _, p := range []string{"a,", ",a", "a,,b", ",", ", a", "a, ,b", ",,", "a*,", "a-b", "a:b", "80-90", "8-10", "80:90", "8080-", "-8080", "80..90", "10,20-30", "a/b"} {
			nameTrace(g, f, p, append([]string{"80", "85", "90", "8", "9", "10", "25", "8080", "80-90", "8-10", "80:90", "8080-", "-8080", "a-b", "20-30", " ", ","}, vals...))
		}
		nameTrace(g, f, " a", vals)
		nameTrace(g, f, "a ", vals)
		nameTrace(g, f, "  a*  ", vals)
		// lengths of names and lists
		for _, n := range append(g.Lits.Sizes(g.Pick(70, 140), 300), 256, 257, 1100) {
			if n == 0 {
				continue
			}
			x := strings.Repeat("a", n)
			vs := uniq([]string{x, x + "a", x[1:], x[:n-1] + "b", "b" + x[1:], x + "b", x[:n/2] + "b" + x[n/2:], x[:n/2] + "." + x[n-n/2:], ""})
			for _, p := range []string{x, x + "*", "*" + x, x[:n/2] + "*" + x[n/2:], x[:n-1] + "?", strings.Repeat("?", n), x[:n-1] + "b", strings.Repeat("a.", n)} {
				nameTrace(g, f, p, append(vs, strings.Repeat("a.", n), strings.Repeat("ax", n)))
			}
			el := make([]string, n)
			for i := range el {
				el[i] = fmt.Sprintf("n%d", i)
			}
			lv := []string{"", "n", "n0", "n1", fmt.Sprintf("n%d", n-1), fmt.Sprintf("n%d", n), fmt.Sprintf("n%d", n/2), strings.Join(el, ","), "x"}
			nameTrace(g, f, strings.Join(el, ","), lv)
			nameTrace(g, f, strings.Join(el, ", "), lv)
			for _, pos := range []int{0, n / 2, n - 1} {
				e2 := append([]string{}, el...)
				e2[pos] = "w*z"
				nameTrace(g, f, strings.Join(e2, ","), append(lv, "wz", "wxz", "wxzx"))
			}
		}
	}
}

// --------------------------------------------------------------------- C04

func subnetTrace(g *Gen, list string, addrs []string) {
	for _, side := range []string{"sender", "receiver"} {
		side := side
		g.Do(func(t *T) {
			t.Desc(func() string { return fmt.Sprintf("%s subnet %q against %v", side, list, trim(fmt.Sprint(addrs), 300)) })
			mr := anyRule("block", nil)
			if side == "sender" {
				mr.SName, mr.SType = list, "subnet"
			} else {
				mr.RName, mr.RType = list, "subnet"
			}
			_, ok := subnetMatch(list, "1.2.3.4")
			t.Step()
			rs, err := E.YamlReadRulesFromString(rulesText([]*R{mr}))
			if err != nil {
				if !ok {
					return
				}
				t.Fail("valid subnet rejected on load: %v", err)
			}
			t.Steps(2)
			e1 := E.ValidateRule(&rs.Rules[0])
			e2 := rs.Rules[0].SetPredefinedStringsAndLists(E.PredefinedStringsAndLists{})
			t.State(side, list)
			if (e1 == nil) != ok || (e2 == nil) != ok {
				t.Fail("subnet %q: validation error %v, preparation error %v, model valid=%v", list, e1, e2, ok)
			}
			t.Out(fmt.Sprint("valid ", ok))
			if !ok {
				return
			}
			for pass := 0; pass < 2; pass++ {
				for i := range addrs {
					a := addrs[i]
					if pass == 1 {
						a = addrs[len(addrs)-1-i]
					}
					m := mkMsg(func(m *E.MessageAttributes) {
						if side == "sender" {
							m.SourceIp = a
						} else {
							m.DestinationIp = a
						}
					})
					t.State(side, list, a)
					t.expectDecision(&rs.Rules[0], mr, m, "subnet")
					t.expectSides(&rs.Rules[0], mr, m)
				}
			}
		})
	}
}

func bitsToV4(b string) string {
	var o []string
	for i := 0; i < 4; i++ {
		n := 0
		for _, c := range b[i*8 : i*8+8] {
			n = n*2 + int(c-'0')
		}
		o = append(o, fmt.Sprint(n))
	}
	return strings.Join(o, ".")
}

func bitsToV6(b string) string {
	var o []string
	for i := 0; i < 8; i++ {
		n := 0
		for _, c := range b[i*16 : i*16+16] {
			n = n*2 + int(c-'0')
		}
		o = append(o, fmt.Sprintf("%x", n))
	}
	return strings.Join(o, ":")
}

func flip(b string, i int) string {
	c := byte('1')
	if b[i] == '1' {
		c = '0'
	}
	return b[:i] + string(c) + b[i+1:]
}

func genC04(g *Gen) {
	for _, base := range []string{"10.20.30.40", "192.168.0.1", "0.0.0.0", "255.255.255.255", "172.16.254.3"} {
		b, _ := ipBits(base)
		for n := 0; n <= 32; n++ {
			var addrs []string
			first := b[:n] + strings.Repeat("0", 32-n)
			last := b[:n] + strings.Repeat("1", 32-n)
			addrs = append(addrs, base, bitsToV4(first), bitsToV4(last))
			for i := 0; i < 32; i++ {
				addrs = append(addrs, bitsToV4(flip(b, i)), bitsToV4(flip(last, i)))
			}
			addrs = append(addrs, "::1", "::", "", "::ffff:"+base, "not-an-ip", "fe80::1", base+"0", "0"+base)
			subnetTrace(g, fmt.Sprintf("%s/%d", base, n), uniq(addrs))
			if n == 0 {
				subnetTrace(g, base, uniq(addrs))
				subnetTrace(g, "*", uniq(addrs))
			}
		}
	}
	for _, base := range []string{"2001:db8:0:1:8000:0:0:7f", "fe80:0:0:0:1:2:3:4", "0:0:0:0:0:0:0:1"} {
		b, _ := ipBits(base)
		for n := 0; n <= 128; n++ {
			var addrs []string
			first := b[:n] + strings.Repeat("0", 128-n)
			last := b[:n] + strings.Repeat("1", 128-n)
			addrs = append(addrs, base, bitsToV6(first), bitsToV6(last))
			for i := 0; i < 128; i += g.Pick(5, 1) {
				addrs = append(addrs, bitsToV6(flip(b, i)))
			}
			if n < 128 {
				addrs = append(addrs, bitsToV6(flip(b, n)))
			}
			if n > 0 {
				addrs = append(addrs, bitsToV6(flip(b, n-1)))
			}
			addrs = append(addrs, "1.2.3.4", "")
			subnetTrace(g, fmt.Sprintf("%s/%d", base, n), uniq(addrs))
		}
	}
	// textual forms of one IPv6 address
	forms := []string{"2001:db8::1", "2001:0db8:0:0:0:0:0:1", "2001:DB8::1", "2001:db8:0:0::1", "2001:db8:0000::0001"}
	f2 := []string{"::1", "0:0:0:0:0:0:0:1", "0::1", "::0001", "::ffff:1.2.3.4", "1.2.3.4", "::ffff:102:304", "::", "2001:db8::2"}
	all := append(append([]string{}, forms...), f2...)
	for _, f := range all {
		subnetTrace(g, f, all)
		subnetTrace(g, "10.0.0.1,"+f, all)
	}
	// addresses of special kinds
	kinds := []string{"127.0.0.1", "127.0.0.2", "127.255.255.254", "0.0.0.0", "255.255.255.255", "169.254.0.1", "169.254.169.254", "224.0.0.1", "224.0.0.251", "239.1.1.1", "10.0.0.1", "10.0.0.2", "172.16.0.1", "172.16.0.2", "192.168.0.1", "192.168.0.2", "100.64.0.1", "8.8.8.8", "8.8.4.4", "::1", "::", "::2", "fe80::1", "fe80::2", "fc00::1", "fd00::1", "ff02::1", "ff02::2", "2001:db8::1", "2002::1", "64:ff9b::1", "64:ff9b::808:808", "::127.0.0.1", "::ffff:127.0.0.1", "::ffff:8.8.8.8"}
	for _, a := range kinds {
		subnetTrace(g, a, kinds)
		for _, n := range []int{0, 8, 16, 24, 31, 32, 64, 127, 128} {
			if strings.Contains(a, ":") && strings.Contains(a, ".") { // only single addresses are written like that
				continue
			}
			if n <= 32 || strings.Contains(a, ":") {
				subnetTrace(g, fmt.Sprintf("%s/%d", a, n), kinds)
			}
		}
	}
	// lists
	el := []string{"10.0.0.1", "10.0.1.0/24", "10.0.0.0/8", "192.168.1.7", "2001:db8::/32", "2001:db8::1", "*", "0.0.0.0/0", "127.0.0.1/32"}
	addrs := []string{"10.0.0.1", "10.0.0.2", "10.0.1.5", "10.0.2.5", "10.255.255.255", "11.0.0.1", "192.168.1.7", "192.168.1.70", "192.168.1.8", "2001:db8::1", "2001:db8::5", "2001:db9::1", "127.0.0.1", "127.0.0.2", "", "1.1.1.1"}
	for _, a := range el {
		for _, b := range el {
			subnetTrace(g, a+","+b, addrs)
			for _, c := range el {
				subnetTrace(g, a+","+b+","+c, addrs)
			}
		}
	}
	// malformed elements
	badE := []string{"", "abc", "10.0.0", "10.0.0.256", "10.0.0.0/33", "10.0.0.0/-1", "10.0.0.0/", "/24", "10.0.0.1/24/8", "300.1.1.1", "10.0.0.1.1", "2001:db8::/129", "2001:db8:::1", "g::1", "10.0.0.*", "10.0.0.1-10.0.0.5", "localhost", "svc-a", "010.0.0.1", "**", "1.2.3.4/a"}
	for _, b := range badE {
		subnetTrace(g, b, addrs[:1])
		for _, a := range el {
			subnetTrace(g, a+","+b, addrs[:1])
			subnetTrace(g, b+","+a, addrs[:1])
			subnetTrace(g, a+","+b+","+a, addrs[:1])
		}
	}
	for _, w := range g.Lits.Words(nameRe) {
		subnetTrace(g, w, addrs)
	}
	for _, n := range append(g.Lits.Sizes(g.Pick(70, 140), 300), 256, 257, 1100) {
		if n == 0 {
			continue
		}
		e := make([]string, n)
		for i := range e {
			e[i] = fmt.Sprintf("10.7.%d.%d", i/200, i%200)
		}
		as := []string{"10.7.0.0", e[n-1], e[n/2], "10.7.9.9", fmt.Sprintf("10.7.%d.%d", n/200, n%200), "192.168.5.5"}
		subnetTrace(g, strings.Join(e, ","), as)
		for _, p := range []int{0, n / 2, n - 1} {
			e2 := append([]string{}, e...)
			e2[p] = "192.168.0.0/16"
			subnetTrace(g, strings.Join(e2, ","), as)
			e2[p] = "bad"
			subnetTrace(g, strings.Join(e2, ","), as)
		}
	}
}

// --------------------------------------------------------------------- C05

func genC05(g *Gen) {
	ms := []string{"", "GET", "HEAD", "OPTIONS", "TRACE", "POST", "PUT", "DELETE", "PATCH", "CONNECT", "CONSUME", "PRODUCE", "read", "READ", "Read", "write", "WRITE", "Write", "get", "Get", "post", "put", "delete", "consume", "produce", "options", "trace", "head", "*", "?", ".*"}
	for _, m := range append([]string{}, ms...) {
		if m != "" && m != "*" && m != "?" && m != ".*" {
			ms = append(ms, m+"X", "X"+m, m[1:], m[:len(m)-1], m+" ", m+m)
		}
	}
	ms = append(ms, g.Lits.Words(`[A-Za-z]+`)...)
	ms = append(ms, strsUpTo([]string{"G", "E", "T", "P"}, 3)...)
	ms = uniq(ms)
	base := []string{"*", "read", "READ", "Read", "write", "WRITE", "Write", "GET", "get", "HEAD", "OPTIONS", "TRACE", "POST", "PUT", "DELETE", "PATCH", "CONSUME", "PRODUCE", "G*", "*T", "?ET", "P*T", "*E*", "??", "**", "", "rea?", "GE", "GETT"}
	ops := append([]string{}, base...)
	for _, a := range base {
		for _, b := range base {
			ops = append(ops, a+","+b, a+", "+b)
			for _, c := range []string{"GET", "write", "read", "*", "PUT"} {
				ops = append(ops, a+","+b+","+c)
			}
		}
	}
	for _, w := range g.Lits.Words(`[A-Za-z]+`) {
		ops = append(ops, w, strings.ToUpper(w), strings.ToLower(w), w+",GET")
	}
	for _, a := range base {
		ops = append(ops, " "+a, a+" ", " "+a+" ", "  "+a, a+",", ","+a)
	}
	for _, n := range append(g.Lits.Sizes(40, 300), 256, 257, 1100) {
		if n == 0 {
			continue
		}
		e := make([]string, n)
		for i := range e {
			e[i] = fmt.Sprintf("M%d", i)
		}
		for _, p := range []int{0, n / 2, n - 1} {
			e2 := append([]string{}, e...)
			e2[p] = "GET"
			ops = append(ops, strings.Join(e2, ","), strings.Join(e2, ", "))
		}
		ops = append(ops, strings.Repeat("G", n), strings.Repeat("G", n)+"*")
	}
	for _, o := range uniq(ops) {
		o := o
		for _, mk := range []bool{true, false} {
			mk := mk
			g.Do(func(t *T) {
				t.Desc(func() string { return "operation " + js(o) })
				mr := anyRule("alert", nil)
				mr.Op = o
				if !mk {
					mr.Proto, mr.ResType, mr.ResName = "http", "path", "/book/*"
				}
				rs := t.load(mr)
				m := mkMsg(nil)
				for _, x := range ms {
					m.M.RequestMethod = x
					t.State(o, x)
					t.expectDecision(&rs.Rules[0], mr, m, "operation "+js(o)+" method "+js(x))
				}
				for i := len(ms) - 1; i >= 0; i-- {
					m.M.RequestMethod = ms[i]
					t.expectDecision(&rs.Rules[0], mr, m, "operation "+js(o)+" method "+js(ms[i]))
				}
			})
		}
	}
}

// --------------------------------------------------------------------- C06

func genC06(g *Gen) {
	protos := []string{"*", "tcp", "TCP", "Tcp", "http", "HTTP", "Http", "kafka", "KAFKA", "grpc", "", "htt", "https", "ftp", "tcp*"}
	rtypes := []string{"*", "path", "port", "kafkaTopic", "", "PATH"}
	names := []string{"*", "/a", "/a/*", "8080", "80*", "/a,8080", "", "/A", "808?"}
	mprotos := []string{"http", "HTTP", "hTTp", "tcp", "TCP", "kafka", "Kafka", "grpc", "", "*", "https", "htt", "tcp*"}
	mtypes := []string{"path", "port", "kafkaTopic", "", "*", "PATH"}
	paths := []string{"/a", "/a/b", "/b", "", "8080", "/A"}
	ports := []string{"8080", "80", "", "/a", "8081"}
	grid := func(protos, mprotos, mtypes, paths, ports []string) {
		for _, p := range protos {
			for _, rt := range rtypes {
				for _, n := range names {
					p, rt, n := p, rt, n
					g.Do(func(t *T) {
						t.Desc(func() string { return fmt.Sprintf("rule protocol %q resource %q %q", p, rt, n) })
						mr := anyRule("block", nil)
						mr.Proto, mr.ResType, mr.ResName = p, rt, n
						rs := t.load(mr)
						m := mkMsg(nil)
						for _, mp := range mprotos {
							for _, mt := range mtypes {
								for _, pa := range paths {
									for _, po := range ports {
										m.M.ContextProtocol, m.M.ContextType, m.M.RequestPath, m.M.DestinationPort = mp, mt, pa, po
										t.State(p, rt, n, mp, mt, pa, po)
										t.expectDecision(&rs.Rules[0], mr, m, "resource")
									}
								}
							}
						}
					})
				}
			}
		}
	}
	grid(protos, mprotos, mtypes, paths, ports)
	// the other text attributes hold ports, paths, names and protocols
	for _, p := range []string{"*", "tcp", "TCP", "http", "kafka"} {
		for _, n := range []string{"*", "8080", "/a", "?*"} {
			p, n := p, n
			g.Do(func(t *T) {
				t.Desc(func() string { return fmt.Sprintf("rule protocol %q resource %q, other attributes swept", p, n) })
				mr := anyRule("block", nil)
				mr.Proto, mr.ResType, mr.ResName = p, "*", n
				rs := t.load(mr)
				for _, at := range textAttributes() {
					for _, w := range []string{"", "8080", "host:8080", "[::1]:8080", "/a", "http://h/a", "http://h:8080/a", "/a?x=8080", "tcp", "http", "kafka", "tcp:8080"} {
						for _, hole := range []int{0, 1, 2, 3, 4} {
							m := mkMsg(nil)
							m.M.ContextProtocol, m.M.RequestPath, m.M.DestinationPort = "http", "/a", "8080"
							switch hole {
							case 1:
								m.M.DestinationPort = ""
							case 2:
								m.M.RequestPath = ""
							case 3:
								m.M.ContextProtocol = ""
							case 4:
								m.M.ContextProtocol, m.M.ContextType, m.M.RequestPath, m.M.DestinationPort = "", "", "", ""
							}
							setText(&m.M, at, w)
							t.State("swept", p, n, at, w, fmt.Sprint(hole))
							t.expectDecision(&rs.Rules[0], mr, m, "attribute "+at+" is "+w)
						}
					}
				}
			})
		}
	}
	// protocol words of the source, against themselves, their case variants and the others
	for _, w := range g.Lits.Words(`[A-Za-z]{2,12}`) {
		grid([]string{w}, []string{w, swapCase(w), w + "x", "http", "tcp"}, []string{"path", "port"}, []string{"/a", "8080"}, []string{"8080", "/a"})
		grid([]string{"*", "tcp", "TCP", "http"}, []string{w}, []string{"path", "port"}, []string{"/a", "8080"}, []string{"8080", "/a"})
	}
	// resource type derivation
	for _, mp := range append([]string{"http", "HTTP", "tcp", "TCP", "kafka", "KAFKA", "", "Http", "udp", "https", "httpx", "xtcp"}, mprotos...) {
		for _, given := range []string{"", "path", "port", "kafkaTopic"} {
			mp, given := mp, given
			g.Do(func(t *T) {
				t.Desc(func() string { return fmt.Sprintf("load message protocol %q type %q", mp, given) })
				y := fmt.Sprintf("messages:\n  - message_id: m\n    request_protocol: %s\n    request_type: %s\n    request_time: 2018-07-29T14:30:00Z\n  - message_id: n\n    request_protocol: http\n    request_time: 2018-07-29T14:30:00Z\n", js(mp), js(given))
				t.Step()
				ms, err := E.YamlReadMessagesFromString(y)
				if err != nil || len(ms.Messages) != 2 {
					t.Fail("loading failed: %v", err)
				}
				want := ""
				switch mp {
				case "http", "HTTP":
					want = "path"
				case "tcp", "TCP":
					want = "port"
				}
				t.State("type", mp, given)
				if strings.EqualFold(mp, "http") || strings.EqualFold(mp, "tcp") {
					// mixed-case spellings are outside the statement
					if mp != strings.ToLower(mp) && mp != strings.ToUpper(mp) {
						return
					}
				}
				if ms.Messages[0].ContextType != want || ms.Messages[1].ContextType != "path" {
					t.Fail("protocol %q: type %q, model says %q", mp, ms.Messages[0].ContextType, want)
				}
				a := E.MessageAttributes{ContextProtocol: mp, ContextType: given}
				t.Step()
				E.AddResourceType(&a)
				if a.ContextType != want {
					t.Fail("protocol %q: derived type %q, model says %q", mp, a.ContextType, want)
				}
				if mp == "" || given != "" {
					return
				}
				t.Step()
				one, err := E.YamlReadMessageAttributes("sender_service: a\nrequest_protocol: " + js(mp) + "\n")
				if err != nil || one.ContextType != want || one.ContextProtocol != mp || one.SourceService != "a" {
					t.Fail("one message of protocol %q: %v, type %q, model says %q", mp, err, one.ContextType, want)
				}
			})
		}
	}
}

// --------------------------------------------------------------------- C20

func genC20(g *Gen) {
	// rule i applies to message j iff bit (i,j): sender name list of message services
	decs := []string{"allow", "alert", "block", "deny"}
	// identifiers: distinct among the rules and among the messages
	ident := func(prefix string, v, i int) string {
		switch v {
		case 1: // the same for rules and messages
			return fmt.Sprint(i)
		case 2: // the empty one among them
			if i == 0 {
				return ""
			}
			return strings.Repeat(" ", i)
		case 3: // differing in letter case or at the end only
			return strings.Repeat("a", i/2) + []string{"x", "X"}[i%2]
		}
		return fmt.Sprintf("%s%d", prefix, i)
	}
	nth := 0
	run := func(nr, nm int, bits func(i, j int) bool, dec func(i int) string, desc string) {
		v := nth % 4
		nth++
		ruleID := func(i int) string { return ident("rule", v, i) }
		msgID := func(j int) string { return ident("msg", v, j) }
		desc = fmt.Sprintf("%s identifiers %d", desc, v)
		g.Do(func(t *T) {
			t.Desc(func() string { return desc })
			var mrs []*R
			for i := 0; i < nr; i++ {
				r := anyRule(dec(i), nil)
				r.ID = ruleID(i)
				var l []string
				for j := 0; j < nm; j++ {
					if bits(i, j) {
						l = append(l, fmt.Sprintf("s%d", j))
					}
				}
				r.SName = strings.Join(l, ",")
				if len(l) == 0 {
					r.SName = "none"
				}
				mrs = append(mrs, r)
			}
			ms := &E.Messages{}
			for j := 0; j < nm; j++ {
				m := mkMsg(func(m *E.MessageAttributes) {
					m.SourceService = fmt.Sprintf("s%d", j)
					m.MessageID = msgID(j)
				})
				ms.Messages = append(ms.Messages, m.M)
			}
			rs := t.load(mrs...)
			for pass := 0; pass < 2; pass++ {
				t.Step()
				mc, rc := E.Coverage(ms, rs)
				if len(mc) != nm || len(rc) != nr {
					t.Fail("report has %d messages and %d rules", len(mc), len(rc))
				}
				for j := 0; j < nm; j++ {
					best := 0
					ids := []string{}
					ds := []int{}
					for i := range mrs {
						if bits(i, j) && decisionOf(dec(i)) != 0 {
							ids = append(ids, mrs[i].ID)
							ds = append(ds, decisionOf(dec(i)))
							if decisionOf(dec(i)) > best {
								best = decisionOf(dec(i))
							}
						}
					}
					c, ok := mc[msgID(j)]
					if !ok || c.Covered != (best != 0) || c.Decision != best || fmt.Sprint(c.IdsOfCoveringRules) != fmt.Sprint(ids) || fmt.Sprint(c.DecisionsOfCoveringRules) != fmt.Sprint(ds) {
						t.Fail("message %d: report %+v, model covered=%v decision=%d ids=%v decisions=%v", j, c, best != 0, best, ids, ds)
					}
					t.Out(fmt.Sprint("covered ", c.Covered, " ", c.Decision))
					t.Step()
					d, _, _, _, ap, _, _ := E.Check(&ms.Messages[j], rs)
					if d != c.Decision || len(ap) != len(c.IdsOfCoveringRules) {
						t.Fail("message %d: check gives %d %v, report %+v", j, d, ap, c)
					}
				}
				for i := range mrs {
					want := []string{}
					for j := 0; j < nm; j++ {
						if bits(i, j) && decisionOf(dec(i)) != 0 {
							want = append(want, msgID(j))
						}
					}
					got, ok := rc[mrs[i].ID]
					if !ok || fmt.Sprint(got) != fmt.Sprint(want) {
						t.Fail("rule %d: report %v, model %v", i, got, want)
					}
				}
				t.State(desc)
			}
		})
	}
	for nr := 0; nr <= 3; nr++ {
		for nm := 0; nm <= 3; nm++ {
			nd := 1
			for i := 0; i < nr; i++ {
				nd *= len(decs)
			}
			for x := 0; x < 1<<(nr*nm); x++ {
				for d := 0; d < nd; d++ {
					nr, nm, x, d := nr, nm, x, d
					dv := make([]string, nr)
					dd := d
					for i := range dv {
						dv[i] = decs[dd%len(decs)]
						dd /= len(decs)
					}
					run(nr, nm, func(i, j int) bool { return x>>(i*nm+j)&1 == 1 }, func(i int) string { return dv[i] }, fmt.Sprintf("%d rules %d messages matrix %b decisions %v", nr, nm, x, dv))
				}
			}
		}
	}
	for _, n := range append(g.Lits.Sizes(g.Pick(40, 80), g.Pick(130, 300)), 256, 257) {
		for _, k := range []struct {
			n string
			f func(i, j int) bool
		}{{"diagonal", func(i, j int) bool { return i == j }}, {"all", func(i, j int) bool { return true }}, {"upper", func(i, j int) bool { return i < j }}, {"none", func(i, j int) bool { return false }}, {"first", func(i, j int) bool { return i == 0 }}, {"last", func(i, j int) bool { return j == n-1 }}} {
			k := k
			for _, nm := range uniqInts([]int{1, 2, 5, n}) {
				if n*nm > 6000 {
					continue
				}
				run(n, nm, k.f, func(i int) string { return decs[i%3] }, fmt.Sprintf("%d rules %d messages %s", n, nm, k.n))
				run(nm, n, k.f, func(i int) string { return decs[(i+1)%3] }, fmt.Sprintf("%d rules %d messages %s", nm, n, k.n))
			}
		}
	}
}

func uniqInts(a []int) []int {
	m := map[int]bool{}
	var o []int
	for _, x := range a {
		if !m[x] {
			m[x] = true
			o = append(o, x)
		}
	}
	return o
}
