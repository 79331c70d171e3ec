package main

// Reference model: rules, condition trees and their meaning, written from the
// documentation.  No engine code is used here except the message structure,
// which only carries data.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	E "github.com/octarinesec/MAPL/MAPL_engine"
)

// C is a conditions tree.
type C struct {
	Op     string // AND OR NOT ANY ALL or "" for a leaf
	Kids   []*C
	Parent string            // quantifiers: raw parent path ("jsonpath:$.a[:]")
	Ret    map[string]string // return paths
	Attr   string
	Method string
	Value  string
	NoVal  bool // leaf written without a value key
	List   bool // NOT written with a list of one condition
}

func leaf(a, m, v string) *C { return &C{Attr: a, Method: m, Value: v} }
func leafNV(a, m string) *C  { return &C{Attr: a, Method: m, NoVal: true} }
func and(k ...*C) *C         { return &C{Op: "AND", Kids: k} }
func or(k ...*C) *C          { return &C{Op: "OR", Kids: k} }
func not(k *C) *C            { return &C{Op: "NOT", Kids: []*C{k}} }
func any_(p string, k *C) *C { return &C{Op: "ANY", Parent: p, Kids: []*C{k}} }
func all_(p string, k *C) *C { return &C{Op: "ALL", Parent: p, Kids: []*C{k}} }
func anyRet(p string, r map[string]string, k *C) *C {
	return &C{Op: "ANY", Parent: p, Ret: r, Kids: []*C{k}}
}

func allRet(p string, r map[string]string, k *C) *C {
	return &C{Op: "ALL", Parent: p, Ret: r, Kids: []*C{k}}
}

// R is a rule.
type R struct {
	ID                      string
	SName, SType            string
	RName, RType            string
	Proto, ResType, ResName string
	Op, Decision            string
	Cond                    *C
	Meta                    map[string]string
	Hash                    string
}

// anyRule matches every message.
func anyRule(decision string, c *C) *R {
	return &R{ID: "r", SName: "*", SType: "*", RName: "*", RType: "*", Proto: "*", ResType: "*", ResName: "*", Op: "*", Decision: decision, Cond: c}
}

// js encodes a string as a JSON (and YAML double-quoted) scalar.
func js(s string) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.Encode(s)
	return strings.TrimSuffix(b.String(), "\n")
}

func jsMap(m map[string]string) string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var p []string
	for _, k := range ks {
		p = append(p, js(k)+": "+js(m[k]))
	}
	return "{" + strings.Join(p, ", ") + "}"
}

// Text renders the tree in the canonical spelling (JSON, which is YAML).
func (c *C) Text() string {
	switch c.Op {
	case "":
		ret := ""
		if len(c.Ret) > 0 {
			ret = `, "returnValueJsonpath": ` + jsMap(c.Ret)
		}
		if c.NoVal {
			return fmt.Sprintf(`{"attribute": %s, "method": %s%s}`, js(c.Attr), js(c.Method), ret)
		}
		return fmt.Sprintf(`{"attribute": %s, "method": %s, "value": %s%s}`, js(c.Attr), js(c.Method), js(c.Value), ret)
	case "AND", "OR":
		p := []string{}
		for _, k := range c.Kids {
			p = append(p, k.Text())
		}
		return fmt.Sprintf(`{"%s": [%s]}`, c.Op, strings.Join(p, ", "))
	case "NOT":
		if c.List {
			return fmt.Sprintf(`{"NOT": [%s]}`, c.Kids[0].Text())
		}
		return fmt.Sprintf(`{"NOT": %s}`, c.Kids[0].Text())
	case "ANY", "ALL":
		ret := ""
		if len(c.Ret) > 0 {
			ret = `"returnValueJsonpath": ` + jsMap(c.Ret) + ", "
		}
		k := c.Kids[0]
		inner := ""
		if k.Op == "" {
			inner = `"condition": ` + k.Text()
		} else {
			t := k.Text() // {"AND": ...} -> "AND": ...
			inner = t[1 : len(t)-1]
		}
		return fmt.Sprintf(`{"%s": {"parentJsonpathAttribute": %s, %s%s}}`, c.Op, js(c.Parent), ret, inner)
	}
	panic("bad op " + c.Op)
}

// Text renders the rule as one flow mapping.
func (r *R) Text() string {
	var p []string
	add := func(k, v string) { p = append(p, js(k)+": "+v) }
	if r.ID != "" {
		add("ruleID", js(r.ID))
	}
	add("sender", fmt.Sprintf(`{"senderName": %s, "senderType": %s}`, js(r.SName), js(r.SType)))
	add("receiver", fmt.Sprintf(`{"receiverName": %s, "receiverType": %s}`, js(r.RName), js(r.RType)))
	add("protocol", js(r.Proto))
	add("resource", fmt.Sprintf(`{"resourceType": %s, "resourceName": %s}`, js(r.ResType), js(r.ResName)))
	add("operation", js(r.Op))
	if r.Cond != nil {
		add("conditions", r.Cond.Text())
	}
	add("decision", js(r.Decision))
	if len(r.Meta) > 0 {
		add("metadata", jsMap(r.Meta))
	}
	if r.Hash != "" {
		add("hash", js(r.Hash))
	}
	return "{" + strings.Join(p, ", ") + "}"
}

func rulesText(rs []*R) string {
	var p []string
	for _, r := range rs {
		p = append(p, r.Text())
	}
	return `{"rules": [` + strings.Join(p, ",\n ") + `]}`
}

// Block renders the rules in the block YAML style of the documentation.
func rulesBlock(rs []*R) string {
	var b strings.Builder
	b.WriteString("rules:\n")
	for _, r := range rs {
		fmt.Fprintf(&b, "  - ruleID: %s\n    sender:\n      senderName: %s\n      senderType: %s\n    receiver:\n      receiverName: %s\n      receiverType: %s\n    protocol: %s\n    resource:\n      resourceType: %s\n      resourceName: %s\n    operation: %s\n", js(r.ID), js(r.SName), js(r.SType), js(r.RName), js(r.RType), js(r.Proto), js(r.ResType), js(r.ResName), js(r.Op))
		if r.Cond != nil {
			fmt.Fprintf(&b, "    conditions: %s\n", r.Cond.Text())
		}
		fmt.Fprintf(&b, "    decision: %s\n", js(r.Decision))
		if len(r.Meta) > 0 {
			fmt.Fprintf(&b, "    metadata: %s\n", jsMap(r.Meta))
		}
	}
	return b.String()
}

// load reads rules through the engine and fails the trace on error.
func (t *T) load(rs ...*R) *E.Rules {
	t.Step()
	r, err := E.YamlReadRulesFromString(rulesText(rs))
	if err != nil {
		t.Fail("valid rules rejected: %v\n%s", err, rulesText(rs))
	}
	if len(r.Rules) != len(rs) {
		t.Fail("loaded %d rules out of %d", len(r.Rules), len(rs))
	}
	return &r
}

// prepare runs SetPredefinedStringsAndLists with empty definitions.
func (t *T) prepare(rs *E.Rules) {
	for i := range rs.Rules {
		t.Step()
		if err := rs.Rules[i].SetPredefinedStringsAndLists(E.PredefinedStringsAndLists{}); err != nil {
			t.Fail("valid rule cannot be prepared: %v", err)
		}
	}
}

// ---------------------------------------------------------------------------
// decisions

const (
	dDefault = 0
	dAllow   = 1
	dAlert   = 2
	dBlock   = 3
)

var decisionText = map[int]string{0: "rules do not apply to message - block by default", 1: "allow", 2: "alert", 3: "block"}

func decisionOf(w string) int {
	switch w {
	case "allow", "Allow", "ALLOW":
		return dAllow
	case "alert", "Alert", "ALERT":
		return dAlert
	case "block", "Block", "BLOCK":
		return dBlock
	}
	return dDefault
}

// ---------------------------------------------------------------------------
// names

// wild: dynamic programming wildcard match of the whole value.
func wild(p, v string) bool {
	pr, vr := []rune(p), []rune(v)
	cur := make([]bool, len(vr)+1)
	cur[0] = true
	for _, c := range pr {
		nxt := make([]bool, len(vr)+1)
		switch c {
		case '*':
			on := false
			for j := 0; j <= len(vr); j++ {
				on = on || cur[j]
				nxt[j] = on
			}
		case '?':
			for j := 0; j < len(vr); j++ {
				nxt[j+1] = cur[j]
			}
		default:
			for j := 0; j < len(vr); j++ {
				nxt[j+1] = cur[j] && vr[j] == c
			}
		}
		cur = nxt
	}
	return cur[len(vr)]
}

func listOf(s string) []string {
	var out []string
	for _, e := range strings.Split(s, ",") {
		out = append(out, strings.TrimSpace(e))
	}
	return out
}

func wildList(list, v string) bool {
	for _, e := range listOf(list) {
		if wild(e, v) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------------------
// operations

func opMatch(op, method string) bool {
	in := func(l ...string) bool {
		for _, x := range l {
			if x == method {
				return true
			}
		}
		return false
	}
	switch op {
	case "*":
		return true
	case "read", "READ":
		return in("GET", "HEAD", "OPTIONS", "TRACE", "CONSUME", "read", "READ")
	case "write", "WRITE":
		return in("POST", "PUT", "DELETE", "PRODUCE")
	}
	return wildList(op, method)
}

// ---------------------------------------------------------------------------
// addresses: 128-bit strings; IPv4 as 32-bit strings

func ipBits(s string) (string, bool) {
	if !strings.Contains(s, ":") {
		f := strings.Split(s, ".")
		if len(f) != 4 {
			return "", false
		}
		out := ""
		for _, x := range f {
			n, err := strconv.Atoi(x)
			if err != nil || n < 0 || n > 255 || strconv.Itoa(n) != x {
				return "", false
			}
			out += fmt.Sprintf("%08b", n)
		}
		return out, true
	}
	tail := ""
	if i := strings.LastIndex(s, ":"); strings.Contains(s[i:], ".") {
		b, ok := ipBits(s[i+1:])
		if !ok {
			return "", false
		}
		tail = b
		s = s[:i+1]
		if strings.HasSuffix(s, "::") {
			// keep
		} else {
			s = s[:len(s)-1]
		}
	}
	want := 8
	if tail != "" {
		want = 6
	}
	grp := func(x string) ([]string, bool) {
		if x == "" {
			return nil, true
		}
		var o []string
		for _, h := range strings.Split(x, ":") {
			if len(h) < 1 || len(h) > 4 {
				return nil, false
			}
			n, err := strconv.ParseUint(h, 16, 32)
			if err != nil {
				return nil, false
			}
			o = append(o, fmt.Sprintf("%016b", n))
		}
		return o, true
	}
	var all []string
	if i := strings.Index(s, "::"); i >= 0 {
		a, ok1 := grp(s[:i])
		b, ok2 := grp(s[i+2:])
		if !ok1 || !ok2 || strings.Contains(s[i+2:], "::") || len(a)+len(b) > want-1 {
			return "", false
		}
		for len(a)+len(b) < want {
			a = append(a, strings.Repeat("0", 16))
		}
		all = append(a, b...)
	} else {
		a, ok := grp(s)
		if !ok || len(a) != want {
			return "", false
		}
		all = a
	}
	r := strings.Join(all, "") + tail
	// IPv4-mapped addresses are IPv4 addresses
	if strings.HasPrefix(r, strings.Repeat("0", 80)+strings.Repeat("1", 16)) {
		return r[96:], true
	}
	return r, true
}

// subnetElem: does element e (IP, CIDR or *) contain address bits b; ok=false if e is malformed
func subnetElem(e, addr string) (match, ok bool) {
	if e == "*" {
		e = "0.0.0.0/0"
	}
	if i := strings.Index(e, "/"); i >= 0 {
		nb, ok := ipBits(e[:i])
		if !ok {
			return false, false
		}
		n, err := strconv.Atoi(e[i+1:])
		if err != nil || n < 0 || strconv.Itoa(n) != e[i+1:] {
			return false, false
		}
		if n > len(nb) {
			return false, false
		}
		ab, aok := ipBits(addr)
		if !aok || len(ab) != len(nb) {
			return false, true
		}
		return ab[:n] == nb[:n], true
	}
	nb, ok := ipBits(e)
	if !ok {
		return false, false
	}
	ab, aok := ipBits(addr)
	return aok && ab == nb, true
}

func subnetMatch(list, addr string) (match, ok bool) {
	match = false
	for _, e := range strings.Split(list, ",") {
		m, ok := subnetElem(e, addr)
		if !ok {
			return false, false
		}
		match = match || m
	}
	return match, true
}

// ---------------------------------------------------------------------------
// rules

func partSender(r *R, m *E.MessageAttributes) bool {
	switch r.SType {
	case "subnet":
		x, _ := subnetMatch(r.SName, m.SourceIp)
		return x
	case "*", "workload":
		return wildList(r.SName, m.SourceService)
	}
	return false
}

func partReceiver(r *R, m *E.MessageAttributes) bool {
	switch r.RType {
	case "subnet":
		x, _ := subnetMatch(r.RName, m.DestinationIp)
		return x
	case "hostname":
		return wildList(r.RName, m.RequestHost)
	case "*", "workload":
		return wildList(r.RName, m.DestinationService)
	}
	return false
}

func partResource(r *R, m *E.MessageAttributes) bool {
	if r.Proto == "*" {
		return true
	}
	if r.Proto == "tcp" {
		return wildList(r.ResName, m.DestinationPort)
	}
	if !strings.EqualFold(r.Proto, m.ContextProtocol) {
		return false
	}
	if r.ResType != "*" && r.ResType != m.ContextType {
		return false
	}
	return wildList(r.ResName, m.RequestPath)
}

// Msg is a message with its document.
type Msg struct {
	M   E.MessageAttributes
	Doc interface{} // nil: none
	Has bool        // has a document
}

func applies(r *R, m *Msg) bool {
	if !partSender(r, &m.M) || !partReceiver(r, &m.M) || !opMatch(r.Op, m.M.RequestMethod) || !partResource(r, &m.M) {
		return false
	}
	return r.Cond == nil || holds(r.Cond, m, nil)
}

func decide(r *R, m *Msg) int {
	if !applies(r, m) {
		return dDefault
	}
	return decisionOf(r.Decision)
}

// ---------------------------------------------------------------------------
// conditions

// cursor: current sub-document of the enclosing quantifier
type cursor struct {
	val   interface{}
	key   string      // single entry: its key
	entry bool        // val is {key: entryVal}
	ev    interface{} // entry value
}

func holds(c *C, m *Msg, cur *cursor) bool { // without short cuts, so that containerCompared is exact
	switch c.Op {
	case "AND":
		r := true
		for _, k := range c.Kids {
			r = holds(k, m, cur) && r
		}
		return r
	case "OR":
		r := false
		for _, k := range c.Kids {
			r = holds(k, m, cur) || r
		}
		return r
	case "NOT":
		return !holds(c.Kids[0], m, cur)
	case "ANY":
		subs, r := selectSubs(c.Parent, m, cur)
		if !r {
			return false
		}
		r = false
		for _, s := range subs {
			r = holds(c.Kids[0], m, s) || r
		}
		return r
	case "ALL":
		subs, r := selectSubs(c.Parent, m, cur)
		for _, s := range subs {
			r = holds(c.Kids[0], m, s) && r
		}
		return r
	}
	return leafHolds(c, m, cur)
}

// definite: the path leads to at most one place
func definite(p string) bool {
	return !strings.Contains(p, "..") && !strings.Contains(p, "[:]") && !strings.Contains(p, "*")
}

// selectSubs lists the sub-documents a parent path selects; ok=false: there is
// no (current) document to select from.
func selectSubs(parent string, m *Msg, cur *cursor) (out []*cursor, ok bool) {
	if !m.Has {
		return nil, false
	}
	for _, p := range strings.Split(parent, ",") {
		p = strings.TrimPrefix(p, "jsonpath:")
		root := m.Doc
		switch {
		case p == "$RELATIVE*":
			if cur == nil {
				return nil, false
			}
			if o, ok := cur.val.(map[string]interface{}); ok {
				out = append(out, entries(o)...)
			}
			continue
		case strings.HasPrefix(p, "$RELATIVE"):
			if cur == nil {
				return nil, false
			}
			root = cur.val
			p = "$" + strings.TrimPrefix(p, "$RELATIVE")
		case strings.HasPrefix(p, "."):
			p = "$" + p
		}
		vs := jpath(p, root)
		if definite(p) {
			if len(vs) == 1 {
				switch x := vs[0].(type) {
				case map[string]interface{}:
					out = append(out, entries(x)...)
				case []interface{}:
					out = append(out, flat(x)...)
				}
			}
			continue
		}
		out = append(out, flat(vs)...)
	}
	return out, true
}

// flat: elements, with nested lists opened
func flat(l []interface{}) []*cursor {
	var out []*cursor
	for _, x := range l {
		if y, ok := x.([]interface{}); ok {
			out = append(out, flat(y)...)
		} else {
			out = append(out, mkCursor(x))
		}
	}
	return out
}

func mkCursor(v interface{}) *cursor {
	c := &cursor{val: v}
	if o, ok := v.(map[string]interface{}); ok && len(o) == 1 {
		for k, x := range o {
			c.key, c.entry, c.ev = k, true, x
		}
	}
	return c
}

func entries(o map[string]interface{}) []*cursor {
	ks := make([]string, 0, len(o))
	for k := range o {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*cursor
	for _, k := range ks {
		out = append(out, &cursor{val: map[string]interface{}{k: o[k]}, key: k, entry: true, ev: o[k]})
	}
	return out
}

func up(s string) string { return strings.ToUpper(s) }

var reCache = map[string]*regexp.Regexp{}

func reMatch(re, v string) bool {
	r, ok := reCache[re]
	if !ok {
		r = regexp.MustCompile(re)
		if len(reCache) > 10000 {
			reCache = map[string]*regexp.Regexp{}
		}
		reCache[re] = r
	}
	return r.MatchString(v)
}

func inList(list, v string) bool {
	s := strings.NewReplacer("[", "", "]", "").Replace(list)
	for _, e := range strings.Split(s, ",") {
		if e == v {
			return true
		}
	}
	return false
}

// textCompare compares a present string attribute.
func textCompare(method, ruleVal, v string) bool {
	switch up(method) {
	case "EQ":
		return wild(ruleVal, v)
	case "NEQ", "NE":
		return !wild(ruleVal, v)
	case "IN", "IS":
		return inList(ruleVal, v)
	case "NIN":
		return !inList(ruleVal, v)
	case "RE":
		return reMatch(ruleVal, v)
	case "NRE":
		return !reMatch(ruleVal, v)
	case "EX":
		return v != ""
	case "NEX":
		return v == ""
	}
	return false
}

func numCompare(method string, v, ref num) bool {
	c := v.cmp(ref)
	switch up(method) {
	case "EQ":
		return c == 0
	case "NEQ", "NE":
		return c != 0
	case "LT":
		return c < 0
	case "LE":
		return c <= 0
	case "GT":
		return c > 0
	case "GE":
		return c >= 0
	}
	return false
}

func leafHolds(c *C, m *Msg, cur *cursor) bool {
	a := &m.M
	switch c.Attr {
	case "true", "TRUE":
		return true
	case "false", "FALSE":
		return false
	case "payloadSize":
		ref, ok := parseInt(c.Value)
		if !ok {
			if ref, ok = parseNum(c.Value); !ok {
				return false
			}
		}
		return numCompare(c.Method, numInt(a.RequestSize), ref)
	case "utcHoursFromMidnight":
		ref, ok := parseNum(c.Value)
		if !ok {
			return false
		}
		return numCompare(c.Method, numFloat(a.RequestTimeHoursFromMidnightUTC), ref)
	case "encryptionVersion":
		ref, ok := parseNum(c.Value)
		if !ok || a.EncryptionVersion == nil {
			return false
		}
		return numCompare(c.Method, numFloat(*a.EncryptionVersion), ref)
	case "requestUseragent":
		return textCompare(c.Method, c.Value, a.RequestUseragent)
	case "encryptionType":
		return textCompare(c.Method, c.Value, a.EncryptionType)
	case "domain":
		return textCompare(c.Method, c.Value, a.Domain)
	}
	obj := func(side, f string) string {
		switch side + f {
		case "$sender.namespace":
			return a.SourceNamespace
		case "$sender.cluster":
			return a.SourceCluster
		case "$receiver.namespace":
			return a.DestinationNamespace
		case "$receiver.cluster":
			return a.DestinationCluster
		}
		return ""
	}
	brk := func(s string) string { return s[strings.Index(s, "[")+1 : len(s)-1] }
	switch {
	case strings.HasPrefix(c.Attr, "$sender."):
		v := obj("$sender.", c.Attr[len("$sender."):])
		if strings.HasPrefix(c.Value, "$receiver.") {
			w := obj("$receiver.", c.Value[len("$receiver."):])
			switch up(c.Method) {
			case "EQ":
				return v == w
			case "NEQ", "NE":
				return v != w
			}
			return false
		}
		return textCompare(c.Method, c.Value, v)
	case strings.HasPrefix(c.Attr, "$receiver."):
		return textCompare(c.Method, c.Value, obj("$receiver.", c.Attr[len("$receiver."):]))
	case strings.HasPrefix(c.Attr, "senderLabel["):
		v, ok := a.SourceLabels[brk(c.Attr)]
		if !ok {
			return false
		}
		if strings.HasPrefix(c.Value, "receiverLabel[") {
			w, ok := a.DestinationLabels[brk(c.Value)]
			if !ok {
				return false
			}
			switch up(c.Method) {
			case "EQ":
				return v == w
			case "NEQ", "NE":
				return v != w
			}
			return false
		}
		if up(c.Method) == "EX" {
			return true
		}
		return textCompare(c.Method, c.Value, v)
	case strings.HasPrefix(c.Attr, "receiverLabel["):
		v, ok := a.DestinationLabels[brk(c.Attr)]
		if !ok {
			return false
		}
		if up(c.Method) == "EX" {
			return true
		}
		return textCompare(c.Method, c.Value, v)
	case strings.HasPrefix(c.Attr, "jsonpath:"):
		v, present, defined := docValue(c.Attr, m, cur)
		if !defined {
			return false
		}
		return docCompare(c, v, present)
	}
	return false
}

// docValue finds the value a document condition refers to.  defined=false: there
// is no (current) document at all.
func docValue(attr string, m *Msg, cur *cursor) (v interface{}, present, defined bool) {
	if !m.Has {
		return nil, false, false
	}
	p := strings.TrimPrefix(attr, "jsonpath:")
	root := m.Doc
	switch {
	case p == "$KEY":
		if cur == nil {
			return nil, false, false
		}
		return cur.key, cur.entry, true
	case strings.HasPrefix(p, "$VALUE"):
		if cur == nil {
			return nil, false, false
		}
		if !cur.entry {
			return nil, false, true
		}
		root = cur.ev
		p = "$" + strings.TrimPrefix(p, "$VALUE")
	case strings.HasPrefix(p, "$RELATIVE"):
		if cur == nil {
			return nil, false, false
		}
		root = cur.val
		p = "$" + strings.TrimPrefix(p, "$RELATIVE")
	case strings.HasPrefix(p, "."):
		p = "$" + p
	}
	vs := jpath(p, root)
	if len(vs) == 0 {
		return nil, false, true
	}
	return vs[0], true, true
}

func isAbsent(v interface{}, present bool) bool {
	if !present || v == nil {
		return true
	}
	switch x := v.(type) {
	case string:
		return x == ""
	case []interface{}:
		return len(x) == 0
	}
	return false
}

func docText(v interface{}) string {
	switch x := v.(type) {
	case string:
		return x
	case bool:
		return strconv.FormatBool(x)
	case json.Number:
		return x.String()
	case float64:
		return strconv.FormatFloat(x, 'f', -1, 64)
	}
	b, _ := json.Marshal(v)
	return string(b)
}

// containerCompared is set when a condition compares a list or an object, which
// the documentation does not define.
var containerCompared bool

func docCompare(c *C, v interface{}, present bool) bool {
	meth := up(c.Method)
	if isAbsent(v, present) {
		return meth == "NEX"
	}
	switch meth {
	case "EX":
		return true
	case "NEX":
		return false
	}
	switch v.(type) {
	case map[string]interface{}, []interface{}:
		containerCompared = true
	}
	txt := docText(v)
	switch meth {
	case "RE":
		return reMatch(c.Value, txt)
	case "NRE":
		return !reMatch(c.Value, txt)
	case "IN", "IS":
		return inList(c.Value, txt)
	case "NIN":
		return !inList(c.Value, txt)
	}
	ref, rok := parseNum(c.Value)
	val, vok := parseNum(txt)
	if _, isObj := v.(map[string]interface{}); isObj {
		vok = false
	}
	if rok && vok {
		return numCompare(meth, val, ref)
	}
	switch meth {
	case "EQ":
		return !rok && !vok && txt == c.Value
	case "NEQ", "NE":
		return rok != vok || txt != c.Value
	}
	return false
}
