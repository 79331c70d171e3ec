package main

// Translation to Mongo queries (C18): a reference interpreter of the query
// operators and pipeline stages, written from the MongoDB manual.

import (
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	E "github.com/octarinesec/MAPL/MAPL_engine"
	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
)

func init() {
	register(&Prop{ID: "C18", Bounds: "all trees of up to 3 leaves and 2 quantifiers over absolute, relative and key/value leaves with every method and path spelling; all documents with 0-3 list elements or object entries over 2-4 values; 3 parent fields; all AND/OR/NOT trees to 6 nodes with every assignment, also inside quantifiers and negated", Gen: genC18,
		Assume: []string{"queries are run by a reference interpreter of the Mongo operators, there is no server here"}})
}

// plain turns bson values into maps, slices and scalars.
func plain(v interface{}) interface{} {
	switch x := v.(type) {
	case bson.M:
		o := map[string]interface{}{}
		for k, y := range x {
			o[k] = plain(y)
		}
		return o
	case map[string]interface{}:
		o := map[string]interface{}{}
		for k, y := range x {
			o[k] = plain(y)
		}
		return o
	case bson.D:
		o := map[string]interface{}{}
		for _, e := range x {
			o[e.Key] = plain(e.Value)
		}
		return o
	case primitive.Regex:
		return map[string]interface{}{"$regex": x.Pattern, "$options": x.Options}
	case nil, string, bool, float64:
		return x
	case json.Number:
		f, _ := x.Float64()
		return f
	case int, int32, int64, float32:
		return reflect.ValueOf(v).Convert(reflect.TypeOf(float64(0))).Float()
	}
	if r := reflect.ValueOf(v); r.Kind() == reflect.Slice {
		o := []interface{}{}
		for i := 0; i < r.Len(); i++ {
			o = append(o, plain(r.Index(i).Interface()))
		}
		return o
	}
	panic(violation{fmt.Sprintf("unexpected %T in a query", v)})
}

// found is one value a field path leads to; missing: the path ends early
type found struct {
	v       interface{}
	missing bool
}

// lookup follows a field path, through the elements of lists on the way.
func lookup(v interface{}, path []string) []found {
	if len(path) == 0 {
		return []found{{v: v}}
	}
	switch x := v.(type) {
	case map[string]interface{}:
		y, ok := x[path[0]]
		if !ok {
			return []found{{missing: true}}
		}
		return lookup(y, path[1:])
	case []interface{}:
		var out []found
		if i, err := strconv.Atoi(path[0]); err == nil && i >= 0 && i < len(x) {
			out = append(out, lookup(x[i], path[1:])...)
		}
		for _, e := range x {
			if o, ok := e.(map[string]interface{}); ok {
				out = append(out, lookup(o, path)...)
			}
		}
		if len(out) == 0 {
			out = append(out, found{missing: true})
		}
		return out
	}
	return []found{{missing: true}}
}

func mongoEq(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

func mongoOrd(op string, a, b interface{}) bool {
	c := 0
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		if !ok {
			return false
		}
		if x < y {
			c = -1
		} else if x > y {
			c = 1
		}
	case string:
		y, ok := b.(string)
		if !ok {
			return false
		}
		c = strings.Compare(x, y)
	default:
		return false
	}
	switch op {
	case "$gt":
		return c > 0
	case "$gte":
		return c >= 0
	case "$lt":
		return c < 0
	}
	return c <= 0
}

// anyOf: f on the values and, for lists, on their elements
func anyOf(fs []found, f func(v interface{}) bool) bool {
	for _, x := range fs {
		if x.missing {
			continue
		}
		if f(x.v) {
			return true
		}
		if l, ok := x.v.([]interface{}); ok {
			for _, e := range l {
				if f(e) {
					return true
				}
			}
		}
	}
	return false
}

func isOps(v interface{}) (map[string]interface{}, bool) {
	o, ok := v.(map[string]interface{})
	if !ok || len(o) == 0 {
		return nil, false
	}
	for k := range o {
		if !strings.HasPrefix(k, "$") {
			return nil, false
		}
	}
	return o, true
}

func fieldMatch(field string, cond interface{}, doc interface{}) bool {
	path := strings.Split(field, ".")
	for _, p := range path {
		if p == "" {
			return fieldOps([]found{{missing: true}}, cond) // no such field
		}
	}
	return fieldOps(lookup(doc, path), cond)
}

func fieldOps(fs []found, cond interface{}) bool {
	ops, ok := isOps(cond)
	if !ok {
		return fieldOps(fs, map[string]interface{}{"$eq": cond})
	}
	for op, arg := range ops {
		if !fieldOp(op, arg, ops, fs) {
			return false
		}
	}
	return true
}

func fieldOp(op string, arg interface{}, ops map[string]interface{}, fs []found) bool {
	switch op {
	case "$eq":
		if arg == nil {
			for _, x := range fs {
				if x.missing {
					return true
				}
			}
		}
		return anyOf(fs, func(v interface{}) bool { return mongoEq(v, arg) })
	case "$ne":
		return !fieldOp("$eq", arg, ops, fs)
	case "$gt", "$gte", "$lt", "$lte":
		return anyOf(fs, func(v interface{}) bool { return mongoOrd(op, v, arg) })
	case "$in":
		for _, a := range arg.([]interface{}) {
			if fieldOp("$eq", a, ops, fs) {
				return true
			}
		}
		return false
	case "$nin":
		return !fieldOp("$in", arg, ops, fs)
	case "$exists":
		has := false
		for _, x := range fs {
			has = has || !x.missing
		}
		want, isb := arg.(bool)
		if n, ok := arg.(float64); ok && !isb {
			want = n != 0
		}
		return has == want
	case "$regex":
		re := arg.(string)
		if o, ok := ops["$options"].(string); ok && o != "" {
			re = "(?" + o + ")" + re
		}
		r, err := regexp.Compile(re)
		if err != nil {
			panic(violation{"invalid regular expression in a query: " + re})
		}
		return anyOf(fs, func(v interface{}) bool { s, ok := v.(string); return ok && r.MatchString(s) })
	case "$options":
		return true
	case "$not":
		if s, ok := arg.(string); ok {
			arg = map[string]interface{}{"$regex": s}
		}
		return !fieldOps(fs, arg)
	case "$size":
		for _, x := range fs {
			if l, ok := x.v.([]interface{}); ok && float64(len(l)) == arg {
				return true
			}
		}
		return false
	case "$elemMatch":
		q := arg.(map[string]interface{})
		onValue := false
		if ops, ok := isOps(q); ok {
			onValue = true
			for k := range ops {
				if k == "$and" || k == "$or" || k == "$nor" {
					onValue = false
				}
			}
		}
		for _, x := range fs {
			l, ok := x.v.([]interface{})
			if !ok {
				continue
			}
			for _, e := range l {
				if onValue {
					if fieldOps([]found{{v: e}}, arg) {
						return true
					}
					continue
				}
				switch e.(type) {
				case map[string]interface{}, []interface{}:
					if mongoMatch(q, e) {
						return true
					}
				}
			}
		}
		return false
	}
	panic(violation{"unknown operator " + op})
}

func mongoMatch(q map[string]interface{}, doc interface{}) bool {
	for k, v := range q {
		switch k {
		case "$and", "$or", "$nor":
			l := v.([]interface{})
			if len(l) == 0 {
				panic(violation{k + " with an empty list"})
			}
			n := 0
			for _, x := range l {
				if mongoMatch(x.(map[string]interface{}), doc) {
					n++
				}
			}
			if k == "$and" && n != len(l) || k == "$or" && n == 0 || k == "$nor" && n != 0 {
				return false
			}
			continue
		}
		if strings.HasPrefix(k, "$") {
			panic(violation{"unknown top level operator: " + k})
		}
		if !fieldMatch(k, v, doc) {
			return false
		}
	}
	return true
}

// setField: $addFields of a value at a path, in every element of lists on the way
func setField(doc interface{}, path []string, v interface{}) interface{} {
	if len(path) == 0 {
		return v
	}
	if l, ok := doc.([]interface{}); ok {
		out := []interface{}{}
		for _, e := range l {
			out = append(out, setField(e, path, v))
		}
		return out
	}
	out := map[string]interface{}{}
	if o, ok := doc.(map[string]interface{}); ok {
		for k, x := range o {
			out[k] = x
		}
	}
	out[path[0]] = setField(out[path[0]], path[1:], v)
	return out
}

// mongoExpr evaluates the aggregation expressions used.
func mongoExpr(e interface{}, doc interface{}) interface{} {
	if s, ok := e.(string); ok && strings.HasPrefix(s, "$") {
		p := strings.Split(s[1:], ".")
		for _, x := range p {
			if x == "" {
				panic(violation{"invalid field path " + s})
			}
		}
		fs := lookup(doc, p)
		if len(fs) == 1 && !fs[0].missing {
			return fs[0].v
		}
		return nil
	}
	if o, ok := e.(map[string]interface{}); ok && len(o) == 1 {
		if a, ok := o["$objectToArray"]; ok {
			switch x := mongoExpr(a, doc).(type) {
			case nil:
				return nil
			case map[string]interface{}:
				out := []interface{}{}
				for _, c := range entries(x) {
					out = append(out, map[string]interface{}{"k": c.key, "v": c.ev})
				}
				return out
			default:
				panic(violation{"$objectToArray of something else"})
			}
		}
		if a, ok := o["$literal"]; ok {
			return a
		}
	}
	panic(violation{fmt.Sprintf("unknown expression %v", e)})
}

// selected runs the translation on a stored document.
func selected(r E.MaplToMongoResult, doc map[string]interface{}) bool {
	switch r.Type {
	case E.QueryTypeSimple:
		return mongoMatch(plain(r.Query).(map[string]interface{}), doc)
	case E.QueryTypeAggregate:
		var cur interface{} = doc
		for _, s := range plain(r.Query).([]interface{}) {
			for k, a := range s.(map[string]interface{}) {
				switch k {
				case "$addFields", "$set":
					src := cur
					for f, e := range a.(map[string]interface{}) {
						cur = setField(cur, strings.Split(f, "."), mongoExpr(e, src))
					}
				case "$match":
					if !mongoMatch(a.(map[string]interface{}), cur) {
						return false
					}
				default:
					panic(violation{"unknown stage " + k})
				}
			}
		}
		return true
	}
	panic(violation{"unknown query type " + string(r.Type)})
}

// stored puts the document under the field.
func stored(base string, doc interface{}) map[string]interface{} {
	doc = plain(doc)
	if base == "" {
		o := map[string]interface{}{"_id": 1.0}
		for k, v := range doc.(map[string]interface{}) {
			o[k] = v
		}
		return o
	}
	return setField(map[string]interface{}{"_id": 1.0}, strings.Split(base, "."), doc).(map[string]interface{})
}

var mongoBases = []string{"raw", "", "a.raw"}

func (t *T) expectSelects(c *C, docs []*Msg, bases []string) {
	mr := anyRule("block", c)
	rs := t.load(mr)
	t.prepare(rs)
	r := &rs.Rules[0]
	for _, b := range bases {
		t.Step()
		q, err := r.ToMongoQuery(b)
		if err != nil {
			t.Fail("no translation: %v", err)
		}
		for _, m := range docs {
			t.Step()
			want := holds(c, m, nil)
			got := selected(q, stored(b, m.Doc))
			t.Out(fmt.Sprint(got, q.Type))
			if got != want {
				t.Fail("document %s: selected %v, the condition is %v\nunder %q: %v", encode(m.Doc), got, want, b, q.Query)
			}
			t.State(encode(m.Doc))
		}
	}
	for _, m := range docs {
		if got, _ := r.TestConditions(&m.M); got != holds(c, m, nil) {
			t.Fail("document %s: the engine says %v", encode(m.Doc), got)
		}
	}
}

func encode(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}

func genC18(g *Gen) {
	mk := func(docs []string) []*Msg {
		var o []*Msg
		for _, d := range docs {
			o = append(o, withDoc(mkMsg(nil), d, "iface"))
		}
		return o
	}
	run := func(what string, c *C, docs []*Msg, bases []string) {
		g.Do(func(t *T) {
			t.Desc(func() string { return what + " " + c.Text() })
			t.State(c.Text())
			t.expectSelects(c, docs, bases)
		})
	}
	opt := func(k string, vals ...string) []string { // "" or "k":v
		o := []string{""}
		for _, v := range vals {
			o = append(o, js(k)+":"+v)
		}
		return o
	}
	cross := func(parts ...[]string) []string {
		out := []string{""}
		for _, p := range parts {
			var nx []string
			for _, a := range out {
				for _, b := range p {
					if a != "" && b != "" {
						nx = append(nx, a+","+b)
					} else {
						nx = append(nx, a+b)
					}
				}
			}
			out = nx
		}
		return out
	}
	wrap := func(l []string) []string {
		var o []string
		for _, x := range l {
			o = append(o, "{"+x+"}")
		}
		return o
	}
	text := func(a string) []*C {
		var o []*C
		for _, m := range []string{"EQ", "NEQ", "NE", "eq", "neq", "ne"} {
			for _, v := range []string{"s", "t", "S", "s t", "sx"} {
				o = append(o, leaf(a, m, v))
			}
		}
		for _, m := range []string{"RE", "NRE", "re", "nre"} {
			for _, v := range []string{"s", "^s$", "s|t", "[st]x?$", "^$", "x"} {
				o = append(o, leaf(a, m, v))
			}
		}
		for _, m := range []string{"IN", "NIN", "in", "nin", "IS"} {
			for _, v := range []string{"s", "s,t", "sx,u"} {
				o = append(o, leaf(a, m, v))
			}
		}
		return append(o, leaf(a, "EX", ""), leaf(a, "NEX", ""), leaf(a, "ex", ""), leaf(a, "nex", ""))
	}
	nums := func(a string) []*C {
		var o []*C
		for _, m := range []string{"EQ", "NEQ", "NE", "LT", "LE", "GT", "GE", "eq", "ne", "lt", "le", "gt", "ge"} {
			for _, v := range []string{"1", "0", "2.5", "-1", "10", "1.0"} {
				o = append(o, leaf(a, m, v))
			}
		}
		return append(o, leaf(a, "EX", ""), leaf(a, "NEX", ""))
	}
	tv := []string{`"s"`, `"t"`, `"S"`, `"sx"`, `"s t"`}
	nv := []string{"0", "1", "2.5", "-1", "10"}

	// single leaves, every spelling of the path
	flatT := mk(wrap(cross(opt("a", tv...), opt("o", "{}", `{"x":"s"}`, `{"x":"t","k-y":"s"}`, `{"k-y":"sx"}`, `{"x":{"y":"s"}}`), opt("b", `"s"`))))
	for _, p := range []string{"$.a", ".a", "$.o.x", `$.o["x"]`, "$.o['x']", "$.o.'x'", `$.o."x"`, `$.["o"]["x"]`, "$.o.k-y", `$.o["k-y"]`, "$.o['k-y']", "$.b", "$.o.x.y", `$.o["x"].y`, "$.zz", "$.o.zz.y"} {
		docs := flatT
		if p == "$.o.x" || strings.HasSuffix(p, "x\"]") || strings.HasSuffix(p, "'x'") || strings.HasSuffix(p, "'x']") || strings.HasSuffix(p, `"x"`) {
			docs = mk(wrap(cross(opt("a", tv...), opt("o", "{}", `{"x":"s"}`, `{"x":"t","k-y":"s"}`, `{"k-y":"sx"}`))))
		}
		for _, c := range text("jsonpath:" + p) {
			run("text", c, docs, mongoBases)
			run("not text", not(c), docs, mongoBases[:1])
		}
	}
	for _, c := range []*C{leaf(`jsonpath:$.o["a.b"]`, "EQ", "s"), leaf(`jsonpath:$.o["a.b"]`, "EX", ""), any_(`jsonpath:$.o["l.m"][:]`, rel(".x", "EQ", "1"))} {
		run("name with a dot", c, mk([]string{"{}", `{"o":{"a.b":"s"}}`, `{"o":{"a":{"b":"s"}}}`, `{"o":{"l.m":[{"x":1}]}}`, `{"o":{"l":{"m":[{"x":1}]}}}`}), mongoBases[:1])
	}
	for _, v := range []string{"nan", "NaN", "inf", "Infinity", "0x10", "$s", "s.t", "*", "s*", "true", "null", "[s]", "{}", "\"s\"", " s", "a\\b", "é"} {
		for _, m := range []string{"EQ", "NEQ"} {
			run("odd text", leaf("jsonpath:$.a", m, v), mk([]string{"{}", `{"a":"s"}`, `{"a":` + js(v) + `}`, `{"a":"st"}`}), mongoBases[:1])
		}
	}
	flatN := mk(wrap(cross(opt("n", nv...), opt("o", "{}", `{"x":1}`, `{"x":2.5}`, `{"x":-1,"n":10}`), opt("l", "[]", `[{"x":1}]`, `[{"x":10},{"x":2.5}]`, `[{},{"x":1}]`))))
	for _, p := range []string{"$.n", "$.o.x", "$.l[0].x", "$.l[1].x", `$.l[1]["x"]`, ".n"} {
		for _, c := range nums("jsonpath:" + p) {
			run("number", c, flatN, mongoBases)
			run("not number", not(c), flatN, mongoBases[:1])
		}
	}
	// all trees of up to 6 nodes, every assignment, also below ANY and ALL
	for n := 1; n <= g.Pick(6, 7); n++ {
		for _, s := range shapes(n) {
			c, k := instantiate(s, func(i int) *C { return leaf(fmt.Sprintf("jsonpath:$.v%d", i), "EQ", "1") })
			if k > 4 {
				continue
			}
			var ds []string
			for a := 0; a < 1<<uint(k); a++ {
				var p []string
				for i := 0; i < k; i++ {
					p = append(p, fmt.Sprintf(`"v%d":%d`, i, a>>uint(i)&1))
				}
				ds = append(ds, strings.Join(p, ","))
			}
			run("tree", c, mk(wrap(ds)), mongoBases[:1])
			if n > g.Pick(5, 6) {
				continue
			}
			q, _ := instantiate(s, func(i int) *C { return rel(fmt.Sprintf(".v%d", i), "EQ", "1") })
			ld := []string{"{}", `{"l":[]}`}
			for i := range ds {
				ld = append(ld, `{"l":[{`+ds[i]+`}]}`, `{"l":[{`+ds[i]+`},{`+ds[(i*5+3)%len(ds)]+`}]}`)
			}
			quants(func(op string, qf func(string, *C) *C) {
				run("tree in "+op, qf("jsonpath:$.l[:]", q), mk(ld), mongoBases[:1])
				run("tree in "+op, not(qf("jsonpath:$.l[:]", q)), mk(ld), mongoBases[:1])
			})
		}
	}
	// ordering against values with units
	unitN := mk(wrap(cross(opt("n", "0", "1", "0.25", "-0.25", "999", "1000", "1001", "1023", "1024", "1025", "2000000", "2097152", "2097153"), opt("o", "{}", `{"x":1024}`, `{"x":1536}`, `{"x":0.5}`))))
	for _, p := range []string{"$.n", "$.o.x"} {
		for _, m := range []string{"LT", "LE", "GT", "GE", "lt", "ge"} {
			for _, v := range []string{"1Ki", "1K", "2Mi", "2M", "250m", "-250m", "1.5Ki", "0Ki", "500m"} {
				run("units", leaf("jsonpath:"+p, m, v), unitN, mongoBases)
				run("not units", not(leaf("jsonpath:"+p, m, v)), unitN, mongoBases[:1])
			}
		}
	}
	anyV := mk(wrap(cross(opt("a", `"s"`, "1", "0", "true", "false", `{"x":1}`, `[1]`, `[{"x":1}]`, `["s"]`), opt("o", `{"x":false}`, `{"x":{"y":0}}`, `{"x":[0]}`))))
	for _, p := range []string{"$.a", "$.o.x", "$.o.x.y", `$.o["x"]`} {
		for _, m := range []string{"EX", "NEX", "ex", "nex"} {
			run("presence", leaf("jsonpath:"+p, m, ""), anyV, mongoBases)
		}
	}

	// Boolean trees over absolute leaves
	L := []*C{leaf("jsonpath:$.a", "EQ", "s"), leaf("jsonpath:$.a", "NEQ", "s"), leaf("jsonpath:$.a", "NRE", "^s"), leaf("jsonpath:$.n", "LT", "2"), leaf("jsonpath:$.n", "NEX", ""), leaf("jsonpath:$.o.x", "IN", "s,t"), leaf("jsonpath:$.o.x", "EX", "")}
	boolDocs := mk(wrap(cross(opt("a", `"s"`, `"t"`), opt("n", "1", "10"), opt("o", "{}", `{"x":"s"}`, `{"x":"u"}`))))
	for _, c := range boolTrees(L, g.Thorough()) {
		run("tree", c, boolDocs, mongoBases[:1])
	}

	// lists
	elems := wrap(cross(opt("x", "1", "2"), opt("s", `"s"`, `"t"`)))
	var lists []string
	for _, ls := range seqsOf(elems, g.Pick(2, 3)) {
		lists = append(lists, "["+strings.Join(ls, ",")+"]")
	}
	lists = append(lists, `[{"x":2},{"x":2},{"x":1}]`, `[{"x":1},{"x":1},{"x":1},{"x":1}]`, `[{},{},{}]`)
	at := func(path []string, vals []string) []*Msg { // the list under a path, absent, and beside a decoy
		docs := []string{"{}", `{"d":[{"x":1,"s":"s"}]}`}
		for _, v := range vals {
			d := v
			for i := len(path) - 1; i >= 0; i-- {
				d = "{" + js(path[i]) + ":" + d + "}"
			}
			docs = append(docs, d)
		}
		return mk(docs)
	}
	RL := []*C{rel(".x", "EQ", "1"), rel(".x", "NEQ", "1"), rel(".x", "GT", "1"), rel(".s", "EQ", "s"), rel(".s", "NRE", "^s"), rel(".s", "NIN", "t,u"), rel(".s", "EX", ""), rel(".x", "NEX", ""), rel(`["x"]`, "LE", "1")}
	RL[8] = leaf(`jsonpath:$RELATIVE.["x"]`, "LE", "1")
	bodies := boolTrees(RL[:5], g.Thorough())
	for _, q := range []string{"ANY", "ALL"} {
		quant := func(p string, c *C) *C { return &C{Op: q, Parent: p, Kids: []*C{c}} }
		for _, pp := range []struct {
			p    string
			path []string
		}{{"jsonpath:$.l[:]", []string{"l"}}, {"jsonpath:$.l[*]", []string{"l"}}, {"jsonpath:$.l", []string{"l"}}, {"jsonpath:.l[:]", []string{"l"}}, {"jsonpath:$.o.l[:]", []string{"o", "l"}}, {`jsonpath:$.o["l"][:]`, []string{"o", "l"}}, {`jsonpath:$.['o'].l[:]`, []string{"o", "l"}}, {`jsonpath:$.o.'k-y'[:]`, []string{"o", "k-y"}}, {"jsonpath:$.o.k-y[:]", []string{"o", "k-y"}}} {
			docs := at(pp.path, lists)
			for _, c := range append(append([]*C{}, RL...), and(RL[0], RL[3]), or(RL[1], not(RL[4]))) {
				run("list", quant(pp.p, c), docs, mongoBases)
				run("list", not(quant(pp.p, c)), docs, mongoBases[:1])
			}
		}
		docs := at([]string{"l"}, lists)
		for _, c := range bodies {
			run("list body", quant("jsonpath:$.l[:]", c), docs, mongoBases[:1])
		}
		// several parents
		two := mk(wrap(cross(opt("l", "[]", `[{"x":1}]`, `[{"x":2},{"x":1}]`), opt("m", "[]", `[{"x":1}]`, `[{"x":2},{"x":1}]`), opt("o", `{"l":[{"x":1}]}`, `{"l":[{"x":2}]}`))))
		for _, p := range []string{"jsonpath:$.l[:],jsonpath:$.m[:]", "jsonpath:$.l[:],$.m[:]", "jsonpath:$.m[:],$.o.l[:],$.l[:]"} {
			for _, c := range RL {
				run("parents", quant(p, c), two, mongoBases)
				run("parents", not(quant(p, c)), two, mongoBases[:1])
			}
		}
		// combinations of quantifiers
		for _, q2 := range []string{"ANY", "ALL"} {
			c1, c2 := quant("jsonpath:$.l[:]", RL[0]), &C{Op: q2, Parent: "jsonpath:$.m[:]", Kids: []*C{or(RL[2], RL[3])}}
			for _, c := range []*C{and(c1, c2), or(c1, c2), and(c1, not(c2)), not(or(c2, c1)), and(c1, L[0]), or(not(c2), L[4], c1)} {
				run("combined", c, two, mongoBases[:2])
			}
			inner := func(p string, c *C) *C { return &C{Op: q2, Parent: p, Kids: []*C{c}} }
			// nested
			sub := []string{"", `"m":[]`, `"m":[{"x":1}]`, `"m":[{"x":2},{"x":1}]`, `"m":[{"x":2,"s":"s"}]`, `"s":"s","m":[{"x":1},{"x":1}]`, `"s":"s"`, `"p":{"m":[{"x":1}]}`}
			var nl []string
			for _, ls := range seqsOf(wrap(sub), 2) {
				nl = append(nl, "["+strings.Join(ls, ",")+"]")
			}
			nd := at([]string{"l"}, nl)
			for _, ip := range []string{"jsonpath:$RELATIVE.m[:]", "jsonpath:$RELATIVE.m", "jsonpath:$RELATIVE.p.m[:]", `jsonpath:$RELATIVE.["m"][:]`, "jsonpath:$RELATIVE.m[*]"} {
				for _, c := range RL[:5] {
					run("nested", quant("jsonpath:$.l[:]", inner(ip, c)), nd, mongoBases)
					run("nested", quant("jsonpath:$.l[:]", and(rel(".s", "EQ", "s"), inner(ip, c))), nd, mongoBases[:1])
					run("nested", quant("jsonpath:$.l[:]", or(not(inner(ip, not(c))), rel(".s", "EQ", "s"))), nd, mongoBases[:1])
					run("nested", not(quant("jsonpath:$.l[:]", not(inner(ip, c)))), nd, mongoBases[:1])
				}
			}
		}
		// paths through two lists
		deep2 := at([]string{"l"}, []string{"[]", `[{"m":[]}]`, `[{"m":[{"x":1}]}]`, `[{"m":[{"x":1}]},{"m":[{"x":2}]}]`, `[{"m":[{"x":2}]},{"m":[{"x":2},{"x":1}]}]`, `[{"m":[{"x":2},{"x":2}]}]`})
		for _, c := range RL[:3] {
			run("two lists", quant("jsonpath:$.l[:].m[:]", c), deep2, mongoBases)
		}
	}

	// keys and values of objects
	KV := []*C{keyIs("EQ", "k"), keyIs("NEQ", "k"), keyIs("RE", "^k"), keyIs("NIN", "k,j"), keyIs("EX", ""), valIs("", "EQ", "s"), valIs("", "NEQ", "s"), valIs("", "NRE", "^s"), valIs("", "IN", "s,t"), valIs("", "EX", "")}
	var objs []string
	for _, o := range cross(opt("k", `"s"`, `"t"`), opt("j", `"s"`, `"t"`), opt("kk", `"s"`, `"u"`)) {
		objs = append(objs, "{"+o+"}")
	}
	kvDocs := map[string][]*Msg{"jsonpath:$.o": at([]string{"o"}, objs), "jsonpath:$.p.q": at([]string{"p", "q"}, objs), `jsonpath:$.p["q"]`: at([]string{"p", "q"}, objs), "jsonpath:.o": at([]string{"o"}, objs)}
	for _, p := range []string{"jsonpath:$.o", "jsonpath:$.p.q", `jsonpath:$.p["q"]`, "jsonpath:.o"} {
		for _, c := range KV {
			run("entries", any_(p, c), kvDocs[p], mongoBases)
			run("entries", not(any_(p, c)), kvDocs[p], mongoBases[:1])
		}
	}
	for _, c := range boolTrees([]*C{KV[0], KV[1], KV[5], KV[6], KV[2]}, g.Thorough()) {
		run("entry body", any_("jsonpath:$.o", c), kvDocs["jsonpath:$.o"], mongoBases[:1])
	}
	for _, c := range []*C{leaf("jsonpath:$.a", "EQ", "s"), any_("jsonpath:$.o", KV[6]), any_("jsonpath:$.r", KV[5]), any_("jsonpath:$.l[:]", rel(".x", "EQ", "1"))} {
		two := mk(wrap(cross(opt("o", "{}", `{"k":"s"}`, `{"k":"t","j":"s"}`), opt("r", `{"k":"s"}`, `{"j":"t"}`), opt("a", `"s"`), opt("l", `[{"x":1}]`))))
		for _, k := range KV[:7] {
			run("entries and more", and(any_("jsonpath:$.o", k), c), two, mongoBases)
			run("entries and more", or(c, not(any_("jsonpath:$.o", k))), two, mongoBases[:1])
			run("entries and more", not(and(any_("jsonpath:$.o", k), not(c))), two, mongoBases[:1])
		}
	}
	// values with fields, numbers as values
	vf := at([]string{"o"}, wrap(cross(opt("k", `{"x":1}`, `{"x":2}`, `{}`), opt("j", `{"x":1}`, `{"y":{"z":1}}`))))
	for _, c := range []*C{valIs(".x", "EQ", "1"), valIs(".x", "NEQ", "1"), valIs(".x", "LT", "2"), valIs(".x", "EX", ""), valIs(".x", "NEX", ""), valIs(".y.z", "EQ", "1"), valIs(`["x"]`, "EQ", "1")} {
		run("fields of values", any_("jsonpath:$.o", c), vf, mongoBases)
		run("fields of values", any_("jsonpath:$.o", and(c, keyIs("EQ", "k"))), vf, mongoBases[:1])
		run("fields of values", any_("jsonpath:$.o", not(c)), vf, mongoBases[:1])
	}
	vn := at([]string{"o"}, wrap(cross(opt("k", "1", "2"), opt("j", "1", "2.5"))))
	for _, m := range []string{"EQ", "NEQ", "LT", "GE"} {
		for _, v := range []string{"1", "2", "2.5"} {
			run("numbers of values", any_("jsonpath:$.o", valIs("", m, v)), vn, mongoBases)
		}
	}
	// objects inside objects
	oo := mk(wrap(cross(opt("o", "{}", `{"p":{}}`, `{"p":{"k":"s"}}`, `{"p":{"k":"t"},"k":"s"}`, `{"p":{"k":"s"},"k":"s"}`, `{"k":"s"}`))))
	for _, c := range []*C{and(any_("jsonpath:$.o", KV[0]), any_("jsonpath:$.o.p", KV[5])), and(any_("jsonpath:$.o.p", KV[5]), any_("jsonpath:$.o", KV[0])), or(any_("jsonpath:$.o.p", KV[6]), any_("jsonpath:$.o", KV[0])), or(any_("jsonpath:$.o", KV[0]), any_("jsonpath:$.o.p", KV[6]))} {
		run("object in object", c, oo, mongoBases)
	}

	// no conditions: everything is selected
	g.Do(func(t *T) {
		t.Desc(func() string { return "no conditions" })
		t.State("none")
		rs := t.load(anyRule("block", nil))
		q, err := rs.Rules[0].ToMongoQuery("raw")
		if err != nil || !selected(q, stored("raw", map[string]interface{}{})) {
			t.Fail("no conditions: %v %v", q, err)
		}
	})

	// no translation
	leafs := []*C{leaf("payloadSize", "GT", "1"), leaf("domain", "EQ", "s"), leaf("requestUseragent", "RE", "x"), leaf("encryptionType", "EQ", "x"), leaf("encryptionVersion", "GT", "1"), leaf("utcHoursFromMidnight", "LT", "5"), leaf("$sender.namespace", "EQ", "a"), leaf("$receiver.cluster", "EX", ""), leaf("senderLabel[a]", "EQ", "b"), leaf("receiverLabel[a]", "NEX", ""), leaf("true", "EQ", ""), leaf("FALSE", "EQ", ""), leaf("jsonpath:$..a", "EQ", "s"), leaf("jsonpath:$.a..b", "EX", ""), leaf("jsonpath:$.o.p..b", "EX", "")}
	var bad []*C
	ok := leaf("jsonpath:$.a", "EQ", "s")
	for _, l := range leafs {
		bad = append(bad, l, not(l), and(l, ok), and(ok, l), or(ok, not(l)), and(ok, or(ok, ok, l)))
		if !strings.HasPrefix(l.Attr, "jsonpath:") {
			bad = append(bad, any_("jsonpath:$.l[:]", l), all_("jsonpath:$.l[:]", and(rel(".x", "EQ", "1"), l)), any_("jsonpath:$.o", and(keyIs("EQ", "k"), l)))
		}
	}
	for _, l := range KV {
		for _, q := range []func(string, *C) *C{any_, all_} {
			bad = append(bad, q("jsonpath:$.l[:]", l), q("jsonpath:$.l[:]", not(l)), q("jsonpath:$.o.l[:]", and(rel(".x", "EQ", "1"), l)), q("jsonpath:$.l[:]", any_("jsonpath:$RELATIVE.o", l)), q("jsonpath:$.l[:]", any_("jsonpath:$RELATIVE.m[:]", l)), and(ok, q("jsonpath:$.l[*]", l)), q("jsonpath:$.l[:]", all_("jsonpath:$RELATIVE.o", or(l, l))))
		}
		bad = append(bad, all_("jsonpath:$.o", l), all_("jsonpath:$.o", not(l)), not(all_("jsonpath:$.o", l)), and(ok, all_("jsonpath:$.o", and(l, l))))
	}
	for _, p := range []string{"jsonpath:$..l[:]", "jsonpath:$..l", "jsonpath:$.o..l[:]", "jsonpath:$..*", "jsonpath:$.l[:]..m[:]", "jsonpath:$.l[:],$..m[:]", "jsonpath:$..m[:],$.l[:]"} {
		for _, l := range []*C{rel(".x", "EQ", "1"), not(rel(".s", "EX", ""))} {
			bad = append(bad, any_(p, l), all_(p, l), not(any_(p, l)), and(ok, any_(p, l)))
		}
	}
	for _, p := range []string{"jsonpath:$RELATIVE..m[:]", "jsonpath:$RELATIVE.p..m"} {
		bad = append(bad, any_("jsonpath:$.l[:]", any_(p, rel(".x", "EQ", "1"))), all_("jsonpath:$.l[:]", and(rel(".x", "EQ", "1"), not(all_(p, rel(".x", "EQ", "1"))))))
	}
	// absolute paths inside a list quantifier
	for _, l := range []*C{ok, leaf("jsonpath:.a", "EQ", "s"), any_("jsonpath:$.m[:]", rel(".x", "EQ", "1")), all_("jsonpath:$.m[:]", rel(".x", "EQ", "1"))} {
		bad = append(bad, any_("jsonpath:$.l[:]", l), any_("jsonpath:$.l[:]", and(rel(".x", "EQ", "1"), not(l))), all_("jsonpath:$.l[:]", or(rel(".x", "EQ", "1"), l)), any_("jsonpath:$.l[:]", all_("jsonpath:$RELATIVE.m[:]", l)), any_("jsonpath:$.o", and(keyIs("EQ", "k"), l)))
	}
	for _, p := range []string{"jsonpath:$.*", "jsonpath:$.o.*", "jsonpath:$.l[:].*", "jsonpath:$*"} {
		bad = append(bad, any_(p, rel(".x", "EQ", "1")), all_(p, not(rel(".x", "EQ", "1"))), any_("jsonpath:$.l[:]", any_(strings.Replace(p, "$", "$RELATIVE", 1), rel(".x", "EQ", "1"))))
	}
	// the element itself
	for _, l := range []*C{rel("", "EQ", "s"), rel("", "GT", "1"), rel("", "EX", "")} {
		bad = append(bad, any_("jsonpath:$.l[:]", l), all_("jsonpath:$.l[:]", not(l)), any_("jsonpath:$.l[:]", any_("jsonpath:$RELATIVE", l)))
	}
	for _, c := range bad {
		c := c
		g.Do(func(t *T) {
			t.Desc(func() string { return "no translation " + c.Text() })
			t.State("bad", c.Text())
			rs, err := E.YamlReadRulesFromString(`{"rules": [` + anyRule("block", c).Text() + `]}`)
			if err != nil {
				t.Out("not accepted")
				return
			}
			for i := 0; i < 2; i++ { // again: an error must not go away
				t.Step()
				q, err := rs.Rules[0].ToMongoQuery("raw")
				if err == nil {
					t.Fail("translated to %v", q)
				}
			}
			t.Out("no translation")
		})
	}
	// references to definitions are expanded before the translation
	for i, d := range histDefs {
		i, d := i, d
		g.Do(func(t *T) {
			t.Desc(func() string { return fmt.Sprint("definitions ", i) })
			t.State("defs", fmt.Sprint(i))
			for _, c := range []*C{leaf("jsonpath:$.a", "EQ", "#s"), leaf("jsonpath:$.a", "IN", "#l"), any_("jsonpath:$.l[:]", rel(".s", "NEQ", "#s"))} {
				mr := anyRule("block", c)
				rs := t.load(mr)
				r := &rs.Rules[0]
				p := t.readDefs(d)
				serr := r.SetPredefinedStringsAndLists(p)
				q, err := r.ToMongoQuery("raw")
				e, ok := d.expandRule(mr)
				if !ok {
					if serr == nil || err == nil {
						t.Fail("undefined reference translated: %v %v", serr, q)
					}
					continue
				}
				if serr != nil || err != nil {
					t.Fail("%v %v", serr, err)
				}
				for _, m := range mk([]string{"{}", `{"a":"dom"}`, `{"a":"other"}`, `{"a":"q"}`, `{"a":"#s"}`, `{"l":[{"s":"dom"}]}`, `{"l":[{"s":"x"}]}`, `{"l":[{"s":"other"}]}`}) {
					if selected(q, stored("raw", m.Doc)) != holds(e.Cond, m, nil) {
						t.Fail("%s: %v", encode(m.Doc), q)
					}
				}
			}
		})
	}
}

// boolTrees: leaves, negations, pairs, and pairs with a nested pair
func boolTrees(L []*C, full bool) []*C {
	var out []*C
	for _, a := range L {
		out = append(out, a, not(a), not(not(a)), and(a), or(a))
		for _, b := range L {
			out = append(out, and(a, b), or(a, b), not(and(a, b)), not(or(a, b)), and(a, not(b)), or(not(a), b))
		}
	}
	for i, a := range L {
		for j, b := range L {
			for k, c := range L {
				if !full && (i+2*j+3*k)%3 != 0 {
					continue
				}
				out = append(out, and(a, or(b, c)), or(a, and(b, c)), and(a, b, c), or(a, b, not(c)), not(and(not(a), or(b, c))))
			}
		}
	}
	return out
}

// seqsOf: all sequences of up to n elements
func seqsOf(e []string, n int) [][]string {
	out := [][]string{{}}
	last := out
	for i := 0; i < n; i++ {
		var nx [][]string
		for _, s := range last {
			for _, x := range e {
				nx = append(nx, append(append([]string{}, s...), x))
			}
		}
		out = append(out, nx...)
		last = nx
	}
	return out
}
