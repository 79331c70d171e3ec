package main

import (
	"encoding/json"
	"fmt"
	"net"
	"reflect"
	"sort"
	"strings"

	E "github.com/octarinesec/MAPL/MAPL_engine"
)

// baseMsg is the message most rules of the enumerations are written against.
func baseMsg() E.MessageAttributes {
	v := 1.2
	return E.MessageAttributes{
		MessageID: "m1", SourceService: "svc-a.ns1", DestinationService: "svc-b.ns2",
		SourceIp: "10.1.2.3", DestinationIp: "10.9.8.7", SourceNetIp: net.ParseIP("10.1.2.3"), DestinationNetIp: net.ParseIP("10.9.8.7"),
		SourceNamespace: "ns1", DestinationNamespace: "ns2", SourceCluster: "c1", DestinationCluster: "c2",
		RequestMethod: "GET", RequestPath: "/book/1", RequestHost: "host.example", DestinationPort: "8080",
		ContextProtocol: "HTTP", ContextType: "path", RequestSize: 100, RequestUseragent: "curl", Domain: "dom",
		EncryptionType: "tls", EncryptionVersion: &v, RequestTimeHoursFromMidnightUTC: 12.5,
		SourceLabels: map[string]string{"app": "x", "tier": "1"}, DestinationLabels: map[string]string{"app": "y", "tier": "1"},
	}
}

func mkMsg(f func(m *E.MessageAttributes)) *Msg {
	m := baseMsg()
	if f != nil {
		f(&m)
	}
	m.SourceNetIp = net.ParseIP(m.SourceIp)
	m.DestinationNetIp = net.ParseIP(m.DestinationIp)
	return &Msg{M: m}
}

// textAttributes are the names of the text fields of a message.
func textAttributes() []string {
	var out []string
	ty := reflect.TypeOf(E.MessageAttributes{})
	for i := 0; i < ty.NumField(); i++ {
		if ty.Field(i).Type.Kind() == reflect.String && ty.Field(i).PkgPath == "" {
			out = append(out, ty.Field(i).Name)
		}
	}
	return out
}

func setText(m *E.MessageAttributes, name, value string) {
	reflect.ValueOf(m).Elem().FieldByName(name).SetString(value)
}

// decode parses a document for the model (numbers keep their text).
func decode(doc string) interface{} {
	d := json.NewDecoder(strings.NewReader(doc))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		panic("bad model document " + doc)
	}
	return v
}

// withDoc returns a copy of m carrying doc in the given representation:
// "bytes", "iface".
func withDoc(m *Msg, doc, mode string) *Msg {
	n := &Msg{M: m.M, Has: true, Doc: decode(doc)}
	setDoc(&n.M, doc, mode)
	return n
}

func setDoc(a *E.MessageAttributes, doc, mode string) {
	switch mode {
	case "bytes":
		b := []byte(doc)
		a.RequestJsonRaw = &b
		a.RequestRawInterface = nil
	case "iface":
		var v interface{}
		if err := json.Unmarshal([]byte(doc), &v); err != nil {
			panic(err)
		}
		a.RequestRawInterface = &v
		a.RequestJsonRaw = nil
	case "both":
		b := []byte(doc)
		a.RequestJsonRaw = &b
		var v interface{}
		if err := json.Unmarshal([]byte(doc), &v); err != nil {
			panic(err)
		}
		a.RequestRawInterface = &v
	}
}

var modes = []string{"bytes", "iface"}

// expectDecision compares the decision of one rule with the model.
func (t *T) expectDecision(r *E.Rule, mr *R, m *Msg, what string) {
	t.Step()
	want := decide(mr, m)
	got, data := E.CheckOneRule(&m.M, r)
	if got != want {
		t.Fail("%s: decision %d, model says %d\nrule: %s\nmessage: %s", what, got, want, mr.Text(), msgText(m))
	}
	if got == dDefault && len(data) != 0 {
		t.Fail("%s: non-applying rule returned values %v", what, data)
	}
	t.Out(fmt.Sprintf("decision %d", got))
}

// expectSides compares the sender and receiver tests by themselves with the model.
func (t *T) expectSides(r *E.Rule, mr *R, m *Msg) {
	t.Steps(2)
	if got, want := E.TestSender(r, &m.M), partSender(mr, &m.M); got != want {
		t.Fail("sender: %v, model says %v\nrule: %s\nmessage: %s", got, want, mr.Text(), msgText(m))
	}
	if got, want := E.TestReceiver(r, &m.M), partReceiver(mr, &m.M); got != want {
		t.Fail("receiver: %v, model says %v\nrule: %s\nmessage: %s", got, want, mr.Text(), msgText(m))
	}
}

// expectCond compares the truth of the rule's conditions with the model.
func (t *T) expectCond(r *E.Rule, c *C, m *Msg, what string) bool {
	t.Step()
	want := holds(c, m, nil)
	got, _ := r.TestConditions(&m.M)
	if got != want {
		t.Fail("%s: conditions %v, model says %v\nconditions: %s\nmessage: %s", what, got, want, c.Text(), msgText(m))
	}
	t.Out(fmt.Sprint("conditions ", got))
	return got
}

func msgText(m *Msg) string {
	a := m.M
	var sb strings.Builder
	v := reflect.ValueOf(a)
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.IsZero() {
			continue
		}
		n := v.Type().Field(i).Name
		switch x := f.Interface().(type) {
		case *[]byte:
			fmt.Fprintf(&sb, "%s=%s ", n, string(*x))
		case *float64:
			fmt.Fprintf(&sb, "%s=%v ", n, *x)
		case *interface{}:
			b, _ := json.Marshal(*x)
			fmt.Fprintf(&sb, "%s=%s ", n, b)
		default:
			fmt.Fprintf(&sb, "%s=%v ", n, x)
		}
	}
	return sb.String()
}

// strsUpTo enumerates all strings up to length n over the alphabet.
func strsUpTo(alpha []string, n int) []string {
	out := []string{""}
	lvl := []string{""}
	for i := 0; i < n; i++ {
		var nx []string
		for _, s := range lvl {
			for _, a := range alpha {
				nx = append(nx, s+a)
			}
		}
		out = append(out, nx...)
		lvl = nx
	}
	return out
}

func uniq(in []string) []string {
	m := map[string]bool{}
	var out []string
	for _, s := range in {
		if !m[s] {
			m[s] = true
			out = append(out, s)
		}
	}
	return out
}

func swapCase(s string) string {
	return strings.Map(func(r rune) rune {
		switch {
		case r >= 'a' && r <= 'z':
			return r - 32
		case r >= 'A' && r <= 'Z':
			return r + 32
		}
		return r
	}, s)
}

// positions to deviate at in a sequence of n
func positions(n int) []int {
	if n <= 12 {
		var o []int
		for i := 0; i < n; i++ {
			o = append(o, i)
		}
		return o
	}
	m := map[int]bool{}
	var o []int
	for _, p := range []int{0, 1, 2, 3, n / 2, n - 3, n - 2, n - 1, 7, 8, 9, 15, 16, 31, 32, 63, 64} {
		if p >= 0 && p < n && !m[p] {
			m[p] = true
			o = append(o, p)
		}
	}
	return o
}

func sortedStr(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
