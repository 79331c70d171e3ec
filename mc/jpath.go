package main

// Reference JSONPath: $ followed by .name, .'name', ."name", ['name'],
// ["name"], [index], [:], [*], .*, ..name.

import (
	"strconv"
	"strings"
)

type seg struct {
	kind string // name, index, all, deep
	name string
	idx  int
}

func parsePath(p string) []seg {
	var out []seg
	i := 0
	if strings.HasPrefix(p, "$") {
		i = 1
	}
	for i < len(p) {
		switch {
		case strings.HasPrefix(p[i:], ".."):
			i += 2
			j := i
			for j < len(p) && p[j] != '.' && p[j] != '[' {
				j++
			}
			out = append(out, seg{kind: "deep", name: p[i:j]})
			i = j
		case p[i] == '.':
			i++
			if i < len(p) && (p[i] == '\'' || p[i] == '"') {
				q := p[i]
				j := strings.IndexByte(p[i+1:], q) + i + 1
				out = append(out, seg{kind: "name", name: p[i+1 : j]})
				i = j + 1
				continue
			}
			if i < len(p) && p[i] == '[' {
				continue
			}
			j := i
			for j < len(p) && p[j] != '.' && p[j] != '[' {
				j++
			}
			if p[i:j] == "*" {
				out = append(out, seg{kind: "all"})
			} else {
				out = append(out, seg{kind: "name", name: p[i:j]})
			}
			i = j
		case p[i] == '[':
			if p[i+1] == '\'' || p[i+1] == '"' {
				q := p[i+1]
				j := strings.IndexByte(p[i+2:], q) + i + 2
				out = append(out, seg{kind: "name", name: p[i+2 : j]})
				i = j + 2
				continue
			}
			j := strings.IndexByte(p[i:], ']') + i
			in := p[i+1 : j]
			if in == ":" {
				out = append(out, seg{kind: "elems"})
			} else if in == "*" {
				out = append(out, seg{kind: "all"})
			} else {
				n, _ := strconv.Atoi(in)
				out = append(out, seg{kind: "index", idx: n})
			}
			i = j + 1
		default:
			panic("bad path " + p)
		}
	}
	return out
}

var pathCache = map[string][]seg{}

func jpath(p string, v interface{}) []interface{} {
	s, ok := pathCache[p]
	if !ok {
		s = parsePath(p)
		pathCache[p] = s
	}
	return walk(s, v)
}

func walk(s []seg, v interface{}) []interface{} {
	if len(s) == 0 {
		return []interface{}{v}
	}
	switch s[0].kind {
	case "name":
		if o, ok := v.(map[string]interface{}); ok {
			if x, ok := o[s[0].name]; ok {
				return walk(s[1:], x)
			}
		}
		return nil
	case "index":
		if a, ok := v.([]interface{}); ok && s[0].idx >= 0 && s[0].idx < len(a) {
			return walk(s[1:], a[s[0].idx])
		}
		return nil
	case "elems":
		var out []interface{}
		if a, ok := v.([]interface{}); ok {
			for _, x := range a {
				out = append(out, walk(s[1:], x)...)
			}
		}
		return out
	case "all":
		var out []interface{}
		switch a := v.(type) {
		case []interface{}:
			for _, x := range a {
				out = append(out, walk(s[1:], x)...)
			}
		case map[string]interface{}:
			for _, e := range entries(a) {
				out = append(out, walk(s[1:], e.ev)...)
			}
		}
		return out
	case "deep":
		var out []interface{}
		deep(v, func(o map[string]interface{}) {
			if x, ok := o[s[0].name]; ok {
				out = append(out, walk(s[1:], x)...)
			}
		})
		return out
	}
	return nil
}

func deep(v interface{}, f func(map[string]interface{})) {
	switch x := v.(type) {
	case map[string]interface{}:
		f(x)
		for _, e := range entries(x) {
			deep(e.ev, f)
		}
	case []interface{}:
		for _, y := range x {
			deep(y, f)
		}
	}
}
