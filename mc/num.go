package main

// Exact numbers for the model: decimal literal times a unit factor, rounded to
// the precision a float64 based engine can be expected to have only where the
// value itself came from a float64.

import (
	"math/big"
	"regexp"
	"strconv"
	"strings"
)

type num struct{ r *big.Rat }

func (a num) cmp(b num) int { return a.r.Cmp(b.r) }

func numInt(i int64) num     { return num{new(big.Rat).SetInt64(i)} }
func numFloat(f float64) num { r := new(big.Rat); r.SetFloat64(f); return num{r} }

var decimalRe = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$`)
var intRe = regexp.MustCompile(`^[+-]?[0-9]+$`)

type unit struct {
	s string
	f string
}

// order does not matter here: suffixes are matched longest first
var units = []unit{
	{"e12", "1000000000000"}, {"e15", "1000000000000000"}, {"e18", "1000000000000000000"},
	{"e3", "1000"}, {"e6", "1000000"}, {"e9", "1000000000"},
	{"Ki", "1024"}, {"Mi", "1048576"}, {"Gi", "1073741824"}, {"Ti", "1099511627776"}, {"Pi", "1125899906842624"}, {"Ei", "1152921504606846976"},
	{"K", "1000"}, {"M", "1000000"}, {"G", "1000000000"}, {"T", "1000000000000"}, {"P", "1000000000000000"}, {"E", "1000000000000000000"},
	{"%", "1/100"}, {"m", "1/1000"},
}

func parseDec(s string) (*big.Rat, bool) {
	if !decimalRe.MatchString(s) {
		return nil, false
	}
	r := new(big.Rat)
	if _, ok := r.SetString(strings.TrimPrefix(s, "+")); !ok {
		return nil, false
	}
	return r, true
}

// parseNum: decimal number with an optional unit suffix.  The result is
// rounded to float64 the way "number times factor" is.
func parseNum(s string) (num, bool) {
	for _, u := range units {
		if strings.HasSuffix(s, u.s) {
			base := s[:len(s)-len(u.s)]
			if strings.Contains(base, u.s) {
				continue
			}
			if _, ok := parseDec(base); ok {
				f, _ := new(big.Rat).SetString(u.f)
				b, _ := strconv.ParseFloat(base, 64)
				ff, _ := f.Float64()
				return numFloat(b * ff), true
			}
			return num{}, false
		}
	}
	if r, ok := parseDec(s); ok {
		f, _ := r.Float64()
		return numFloat(f), true
	}
	return num{}, false
}

func parseInt(s string) (num, bool) {
	if !intRe.MatchString(s) {
		return num{}, false
	}
	i, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return num{}, false
	}
	return numInt(i), true
}
