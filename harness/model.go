package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"unicode/utf8"
)

// Inst is one occurrence of a property, as the specification sees it.
type Inst struct {
	T string `json:"t"`
	V Strs   `json:"v"`
	A Params `json:"a"`
}

// Comp is a component, as the specification sees it.
type Comp struct {
	C string             `json:"c"`
	P map[string][]*Inst `json:"p"`
	S map[string][]*Comp `json:"s"`
}

// Strs is a list of strings, never nil.
type Strs []string

// Params maps parameter names to their values.
type Params map[string]Strs

// The JSON form of an empty TLA+ function is an empty list.
func emptyFcn(b []byte) bool {
	s := strings.TrimSpace(string(b))
	return s == "[]" || s == "null" || s == "{}"
}

func (p *Params) UnmarshalJSON(b []byte) error {
	*p = Params{}
	if emptyFcn(b) {
		return nil
	}
	return json.Unmarshal(b, (*map[string]Strs)(p))
}

// MarshalJSON writes the form that the specification reads.
func (p Params) MarshalJSON() ([]byte, error) {
	return fcn(map[string]Strs(p))
}

func (s Strs) MarshalJSON() ([]byte, error) {
	if len(s) == 0 {
		return []byte("[]"), nil
	}
	return json.Marshal([]string(s))
}

func fcn[T any](m map[string]T) ([]byte, error) {
	if len(m) == 0 {
		return []byte("[]"), nil
	}
	return json.Marshal(m)
}

func (c *Comp) MarshalJSON() ([]byte, error) {
	p, err := fcn(c.P)
	if err != nil {
		return nil, err
	}
	s, err := fcn(c.S)
	if err != nil {
		return nil, err
	}
	return json.Marshal(map[string]any{"c": c.C, "p": json.RawMessage(p), "s": json.RawMessage(s)})
}

func (s *Strs) UnmarshalJSON(b []byte) error {
	*s = Strs{}
	if emptyFcn(b) {
		return nil
	}
	return json.Unmarshal(b, (*[]string)(s))
}

func (c *Comp) UnmarshalJSON(b []byte) error {
	var r struct {
		C string          `json:"c"`
		P json.RawMessage `json:"p"`
		S json.RawMessage `json:"s"`
	}
	if err := json.Unmarshal(b, &r); err != nil {
		return err
	}
	c.C, c.P, c.S = r.C, map[string][]*Inst{}, map[string][]*Comp{}
	if !emptyFcn(r.P) {
		if err := json.Unmarshal(r.P, &c.P); err != nil {
			return err
		}
	}
	if !emptyFcn(r.S) {
		return json.Unmarshal(r.S, &c.S)
	}
	return nil
}

// weight is how much the component holds, as the specification counts it.
func (c *Comp) weight() int {
	values := func(l Strs) int {
		n := 0
		for _, s := range l {
			n += 1 + utf8.RuneCountInString(s)
		}
		return n
	}
	n := 1
	for _, l := range c.P {
		for _, i := range l {
			n += 1 + values(i.V)
			for _, a := range i.A {
				n += 1 + values(a)
			}
		}
	}
	for _, l := range c.S {
		for _, s := range l {
			n += s.weight()
		}
	}
	return n
}

// Schema is the table of components, properties and parameters that the
// specification exports.
type Schema struct {
	Props map[string]struct {
		G string
		T Strs
		A Strs
		E Strs
	}
	Params map[string]struct {
		G string
		K string
		E Strs
	}
	Comps map[string]struct {
		G  string
		Ps []struct {
			N, D, C string
		}
		Subs Strs
	}
}

var schema Schema

func loadSchema(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, &schema)
}

// The specification writes characters that TLC cannot hold as stand-ins.
const (
	notUTF8 = '␦' // an octet that is not part of UTF-8 text
	delChar = '␡'
)

// Characters that some programs treat in a special way.
var oddReal = map[rune]rune{
	'⑴': '\uFEFF', '⑵': '\u2028', '⑶': '\u0085', '⑷': '\U0001F600', '⑸': '\uFFFD',
	'⑹': '\u00A0', '⑺': '\U0010FFFF', '⑻': '\u0301', '⑼': '\u200B',
}

var oddStandIn = func() map[rune]rune {
	m := make(map[rune]rune)
	for s, r := range oddReal {
		m[r] = s
	}
	return m
}()

func toReal(s string) string {
	if isASCII(s) {
		return s
	}
	var sb strings.Builder
	for _, r := range s {
		switch {
		case r >= 0x2400 && r < 0x2420:
			sb.WriteByte(byte(r - 0x2400))
		case r == delChar:
			sb.WriteByte(0x7f)
		case r >= '⑴' && r <= '⑼':
			sb.WriteRune(oddReal[r])
		case r == notUTF8:
			sb.WriteByte(0xff)
		default:
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

func fromReal(s string) string {
	var sb strings.Builder
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		switch {
		case r == utf8.RuneError && n == 1:
			r = notUTF8
		case r < 0x20 && r != '\t' && r != '\n' && r != '\r':
			r += 0x2400
		case r == 0x7f:
			r = delChar
		case r >= 0x80:
			if s, ok := oddStandIn[r]; ok {
				r = s
			} else if r > 0xffff {
				r = notUTF8
			}
		}
		sb.WriteRune(r)
		s = s[n:]
	}
	return sb.String()
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// diff returns a description of the first difference, or "".
func diff(want, got *Comp) string {
	return diffComp(want.C, want, got)
}

func diffComp(path string, w, g *Comp) string {
	if w.C != g.C {
		return fmt.Sprintf("%s: want a %s, got a %s", path, w.C, g.C)
	}
	for _, n := range keys(w.P, g.P) {
		a, b := w.P[n], g.P[n]
		if len(a) != len(b) {
			return fmt.Sprintf("%s.%s: want %d occurrence(s), got %d", path, n, len(a), len(b))
		}
		for i := range a {
			if d := diffInst(a[i], b[i]); d != "" {
				return fmt.Sprintf("%s.%s[%d]: %s", path, n, i, d)
			}
		}
	}
	for _, n := range keys(w.S, g.S) {
		a, b := w.S[n], g.S[n]
		if len(a) != len(b) {
			return fmt.Sprintf("%s.%s: want %d component(s), got %d", path, n, len(a), len(b))
		}
		for i := range a {
			if d := diffComp(fmt.Sprintf("%s.%s[%d]", path, n, i), a[i], b[i]); d != "" {
				return d
			}
		}
	}
	return ""
}

func diffInst(w, g *Inst) string {
	if w.T != g.T {
		return fmt.Sprintf("want type %s, got %s", w.T, g.T)
	}
	if !sameStrs(w.V, g.V) {
		return fmt.Sprintf("want value %q, got %q", w.V, g.V)
	}
	for _, n := range keys(w.A, g.A) {
		a, aok := param(w, n)
		b, bok := param(g, n)
		if aok != bok || !sameStrs(a, b) {
			return fmt.Sprintf("param %s: want %q (set: %v), got %q (set: %v)", n, a, aok, b, bok)
		}
	}
	return ""
}

// param gives a parameter; one that the format cannot tell from an absent one
// (AbsentParam in the specification) is absent.
func param(i *Inst, n string) (Strs, bool) {
	v, ok := i.A[n]
	if !ok || len(v) == 0 {
		return nil, false
	}
	switch schema.Params[n].K {
	case "STR", "QSTR", "QURI", "FMT":
		ok = len(v) > 1 || v[0] != ""
	case "BOOL":
		ok = v[0] != "FALSE"
	}
	if !ok {
		return nil, false
	}
	return v, true
}

func sameStrs(a, b Strs) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func keys[T any](a, b map[string]T) []string {
	m := map[string]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// mentionsZero tells whether the zero instant, which stands for an unset time,
// occurs.
func (c *Comp) mentionsZero() bool {
	for _, l := range c.P {
		for _, i := range l {
			switch i.T {
			case "DATE", "DATE-TIME", "PERIOD", "RECUR":
				for _, v := range i.V {
					if strings.Contains(v, "00010101") || strings.Contains(v, "ZERO") {
						return true
					}
				}
			}
		}
	}
	for _, l := range c.S {
		for _, s := range l {
			if s.mentionsZero() {
				return true
			}
		}
	}
	return false
}
