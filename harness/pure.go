package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"time"

	"vimagination.zapto.org/ics"
)

// modePure: Encode writes the same again, and leaves its calendar alone.
func modePure(w *worker, c *Case) {
	cal, twin := Build(c.Cal), Build(c.Cal)
	comparable := reflect.DeepEqual(cal, twin) // not with a NaN in it
	shown := showText(cal)
	unchanged := func(after string) bool {
		if comparable && !reflect.DeepEqual(cal, twin) || showText(cal) != shown {
			run.fail("pure", c, "Encode changed its calendar (%s): %s", after, firstDiff(shown, showText(cal)))
			return false
		}
		return true
	}
	outcome := func(cal *ics.Calendar) string {
		b, e := w.encodeBytes(cal)
		return fmt.Sprintf("error %v, panic %v, %q", e.err != nil, e.pan, b)
	}
	first := outcome(cal)
	if !unchanged("after one call") {
		return
	}
	w.encode(&faulty{room: rng(c, 12).Intn(len(first)), err: errInjected}, cal)
	if !unchanged("after a failed call") {
		return
	}
	if other := allCases[rng(c, 22).Intn(len(allCases))]; other.K == "e" {
		w.encodeBytes(Build(other.Cal))
	}
	one := Build(c.Cal)
	intern(reflect.ValueOf(one).Elem(), map[string]reflect.Value{})
	if other := outcome(one); other != first {
		run.fail("pure", c, "Encode wrote something else for a calendar that refers to the same value twice: %s", firstDiff(first, other))
		return
	} else if comparable && !reflect.DeepEqual(one, twin) || showText(one) != shown {
		run.fail("pure", c, "Encode changed a calendar that refers to the same value twice: %s", firstDiff(shown, showText(one)))
		return
	}
	if again := outcome(cal); again != first {
		run.fail("pure", c, "Encode wrote something else the second time: %s", firstDiff(first, again))
	} else if other := outcome(twin); other != first {
		run.fail("pure", c, "Encode wrote something else for an equal calendar: %s", firstDiff(first, other))
	}
}

// intern makes equal things that are referred to the same thing.
func intern(v reflect.Value, seen map[string]reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || !v.CanSet() || v.Type() == reflect.TypeOf((*time.Location)(nil)) {
			return
		}
		intern(v.Elem(), seen)
		if b, err := json.Marshal(v.Interface()); err == nil {
			key := v.Type().String() + string(b) + zonesIn(v)
			if old, ok := seen[key]; !ok {
				seen[key] = v
			} else if reflect.DeepEqual(old.Interface(), v.Interface()) {
				v.Set(old)
			}
		}
	case reflect.Interface:
		if v.IsNil() || !v.CanSet() || v.Elem().Kind() != reflect.Pointer {
			return
		}
		p := reflect.New(v.Elem().Type()).Elem()
		p.Set(v.Elem())
		intern(p, seen)
		v.Set(p)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				intern(v.Field(i), seen)
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			intern(v.Index(i), seen)
		}
	}
}

// zonesIn tells apart times that differ only in having the local zone or the
// same zone by its name.
func zonesIn(v reflect.Value) string {
	s := ""
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			s = zonesIn(v.Elem())
		}
	case reflect.Struct:
		if t, ok := v.Interface().(time.Time); ok {
			return fmt.Sprintf(" %p", t.Location())
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				s += zonesIn(v.Field(i))
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			s += zonesIn(v.Index(i))
		}
	}
	return s
}

// modeTwice: Decode returns the same again, in memory of its own.
func modeTwice(w *worker, c *Case) {
	in := []byte(toReal(c.In))
	decode := func() (*ics.Calendar, string) {
		data := bytes.Clone(in)
		d := w.decode(bytes.NewReader(data))
		for i := range data {
			data[i] = '#'
		}
		if d.pan != nil || d.err != nil || d.cal == nil {
			return nil, fmt.Sprintf("error %v, panic %v", d.err != nil, d.pan)
		}
		return d.cal, showText(d.cal)
	}
	one, first := decode()
	if other := allCases[rng(c, 21).Intn(len(allCases))]; other.K == "d" {
		w.decode(strings.NewReader(toReal(other.In)))
	}
	two, second := decode()
	if first != second {
		run.fail("twice", c, "Decode returned something else for the same document: %s", firstDiff(first, second))
		return
	}
	if one == nil {
		return
	}
	scribble(reflect.ValueOf(one), map[place]bool{})
	if s := showText(two); s != second {
		run.fail("twice", c, "writing to one decoded calendar changed another: %s", firstDiff(second, s))
		return
	}
	if _, third := decode(); third != second {
		run.fail("twice", c, "Decode returned something else after an earlier result was written to: %s", firstDiff(second, third))
	}
}

var (
	quietOnce sync.Once
	quiet     []string
)

func outcomeOf(w *worker, c *Case, cal *ics.Calendar) string {
	if c.K == "e" {
		b, e := w.encodeBytes(cal)
		return fmt.Sprintf("error %v, panic %v, %q", e.err != nil, e.pan, b)
	}
	d := w.decode(strings.NewReader(toReal(c.In)))
	if d.pan != nil || d.err != nil || d.cal == nil {
		return fmt.Sprintf("error %v, panic %v", d.err != nil, d.pan)
	}
	return showText(d.cal)
}

// modePar: the calls of all workers run at the same time; each has to return
// what it returned when it ran alone.  A calendar is encoded by two calls at
// once.
func modePar(w *worker, c *Case) {
	quietOnce.Do(func() {
		quiet = make([]string, len(allCases))
		for i, c := range allCases {
			if c.K == "d" {
				quiet[i] = outcomeOf(new(worker), c, nil)
			} else if c.K == "e" {
				quiet[i] = outcomeOf(new(worker), c, Build(c.Cal))
			}
		}
	})
	var cal *ics.Calendar
	if c.K == "e" {
		cal = Build(c.Cal)
	}
	got := make(chan string)
	go func() { got <- outcomeOf(new(worker), c, cal) }()
	mine := outcomeOf(w, c, cal)
	for _, s := range []string{mine, <-got} {
		if s != quiet[c.idx] {
			run.fail("par", c, "a call returned something else while others were running: %s", firstDiff(quiet[c.idx], s))
			return
		}
	}
}
