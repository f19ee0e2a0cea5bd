package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"time"

	"vimagination.zapto.org/ics"
)

func docCase(n int) *Case {
	for _, c := range allCases {
		if c.K == "d" && c.Note == "doc" && c.Ref == n {
			return c
		}
	}
	panic(harnessError(fmt.Sprintf("no document %d", n)))
}

// memo keeps the first result of each call; later calls have to repeat it.
type memoTable struct {
	mu sync.Mutex
	m  map[string]string
}

var memo = memoTable{m: map[string]string{}}

func (t *memoTable) same(key, val string) (string, bool) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if old, ok := t.m[key]; ok {
		return old, old == val
	}
	t.m[key] = val
	return val, true
}

func showText(cal *ics.Calendar) string {
	b, err := json.Marshal(Show(cal))
	if err != nil {
		panic(harnessError(err.Error()))
	}
	return string(b)
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := max(0, i-60)
	return fmt.Sprintf("%q instead of %q (from %d)", b[from:min(len(b), i+60)], a[from:min(len(a), i+60)], from)
}

type slotState struct {
	cal *ics.Calendar
	key string // "" when empty or scribbled over
}

// modeHist: a history of calls.
func modeHist(w *worker, c *Case) {
	slots := map[int]*slotState{1: {}, 2: {}}
	rnd := rng(c, 11)
	var trace []string
	fail := func(format string, args ...any) {
		run.fail("hist", c, "after %q: %s", trace, fmt.Sprintf(format, args...))
	}
	decode := func(key string, src []byte) (*ics.Calendar, bool) {
		data := append([]byte(nil), src...)
		var r io.Reader
		switch rnd.Intn(3) {
		case 0:
			r = bytes.NewReader(data)
		case 1:
			r = bytes.NewBuffer(data)
		default:
			r = &chunked{data: data, sizes: ones(len(data), 1+rnd.Intn(100))}
		}
		d := w.decode(r)
		got := ""
		switch {
		case d.pan != nil:
			fail("Decode panicked: %v", d.pan)
			return nil, false
		case d.err != nil:
			got = "error"
			d.cal = nil
		default:
			got = showText(d.cal)
		}
		for i := range data {
			data[i] = '#'
		}
		if d.cal != nil {
			if again := showText(d.cal); again != got {
				fail("the calendar changed with the reader's data: %s", firstDiff(got, again))
				return nil, false
			}
		}
		if n, ok := strings.CutPrefix(key, "d"); ok && d.cal != nil {
			var doc int
			fmt.Sscan(n, &doc)
			if s := diff(docCase(doc).Cal, Show(d.cal)); s != "" {
				fail("Decode returned another calendar: %s", s)
				return nil, false
			}
		}
		if want, ok := memo.same(key, got); !ok {
			fail("Decode returned another calendar for the same document: %s", firstDiff(want, got))
			return nil, false
		}
		return d.cal, true
	}
	encode := func(s *slotState) ([]byte, bool) {
		b, e := w.encodeBytes(s.cal)
		got := string(b)
		if e.pan != nil {
			fail("Encode panicked: %v", e.pan)
			return nil, false
		} else if e.err != nil {
			got = "error\n" + got
		}
		if want, ok := memo.same("enc "+s.key, got); !ok {
			fail("Encode wrote something else for the same calendar: %s", firstDiff(want, got))
			return nil, false
		}
		if e.err != nil {
			b = nil
		}
		return b, true
	}
	for _, op := range c.Ops {
		trace = append(trace, op)
		var what string
		var x, y int
		fmt.Sscan(op, &what, &x, &y)
		s := slots[x]
		ok := true
		switch {
		case what == "dec":
			key := fmt.Sprintf("d%d", y)
			if s.cal, ok = decode(key, []byte(toReal(docCase(y).In))); ok && s.cal != nil {
				s.key = key
			} else {
				s.key = ""
			}
		case what == "bad":
			_, ok = decode("bad", []byte(toReal(docCase(4).In)))
		case s == nil || s.key == "":
		case what == "enc":
			_, ok = encode(s)
		case what == "fail":
			f := &faulty{room: rnd.Intn(2000), err: injected[rnd.Intn(len(injected))]}
			if e := w.encode(f, s.cal); e.pan != nil {
				fail("Encode panicked: %v", e.pan)
				ok = false
			}
		case what == "scribble":
			scribble(reflect.ValueOf(s.cal), map[place]bool{})
			s.key = ""
		case what == "again":
			var b []byte
			if b, ok = encode(s); ok && b != nil {
				key := "a(" + s.key + ")"
				t := slots[y]
				if t.cal, ok = decode(key, b); ok && t.cal != nil {
					t.key = key
				} else {
					t.key = ""
				}
			}
		}
		if !ok {
			return
		}
		for i, t := range slots {
			if t.key != "" {
				if want, same := memo.same(t.key, showText(t.cal)); !same {
					fail("the calendar in slot %d changed: %s", i, firstDiff(want, showText(t.cal)))
					return
				}
			}
		}
	}
}

type place struct {
	at uintptr
	as reflect.Type
}

// scribble writes to everything that a value refers to.
func scribble(v reflect.Value, seen map[place]bool) {
	if v.CanAddr() { // two values may share memory: writing twice could restore it
		p := place{v.Addr().Pointer(), v.Type()}
		if seen[p] {
			return
		}
		seen[p] = true
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || v.Type() == reflect.TypeOf((*time.Location)(nil)) {
			return
		}
		scribble(v.Elem(), seen)
	case reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem(), seen)
		}
	case reflect.Struct:
		if t, ok := v.Addr().Interface().(*time.Time); ok {
			*t = time.Unix(12345, 0)
			return
		}
		if u, ok := v.Addr().Interface().(*url.Userinfo); ok {
			*u = *url.UserPassword("scribbled", "on")
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				f := v.Field(i)
				scribble(f, seen)
			}
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		full := v.Slice(0, v.Cap()) // what append would overwrite
		for i := 0; i < full.Len(); i++ {
			scribble(full.Index(i), seen)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), seen)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(v.MapIndex(k))
			scribble(e, seen)
			v.SetMapIndex(k, e)
		}
	default:
		if !v.CanSet() {
			return
		}
		switch v.Kind() {
		case reflect.String:
			v.SetString("scribbled")
		case reflect.Bool:
			v.SetBool(!v.Bool())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			v.SetInt(v.Int() ^ 85)
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			v.SetUint(v.Uint() ^ 85)
		case reflect.Float32, reflect.Float64:
			v.SetFloat(v.Float() + 1)
		}
	}
}

// ---------------------------------------------------------------------------

// gate lets a call pass one point at a time.
type gate struct {
	step, reached chan struct{}
	done          bool
}

func (g *gate) wait() {
	if g == nil {
		return
	}
	g.reached <- struct{}{}
	<-g.step
}

type gatedReader struct {
	g      *gate
	pieces []string
	rest   string
}

func (r *gatedReader) Read(p []byte) (int, error) {
	if r.rest == "" {
		if len(r.pieces) == 0 {
			return 0, io.EOF
		}
		r.g.wait()
		r.rest, r.pieces = r.pieces[0], r.pieces[1:]
	}
	n := copy(p, r.rest)
	r.rest = r.rest[n:]
	return n, nil
}

type gatedWriter struct {
	g    *gate
	at   []int // where to stop
	data bytes.Buffer
}

func (w *gatedWriter) Write(p []byte) (int, error) {
	for len(w.at) > 0 && w.data.Len() >= w.at[0] {
		w.at = w.at[1:]
		w.g.wait()
	}
	return w.data.Write(p)
}

// call runs one Decode or Encode, gated in n places unless g is nil, and
// returns its result as text.
func call(what string, n int, g *gate, alone map[string]string) string {
	var kind string
	var doc int
	fmt.Sscan(what, &kind, &doc)
	if kind == "dec" {
		in := toReal(docCase(doc).In)
		r := &gatedReader{g: g}
		for i := 0; i < n; i++ {
			r.pieces = append(r.pieces, in[i*len(in)/n:(i+1)*len(in)/n])
		}
		w := new(worker)
		d := w.decode(r)
		switch {
		case d.pan != nil:
			return fmt.Sprint("panic ", d.pan)
		case d.err != nil:
			return "error"
		}
		return showText(d.cal)
	}
	cal := shared(doc)
	if cal == nil {
		if g != nil {
			g.wait()
		}
		return "nothing to encode"
	}
	gw := &gatedWriter{g: g}
	if g != nil {
		l := len(alone[what])
		for i := 0; i < n; i++ {
			gw.at = append(gw.at, i*l/n)
		}
	}
	w := new(worker)
	e := w.encode(gw, cal)
	if e.pan != nil || e.err != nil {
		return fmt.Sprint("error ", e.pan)
	}
	return gw.data.String()
}

var (
	sharedMu   sync.Mutex
	sharedCals = map[int]*ics.Calendar{}
	aloneOnce  sync.Once
	alone      = map[string]string{}
)

// shared gives the calendar that all Encode calls of a document use.
func shared(doc int) *ics.Calendar {
	sharedMu.Lock()
	defer sharedMu.Unlock()
	if cal, ok := sharedCals[doc]; ok {
		return cal
	}
	w := new(worker)
	d := w.decode(strings.NewReader(toReal(docCase(doc).In)))
	if d.pan != nil || d.err != nil {
		d.cal = nil
	}
	sharedCals[doc] = d.cal
	return d.cal
}

// modeSess: calls that run at the same time, in the given order of steps and
// then freely.
func modeSess(w *worker, c *Case) {
	aloneOnce.Do(func() {
		for _, what := range []string{"dec 1", "dec 2", "dec 3", "enc 1", "enc 2"} {
			alone[what] = call(what, 1, nil, alone)
		}
	})
	w.s.start.Store(time.Now().UnixNano())
	defer w.s.start.Store(0)
	var names, order []string
	for i, op := range c.Ops {
		if op == "|" {
			names, order = c.Ops[:i], c.Ops[i+1:]
		}
	}
	res := make([]string, len(names))
	gates := make([]*gate, len(names))
	for i := range names {
		g := &gate{step: make(chan struct{}), reached: make(chan struct{})}
		gates[i] = g
		go func(i int) {
			res[i] = call(names[i], c.Ref, g, alone)
			g.done = true
			g.reached <- struct{}{}
		}(i)
		<-g.reached
	}
	for _, o := range order {
		var x int
		fmt.Sscan(o, &x)
		if g := gates[x-1]; !g.done {
			g.step <- struct{}{}
			<-g.reached
		}
	}
	for _, g := range gates { // in case a call reads or writes in other portions
		for !g.done {
			g.step <- struct{}{}
			<-g.reached
		}
	}
	check := func(how string, i int, got string) bool {
		if got != alone[names[i]] {
			run.fail("sess", c, "%s returned something else when running %s together with %v: %s", names[i], how, names, firstDiff(alone[names[i]], got))
			return false
		}
		return true
	}
	for i := range names {
		if !check("step by step", i, res[i]) {
			return
		}
	}
	w.calls += int64(len(names))
	var wg sync.WaitGroup
	start := make(chan struct{})
	free := make([]string, 2*len(names))
	for i := range free {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			free[i] = call(names[i%len(names)], 1, nil, alone)
		}(i)
	}
	close(start)
	wg.Wait()
	w.calls += int64(len(free))
	for i := range free {
		if !check("freely", i%len(names), free[i]) {
			return
		}
	}
	for doc := 1; doc <= 2; doc++ {
		if cal := shared(doc); cal != nil && alone[fmt.Sprint("dec ", doc)] != showText(cal) {
			run.fail("sess", c, "Encode changed its calendar: %s", firstDiff(alone[fmt.Sprint("dec ", doc)], showText(cal)))
			return
		}
	}
}
