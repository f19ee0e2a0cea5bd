package main

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"reflect"
	"strings"
	"unicode/utf8"

	"vimagination.zapto.org/ics"
)

// rng gives a generator that depends on the seed and the case only.
func rng(c *Case, salt int64) *rand.Rand {
	h := fnv.New64a()
	io.WriteString(h, c.Note)
	io.WriteString(h, c.In)
	for _, l := range c.Wire {
		io.WriteString(h, l)
	}
	return rand.New(rand.NewSource(int64(h.Sum64()>>2) + seed*1000003 + salt))
}

func thorough() bool { return tier == "thorough" }

// modeDec: Decode does what the specification says.
func modeDec(w *worker, c *Case) {
	if s := w.decode(strings.NewReader(toReal(c.In))).matches(c.St, c.Cal); s != "" {
		run.fail("dec", c, "%s", s)
	}
	for _, in := range c.Same {
		if s := w.decode(strings.NewReader(toReal(in))).matches(c.St, c.Cal); s != "" {
			run.fail("dec", c, "for %q: %s", in, s)
		}
	}
}

// modeStab: what was decoded can be encoded, and is then stable.
func modeStab(w *worker, c *Case) {
	if c.St == "no" {
		return
	}
	d := w.decode(strings.NewReader(toReal(c.In)))
	if s := d.total(); s != "" || d.err != nil && c.St == "ok" {
		run.fail("stab", c, "Decode failed: %v %s", d.err, s)
		return
	}
	if d.err != nil {
		return
	}
	first := Show(d.cal)
	if first.mentionsZero() {
		return
	}
	b1, e := w.encodeBytes(d.cal)
	if e.pan != nil || e.err != nil {
		run.fail("stab", c, "Encode failed on a decoded calendar: %v %v", e.err, e.pan)
		return
	}
	d2 := w.decode(bytes.NewReader(b1))
	if s := d2.matches("ok", first); s != "" {
		run.fail("stab", c, "decoding what was encoded from a decoded calendar: %s (wrote %q)", s, b1)
		return
	}
	b2, e := w.encodeBytes(d2.cal)
	if e.pan != nil || e.err != nil || !bytes.Equal(b1, b2) {
		run.fail("stab", c, "encoding again gave %q instead of %q (%v %v)", b2, b1, e.err, e.pan)
	}
}

// modeEnc: Encode accepts exactly the valid calendars, and writes nothing for
// the others.
func modeEnc(w *worker, c *Case) {
	b, e := w.encodeBytes(Build(c.Cal))
	switch {
	case e.pan != nil:
		run.fail("enc", c, "Encode panicked: %v", e.pan)
	case c.St == "ok" && e.err != nil:
		run.fail("enc", c, "Encode failed with %q on a valid calendar", e.err)
	case c.St == "ok" && len(b) == 0:
		run.fail("enc", c, "Encode wrote nothing for a valid calendar")
	case c.St == "no" && e.err == nil:
		run.fail("enc", c, "Encode accepted an invalid calendar and wrote %q", b)
	case c.St == "no" && len(b) > 0:
		run.fail("enc", c, "Encode failed with %q but wrote %q", e.err, b)
	}
}

type wireEntry struct {
	K    string `json:"k"`
	I    int    `json:"i"`
	Cal  *Comp  `json:"cal"`
	Wire string `json:"wire"`
}

// modeWire: the output is what the specification writes; any other output is
// handed to the specification to judge.
func modeWire(w *worker, c *Case) {
	if c.St != "ok" {
		return
	}
	b, e := w.encodeBytes(Build(c.Cal))
	if e.pan != nil || e.err != nil {
		run.fail("wire", c, "Encode failed on a valid calendar: %v %v", e.err, e.pan)
		return
	}
	if string(b) == toReal(joinLines(c.Wire)) {
		run.mu.Lock()
		run.Matched++
		run.mu.Unlock()
		return
	}
	if s := badLines(string(b)); s != "" {
		run.fail("wire", c, "%s in %q", s, b)
		return
	}
	run.record(wireEntry{"w", c.idx, c.canon(), fromReal(string(b))})
}

// badLines says what is wrong with the physical lines of an output.
func badLines(s string) string {
	if !strings.HasSuffix(s, "\r\n") {
		return "no line break at the end"
	}
	for _, l := range strings.Split(strings.TrimSuffix(s, "\r\n"), "\r\n") {
		switch {
		case len(l) > 75:
			return fmt.Sprintf("a line of %d octets", len(l))
		case strings.ContainsFunc(l, func(r rune) bool { return r < ' ' && r != '\t' || r == 0x7f }):
			return "a control character"
		case !utf8.ValidString(l):
			return "a line break inside a character"
		}
	}
	return ""
}

// modeRoundTrip: Encode followed by Decode gives the calendar back.
func modeRoundTrip(w *worker, c *Case) {
	if c.St != "ok" {
		return
	}
	cal := Build(c.Cal)
	if rng(c, 31).Intn(2) == 0 {
		intern(reflect.ValueOf(cal).Elem(), map[string]reflect.Value{})
	}
	b, e := w.encodeBytes(cal)
	if e.pan != nil || e.err != nil {
		run.fail("rt", c, "Encode failed on a valid calendar: %v %v", e.err, e.pan)
		return
	}
	if s := w.decode(bytes.NewReader(b)).matches("ok", c.canon()); s != "" {
		run.fail("rt", c, "%s (wrote %q)", s, b)
	}
}

// ---------------------------------------------------------------------------

// chunked delivers data in the given sizes; 0 is a read without data. When
// the sizes are used up the rest comes in one read. With withEOF the last data
// comes together with the error.
type chunked struct {
	data    []byte
	sizes   []int
	withEOF bool
	err     error
}

func (r *chunked) Read(p []byte) (int, error) {
	n := len(r.data)
	if len(r.sizes) > 0 {
		n, r.sizes = r.sizes[0], r.sizes[1:]
		if n == 0 {
			return 0, nil
		}
	}
	if len(r.data) == 0 {
		return 0, r.end()
	}
	n = min(n, len(r.data), len(p))
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if len(r.data) == 0 && r.withEOF {
		return n, r.end()
	}
	return n, nil
}

func (r *chunked) end() error {
	if r.err == nil {
		return io.EOF
	}
	return r.err
}

// pad inserts an unknown property of the given total length after the first
// line, which the specification ignores.
func pad(in string, n int) string {
	const first = "BEGIN:VCALENDAR\r\n"
	i := len(first)
	if !strings.HasPrefix(in, first) || i == len(in) || in[i] == ' ' || in[i] == '\t' || n < 10 {
		return in
	}
	return in[:i] + "X-PAD:" + strings.Repeat("p", n-8) + "\r\n" + in[i:]
}

func ones(n, size int) []int {
	l := make([]int, n/size+1)
	for i := range l {
		l[i] = size
	}
	return l
}

// reference is the outcome that has to stay the same: that of the
// specification, or where it leaves the outcome open that of a plain call.
func reference(w *worker, c *Case) (string, *Comp) {
	if c.St != "any" {
		return c.St, c.Cal
	}
	d := w.decode(strings.NewReader(toReal(c.In)))
	switch {
	case d.total() != "":
		return "any", nil
	case d.err != nil:
		return "no", nil
	}
	return "ok", Show(d.cal)
}

// modeChunk: the way the stream is delivered makes no difference.
func modeChunk(w *worker, c *Case) {
	in := toReal(c.In)
	st, cal := reference(w, c)
	try := func(s string, sizes []int, eof bool) bool {
		r := &chunked{data: []byte(s), sizes: append([]int(nil), sizes...), withEOF: eof}
		if e := w.decode(r).matches(st, cal); e != "" {
			run.fail("chunk", c, "%s when delivered in reads of %v (data with EOF: %v, stream of %d octets: %q)", e, briefSizes(sizes), eof, len(s), brief(s))
			return false
		}
		return true
	}
	n := len(in)
	for _, eof := range []bool{false, true} {
		for _, size := range []int{1, 2, 3, 5, 7, 64, n} {
			if !try(in, ones(n, size), eof) {
				return
			}
		}
	}
	step := 1
	if !thorough() && n > 400 {
		step = 1 + n/400
	}
	for i := 1; i < n; i += step { // every split into two, with and without an empty read
		if !try(in, []int{i}, i%2 == 0) || !try(in, []int{i, 0}, i%2 == 1) {
			return
		}
	}
	// every split of the octets around each line break
	rnd := rng(c, 1)
	nbreaks, npads := 60, 6
	if c.St != "ok" {
		nbreaks, npads = 4, 0
	}
	few := sampler(rnd, strings.Count(in, "\r"), nbreaks)
	for p := strings.Index(in, "\r"); p >= 0 && p < n; {
		m := 1
		if !few() {
			m = 32
		}
		for ; m < 32; m++ {
			var sizes []int
			at, last := max(p-1, 0), 0
			for b := 0; b < 5; b++ {
				if m>>b&1 == 1 && at+b > last {
					sizes = append(sizes, at+b-last)
					last = at + b
				}
			}
			if m%3 == 0 {
				sizes = append(sizes, 0)
			}
			if !try(in, sizes, m%2 == 0) {
				return
			}
		}
		q := strings.Index(in[p+1:], "\r")
		if q < 0 {
			break
		}
		p += 1 + q
	}
	// the same near the sizes of internal buffers
	bufs := []int{4096}
	if thorough() {
		bufs = []int{512, 1024, 2048, 4096, 8192, 16384}
	}
	br := breaks(in)
	for _, size := range bufs {
		for _, p := range br {
			if !thorough() && rnd.Intn(len(br)) > npads {
				continue
			}
			for d := -4; d <= 4; d++ {
				s := pad(in, size-p+d)
				if len(s) == n {
					continue
				}
				if !try(s, nil, d%2 == 0) || !try(s, ones(len(s), size-1), false) || !try(s, []int{size + d, 1, 0, 1, 1}, false) {
					return
				}
			}
		}
	}
	// random deliveries
	k := 20
	if thorough() {
		k = 200
	}
	for i := 0; i < k; i++ {
		var sizes []int
		for t := 0; t < n; {
			s := rnd.Intn(1 + rnd.Intn(12))
			sizes = append(sizes, s)
			t += s
		}
		if !try(in, sizes, i%2 == 0) {
			return
		}
	}
}

// sampler gives a function that is true about k times when called n times (always
// in the thorough tier).
func sampler(rnd *rand.Rand, n, k int) func() bool {
	if thorough() || n <= k {
		return func() bool { return true }
	}
	return func() bool { return rnd.Intn(n) < k }
}

func brief(s string) string { return s[:min(len(s), 600)] }

func briefSizes(l []int) []int { return l[:min(len(l), 60)] }

// breaks gives the positions of the line breaks.
func breaks(s string) []int {
	var l []int
	for i := 0; i+1 < len(s); i++ {
		if s[i] == '\r' && s[i+1] == '\n' {
			l = append(l, i)
		}
	}
	return l
}

// modeFold: folds make no difference.
func modeFold(w *worker, c *Case) {
	in := toReal(c.In)
	st, cal := reference(w, c)
	check := func(s, how string) bool {
		if e := w.decode(strings.NewReader(s)).matches(st, cal); e != "" {
			run.fail("fold", c, "%s when folded %s: %q", e, how, brief(s))
			return false
		}
		return true
	}
	// positions between two octets of a content line
	var pos []int
	for i := 1; i < len(in); i++ {
		if in[i-1] != '\r' && in[i-1] != '\n' && in[i] != '\r' && in[i] != '\n' {
			pos = append(pos, i)
		}
	}
	folds := []string{"\r\n ", "\r\n\t"}
	rnd := rng(c, 2)
	few := sampler(rnd, len(pos), 1000)
	for i, p := range pos {
		if !few() {
			continue
		}
		for _, f := range folds {
			if !check(in[:p]+f+in[p:], fmt.Sprintf("at %d", p)) {
				return
			}
		}
		if thorough() || i%5 == 0 {
			f := folds[i%2] + folds[(i/2)%2]
			if !check(in[:p]+f+in[p:], fmt.Sprintf("twice at %d", p)) {
				return
			}
		}
	}
	all := func(every int, which func(int) string) string {
		var sb strings.Builder
		last := 0
		for i, p := range pos {
			if i%every == 0 {
				sb.WriteString(in[last:p])
				sb.WriteString(which(i))
				last = p
			}
		}
		sb.WriteString(in[last:])
		return sb.String()
	}
	for every := 1; every <= 4; every++ {
		for k := 0; k < 3; k++ {
			s := all(every, func(i int) string { return folds[[]int{0, 1, i % 2}[k]] })
			if !check(s, fmt.Sprintf("every %d octets", every)) {
				return
			}
			r := &chunked{data: []byte(s), sizes: ones(len(s), every)}
			if e := w.decode(r).matches(st, cal); e != "" {
				run.fail("fold", c, "%s when folded every %d octets and read in pieces", e, every)
				return
			}
		}
	}
	k := 20
	if thorough() {
		k = 200
	}
	for i := 0; i < k; i++ {
		d := 1 + rnd.Intn(8)
		var sb strings.Builder
		last := 0
		for _, p := range pos {
			for rnd.Intn(d*3) == 0 {
				sb.WriteString(in[last:p])
				sb.WriteString(folds[rnd.Intn(2)])
				last = p
			}
		}
		sb.WriteString(in[last:])
		if !check(sb.String(), "at random") {
			return
		}
	}
}

// modeTrunc: a stream that ends or fails early is never accepted; what comes
// after the end of the calendar does not matter. Ref is the number of octets
// up to and including the END:VCALENDAR text.
func modeTrunc(w *worker, c *Case) {
	if c.St != "ok" {
		return
	}
	in := toReal(c.In)
	const last = "END:VCALENDAR"
	end := strings.LastIndex(strings.ToUpper(in), last) + len(last)
	if c.Ref > 0 {
		end = c.Ref
	}
	ways := []struct {
		name string
		mk   func(b string) io.Reader
	}{
		{"end of stream", func(b string) io.Reader { return strings.NewReader(b) }},
		{"read error", func(b string) io.Reader { return &chunked{data: []byte(b), err: errInjected} }},
		{"read error with the last data", func(b string) io.Reader {
			return &chunked{data: []byte(b), err: errInjected, withEOF: true}
		}},
		{"unexpected EOF, in small reads", func(b string) io.Reader {
			return &chunked{data: []byte(b), sizes: ones(len(b), 7), err: io.ErrUnexpectedEOF}
		}},
		{"another read error", func(b string) io.Reader {
			return &chunked{data: []byte(b), err: injected[(len(b)+c.idx)%len(injected)]}
		}},
		{"another read error with the last data, in small reads", func(b string) io.Reader {
			return &chunked{data: []byte(b), sizes: ones(len(b), 5), err: injected[(len(b)+c.idx)%len(injected)], withEOF: true}
		}},
	}
	few := sampler(rng(c, 7), len(in), 2000)
	for i := 0; i <= len(in); i++ {
		if i < len(in)-200 && !few() {
			continue
		}
		for wi, way := range ways {
			if !thorough() && wi > 1 && i%3 != 0 && i < end-20 {
				continue
			}
			st := "no"
			if i >= end {
				st = "ok"
				// not clear whether the last line is complete
				if i == end && wi > 0 || i > end && in[i-1] == '\r' {
					st = "any"
				}
			}
			d := w.decode(way.mk(in[:i]))
			if e := d.matches(st, c.Cal); e != "" {
				run.fail("trunc", c, "%s when the stream is cut after %d of %d octets (%s)", e, i, len(in), way.name)
				return
			}
		}
	}
	whole := in[:end] + "\r\n"
	tails := []string{"", "\r\n", "X", "\x00\xff", "BEGIN:VCALENDAR\r\n", "END:VCALENDAR\r\n", "BEGIN:VEVENT", "garbage\n", "A;B=\"",
		"VERSION:3\r\n", whole, strings.Repeat("z", 5000)}
	for _, t := range tails {
		for _, err := range []error{nil, errInjected} {
			for _, eof := range []bool{false, true} {
				for _, sizes := range [][]int{nil, {len(whole)}, {len(whole) - 1}, {len(whole) - 2}} {
					d := w.decode(&chunked{data: []byte(whole + t), err: err, withEOF: eof, sizes: sizes})
					if e := d.matches("ok", c.Cal); e != "" {
						run.fail("trunc", c, "%s when %q follows the calendar (read error: %v)", e, brief(t), err)
						return
					}
				}
			}
		}
	}
}

// modeFault: a failing writer.
type faulty struct {
	calls   int
	failAt  int // number of the call that fails, 0: none
	failLen int // number of octets accepted by the failing call: -1 all, -2 half
	room    int // fail once that many octets have been written, -1: never
	got     bytes.Buffer
	sizes   []int
	late    bool
	failed  bool
	err     error
}

func (f *faulty) Write(p []byte) (int, error) {
	if f.failed {
		f.late = true
		return 0, f.err
	}
	f.calls++
	f.sizes = append(f.sizes, len(p))
	if f.calls == f.failAt {
		f.failed = true
		n := f.failLen
		if n == -1 {
			n = len(p)
		} else if n == -2 {
			n = len(p) / 2
		}
		n = min(n, len(p))
		f.got.Write(p[:n])
		return n, f.err
	}
	if f.room >= 0 && f.got.Len()+len(p) > f.room {
		f.failed = true
		n := f.room - f.got.Len()
		f.got.Write(p[:n])
		return n, f.err
	}
	f.got.Write(p)
	return len(p), nil
}

type faultEntry struct {
	K     string   `json:"k"`
	I     int      `json:"i"`
	Full  string   `json:"full"`
	Calls []string `json:"calls"`
	Fail  string   `json:"fail"`
	Ret   string   `json:"ret"`
}

func modeFault(w *worker, c *Case) {
	if c.St != "ok" {
		return
	}
	cal := Build(c.Cal)
	ref := &faulty{room: -1}
	e := w.encode(ref, cal)
	if e.pan != nil || e.err != nil {
		run.fail("fault", c, "Encode failed although the writer did not: %v %v", e.err, e.pan)
		return
	}
	full := ref.got.String()
	if full == "" || !strings.HasSuffix(full, "END:VCALENDAR\r\n") {
		run.fail("fault", c, "Encode returned nil but wrote only %q", full)
		return
	}
	turn := c.idx
	judge := func(f *faulty, how string) bool {
		turn++
		f.err = injected[turn%len(injected)]
		how = fmt.Sprintf("with %q %s", f.err, how)
		e := w.encode(f, cal)
		switch {
		case e.pan != nil:
			run.fail("fault", c, "Encode panicked with a writer that fails %s: %v", how, e.pan)
		case !f.failed && e.err != nil:
			run.fail("fault", c, "Encode returned %q but the writer did not fail (%s)", e.err, how)
		case !f.failed && f.got.String() != full:
			run.fail("fault", c, "Encode wrote %q instead of %q (%s)", f.got.String(), full, how)
		case f.failed && e.err == nil:
			run.fail("fault", c, "Encode returned nil although the writer failed %s", how)
		case f.failed && !errors.Is(e.err, f.err):
			run.fail("fault", c, "Encode returned %q, not the error of the writer that failed %s", e.err, how)
		case f.late:
			run.fail("fault", c, "Encode called the writer again after it failed %s", how)
		case !strings.HasPrefix(full, f.got.String()):
			run.fail("fault", c, "the output before the failure %s, %q, is not a prefix of %q", how, f.got.String(), full)
		default:
			return true
		}
		return false
	}
	n := ref.calls
	step := 1
	if !thorough() && n > 600 {
		step = 1 + n/600
	}
	for k := 1; k <= n+1; k += step {
		for _, l := range []int{0, -2, -1} {
			if !judge(&faulty{failAt: k, failLen: l, room: -1}, fmt.Sprintf("at call %d of %d (%d accepted)", k, n, l)) {
				return
			}
		}
	}
	step = 1
	if !thorough() && len(full) > 1000 {
		step = 1 + len(full)/1000
	}
	for room := 0; room <= len(full); room += step {
		if !judge(&faulty{room: room}, fmt.Sprintf("after %d of %d octets", room, len(full))) {
			return
		}
	}
	// a few complete histories for the specification to judge
	if run.trace != nil && rng(c, 6).Intn(4) == 0 {
		rnd := rng(c, 3)
		for i := 0; i < 3; i++ {
			f := &faulty{room: -1, failLen: -2, err: injected[rnd.Intn(len(injected))]}
			if i > 0 {
				f.failAt = 1 + rnd.Intn(n)
			}
			e := w.encode(f, cal)
			en := faultEntry{K: "f", I: c.idx, Full: fromReal(full), Ret: "nil", Fail: "no", Calls: []string{}}
			off := 0
			got := f.got.String()
			ascii := isASCII(full)
			for _, s := range f.sizes {
				to := min(off+s, len(got))
				if ascii {
					en.Calls = append(en.Calls, got[off:to])
				}
				off = to
			}
			if f.failed {
				en.Fail = "yes"
			}
			if f.late {
				en.Fail = "late"
			}
			if e.err != nil {
				en.Ret = "other"
				if errors.Is(e.err, f.err) {
					en.Ret = "own"
				}
			}
			if ascii {
				run.record(en)
			}
		}
	}
}

// modePlain: Decode returns on the document itself.
func modePlain(w *worker, c *Case) {
	if s := w.decode(strings.NewReader(toReal(c.In))).total(); s != "" {
		run.fail("plain", c, "%s", s)
	}
}

// modeTotal: Decode returns on everything near the document.
func modeTotal(w *worker, c *Case) {
	in := toReal(c.In)
	check := func(b string, how string) bool {
		if s := w.decode(strings.NewReader(b)).total(); s != "" {
			run.fail("total", c, "%s for %s: %q", s, how, brief(b))
			return false
		}
		return true
	}
	if !check(in, "the document") {
		return
	}
	few := sampler(rng(c, 8), len(in), 500)
	for i := 0; i <= len(in); i++ { // every prefix, and every octet lost
		if !few() {
			continue
		}
		if !check(in[:i], "a prefix") {
			return
		}
		if i < len(in) && !check(in[:i]+in[i+1:], "the document without an octet") {
			return
		}
	}
	rnd := rng(c, 4)
	junk := []string{"\x00", "\xff", "\xc3", "\xe2\x82", "\r", "\n", "\r\n", "\"", ";", ":", ",", "^", "\\", "=", "\r\n ", "END:", "BEGIN:VALARM\r\n",
		"END:VALARM\r\n", "\xf0\x9f\x98", " ", "\ufeff", "ACTION:AUDIO\r\n", "/", "-", "+", "P", "T", "0", "Z", "BYDAY=", "\x7f", "\xed\xa0\x80"}
	k := 60
	if thorough() {
		k = 1500
	}
	for i := 0; i < k; i++ {
		b := in
		for m := 1 + rnd.Intn(4); m > 0; m-- {
			p := rnd.Intn(len(b) + 1)
			switch rnd.Intn(4) {
			case 0:
				b = b[:p] + junk[rnd.Intn(len(junk))] + b[p:]
			case 1:
				q := min(len(b), p+rnd.Intn(6))
				b = b[:p] + b[q:]
			case 2:
				q := min(len(b), p+1)
				b = b[:p] + string([]byte{byte(rnd.Intn(256))}) + b[q:]
			case 3:
				q := rnd.Intn(len(b) + 1)
				if p > q {
					p, q = q, p
				}
				if q-p > 40 {
					q = p + 40
				}
				b = b[:q] + b[p:q] + b[q:]
			}
		}
		if !check(b, "a changed document") {
			return
		}
	}
}

// modeHuge: very large inputs, described by a repetition count.
func modeHuge(w *worker, c *Case) { huge(w, c, "huge") }

// modeBig: also written and read again.
func modeBig(w *worker, c *Case) {
	if cal := huge(w, c, "big"); cal != nil {
		again(w, c, "big", cal)
	}
}

// modeSame is modeBig for whatever Decode makes of the document.
func modeSame(w *worker, c *Case) {
	if d := w.decode(hugeReader(c)); d.pan == nil && d.err == nil && d.cal != nil {
		again(w, c, "same", d.cal)
	}
}

func again(w *worker, c *Case, mode string, cal *ics.Calendar) {
	b, e := w.encodeBytes(cal)
	if e.pan != nil || e.err != nil {
		run.fail(mode, c, "Encode failed on a decoded calendar: %v %v", e.err, e.pan)
		return
	}
	d := w.decode(bytes.NewReader(b))
	if s := d.total(); s != "" {
		run.fail(mode, c, "%s", s)
	} else if d.err != nil {
		run.fail(mode, c, "Decode failed with %q on the output of Encode", d.err)
	} else if s := diff(Show(cal), Show(d.cal)); s != "" {
		run.fail(mode, c, "the calendar changed on the way: %.300s", s)
	}
}

// modeLong looks only at the form of what Encode writes for a huge calendar.
func modeLong(w *worker, c *Case) {
	d := w.decode(hugeReader(c))
	if d.pan != nil || d.err != nil || d.cal == nil {
		return
	}
	b, e := w.encodeBytes(d.cal)
	if e.pan == nil && e.err == nil {
		if s := badLines(string(b)); s != "" {
			run.fail("long", c, "%.300s", s)
		}
	}
}

func hugeReader(c *Case) io.Reader {
	// Ops: a text, then any number of times: a part, how often, another text
	rs := []io.Reader{strings.NewReader(toReal(c.Ops[0]))}
	for o := c.Ops[1:]; len(o) >= 3; o = o[3:] {
		times := 0
		fmt.Sscan(o[1], &times)
		rs = append(rs, &repeat{part: toReal(o[0]), n: times}, strings.NewReader(toReal(o[2])))
	}
	return io.MultiReader(rs...)
}

func huge(w *worker, c *Case, mode string) *ics.Calendar {
	d := w.decode(hugeReader(c))
	if s := d.total(); s != "" {
		run.fail(mode, c, "%s", s)
	} else if c.St == "ok" && d.err != nil {
		run.fail(mode, c, "Decode failed with %q on a document that has to be accepted", d.err)
	} else if c.St == "no" && d.err == nil {
		run.fail(mode, c, "Decode accepted a document that has to be rejected")
	} else if c.St == "ok" {
		if got, want := Show(d.cal).weight(), c.Size[0]+c.Size[1]*c.times(); got != want {
			run.fail(mode, c, "the calendar holds %d units instead of %d", got, want)
		} else {
			return d.cal
		}
	}
	return nil
}

// times is how often the last repeated part occurs.
func (c *Case) times() (n int) {
	for o := c.Ops[1:]; len(o) >= 3; o = o[3:] {
		fmt.Sscan(o[1], &n)
	}
	return n
}

type repeat struct {
	part string
	n    int
	rest string
}

func (r *repeat) Read(p []byte) (int, error) {
	t := 0
	for t < len(p) {
		if r.rest == "" {
			if r.n == 0 {
				break
			}
			r.n--
			r.rest = r.part
		}
		m := copy(p[t:], r.rest)
		r.rest = r.rest[m:]
		t += m
	}
	if t == 0 {
		return 0, io.EOF
	}
	return t, nil
}

type decEntry struct {
	K   string `json:"k"`
	I   int    `json:"i"`
	In  string `json:"in"`
	St  string `json:"st"`
	Cal *Comp  `json:"cal"`
}

// modeMutate: changed documents, whose outcome the specification judges
// afterwards.
func modeMutate(w *worker, c *Case) {
	rnd := rng(c, 5)
	for i := 0; i < mutations; i++ {
		in := mutate(rnd, c.In)
		d := w.decode(strings.NewReader(toReal(in)))
		if s := d.total(); s != "" {
			run.fail("mut", c, "%s for %q", s, in)
			return
		}
		e := decEntry{"m", c.idx, in, "no", &Comp{C: "NONE"}}
		if d.err == nil {
			e.St, e.Cal = "ok", Show(d.cal)
		}
		run.record(e)
	}
}

var tokens = []string{"\r\n", "\r\n ", ";", ":", ",", "\"", "=", "^", "\\", " ", "\t", "A", "z", "0", "9", "-", "+", "/", "T", "Z", "P", "é", "⑴", "⑵", "⑶", "⑷", "⑸", "⑹", "⑺", "⑻", "⑼", "€", "\n", "\r",
	"␀", "␡", "X-A=b;", ";X-B=c", "END:VEVENT\r\n", "BEGIN:VEVENT\r\n", "BEGIN:VALARM\r\n", "END:VALARM\r\n", "BEGIN:X\r\n", "END:X\r\n",
	"ACTION:AUDIO\r\n", "UID:u\r\n", "END:VCALENDAR\r\n", "VERSION:2\r\n", "\\n", "\\,", "^n", "^'", ";TZID=UTC", ";VALUE=DATE", "TRUE", "SUMMARY:x\r\n"}

func mutate(rnd *rand.Rand, s string) string {
	rs := []rune(s)
	lines := strings.SplitAfter(s, "\r\n")
	op := rnd.Intn(8)
	switch mutKind {
	case "lines":
		op = rnd.Intn(4)
	case "chars":
		op = 4 + rnd.Intn(4)
	}
	switch op {
	case 0: // drop a line
		i := rnd.Intn(len(lines))
		return strings.Join(lines[:i], "") + strings.Join(lines[i+1:], "")
	case 1: // repeat a line
		i := rnd.Intn(len(lines))
		return strings.Join(lines[:i], "") + lines[i] + strings.Join(lines[i:], "")
	case 2: // exchange two lines
		i, j := rnd.Intn(len(lines)), rnd.Intn(len(lines))
		lines[i], lines[j] = lines[j], lines[i]
		return strings.Join(lines, "")
	case 3: // move a line
		i, j := rnd.Intn(len(lines)), rnd.Intn(len(lines))
		l := lines[i]
		rest := append(append([]string{}, lines[:i]...), lines[i+1:]...)
		j = min(j, len(rest))
		return strings.Join(rest[:j], "") + l + strings.Join(rest[j:], "")
	case 4: // drop characters
		p := rnd.Intn(len(rs))
		q := min(len(rs), p+1+rnd.Intn(3))
		return string(rs[:p]) + string(rs[q:])
	case 5: // replace a character
		p := rnd.Intn(len(rs))
		return string(rs[:p]) + tokens[rnd.Intn(len(tokens))] + string(rs[p+1:])
	default: // insert
		p := rnd.Intn(len(rs) + 1)
		return string(rs[:p]) + tokens[rnd.Intn(len(tokens))] + string(rs[p:])
	}
}
