// Command icsverif replays cases produced by the TLA+ specification against
// the ics package and compares what the package does with what the
// specification says.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"vimagination.zapto.org/ics"
)

// Case is one case of the specification: a document with the outcome of
// decoding it, or a calendar with the outcome of encoding it.
type Case struct {
	K     string   `json:"k"`               // "d" document, "e" calendar, others: see the modes
	Note  string   `json:"note,omitempty"`  // where the case comes from
	In    string   `json:"in,omitempty"`    // d: the stream
	Lines []string `json:"lines,omitempty"` // d: the stream as lines
	St    string   `json:"st,omitempty"`    // "ok", "no" or "any"
	Cal   *Comp    `json:"cal,omitempty"`   // d: the decoded calendar, e: the calendar to encode
	Canon *Comp    `json:"canon,omitempty"` // e: the calendar after writing and reading
	Wire  []string `json:"wire,omitempty"`  // e: the physical lines of one correct output
	Same  []string `json:"same,omitempty"`  // d: further streams with the same outcome
	Ops   []string `json:"ops,omitempty"`   // s, h: operations or schedule
	Ref   int      `json:"ref,omitempty"`
	Size  []int    `json:"size,omitempty"` // g: what the calendar holds, apart from and in each repetition
	Docs  []*Case  `json:"docs,omitempty"` // c: documents to decode
	Cals  []*Case  `json:"cals,omitempty"` // c: calendars to encode

	idx   int
	noted atomic.Bool
}

func (c *Case) canon() *Comp {
	if c.Canon != nil {
		return c.Canon
	}
	return c.Cal
}

type violation struct {
	Mode   string `json:"mode"`
	Detail string `json:"detail"`
	Index  int    `json:"index"`
	Case   *Case  `json:"case"`
}

// Run collects what a run of the harness did.
type Run struct {
	mu         sync.Mutex
	Cases      int              `json:"cases"`
	Calls      int64            `json:"calls"` // calls of Decode and Encode
	PerMode    map[string]int64 `json:"per_mode"`
	Outcomes   map[string]int64 `json:"outcomes"`
	Violations []violation      `json:"violations"`
	NViol      int              `json:"violation_count"`
	Stuck      []violation      `json:"stuck,omitempty"`
	Error      string           `json:"error,omitempty"`
	Samples    []*Case          `json:"samples,omitempty"`
	Traced     int              `json:"traced"`
	Matched    int64            `json:"wire_matched"`

	trace *bufio.Writer
}

var (
	run   = Run{PerMode: map[string]int64{}, Outcomes: map[string]int64{}}
	calls atomic.Int64

	failed atomic.Bool
	seed   int64
	tier   string

	mutations int    // per case
	mutKind   string // "lines", "chars" or "" for both
)

func (r *Run) fail(mode string, c *Case, format string, args ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.NViol++
	failed.Store(true)
	if len(r.Violations) < 20 {
		r.Violations = append(r.Violations, violation{mode, fmt.Sprintf(format, args...), c.idx, c})
	}
}

func (r *Run) count(m map[string]int64, k string, n int64) {
	r.mu.Lock()
	m[k] += n
	r.mu.Unlock()
}

// record writes an entry for the specification to judge.
func (r *Run) record(x any) {
	b, err := json.Marshal(x)
	if err != nil {
		panic(harnessError(err.Error()))
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Traced++
	r.trace.Write(b)
	r.trace.WriteByte('\n')
}

// ---------------------------------------------------------------------------
// Calls of the package under test. Panics become results; the watchdog looks
// at how long a call has been running.

type slot struct {
	start atomic.Int64
	c     *Case
	mode  string
}

type worker struct {
	s     slot
	calls int64
}

type decoded struct {
	cal *ics.Calendar
	err error
	pan any
}

func guard(pan *any) {
	if p := recover(); p != nil {
		if h, ok := p.(harnessError); ok {
			panic(h)
		}
		*pan = fmt.Sprintf("%v\n%s", p, firstLines(string(debug.Stack()), 30))
	}
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func (w *worker) decode(r io.Reader) (d decoded) {
	w.calls++
	calls.Add(1)
	w.s.start.Store(time.Now().UnixNano())
	defer w.s.start.Store(0)
	defer guard(&d.pan)
	d.cal, d.err = ics.Decode(r)
	return d
}

type encoded struct {
	err error
	pan any
}

func (w *worker) encode(dst io.Writer, cal *ics.Calendar) (e encoded) {
	w.calls++
	calls.Add(1)
	w.s.start.Store(time.Now().UnixNano())
	defer w.s.start.Store(0)
	defer guard(&e.pan)
	e.err = ics.Encode(dst, cal)
	return e
}

func (w *worker) encodeBytes(cal *ics.Calendar) ([]byte, encoded) {
	var b bytes.Buffer
	e := w.encode(&b, cal)
	return b.Bytes(), e
}

// total checks that exactly one of a calendar and an error was returned.
func (d decoded) total() string {
	switch {
	case d.pan != nil:
		return fmt.Sprintf("Decode panicked: %v", d.pan)
	case d.cal == nil && d.err == nil:
		return "Decode returned neither a calendar nor an error"
	case d.cal != nil && d.err != nil:
		return fmt.Sprintf("Decode returned a calendar together with the error %q", d.err)
	}
	return ""
}

// matches compares with what the specification expects ("" when it agrees).
func (d decoded) matches(st string, want *Comp) string {
	if s := d.total(); s != "" {
		return s
	}
	switch st {
	case "ok":
		if d.err != nil {
			return fmt.Sprintf("Decode failed with %q on a document that has to be accepted", d.err)
		}
		if s := diff(want, Show(d.cal)); s != "" {
			return "Decode returned another calendar: " + s
		}
	case "no":
		if d.err == nil {
			return "Decode accepted a document that has to be rejected"
		}
	}
	return ""
}

type modeFunc func(w *worker, c *Case)

var modes = map[string]struct {
	kind string
	f    modeFunc
}{
	"dec":   {"d", modeDec},
	"stab":  {"d", modeStab},
	"chunk": {"d", modeChunk},
	"fold":  {"d", modeFold},
	"trunc": {"d", modeTrunc},
	"total": {"d", modeTotal},
	"plain": {"d", modePlain},
	"mut":   {"d", modeMutate},
	"enc":   {"e", modeEnc},
	"wire":  {"e", modeWire},
	"rt":    {"e", modeRoundTrip},
	"fault": {"e", modeFault},
	"huge":  {"g", modeHuge},
	"big":   {"g", modeBig},
	"same":  {"g", modeSame},
	"long":  {"g", modeLong},
	"kind":  {"d", modeKind},
	"new":   {"n", modeNew},
	"hist":  {"h", modeHist},
	"sess":  {"s", modeSess},
	"cold":  {"c", modeCold},
	"apart": {"c", modeApart},
	"pure":  {"e", modePure},
	"twice": {"d", modeTwice},
	"pard":  {"d", modePar},
	"pare":  {"e", modePar},
}

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "icsverif: "+format+"\n", args...)
	os.Exit(2)
}

func joinLines(l []string) string { return strings.Join(l, "\r\n") + "\r\n" }

func readCases(files string) []*Case {
	var cases []*Case
	for _, f := range strings.Split(files, ",") {
		fh, err := os.Open(f)
		if err != nil {
			fatal("%v", err)
		}
		sc := bufio.NewScanner(fh)
		sc.Buffer(nil, 1<<28)
		for sc.Scan() {
			c := new(Case)
			if err := json.Unmarshal(sc.Bytes(), c); err != nil {
				fatal("%s: %v: %s", f, err, sc.Text())
			}
			c.idx = len(cases)
			if c.Lines != nil {
				c.In = joinLines(c.Lines)
			}
			cases = append(cases, c)
		}
		if err := sc.Err(); err != nil {
			fatal("%v", err)
		}
		fh.Close()
	}
	return cases
}

func main() {
	flag.StringVar(&schemaPath, "schema", "", "table exported by the specification")
	caseFiles := flag.String("cases", "", "case files")
	modeList := flag.String("modes", "", "modes")
	out := flag.String("out", "", "result file")
	traceFile := flag.String("trace", "", "file for entries to be judged by the specification")
	journal := flag.String("journal", "", "write the index of each case before it runs (single worker)")
	first := flag.Bool("first", false, "stop at the first violation")
	only := flag.Int("only", -1, "run a single case")
	limit := flag.Duration("limit", 20*time.Second, "longest time for one call")
	workers := flag.Int("workers", runtime.NumCPU(), "")
	flag.Int64Var(&seed, "seed", 1, "")
	flag.StringVar(&tier, "tier", "quick", "")
	flag.IntVar(&mutations, "mut", 1, "")
	flag.StringVar(&mutKind, "mutkind", "", "")
	flag.Parse()

	if err := loadSchema(schemaPath); err != nil {
		fatal("%v", err)
	}
	cases := readCases(*caseFiles)
	if *traceFile != "" {
		f, err := os.Create(*traceFile)
		if err != nil {
			fatal("%v", err)
		}
		run.trace = bufio.NewWriter(f)
	}
	var jf *os.File
	if *journal != "" {
		var err error
		if jf, err = os.Create(*journal); err != nil {
			fatal("%v", err)
		}
		*workers = 1
	}
	allCases = cases

	finish := func(code int) {
		run.Calls = calls.Load()
		if run.trace != nil {
			run.trace.Flush()
		}
		sort.Slice(run.Violations, func(i, j int) bool { return run.Violations[i].Index < run.Violations[j].Index })
		b, err := json.Marshal(&run)
		if err != nil {
			fatal("%v", err)
		}
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fatal("%v", err)
		}
		os.Exit(code)
	}

	ws := make([]*worker, *workers)
	for i := range ws {
		ws[i] = new(worker)
	}
	go func() {
		var ms runtime.MemStats
		for {
			time.Sleep(100 * time.Millisecond)
			runtime.ReadMemStats(&ms)
			now := time.Now().UnixNano()
			for _, w := range ws {
				s := w.s.start.Load()
				if s == 0 {
					continue
				}
				what := ""
				if d := time.Duration(now - s); d > *limit {
					what = fmt.Sprintf("a call has not returned after %v", *limit)
				} else if ms.HeapAlloc > 10<<30 && d > 2*time.Second {
					what = fmt.Sprintf("a call uses more than %d MB of memory", ms.HeapAlloc>>20)
				}
				if what != "" {
					// the others that wait may do so because of this one, or be the cause
					run.mu.Lock()
					run.Stuck = []violation{{w.s.mode, what, w.s.c.idx, w.s.c}}
					for _, v := range ws {
						if s := v.s.start.Load(); v != w && s != 0 && time.Duration(now-s) > *limit/2 {
							run.Stuck = append(run.Stuck, violation{v.s.mode, what, v.s.c.idx, v.s.c})
						}
					}
					run.mu.Unlock()
					finish(3)
				}
			}
		}
	}()

	var ms []string
	for _, m := range strings.Split(*modeList, ",") {
		if _, ok := modes[m]; !ok {
			fatal("no mode %q", m)
		}
		ms = append(ms, m)
	}
	used := make([]bool, len(cases))
	var next atomic.Int64
	var wg sync.WaitGroup
	for _, w := range ws {
		wg.Add(1)
		go func(w *worker) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					fatal("%v (case %+v)\n%s", p, w.s.c, debug.Stack())
				}
			}()
			for {
				i := int(next.Add(1)) - 1
				if i >= len(cases) || *first && failed.Load() {
					return
				}
				if *only >= 0 && i != *only {
					continue
				}
				if jf != nil {
					fmt.Fprintf(jf, "%d\n", i)
				}
				c := cases[i]
				w.s.c = c
				for _, m := range ms {
					if modes[m].kind == c.K {
						w.s.mode = m
						before := w.calls
						modes[m].f(w, c)
						run.count(run.PerMode, m, w.calls-before)
						used[i] = true
					}
				}
			}
		}(w)
	}
	wg.Wait()
	outcomes := map[string]int64{}
	for i, u := range used {
		if u {
			run.Cases++
			outcomes[cases[i].K+"/"+cases[i].St]++
			if len(run.Samples) < 3 && i%(len(cases)/3+1) == 0 {
				run.Samples = append(run.Samples, cases[i])
			}
		}
	}
	run.Outcomes = outcomes
	finish(0)
}

var (
	allCases   []*Case
	schemaPath string
)

var errInjected = errors.New("injected failure")

// slow is a failure of the kind that may pass.
type slow struct{}

func (*slow) Error() string   { return "injected delay" }
func (*slow) Timeout() bool   { return true }
func (*slow) Temporary() bool { return true }

// injected are the failures that readers and writers report; callers know
// some of them from elsewhere.
var injected = []error{
	errInjected, io.EOF, io.ErrShortWrite, io.ErrClosedPipe, io.ErrUnexpectedEOF, os.ErrClosed, &slow{},
	io.ErrNoProgress, io.ErrShortBuffer, syscall.EINTR, syscall.EPIPE, syscall.EAGAIN, syscall.ENOSPC, os.ErrDeadlineExceeded,
	context.Canceled, &os.PathError{Op: "write", Path: "x", Err: syscall.EPIPE}, fmt.Errorf("injected: %w", io.EOF),
	bufio.ErrTooLong, bytes.ErrTooLarge, errors.New(""),
}
