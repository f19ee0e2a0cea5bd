package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"vimagination.zapto.org/ics"
)

// modeCold runs the calls of a case in a process of their own, in which
// nothing has been decoded or encoded before.
func modeCold(w *worker, c *Case) {
	b, err := json.Marshal(c)
	if err != nil {
		panic(harnessError(err.Error()))
	}
	w.s.start.Store(time.Now().UnixNano())
	defer w.s.start.Store(0)
	cmd := exec.Command(os.Args[0], "-schema", schemaPath, "-cases", "/dev/stdin", "-modes", "apart", "-workers", "1", "-out", "/dev/stdout")
	var out, errs bytes.Buffer
	cmd.Stdin, cmd.Stdout, cmd.Stderr = bytes.NewReader(append(b, '\n')), &out, &errs
	err = cmd.Run()
	switch s := errs.String(); {
	case strings.Contains(s, "DATA RACE"):
		run.fail("cold", c, "data race between the first calls in a process:\n%s", firstLines(s, 60))
	case strings.Contains(s, "fatal error: concurrent map"):
		run.fail("cold", c, "the first calls in a process use a map at the same time:\n%s", firstLines(s, 30))
	case err != nil:
		panic(harnessError(fmt.Sprintf("%v: %s", err, s)))
	default:
		var r Run
		if err := json.Unmarshal(out.Bytes(), &r); err != nil {
			panic(harnessError(err.Error()))
		}
		for _, v := range r.Violations {
			run.fail("cold", c, "%s", v.Detail)
		}
		w.calls += r.Calls
		calls.Add(r.Calls)
	}
}

// modeApart: all calls at once, each document and calendar twice.
func modeApart(w *worker, c *Case) {
	type result struct {
		d   decoded
		b   bytes.Buffer
		e   encoded
		pan any
	}
	cals := make([]*ics.Calendar, len(c.Cals))
	for i := range cals {
		cals[i] = Build(c.Cals[i].Cal)
	}
	docs := make([]string, len(c.Docs))
	for i := range docs {
		docs[i] = toReal(joinLines(c.Docs[i].Lines))
	}
	res := make([]result, 2*(len(docs)+len(cals)))
	w.s.start.Store(time.Now().UnixNano())
	defer w.s.start.Store(0)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range res {
		wg.Add(1)
		go func(r *result, i int) {
			defer wg.Done()
			defer guard(&r.pan)
			<-start
			if i < len(docs) {
				r.d.cal, r.d.err = ics.Decode(strings.NewReader(docs[i]))
			} else {
				r.e.err = ics.Encode(&r.b, cals[i-len(docs)])
			}
		}(&res[i], i/2)
	}
	close(start)
	wg.Wait()
	w.calls += int64(len(res))
	calls.Add(int64(len(res)))
	for i := range res {
		r, n := &res[i], i/2
		r.d.pan, r.e.pan = r.pan, r.pan
		if n < len(docs) {
			if s := r.d.matches(c.Docs[n].St, c.Docs[n].Cal); s != "" {
				run.fail("apart", c, "document %d: %s", n+1, s)
			}
			continue
		}
		n -= len(docs)
		var again bytes.Buffer
		e := w.encode(&again, cals[n])
		switch {
		case r.pan != nil:
			run.fail("apart", c, "Encode panicked: %v", r.pan)
		case (r.e.err == nil) != (c.Cals[n].St == "ok"):
			run.fail("apart", c, "calendar %d: Encode returned %v", n+1, r.e.err)
		case (e.err == nil) != (r.e.err == nil), !bytes.Equal(again.Bytes(), r.b.Bytes()):
			run.fail("apart", c, "calendar %d: Encode wrote something else while others were running: %s", n+1, firstDiff(again.String(), r.b.String()))
		}
	}
}
