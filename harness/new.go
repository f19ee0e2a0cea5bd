package main

import (
	"fmt"
	"slices"
	"strings"

	"vimagination.zapto.org/ics"
)

type cell struct {
	get func() int
	set func(int)
}

// maker turns a constructor into one for numbered values.
func maker[T comparable](mk func(T) *T, vals ...T) func(int) (*cell, string) {
	return func(n int) (*cell, string) {
		p := mk(vals[n%len(vals)])
		if p == nil {
			return nil, "returned nil"
		}
		return &cell{
			get: func() int {
				for i, v := range vals {
					if *p == v {
						return i
					}
				}
				return -1
			},
			set: func(n int) { *p = vals[n%len(vals)] },
		}, ""
	}
}

var members = []ics.ParamMember{{""}, {"m"}, {"mailto:x@y"}, {"a", "b"}, {"b", "a"}, {"a", "a"}, {"a,b"}, {"", ""}, {"é", "\"", "\n"}, {"a", "b", "c", "d", "e"}, {}, {"M"}}

func memberMaker(n int) (*cell, string) {
	p := ics.NewMember(slices.Clone(members[n]))
	if p == nil {
		return nil, "returned nil"
	}
	return &cell{
		get: func() int { return slices.IndexFunc(members, func(m ics.ParamMember) bool { return slices.Equal(m, *p) }) },
		set: func(n int) { *p = slices.Clone(members[n]) },
	}, ""
}

// texts, numbers and enum: twelve values of each sort, numbered as in the model.
func texts[T ~string](mk func(T) *T, first ...T) func(int) (*cell, string) {
	return maker(mk, append(first, "A", " a ", "é€", "\"", "a;b:c,d", "x\ny", "\x00", T(strings.Repeat("long", 100)), "^n")...)
}

func numbers[T ~int32 | ~int](mk func(T) *T) func(int) (*cell, string) {
	return maker(mk, 0, 1, -7, 9, 10, 99, 100, 101, -1, 2147483647, -2147483648, 255)
}

func enum[T ~uint8](mk func(T) *T) func(int) (*cell, string) {
	return maker(mk, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 127, 255)
}

var makers = map[string]func(int) (*cell, string){
	"CommonName":          texts(ics.NewCommonName, "", "a", "b c"),
	"DirectoryEntry":      texts(ics.NewDirectoryEntry, "", "a", "b c"),
	"FormatType":          texts(ics.NewFormatType, "", "text/plain", "a/b"),
	"Language":            texts(ics.NewLanguage, "", "en", "de"),
	"Member":              memberMaker,
	"RSVP":                maker(ics.NewRSVP, false, true),
	"SentBy":              texts(ics.NewSentBy, "", "a", "b c"),
	"TimezoneID":          texts(ics.NewTimezoneID, "", "UTC", "Europe/London"),
	"ID":                  texts(ics.NewID, "", "a", "b c"),
	"AgentID":             texts(ics.NewAgentID, "", "a", "b c"),
	"PercentComplete":     numbers(ics.NewPercentComplete),
	"Priority":            numbers(ics.NewPriority),
	"Repeat":              numbers(ics.NewRepeat),
	"Sequence":            numbers(ics.NewSequence),
	"CalendarUserType":    enum(ics.ParamCalendarUserType.New),
	"Encoding":            enum(ics.ParamEncoding.New),
	"FreeBusyType":        enum(ics.ParamFreeBusyType.New),
	"ParticipationStatus": enum(ics.ParamParticipationStatus.New),
	"Related":             enum(ics.ParamRelated.New),
	"RelationshipType":    enum(ics.ParamRelationshipType.New),
	"ParticipationRole":   enum(ics.ParamParticipationRole.New),
	"Value":               enum(ics.ParamValue.New),
	"Action":              enum(ics.PropAction.New),
	"CalendarScale":       enum(ics.PropCalendarScale.New),
	"Class":               enum(ics.PropClass.New),
	"Status":              enum(ics.PropStatus.New),
	"TimeTransparency":    enum(ics.PropTimeTransparency.New),
	"AlarmStatus":         enum(ics.PropAlarmStatus.New),
}

// modeNew: the constructors make separate cells that hold their argument.
func modeNew(w *worker, c *Case) {
	mk, ok := makers[c.Note]
	if !ok {
		panic(harnessError("no constructor " + c.Note))
	}
	var cells []*cell
	for i, op := range c.Ops {
		var what string
		var a, b int
		fmt.Sscan(op, &what, &a, &b)
		w.calls++
		calls.Add(1)
		if what == "new" {
			cl, s := mk(a)
			if s != "" {
				run.fail("new", c, "%s %s", c.Note, s)
				return
			}
			cells = append(cells, cl)
		} else {
			cells[a-1].set(b)
		}
		var want []int
		for _, f := range strings.Fields(c.Same[i]) {
			var n int
			fmt.Sscan(f, &n)
			if c.Note == "RSVP" {
				n %= 2
			}
			want = append(want, n)
		}
		for j, cl := range cells {
			if g := cl.get(); g != want[j] {
				run.fail("new", c, "after %q value %d holds %d instead of %d", c.Ops[:i+1], j+1, g, want[j])
				return
			}
		}
	}
}

// modeKind: the Type method of an alarm names its kind.
func modeKind(w *worker, c *Case) {
	if c.St == "no" {
		return
	}
	d := w.decode(strings.NewReader(toReal(c.In)))
	if d.pan != nil || d.err != nil || d.cal == nil {
		return // for other modes
	}
	check := func(alarms []ics.Alarm) {
		for _, a := range alarms {
			want := ""
			switch a.AlarmType.(type) {
			case *ics.AlarmAudio:
				want = "AUDIO"
			case *ics.AlarmDisplay:
				want = "DISPLAY"
			case *ics.AlarmEmail:
				want = "EMAIL"
			case *ics.AlarmURI:
				want = "URI"
			case *ics.AlarmNone:
				want = "NONE"
			}
			if got := a.Type(); got != want {
				run.fail("kind", c, "the Type of an alarm of kind %s is %q", want, got)
			}
		}
	}
	for i := range d.cal.Event {
		check(d.cal.Event[i].Alarm)
	}
	for i := range d.cal.Todo {
		check(d.cal.Todo[i].Alarm)
	}
}
