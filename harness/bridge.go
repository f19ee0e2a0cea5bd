package main

import (
	"encoding/base64"
	"fmt"
	"math"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"
	_ "time/tzdata"

	"vimagination.zapto.org/ics"
)

// Everything here goes through exported names only.

var enums = map[string][]int{
	"CLASS": {int(ics.ClassPublic), int(ics.ClassPrivate), int(ics.ClassConfidential)},
	"STATUS": {int(ics.StatusTentative), int(ics.StatusConfirmed), int(ics.StatusCancelled), int(ics.StatusNeedsAction),
		int(ics.StatusCompleted), int(ics.StatusInProcess), int(ics.StatusDraft), int(ics.StatusFinal)},
	"TRANSP":       {int(ics.TimeTransparencyOpaque), int(ics.TimeTransparencyTransparent)},
	"ALARM-STATUS": {int(ics.AlarmStatusActive), int(ics.AlarmStatusCancelled), int(ics.AlarmStatusCompleted)},
}

// The first entry is the "unknown" value.
var paramEnums = map[string][]int{
	"CUTYPE": {int(ics.CalendarUserTypeUnknown), int(ics.CalendarUserTypeIndividual), int(ics.CalendarUserTypeGroup),
		int(ics.CalendarUserTypeResource), int(ics.CalendarUserTypeRoom)},
	"FBTYPE": {int(ics.FreeBusyTypeUnknown), int(ics.FreeBusyTypeFree), int(ics.FreeBusyTypeBusy),
		int(ics.FreeBusyTypeBusyUnavailable), int(ics.FreeBusyTypeBusyTentative)},
	"PARTSTAT": {int(ics.ParticipationStatusUnknown), int(ics.ParticipationStatusNeedsAction),
		int(ics.ParticipationStatusAccepted), int(ics.ParticipationStatusDeclined), int(ics.ParticipationStatusTentative),
		int(ics.ParticipationStatusDelegated), int(ics.ParticipationStatusCompleted), int(ics.ParticipationStatusInProcess)},
	"RELTYPE": {int(ics.RelationshipTypeUnknown), int(ics.RelationshipTypeParent), int(ics.RelationshipTypeChild),
		int(ics.RelationshipTypeSibling)},
	"ROLE": {int(ics.ParticipationRoleUnknown), int(ics.ParticipationRoleRequiredParticipant),
		int(ics.ParticipationRoleChair), int(ics.ParticipationRoleOptParticipant), int(ics.ParticipationRoleNonParticipant)},
}

var (
	freqs = map[string]ics.Frequency{"SECONDLY": ics.Secondly, "MINUTELY": ics.Minutely, "HOURLY": ics.Hourly,
		"DAILY": ics.Daily, "WEEKLY": ics.Weekly, "MONTHLY": ics.Monthly, "YEARLY": ics.Yearly}
	days = map[string]ics.WeekDay{"SU": ics.Sunday, "MO": ics.Monday, "TU": ics.Tuesday, "WE": ics.Wednesday,
		"TH": ics.Thursday, "FR": ics.Friday, "SA": ics.Saturday}
	months = []ics.Month{ics.UnknownMonth, ics.January, ics.February, ics.March, ics.April, ics.May, ics.June, ics.July,
		ics.August, ics.September, ics.October, ics.November, ics.December}
)

// choice gives the field of a property that can have values of several types.
var choice = map[string]string{"URI": "URI", "BINARY": "Binary", "DATE-TIME": "DateTime", "DATE": "Date",
	"PERIOD": "Period", "DURATION": "Duration"}

// embedded gives the field of a property that has parameters.
var embedded = map[string]string{"TEXT": "Text", "MTEXT": "MText", "CAL-ADDRESS": "CalendarAddress", "PERIOD": "Period"}

var valueTypes = map[string]reflect.Type{
	"TEXT": reflect.TypeOf(ics.Text("")), "MTEXT": reflect.TypeOf(ics.MText{}), "INTEGER": reflect.TypeOf(ics.Integer(0)),
	"GEO": reflect.TypeOf(ics.TFloat{}), "BOOLEAN": reflect.TypeOf(ics.Boolean(false)), "URI": reflect.TypeOf(ics.URI{}),
	"CAL-ADDRESS": reflect.TypeOf(ics.CalendarAddress{}), "BINARY": reflect.TypeOf(ics.Binary{}),
	"DATE": reflect.TypeOf(ics.Date{}), "DATE-TIME": reflect.TypeOf(ics.DateTime{}), "DURATION": reflect.TypeOf(ics.Duration{}),
	"PERIOD": reflect.TypeOf(ics.Period{}), "UTC-OFFSET": reflect.TypeOf(ics.UTCOffset(0)), "RECUR": reflect.TypeOf(ics.Recur{}),
}

var (
	locMu sync.Mutex
	locs  = map[string]*time.Location{}
)

func location(name string) *time.Location {
	switch name {
	case "UTC":
		return time.UTC
	case "LOCAL":
		return time.Local
	}
	if strings.HasPrefix(name, "FIXED") { // FIXED+hhmm: a zone without a name
		n, _ := strconv.Atoi(name[6:])
		o := n/100*3600 + n%100*60
		if name[5] == '-' {
			o = -o
		}
		return time.FixedZone("", o)
	}
	locMu.Lock()
	defer locMu.Unlock()
	l, ok := locs[name]
	if !ok {
		var err error
		if l, err = time.LoadLocation(name); err != nil {
			panic(harnessError("cannot load zone " + name))
		}
		locs[name] = l
	}
	return l
}

type harnessError string

// parseTime reads [-]Y...YMMDD[THHMMSS] in a zone; "ZERO" is the unset time.
func parseTime(s, zone string) time.Time {
	if s == "ZERO" {
		return time.Time{}
	}
	d, c, _ := strings.Cut(s, "T")
	neg := strings.HasPrefix(d, "-")
	d = strings.TrimPrefix(d, "-")
	y := mustAtoi(d[:len(d)-4])
	if neg {
		y = -y
	}
	var h, m, sec, nsec int
	if c != "" {
		h, m, sec = mustAtoi(c[:2]), mustAtoi(c[2:4]), mustAtoi(c[4:6])
		if len(c) > 6 { // .fraction
			nsec = mustAtoi((c[7:] + "000000000")[:9])
		}
	}
	return time.Date(y, time.Month(mustAtoi(d[len(d)-4:len(d)-2])), mustAtoi(d[len(d)-2:]), h, m, sec, nsec, location(zone))
}

func mustAtoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		panic(harnessError("not a number: " + s))
	}
	return n
}

func mustUint(s string) uint64 {
	n, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		panic(harnessError("not a number: " + s))
	}
	return n
}

func showTime(t time.Time) (string, string) {
	const layout = "20060102T150405"
	wall := t.Format(layout)
	if t.Location() == time.Local {
		return wall + fraction(t), "LOCAL"
	}
	name := t.Location().String()
	switch name {
	case "UTC":
		if _, o := t.Zone(); o != 0 {
			name += "(wrong offset)"
		}
	case "":
		_, o := t.Zone()
		sg := '+'
		if o < 0 {
			sg, o = '-', -o
		}
		name = fmt.Sprintf("FIXED%c%02d%02d", sg, o/3600, o/60%60)
	default:
		if l, err := time.LoadLocation(name); err != nil {
			name += "(unknown)"
		} else if t.In(l).Format(layout) != wall {
			name += "(wrong offset)"
		}
	}
	return wall + fraction(t), name
}

func fraction(t time.Time) string {
	if t.Nanosecond() == 0 {
		return ""
	}
	return fmt.Sprintf(".%09d", t.Nanosecond())
}

func parseURL(s string) url.URL {
	u, err := url.Parse(s)
	if err != nil || u.String() != s {
		return url.URL{Opaque: s}
	}
	return *u
}

func showDuration(d ics.Duration) Strs {
	sg := "+"
	if d.Negative {
		sg = "-"
	}
	f := func(n uint) string { return strconv.FormatUint(uint64(n), 10) }
	return Strs{sg, f(d.Weeks), f(d.Days), f(d.Hours), f(d.Minutes), f(d.Seconds)}
}

func parseDuration(v Strs) ics.Duration {
	n := func(s string) uint { return uint(mustUint(s)) }
	return ics.Duration{Negative: v[0] == "-", Weeks: n(v[1]), Days: n(v[2]), Hours: n(v[3]), Minutes: n(v[4]), Seconds: n(v[5])}
}

func dayName(d ics.WeekDay) string {
	for n, x := range days {
		if x == d {
			return n
		}
	}
	return fmt.Sprintf("#%d", d)
}

func parseDay(s string) ics.WeekDay {
	if d, ok := days[s]; ok {
		return d
	}
	return ics.WeekDay(mustAtoi(strings.TrimPrefix(s, "#")))
}

func list[T any](key string, l []T, f func(T) string) Strs {
	if len(l) == 0 {
		return nil
	}
	s := make([]string, len(l))
	for i, x := range l {
		s[i] = f(x)
	}
	return Strs{key + "=" + strings.Join(s, ",")}
}

func showNum[T uint8 | int8 | int16](n T) string { return strconv.Itoa(int(n)) }

func showRecur(r ics.Recur) Strs {
	v := Strs{}
	fq := fmt.Sprintf("#%d", r.Frequency)
	for n, x := range freqs {
		if x == r.Frequency {
			fq = n
		}
	}
	v = append(v, "FREQ="+fq)
	if r.Count != 0 {
		v = append(v, "COUNT="+strconv.FormatUint(r.Count, 10))
	}
	if !r.Until.IsZero() {
		wall, zone := showTime(r.Until)
		if r.UntilTime {
			v = append(v, "UNTIL="+wall+"@"+zone)
		} else {
			v = append(v, "UNTIL="+r.Until.Format("20060102"))
		}
	}
	if r.Interval != 0 {
		v = append(v, "INTERVAL="+strconv.FormatUint(r.Interval, 10))
	}
	v = append(v, list("BYSECOND", r.BySecond, showNum[uint8])...)
	v = append(v, list("BYMINUTE", r.ByMinute, showNum[uint8])...)
	v = append(v, list("BYHOUR", r.ByHour, showNum[uint8])...)
	v = append(v, list("BYDAY", r.ByDay, func(d ics.DayRecur) string {
		if d.Occurrence == 0 {
			return dayName(d.Day)
		}
		return strconv.Itoa(int(d.Occurrence)) + dayName(d.Day)
	})...)
	v = append(v, list("BYMONTHDAY", r.ByMonthDay, showNum[int8])...)
	v = append(v, list("BYYEARDAY", r.ByYearDay, showNum[int16])...)
	v = append(v, list("BYWEEKNO", r.ByWeekNum, showNum[int8])...)
	v = append(v, list("BYMONTH", r.ByMonth, func(m ics.Month) string {
		for i, x := range months {
			if x == m && i > 0 {
				return strconv.Itoa(i)
			}
		}
		return fmt.Sprintf("#%d", m)
	})...)
	v = append(v, list("BYSETPOS", r.BySetPos, showNum[int16])...)
	if r.WeekStart != ics.UnknownDay {
		v = append(v, "WKST="+dayName(r.WeekStart))
	}
	return v
}

func nums[T uint8 | int8 | int16](s string) []T {
	var l []T
	for _, x := range strings.Split(s, ",") {
		n := mustAtoi(x)
		if int(T(n)) != n {
			panic(harnessError("number does not fit: " + x))
		}
		l = append(l, T(n))
	}
	return l
}

func parseRecur(v Strs) (r ics.Recur) {
	for _, p := range v {
		k, x, _ := strings.Cut(p, "=")
		switch k {
		case "FREQ":
			if f, ok := freqs[x]; ok {
				r.Frequency = f
			} else {
				r.Frequency = ics.Frequency(mustAtoi(x[1:]))
			}
		case "COUNT":
			r.Count = mustUint(x)
		case "INTERVAL":
			r.Interval = mustUint(x)
		case "UNTIL":
			if w, z, ok := strings.Cut(x, "@"); ok {
				r.Until, r.UntilTime = parseTime(w, z), true
			} else if p := strings.SplitN(x, "/", 3); len(p) == 3 {
				r.Until = parseTime(p[0]+"T"+p[1], p[2])
			} else {
				r.Until = parseTime(x, "UTC")
			}
		case "BYSECOND":
			r.BySecond = nums[uint8](x)
		case "BYMINUTE":
			r.ByMinute = nums[uint8](x)
		case "BYHOUR":
			r.ByHour = nums[uint8](x)
		case "BYDAY":
			for _, d := range strings.Split(x, ",") {
				i := strings.IndexAny(d, "SMTWF#")
				var dr ics.DayRecur
				if i > 0 {
					dr.Occurrence = nums[int8](d[:i])[0]
				}
				dr.Day = parseDay(d[i:])
				r.ByDay = append(r.ByDay, dr)
			}
		case "BYMONTHDAY":
			r.ByMonthDay = nums[int8](x)
		case "BYYEARDAY":
			r.ByYearDay = nums[int16](x)
		case "BYWEEKNO":
			r.ByWeekNum = nums[int8](x)
		case "BYMONTH":
			for _, n := range nums[uint8](x) {
				if int(n) < len(months) {
					r.ByMonth = append(r.ByMonth, months[n])
				} else {
					r.ByMonth = append(r.ByMonth, ics.Month(n))
				}
			}
		case "BYSETPOS":
			r.BySetPos = nums[int16](x)
		case "WKST":
			r.WeekStart = parseDay(x)
		default:
			panic(harnessError("recurrence part " + k))
		}
	}
	return r
}

// makeValue builds a value of one of the exported value types.
func makeValue(t string, v Strs) reflect.Value {
	var x any
	switch t {
	case "TEXT":
		x = ics.Text(toReal(v[0]))
	case "MTEXT":
		m := ics.MText{}
		for _, s := range v {
			m = append(m, ics.Text(toReal(s)))
		}
		x = m
	case "INTEGER":
		x = ics.Integer(mustAtoi(v[0]))
	case "GEO":
		var f ics.TFloat
		for i := range f {
			n, err := strconv.ParseFloat(v[i], 64)
			if err != nil {
				panic(harnessError("float " + v[i]))
			}
			f[i] = n
		}
		x = f
	case "BOOLEAN":
		x = ics.Boolean(v[0] == "TRUE")
	case "URI":
		x = ics.URI{URL: parseURL(toReal(v[0]))}
	case "CAL-ADDRESS":
		x = ics.CalendarAddress{URL: parseURL(toReal(v[0]))}
	case "BINARY":
		b, err := base64.StdEncoding.DecodeString(v[0])
		if err != nil {
			panic(harnessError("base64 " + v[0]))
		}
		x = ics.Binary(b)
	case "DATE":
		d := ics.Date{Time: parseTime(v[0], "UTC")}
		if len(v) == 3 {
			d.Time = parseTime(v[0]+"T"+v[1], v[2])
		}
		x = d
	case "DATE-TIME":
		x = ics.DateTime{Time: parseTime(v[0], v[1])}
	case "DURATION":
		x = parseDuration(v)
	case "PERIOD":
		p := ics.Period{Start: ics.DateTime{Time: parseTime(v[0], v[1])}}
		switch len(v) {
		case 3:
			p.End = ics.DateTime{Time: parseTime(v[2], v[1])}
		case 4: // end in another zone
			p.End = ics.DateTime{Time: parseTime(v[2], v[3])}
		default:
			p.Duration = parseDuration(v[2:])
		}
		x = p
	case "UTC-OFFSET":
		n := mustAtoi(v[1])*3600 + mustAtoi(v[2])*60 + mustAtoi(v[3])
		if v[0] == "-" {
			n = -n
		}
		x = ics.UTCOffset(n)
	case "RECUR":
		x = parseRecur(v)
	default:
		panic(harnessError("value type " + t))
	}
	return reflect.ValueOf(x)
}

func showValue(t string, v reflect.Value) Strs {
	switch x := v.Convert(valueTypes[t]).Interface().(type) {
	case ics.Text:
		return Strs{fromReal(string(x))}
	case ics.MText:
		s := Strs{}
		for _, y := range x {
			s = append(s, fromReal(string(y)))
		}
		return s
	case ics.Integer:
		return Strs{strconv.FormatInt(int64(x), 10)}
	case ics.TFloat:
		f := func(n float64) string {
			if math.IsInf(n, 0) || math.IsNaN(n) {
				return fmt.Sprint(n)
			}
			return strconv.FormatFloat(n, 'f', -1, 64)
		}
		return Strs{f(x[0]), f(x[1])}
	case ics.Boolean:
		if x {
			return Strs{"TRUE"}
		}
		return Strs{"FALSE"}
	case ics.URI:
		return Strs{fromReal(x.URL.String())}
	case ics.CalendarAddress:
		return Strs{fromReal(x.URL.String())}
	case ics.Binary:
		return Strs{base64.StdEncoding.EncodeToString(x)}
	case ics.Date:
		d := x.Time.Format("20060102")
		if h, m, s := x.Time.Clock(); h+m+s+x.Time.Nanosecond() != 0 {
			d += x.Time.Format("(15:04:05.999999999)")
		}
		return Strs{d}
	case ics.DateTime:
		w, z := showTime(x.Time)
		return Strs{w, z}
	case ics.Duration:
		return showDuration(x)
	case ics.Period:
		w, z := showTime(x.Start.Time)
		if x.End.IsZero() {
			return append(Strs{w, z}, showDuration(x.Duration)...)
		}
		e, z2 := showTime(x.End.Time)
		if z2 != z {
			return Strs{w, z, e, z2}
		}
		return Strs{w, z, e}
	case ics.UTCOffset:
		sg, n := "+", int(x)
		if n < 0 {
			sg, n = "-", -n
		}
		return Strs{sg, fmt.Sprintf("%02d", n/3600), fmt.Sprintf("%02d", n/60%60), fmt.Sprintf("%02d", n%60)}
	case ics.Recur:
		return showRecur(x)
	}
	panic(harnessError("value type " + t))
}

func enumIndex(l []int, n int) int {
	for i, x := range l {
		if x == n {
			return i
		}
	}
	return -1
}

func field(v reflect.Value, name string) reflect.Value {
	f := v.FieldByName(name)
	if !f.IsValid() {
		panic(harnessError("no field " + name + " in " + v.Type().String()))
	}
	return f
}

// setParam stores a parameter in its (pointer or slice) field.
func setParam(f reflect.Value, name string, v Strs) {
	d := schema.Params[name]
	t := f.Type()
	if t.Kind() == reflect.Slice {
		l := reflect.MakeSlice(t, 0, len(v))
		for _, s := range v {
			var e reflect.Value
			if d.K == "QURIS" {
				e = reflect.ValueOf(ics.CalendarAddress{URL: parseURL(toReal(s))})
			} else {
				e = reflect.ValueOf(toReal(s))
			}
			l = reflect.Append(l, e.Convert(t.Elem()))
		}
		f.Set(l)
		return
	}
	p := reflect.New(t.Elem())
	e := p.Elem()
	switch d.K {
	case "STR", "QSTR", "FMT":
		e.SetString(toReal(v[0]))
	case "QURI":
		e.Set(reflect.ValueOf(ics.URI{URL: parseURL(toReal(v[0]))}).Convert(t.Elem()))
	case "BOOL":
		e.SetBool(v[0] == "TRUE")
	case "OPEN":
		if strings.HasPrefix(v[0], "#") {
			e.SetUint(uint64(mustAtoi(v[0][1:])))
			break
		}
		n := 0
		for i, s := range d.E {
			if s == v[0] {
				n = i + 1
			}
		}
		e.SetUint(uint64(paramEnums[name][n]))
	case "ENUM":
	default:
		panic(harnessError("param kind " + d.K))
	}
	f.Set(p)
}

func getParam(f reflect.Value, name string) (Strs, bool) {
	d := schema.Params[name]
	if f.IsNil() {
		return nil, false
	}
	if f.Kind() == reflect.Slice {
		l := Strs{}
		for i := 0; i < f.Len(); i++ {
			e := f.Index(i)
			if d.K == "QURIS" {
				u := e.Convert(valueTypes["CAL-ADDRESS"]).Interface().(ics.CalendarAddress)
				l = append(l, fromReal(u.URL.String()))
			} else {
				l = append(l, fromReal(e.String()))
			}
		}
		return l, true
	}
	e := f.Elem()
	switch d.K {
	case "STR", "QSTR", "FMT":
		return Strs{fromReal(e.String())}, true
	case "QURI":
		u := e.Convert(valueTypes["URI"]).Interface().(ics.URI)
		return Strs{fromReal(u.URL.String())}, true
	case "BOOL":
		if e.Bool() {
			return Strs{"TRUE"}, true
		}
		return Strs{"FALSE"}, true
	case "OPEN":
		switch i := enumIndex(paramEnums[name], int(e.Uint())); i {
		case -1:
			return Strs{fmt.Sprintf("#%d", e.Uint())}, true
		case 0:
			return Strs{"UNKNOWN"}, true
		default:
			return Strs{d.E[i-1]}, true
		}
	case "ENUM":
		return Strs{d.E[0]}, true
	}
	panic(harnessError("param kind " + d.K))
}

func makeInst(dst reflect.Value, def string, in *Inst) {
	d := schema.Props[def]
	t := dst.Type()
	if d.T[0] == "ENUM" {
		if strings.HasPrefix(in.V[0], "#") {
			dst.SetUint(uint64(mustAtoi(in.V[0][1:])))
			return
		}
		for i, s := range d.E {
			if s == in.V[0] {
				dst.SetUint(uint64(enums[def][i]))
				return
			}
		}
		panic(harnessError("enumeration value " + in.V[0]))
	}
	for n, v := range in.A {
		setParam(field(dst, schema.Params[n].G), n, v)
	}
	switch {
	case len(d.T) > 1:
		set := func(t string, v Strs) {
			f := field(dst, choice[t])
			p := reflect.New(f.Type().Elem())
			p.Elem().Set(makeValue(t, v).Convert(f.Type().Elem()))
			f.Set(p)
		}
		switch in.T {
		case "NONE":
		case "BOTH": // v is the value for the first alternative
			set(d.T[0], in.V)
			set(d.T[1], otherValue[d.T[1]])
		default:
			set(in.T, in.V)
		}
	case len(d.A) > 0:
		f := field(dst, embedded[d.T[0]])
		f.Set(makeValue(d.T[0], in.V).Convert(f.Type()))
	default:
		dst.Set(makeValue(d.T[0], in.V).Convert(t))
	}
}

var otherValue = map[string]Strs{"BINARY": {"QUJD"}, "DATE": {"20200101"}, "DATE-TIME": {"20200101T000000", "UTC"}}

func showInst(v reflect.Value, def string) *Inst {
	d := schema.Props[def]
	in := &Inst{T: d.T[0], V: Strs{}, A: Params{}}
	if in.T == "ENUM" {
		if i := enumIndex(enums[def], int(v.Uint())); i >= 0 && i < len(d.E) {
			in.V = Strs{d.E[i]}
		} else {
			in.V = Strs{fmt.Sprintf("#%d", v.Uint())}
		}
		return in
	}
	for _, n := range d.A {
		if p, ok := getParam(field(v, schema.Params[n].G), n); ok {
			in.A[n] = p
		}
	}
	switch {
	case len(d.T) > 1:
		in.T = ""
		for _, t := range d.T {
			if f := field(v, choice[t]); !f.IsNil() {
				in.T += t
				in.V = append(in.V, showValue(t, f.Elem())...)
			}
		}
		if in.T == "" {
			in.T = "NONE"
		}
	case len(d.A) > 0:
		in.V = showValue(d.T[0], field(v, embedded[d.T[0]]))
	default:
		in.V = showValue(d.T[0], v)
	}
	return in
}

func newAlarm(kind string) ics.AlarmType {
	switch kind {
	case "VALARMAUDIO":
		return new(ics.AlarmAudio)
	case "VALARMDISPLAY":
		return new(ics.AlarmDisplay)
	case "VALARMEMAIL":
		return new(ics.AlarmEmail)
	case "VALARMURI":
		return new(ics.AlarmURI)
	case "VALARMNONE":
		return new(ics.AlarmNone)
	case "VALARMNIL":
		return nil
	}
	panic(harnessError("alarm kind " + kind))
}

func alarmKind(a ics.AlarmType) string {
	switch a.(type) {
	case *ics.AlarmAudio:
		return "VALARMAUDIO"
	case *ics.AlarmDisplay:
		return "VALARMDISPLAY"
	case *ics.AlarmEmail:
		return "VALARMEMAIL"
	case *ics.AlarmURI:
		return "VALARMURI"
	case *ics.AlarmNone:
		return "VALARMNONE"
	}
	return "VALARMNIL"
}

func makeComp(dst reflect.Value, c *Comp) {
	d, ok := schema.Comps[c.C]
	if !ok {
		panic(harnessError("component " + c.C))
	}
	for _, p := range d.Ps {
		l, ok := c.P[p.N]
		if !ok {
			continue
		}
		f := field(dst, schema.Props[p.D].G)
		if len(l) == 0 { // an empty list that is not nil
			f.Set(reflect.MakeSlice(f.Type(), 0, 0))
			continue
		}
		switch f.Kind() {
		case reflect.Pointer:
			x := reflect.New(f.Type().Elem())
			makeInst(x.Elem(), p.D, l[0])
			f.Set(x)
		case reflect.Slice:
			for _, in := range l {
				x := reflect.New(f.Type().Elem()).Elem()
				makeInst(x, p.D, in)
				f.Set(reflect.Append(f, x))
			}
		default:
			makeInst(f, p.D, l[0])
		}
	}
	for _, n := range d.Subs {
		for _, s := range c.S[n] {
			if n == "VALARM" {
				f := field(dst, "Alarm")
				a := newAlarm(s.C)
				if a != nil {
					makeComp(reflect.ValueOf(a).Elem(), s)
				}
				f.Set(reflect.Append(f, reflect.ValueOf(ics.Alarm{AlarmType: a})))
				continue
			}
			f := field(dst, schema.Comps[n].G)
			x := reflect.New(f.Type().Elem()).Elem()
			makeComp(x, s)
			f.Set(reflect.Append(f, x))
		}
	}
}

func showComp(v reflect.Value, kind string) *Comp {
	d := schema.Comps[kind]
	c := &Comp{C: kind, P: map[string][]*Inst{}, S: map[string][]*Comp{}}
	for _, p := range d.Ps {
		f := field(v, schema.Props[p.D].G)
		switch f.Kind() {
		case reflect.Pointer:
			if !f.IsNil() {
				c.P[p.N] = []*Inst{showInst(f.Elem(), p.D)}
			}
		case reflect.Slice:
			for i := 0; i < f.Len(); i++ {
				c.P[p.N] = append(c.P[p.N], showInst(f.Index(i), p.D))
			}
		default:
			c.P[p.N] = []*Inst{showInst(f, p.D)}
		}
	}
	for _, n := range d.Subs {
		f := field(v, map[bool]string{true: "Alarm", false: schema.Comps[n].G}[n == "VALARM"])
		for i := 0; i < f.Len(); i++ {
			if n == "VALARM" {
				a := f.Index(i).Interface().(ics.Alarm).AlarmType
				k := alarmKind(a)
				if k == "VALARMNIL" {
					c.S[n] = append(c.S[n], &Comp{C: k})
				} else {
					c.S[n] = append(c.S[n], showComp(reflect.ValueOf(a).Elem(), k))
				}
				continue
			}
			c.S[n] = append(c.S[n], showComp(f.Index(i), n))
		}
	}
	return c
}

// Build makes the calendar a specification value stands for.
func Build(c *Comp) *ics.Calendar {
	cal := new(ics.Calendar)
	makeComp(reflect.ValueOf(cal).Elem(), c)
	return cal
}

// Show is the inverse of Build.
func Show(cal *ics.Calendar) *Comp {
	return showComp(reflect.ValueOf(cal).Elem(), "VCALENDAR")
}
