package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"time"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc3164"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// stamp is a timestamp: an instant and the offset (seconds east of UTC) it is presented with.
type stamp struct {
	sec  int64
	nsec int
	off  int
}

// msgv is the value of a message (reference side). Absent strings are nil.
type msgv struct {
	pri  int // -1 when absent
	ver  int
	ts   *stamp
	host *string
	app  *string
	proc *string
	mid  *string
	text *string
	sd   map[string]map[string]string // nil when absent
}

// daysFromCivil is the number of days from 1970-01-01 of a proleptic Gregorian date.
func daysFromCivil(y, m, d int) int64 {
	yy := int64(y)
	if m <= 2 {
		yy--
	}
	era := yy / 400
	if yy < 0 {
		era = (yy - 399) / 400
	}
	yoe := yy - era*400
	mp := int64((m + 9) % 12)
	doy := (153*mp+2)/5 + int64(d) - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return era*146097 + doe - 719468
}

func leap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

func daysIn(y, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if leap(y) {
			return 29
		}
		return 28
	}
	return 31
}

func mkStamp(y, mo, d, h, mi, s, nsec, off int) *stamp {
	return &stamp{daysFromCivil(y, mo, d)*86400 + int64(h*3600+mi*60+s-off), nsec, off}
}

func cmpStr(what string, e, g *string) string {
	switch {
	case e == nil && g == nil:
		return ""
	case e == nil:
		return fmt.Sprintf("%s: expected none, got %q", what, *g)
	case g == nil:
		return fmt.Sprintf("%s: expected %q, got none", what, *e)
	case *e != *g:
		return fmt.Sprintf("%s: expected %q, got %q", what, short(*e), short(*g))
	}
	return ""
}

func short(s string) string {
	if len(s) > 400 {
		return s[:200] + "..." + s[len(s)-150:]
	}
	return s
}

func cmpU8(what string, e int, g *uint8) string {
	if e < 0 {
		if g != nil {
			return fmt.Sprintf("%s: expected none, got %d", what, *g)
		}
		return ""
	}
	if g == nil {
		return fmt.Sprintf("%s: expected %d, got none", what, e)
	}
	if int(*g) != e {
		return fmt.Sprintf("%s: expected %d, got %d", what, e, *g)
	}
	return ""
}

func cmpTime(e *stamp, g *time.Time) string {
	switch {
	case e == nil && g == nil:
		return ""
	case e == nil:
		return fmt.Sprintf("timestamp: expected none, got %s", g)
	case g == nil:
		return fmt.Sprintf("timestamp: expected %+v, got none", *e)
	}
	_, off := g.Zone()
	if g.Unix() != e.sec || g.Nanosecond() != e.nsec || off != e.off {
		return fmt.Sprintf("timestamp: expected unix %d nsec %d offset %d (%s), got unix %d nsec %d offset %d (%s)", e.sec, e.nsec, e.off,
			time.Unix(e.sec, int64(e.nsec)).In(time.FixedZone("", e.off)).Format(time.RFC3339Nano), g.Unix(), g.Nanosecond(), off, g.Format(time.RFC3339Nano))
	}
	return ""
}

func cmpSD(e map[string]map[string]string, g *map[string]map[string]string) string {
	if e == nil {
		if g != nil {
			return fmt.Sprintf("structured data: expected none, got %v", *g)
		}
		return ""
	}
	if g == nil {
		return fmt.Sprintf("structured data: expected %v, got none", e)
	}
	if len(e) != len(*g) {
		return fmt.Sprintf("structured data: expected %s, got %s", short(fmt.Sprintf("%q", e)), short(fmt.Sprintf("%q", *g)))
	}
	for id, ps := range e {
		gp, ok := (*g)[id]
		if !ok || len(gp) != len(ps) {
			return fmt.Sprintf("structured data element %q: expected %s, got %s (present %v)", id, short(fmt.Sprintf("%q", ps)), short(fmt.Sprintf("%q", gp)), ok)
		}
		for n, v := range ps {
			gv, ok := gp[n]
			if !ok || gv != v {
				return fmt.Sprintf("structured data parameter %q of %q: expected %q, got %q (present %v)", n, id, short(v), short(gv), ok)
			}
		}
	}
	return ""
}

func isNilMessage(m syslog.Message) bool {
	switch x := m.(type) {
	case nil:
		return true
	case *rfc5424.SyslogMessage:
		return x == nil
	case *rfc3164.SyslogMessage:
		return x == nil
	}
	return false
}

func cmpBase(e *msgv, b *syslog.Base) string {
	if d := cmpU8("priority", e.pri, b.Priority); d != "" {
		return d
	}
	fac, sev := -1, -1
	if e.pri >= 0 {
		fac, sev = e.pri/8, e.pri%8
	}
	if d := cmpU8("facility", fac, b.Facility); d != "" {
		return d
	}
	if d := cmpU8("severity", sev, b.Severity); d != "" {
		return d
	}
	if d := cmpTime(e.ts, b.Timestamp); d != "" {
		return d
	}
	if d := cmpStr("hostname", e.host, b.Hostname); d != "" {
		return d
	}
	if d := cmpStr("appname", e.app, b.Appname); d != "" {
		return d
	}
	if d := cmpStr("procid", e.proc, b.ProcID); d != "" {
		return d
	}
	if d := cmpStr("msgid", e.mid, b.MsgID); d != "" {
		return d
	}
	return cmpStr("message", e.text, b.Message)
}

// diff5424 compares a message with its expected value (nil: no message).
func diff5424(e *msgv, got syslog.Message) string {
	if e == nil {
		if got != nil {
			return "expected no message, got " + render(got)
		}
		return ""
	}
	if isNilMessage(got) {
		return "expected a message, got none"
	}
	g, ok := got.(*rfc5424.SyslogMessage)
	if !ok {
		return fmt.Sprintf("unexpected message type %T", got)
	}
	if d := cmpBase(e, &g.Base); d != "" {
		return d
	}
	if int(g.Version) != e.ver {
		return fmt.Sprintf("version: expected %d, got %d", e.ver, g.Version)
	}
	return cmpSD(e.sd, g.StructuredData)
}

func diff3164(e *msgv, got syslog.Message) string {
	if e == nil {
		if got != nil {
			return "expected no message, got " + render(got)
		}
		return ""
	}
	if isNilMessage(got) {
		return "expected a message, got none"
	}
	g, ok := got.(*rfc3164.SyslogMessage)
	if !ok {
		return fmt.Sprintf("unexpected message type %T", got)
	}
	return cmpBase(e, &g.Base)
}

// render writes a message returned by the library in full; equal renderings mean equal messages.
func render(m syslog.Message) string {
	if isNilMessage(m) {
		if m == nil {
			return "<nil>"
		}
		return "<typed nil>"
	}
	var w bytes.Buffer
	var b *syslog.Base
	switch x := m.(type) {
	case *rfc5424.SyslogMessage:
		b = &x.Base
		fmt.Fprintf(&w, "rfc5424 version=%d ", x.Version)
		if x.StructuredData == nil {
			w.WriteString("sd=none ")
		} else {
			w.WriteString("sd=" + renderSD(*x.StructuredData) + " ")
		}
	case *rfc3164.SyslogMessage:
		b = &x.Base
		w.WriteString("rfc3164 ")
	default:
		return fmt.Sprintf("%T %+v", m, m)
	}
	u := func(n string, v *uint8) {
		if v == nil {
			fmt.Fprintf(&w, "%s=none ", n)
		} else {
			fmt.Fprintf(&w, "%s=%d ", n, *v)
		}
	}
	s := func(n string, v *string) {
		if v == nil {
			fmt.Fprintf(&w, "%s=none ", n)
		} else {
			fmt.Fprintf(&w, "%s=%q ", n, *v)
		}
	}
	u("pri", b.Priority)
	u("fac", b.Facility)
	u("sev", b.Severity)
	if b.Timestamp == nil {
		w.WriteString("ts=none ")
	} else {
		_, off := b.Timestamp.Zone()
		fmt.Fprintf(&w, "ts=%d.%09d@%d ", b.Timestamp.Unix(), b.Timestamp.Nanosecond(), off)
	}
	s("host", b.Hostname)
	s("app", b.Appname)
	s("proc", b.ProcID)
	s("mid", b.MsgID)
	s("text", b.Message)
	return w.String()
}

func renderSD(sd map[string]map[string]string) string {
	ids := make([]string, 0, len(sd))
	for k := range sd {
		ids = append(ids, k)
	}
	sort.Strings(ids)
	var w strings.Builder
	for _, id := range ids {
		fmt.Fprintf(&w, "[%q", id)
		ns := make([]string, 0, len(sd[id]))
		for k := range sd[id] {
			ns = append(ns, k)
		}
		sort.Strings(ns)
		for _, n := range ns {
			fmt.Fprintf(&w, " %q=%q", n, sd[id][n])
		}
		w.WriteString("]")
	}
	return w.String()
}

func renderErr(err error) string {
	if err == nil {
		return "<nil>"
	}
	return err.Error()
}
