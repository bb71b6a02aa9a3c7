package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"time"
	_ "time/tzdata"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc3164"
)

// parse3 is one RFC3164 input given to a new parser.
type parse3 struct {
	View   string
	In     B
	Cfg    cfg3
	Parser bool `json:",omitempty"`
}

func (p *parse3) Kind() string { return "parse3164" }

var zones = map[string]*time.Location{}

func zone(name string) *time.Location {
	if l, ok := zones[name]; ok {
		return l
	}
	panic("unknown zone " + name)
}

var zoneNames = []string{"UTC", "Local", "Europe/Rome", "America/New_York", "Asia/Kolkata", "Asia/Kathmandu", "Pacific/Apia", "Australia/Lord_Howe", "America/St_Johns", "fixed+3:30:15", "fixed-12", "fixed+0", "named UTC", "named Rome", "unnamed"}

// givenYear is a year operator of the user.
type givenYear int

func (g givenYear) Apply() int { return int(g) }

func init() {
	// a local zone that is unlike UTC, wherever the check runs
	l, err := time.LoadLocation("America/St_Johns")
	if err != nil {
		panic(err)
	}
	time.Local = l
	for _, n := range zoneNames {
		switch n {
		case "fixed+3:30:15":
			zones[n] = time.FixedZone("odd", 3*3600+30*60+15)
		case "fixed-12":
			zones[n] = time.FixedZone("", -12*3600)
		case "fixed+0":
			zones[n] = time.FixedZone("zero", 0)
		// zones that have the name of another one
		case "named UTC":
			zones[n] = time.FixedZone("UTC", 3600)
		case "named Rome":
			zones[n] = time.FixedZone("Europe/Rome", -2*3600)
		case "unnamed":
			zones[n] = time.FixedZone("", 5*3600+45*60)
		case "Local":
			zones[n] = time.Local
		default:
			l, err := time.LoadLocation(n)
			if err != nil {
				panic(err)
			}
			zones[n] = l
		}
	}
}

func opts3(c cfg3) (o []syslog.MachineOption) {
	if c.Best {
		o = append(o, rfc3164.WithBestEffort())
	}
	if c.RFC3339 {
		o = append(o, rfc3164.WithRFC3339())
	}
	if c.Year != nil {
		if c.Given {
			o = append(o, rfc3164.WithYear(givenYear(*c.Year)))
		} else {
			o = append(o, rfc3164.WithYear(rfc3164.Year{YYYY: *c.Year}))
		}
	}
	if c.Locale != "" {
		o = append(o, rfc3164.WithLocaleTimezone(zone(c.Locale)))
	}
	if c.Zone != "" {
		o = append(o, rfc3164.WithTimezone(zone(c.Zone)))
	}
	return
}

func (p *parse3) Run() string {
	x := rfc3164.NewMachine
	if p.Parser {
		x = rfc3164.NewParser
	}
	m, err := x(opts3(p.Cfg)...).Parse(p.In)
	return judge3(p.View, p.In, p.Cfg, m, err)
}

var colRE = regexp.MustCompile(`^(?s)(.+) \[col (\d+)\]$`)

// column gives the column an error message ends with.
func column(err error) (int, bool) {
	s := err.Error()
	if !strings.HasSuffix(s, "]") {
		return 0, false
	}
	i := strings.LastIndex(s, " [col ")
	if i <= 0 {
		return 0, false
	}
	n, e := strconv.Atoi(s[i+6 : len(s)-1])
	return n, e == nil
}

// time3 is the timestamp expected with the given options for a Stamp timestamp; nil when it is left unspecified.
func time3(f []int, c cfg3) *time.Time {
	y := 0
	if c.Year != nil {
		y = *c.Year
	}
	if f[0] == 2 && f[1] == 29 && !leap(y) {
		return nil
	}
	l := time.UTC
	if c.Locale != "" {
		l = zone(c.Locale)
	}
	t := time.Date(y, time.Month(f[0]), f[1], f[2], f[3], f[4], 0, l)
	if c.Zone != "" {
		t = t.In(zone(c.Zone))
	}
	return &t
}

var tally3 tally

// expect3 adjusts the expected message to the options; it tells whether the timestamp is specified.
func expect3(r res3, c cfg3) bool {
	if r.msg == nil || r.stamp == nil {
		return true
	}
	t := time3(r.stamp, c)
	if t == nil {
		return false
	}
	_, off := t.Zone()
	r.msg.ts = &stamp{t.Unix(), 0, off}
	return true
}

func judge3(view string, in []byte, c cfg3, m syslog.Message, err error) string {
	r := ref3164(in, c.RFC3339)
	specified := expect3(r, c)
	if m != nil && !specified {
		if g, ok := m.(*rfc3164.SyslogMessage); ok && g != nil && g.Timestamp != nil {
			x := *g
			x.Timestamp = nil
			m = &x
			r.msg.ts = nil
		}
	}
	d := ""
	if r.ok {
		tally3.hit(end3(r.ctl))
		if err != nil {
			d = "a well-formed message is rejected: " + err.Error()
		} else {
			d = diff3164(r.msg, m)
		}
	} else {
		if r.msg != nil {
			tally3.hit(v3AfterPri)
		} else {
			tally3.hit(v3Reject)
		}
		switch {
		case err == nil:
			d = fmt.Sprintf("a malformed message (at column %d) gives no error and message %s", r.col, render(m))
		case view == "P07":
			if m != nil && !c.Best {
				d = "a malformed message gives a message: " + render(m)
			}
		default:
			if n, ok := column(err); !ok || n != r.col {
				d = fmt.Sprintf("error %q, expected one at column %d", err, r.col)
			} else {
				e := r.msg
				if !c.Best {
					e = nil
				}
				d = diff3164(e, m)
			}
		}
	}
	if d != "" {
		return fmt.Sprintf("rfc3164 (options %s) on %q: %s", cfgString(c), short(string(in)), d)
	}
	return ""
}

func cfgString(c cfg3) string {
	b, _ := json.Marshal(c)
	return string(b)
}

func init() {
	replayers["parse3164"] = func(b json.RawMessage) (Scenario, error) {
		s := &parse3{}
		return s, json.Unmarshal(b, s)
	}
	checks["P07"] = func(c *Ctx) { check3164(c, []cfg3{{}, {RFC3339: true}}) }
	checks["P08"] = func(c *Ctx) {
		check3164(c, []cfg3{{}, {Best: true}, {RFC3339: true}, {Best: true, RFC3339: true}})
	}
	checks["P09"] = check3164Time
}

func skeletons3() [][]byte {
	s := []string{
		"<0>Jan  1 00:00:00 h t",
		"<191>Dec 31 23:59:59 host.example.com su[123]: 'su root' failed",
		"<34>Feb 29 12:34:56 1.2.3.4 app-name_1.2/x]: text: with [brackets]: and \xc3\xa9\xff",
		"<7>2016-02-29T23:59:59Z h a[]: b",
		"<100>0000-01-01T00:00:00-23:59 h a[1:2 [3\xe9]: c",
		"<13>Nov 30 07:08:09 - -: -",
		"<13>Apr 10 17:28:39 h -[-]: - a[b]: c",
		"<13>Mar 20 01:02:03 h word[unclosed text ]:x",
		"<13>Aug  9 01:02:03 h  leading space: x",
		"<13>Oct 19 20:12:13 h a[b]c: d",
	}
	var o [][]byte
	for _, x := range s {
		o = append(o, []byte(x))
	}
	return o
}

func check3164(c *Ctx, cfgs []cfg3) {
	c.assume("the reference automaton encodes the documented RFC3164 format; its conformance is established by this run")
	c.assume("an implementation automaton with more states than the reference is only separated as far as the middle sequences and sweeps explored reach")
	for _, cf := range cfgs {
		cf := cf
		run := func(w *worker, in []byte) { w.do(&parse3{View: c.Prop, In: in, Cfg: cf}) }
		e, idx := explore(model3(cf.RFC3339))
		c.addStates(e.n)
		c.addTransitions(e.n * 256)
		c.note("model_"+cfgString(cf), map[string]int{"states": e.n, "byte_classes": len(e.reps), "identification_words": e.words})
		conform(c, e, func(prefix []byte) (int, bool) {
			r := ref3164(prefix, cf.RFC3339)
			if r.col >= 0 && r.col < len(prefix) {
				return 0, false
			}
			s, ok := idx[r.ctl]
			return s, ok
		}, skeletons3(), bs("", "x", ": x", "]: x", "\n<1>Jan  1 00:00:00 h t"), c.pick(1, 2), run)
		families3(c, cf, run)
		mutations(c, skeletons3(), func(w *worker, in []byte) {
			w.do(&parse3{View: c.Prop, In: in, Cfg: cf, Parser: true})
		})
	}
	c.note("verdicts", tally3.report(func(k int) string {
		return [...]string{"accepted without tag", "accepted with a tag", "rejected before the end of the priority", "", "rejected after the priority"}[k]
	}))
}

const pre3 = "<1>Jan  1 00:00:00 h "

func families3(c *Ctx, cf cfg3, run func(w *worker, in []byte)) {
	products3(c, cf.RFC3339, run)
	odd3(c, run)
	digits := bs("0", "1", "2", "3", "4", "5", "6", "7", "8", "9")
	c.fanout(digits, 4, func(w *worker, s []byte) {
		run(w, cat([]byte("<"), s, []byte(">Jan  1 00:00:00 h t: m")))
		run(w, cat([]byte("<"), s, []byte(">")))
		run(w, cat([]byte("<"), s))
	})
	// every day of every month, also impossible ones, however written
	c.parallel(12, func(w *worker, mo int) {
		for d := 0; d <= 40; d++ {
			for _, f := range []string{"%2d", "%02d", "%d"} {
				for _, t := range []string{"00:00:00", "23:59:59", "12:34:56"} {
					ts := months[mo] + " " + fmt.Sprintf(f, d) + " " + t
					run(w, []byte("<3>"+ts+" h t[1]: m"))
					run(w, []byte("<3>"+ts+" h"))
					run(w, []byte("<3>"+ts+" "))
					run(w, []byte("<3>"+ts+"x"))
					run(w, []byte("<3>"+ts))
				}
			}
		}
		for _, n := range []string{strings.ToLower(months[mo]), strings.ToUpper(months[mo]), months[mo] + "u", months[mo][:2]} {
			run(w, []byte("<3>"+n+" 10 10:10:10 h m"))
		}
	})
	c.parallel(100, func(w *worker, h int) {
		for m := 0; m < 100; m++ {
			for s := 0; s < 100; s++ {
				if !c.thorough() && (m > 61 || s > 61) && (m+s)%7 != 0 {
					continue
				}
				run(w, []byte(fmt.Sprintf("<3>Jun 15 %02d:%02d:%02d h m", h, m, s)))
			}
		}
	})
	if cf.RFC3339 {
		dateFamilies(c, func(w *worker, ts string) {
			run(w, []byte("<1>"+ts+" h a[p]: m"))
			if i := strings.IndexByte(ts, '.'); i > 0 {
				j := strings.IndexAny(ts[i:], "Z+-")
				run(w, []byte("<1>"+ts[:i]+ts[i+j:]+" h m"))
			}
		})
	}
	// every length of the hostname, the tag, the process id, the text
	max := c.pick(300, 700)
	c.parallel(max, func(w *worker, n int) {
		x := string(rep('x', n))
		for _, z := range []string{x, x + "-", "-" + x, x + "\x7f", x + "\xc3\xa9", x + " ", x + ":", x + "]"} {
			run(w, []byte("<1>Jan  1 00:00:00 "+z+" t: m"))
			run(w, []byte("<1>Jan  1 00:00:00 "+z+" t[1]: m"))
			run(w, []byte("<1>Jan  1 00:00:00 "+z))
			for _, h := range []string{"h", "-", strings.Repeat("h", 255)} {
				p := "<1>Jan  1 00:00:00 " + h + " "
				run(w, []byte(p+z))
				run(w, []byte(p+z+": m"))
				run(w, []byte(p+z+":"))
				run(w, []byte(p+z+": "))
				run(w, []byte(p+z+"[1]: m"))
				run(w, []byte(p+z+"[12]"))
				run(w, []byte(p+"t["+z+"]: m"))
				run(w, []byte(p+"t["+z))
				run(w, []byte(p+"t["+z+"]"+z))
				run(w, []byte(p+"t: "+z))
				run(w, []byte(p+z+"\x00"))
				run(w, []byte(p+"t["+z+"\x00]: m"))
			}
		}
	})
	sizes := append(largeSizes(c), 1024-len(pre3))
	c.parallel(len(sizes), func(w *worker, i int) {
		n := sizes[len(sizes)-1-i]
		b := rep('m', n)
		for j := range b {
			b[j] = byte('a' + j%23)
		}
		run(w, cat([]byte(pre3), b))
		run(w, cat([]byte(pre3+"t[1]: "), b))
		run(w, cat([]byte(pre3+"t["), b, []byte("]: m")))
		run(w, cat([]byte(pre3), b, []byte(": m\x01")))
		run(w, cat([]byte(pre3+"t[1]: "), b, []byte("\x01")))
		run(w, cat([]byte(pre3+"t["), b, []byte("\x01")))
		run(w, cat([]byte("<1>Jan  1 00:00:00 "), b))
		// inputs of that size as a whole
		for _, x := range []string{pre3, pre3 + "t: ", pre3 + "t[1]: ", pre3 + "t["} {
			in := cat([]byte(x), b)[:n]
			run(w, in)
			run(w, cat(in[:n-1], []byte("\x01")))
			run(w, cat(in[:n-3], []byte("]: ")))
		}
	})
	// every byte within long texts, tags and process ids
	ps, ns := longPieces(), longSizes(c)
	c.parallel(len(ps)*len(ns), func(w *worker, i int) {
		n := ns[i%len(ns)]
		for _, b := range around(ps[i/len(ns)], n) {
			run(w, cat([]byte(pre3+"t: "), b))
			run(w, cat([]byte(pre3+"t["), b, []byte("]: "), b))
			if n < 300 {
				run(w, cat([]byte(pre3), b))
				run(w, cat([]byte(pre3), b, []byte("[1]: m")))
				run(w, cat([]byte("<1>Jan  1 00:00:00 "), b, []byte(" t: m")))
			}
		}
	})
	// words, and pairs of printable characters, as hostname, tag, process id and text
	put := func(w *worker, a, b string) {
		run(w, []byte("<13>Jan  1 00:00:00 "+a+" "+b+"[1]: m"))
		run(w, []byte("<13>Jan  1 00:00:00 h "+a+"["+b+"]: m"))
		run(w, []byte("<13>Jan  1 00:00:00 "+b+" "+a+": "+b))
		run(w, []byte("<13>Jan  1 00:00:00 h "+a+" "+b))
		run(w, []byte("<13>Jan  1 00:00:00 "+a+" "+b+": "+a+": "+b))
	}
	c.parallel(len(fieldWords), func(w *worker, i int) {
		for _, b := range fieldWords {
			put(w, fieldWords[i], b)
		}
		for j := 33; j < 127; j++ {
			put(w, fieldWords[i]+string([]byte{byte(j)}), "x")
			put(w, "x", string([]byte{byte(j)})+fieldWords[i])
		}
	})
	c.parallel(94, func(w *worker, i int) {
		for j := 33; j < 127; j++ {
			s := string([]byte{byte(i + 33), byte(j)})
			put(w, s, "x")
			put(w, "x", s)
		}
	})
	// the text: every string over the significant bytes
	c.fanout(bs("a", ":", " ", "[", "]", "\x01", "\xe9", "-"), c.pick(7, 8), func(w *worker, s []byte) {
		run(w, cat([]byte(pre3), s))
	})
	c.fanout(bs("a", ":", " ", "[", "]", "1"), c.pick(7, 8), func(w *worker, s []byte) {
		run(w, cat([]byte(pre3+"t"), s))
		run(w, cat([]byte(pre3+"tag[1"), s))
		run(w, cat([]byte(pre3+"t[1]: "), s, []byte(": b")))
		run(w, cat([]byte(pre3+strings.Repeat("x", 31)), s, []byte(" y")))
	})
	c.parallel(256, func(w *worker, i int) {
		for j := 0; j < 256; j++ {
			p := []byte{byte(i), byte(j)}
			run(w, cat([]byte(pre3), p))
			run(w, cat([]byte(pre3+"t"), p))
			run(w, cat([]byte(pre3+"t: "), p))
			run(w, cat([]byte(pre3+"t["), p, []byte("]: x")))
			run(w, cat([]byte(pre3), p, []byte(": x")))
			run(w, cat([]byte(pre3), p, []byte("[y]: x")))
		}
	})
	mutations(c, skeletons3(), run)
}

var xs5000 = strings.Repeat("x", 5000)

// check3164Time: the product of days, years and options.
func check3164Time(c *Ctx) {
	c.assume("calendar and time zone arithmetic of the Go standard library (time.Date, Time.In) is the oracle for wall-clock times in a zone; 29 February in a year that has none is left unspecified")
	ys := []*int{nil}
	years := []int{0, 1, 4, 99, 100, 400, 1582, 1883, 1900, 1916, 1945, 1969, 1970, 1971, 1999, 2000, 2001, 2011, 2018, 2019, 2020, 2023, 2024, 2037, 2038, 2039, 2100, 2400, 9999, 10000, 10001, 32767, 65536, 99999, -1, -4, -100, -400, -9999}
	if c.thorough() {
		for y := 1850; y <= 2110; y++ {
			years = append(years, y)
		}
		years = append(years, 10400, 12345, 16384, 32768, 65535, 100000, 123456, -2, -3, -101, -10000)
	}
	for i := range years {
		ys = append(ys, &years[i])
	}
	zs := append([]string{""}, zoneNames...)
	var cfgs []cfg3
	for _, y := range ys {
		for _, l := range zs {
			for _, z := range zs {
				for _, r := range []bool{false, true} {
					cfgs = append(cfgs, cfg3{RFC3339: r, Year: y, Locale: l, Zone: z})
				}
			}
		}
	}
	c.addStates(len(cfgs))
	c.note("configurations", len(cfgs))
	times := []string{"00:00:00", "02:30:00", "12:34:56", "23:59:59"}
	if c.thorough() {
		times = append(times, "00:30:30", "01:00:00", "01:45:00", "02:00:00", "03:00:00", "18:29:59")
	}
	iso := []string{"2018-10-11T22:14:15Z", "1970-01-01T00:00:00+00:00", "2016-02-29T23:59:59+05:30", "0000-01-01T00:00:00-23:59", "9999-12-31T23:59:59+23:59", "2020-03-29T02:30:00-00:30"}
	c.parallel(len(cfgs), func(w *worker, i int) {
		cf := cfgs[i]
		for mo := 1; mo <= 12; mo++ {
			for d := 1; d <= 31; d++ {
				for k, t := range times {
					if !c.thorough() && (mo+d+k+i)%4 != 0 && !(mo == 2 && d > 27) && !(d == 31 || d == 1) {
						continue // quick: every day with one of the times in each configuration
					}
					in := []byte(fmt.Sprintf("<3>%s %2d %s h t: m", months[mo-1], d, t))
					w.do(&parse3{View: "P09", In: in, Cfg: cf})
				}
			}
			c.addTransitions(31)
		}
		for _, t := range iso {
			w.do(&parse3{View: "P09", In: []byte("<3>" + t + " h t: m"), Cfg: cf})
			b := cf
			b.Best = true
			w.do(&parse3{View: "P09", In: []byte("<3>" + t + " h t: m"), Cfg: b})
			w.do(&parse3{View: "P09", In: []byte("<3>" + t + " h"), Cfg: b})
		}
		b := cf
		b.Best = true
		w.do(&parse3{View: "P09", In: []byte("<3>Jul  4 01:02:03 h t: \x01"), Cfg: b})
		w.do(&parse3{View: "P09", In: []byte("<3>Jul  4 01:02:03 h t: m"), Cfg: b})
		// longer messages
		for _, n := range []int{40, 100, 255, 300, 512, 600, 1024, 2500, 5000} {
			for _, x := range []cfg3{cf, b} {
				w.do(&parse3{View: "P09", In: []byte("<3>Jul  4 01:02:03 h t: " + xs5000[:n]), Cfg: x})
			}
			w.do(&parse3{View: "P09", In: []byte("<3>Feb 29 23:02:03 " + xs5000[:min(n, 255)] + " " + xs5000[:n]), Cfg: cf})
			w.do(&parse3{View: "P09", In: []byte("<3>Dec 31 21:02:03 h " + xs5000[:min(n, 32)] + "[" + xs5000[:n] + "]: t"), Cfg: cf})
			w.do(&parse3{View: "P09", In: []byte("<3>Oct 11 21:02:03 h t: " + xs5000[:n] + "\x01"), Cfg: b})
			w.do(&parse3{View: "P09", In: []byte("<3>" + iso[0] + " h t: " + xs5000[:n]), Cfg: cf})
		}
	})
	// every time of the day and every year for a few configurations
	some := []cfg3{{}, {Locale: "Europe/Rome"}, {Locale: "America/St_Johns", Zone: "Asia/Kathmandu"}, {Zone: "Australia/Lord_Howe"}}
	c.parallel(24*60, func(w *worker, i int) {
		for s := 0; s < 60; s++ {
			for _, cf := range some {
				y := 2020
				cf.Year = &y
				w.do(&parse3{View: "P09", In: []byte(fmt.Sprintf("<3>Mar 29 %02d:%02d:%02d h m", i/60, i%60, s)), Cfg: cf})
			}
		}
	})
	c.parallel(15000, func(w *worker, y int) {
		y -= 2000
		for _, cf := range some {
			cf.Year = &y
			cf.Given = false
			for _, d := range []string{"Jan  1", "Feb 28", "Feb 29", "Mar  1", "Dec 31"} {
				w.do(&parse3{View: "P09", In: []byte("<3>" + d + " 23:59:59 h m"), Cfg: cf})
			}
			cf.Given = true
			for _, d := range []string{"Jan  1", "Feb 29", "Jul  4"} {
				w.do(&parse3{View: "P09", In: []byte("<3>" + d + " 23:59:59 h m"), Cfg: cf, Parser: true})
			}
		}
	})
	c.note("verdicts", tally3.report(func(k int) string {
		return [...]string{"accepted without tag", "accepted with a tag", "rejected before the end of the priority", "", "rejected after the priority"}[k]
	}))
}
