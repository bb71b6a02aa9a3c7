package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/nontransparent"
	"github.com/influxdata/go-syslog/v3/octetcounting"
)

// scfg is a configured stream parser: octet counting, or non-transparent with its trailer.
type scfg struct {
	Octet bool `json:",omitempty"`
	NUL   bool `json:",omitempty"`
	Best  bool `json:",omitempty"`
	Max   *int `json:",omitempty"` // nil: not given
}

func (s scfg) max() int {
	if s.Max == nil {
		return 8192
	}
	return *s.Max
}

func (s scfg) trailer() byte {
	if s.NUL {
		return 0
	}
	return '\n'
}

func (s scfg) new(l syslog.ParserListener) syslog.Parser {
	o := []syslog.ParserOption{syslog.WithListener(l)}
	if s.Best {
		o = append(o, syslog.WithBestEffort())
	}
	if s.Max != nil {
		o = append(o, syslog.WithMaxMessageLength(*s.Max))
	}
	if s.Octet {
		return octetcounting.NewParser(o...)
	}
	if s.NUL {
		o = append(o, nontransparent.WithTrailer(nontransparent.NUL))
	}
	return nontransparent.NewParser(o...)
}

// feed tells how the bytes of a stream reach the parser.
type feed struct {
	Plan    []int  `json:",omitempty"` // sizes of the first reads (0: a read which gives nothing); what is left comes at once
	Each    int    `json:",omitempty"` // size of every read (after the plan)
	Err     string `json:",omitempty"` // failure of the reader after the last byte; "" is a regular end
	WithErr bool   `json:",omitempty"` // the end or the failure comes together with the last bytes
	As      string `json:",omitempty"` // the type of the reader the parser is given
}

// readerKinds are the types of readers, other than one with a Read method only.
var readerKinds = []string{"bytes", "strings", "buffer", "bufio16", "bufio", "limited", "multi", "readwriter"}

// as makes the reader of the wanted type.
func (r *planReader) as(kind string) io.Reader {
	switch kind {
	case "bytes":
		return bytes.NewReader(r.data)
	case "strings":
		return strings.NewReader(string(r.data))
	case "buffer":
		return bytes.NewBuffer(append(make([]byte, 0, len(r.data)+100), r.data...))
	case "bufio16":
		return bufio.NewReaderSize(r, 16)
	case "bufio":
		return bufio.NewReader(r)
	case "limited":
		b := bytes.NewReader(append(append([]byte{}, r.data...), "<1>1 - - - - - - \x00\n16 <1>1"...))
		return io.LimitReader(b, int64(len(r.data)))
	case "multi":
		k := len(r.data) / 2
		return io.MultiReader(bytes.NewReader(r.data[:k]), strings.NewReader(string(r.data[k:])))
	case "stuck":
		return &stuckReader{r: r}
	case "flaky":
		return &stuckReader{r: r, flaky: true}
	case "readwriter":
		return struct {
			io.Reader
			io.Writer
			io.Closer
		}{r, io.Discard, io.NopCloser(nil)}
	}
	return r
}

// stuckReader has nothing more to give in the end, for ever and without a word; or it fails now and then.
type stuckReader struct {
	r     *planReader
	flaky bool
	n     int
}

func (s *stuckReader) Read(p []byte) (int, error) {
	s.n++
	if s.flaky {
		if s.n%3 == 0 {
			return 0, errors.New("try again")
		}
		if len(p) > 3 {
			p = p[:3]
		}
		return s.r.Read(p)
	}
	if s.r.pos == len(s.r.data) {
		return 0, nil
	}
	n, _ := s.r.Read(p)
	return n, nil
}

// planReader is the environment of a stream parser: it answers the reads as the feed says, it uses the rest of the
// buffers as scratch space, and keeps them to overwrite them in the end.
type planReader struct {
	data []byte
	f    feed
	pos  int
	step int
	left int // bytes left of a planned chunk which did not fit
	bufs [][]byte
	n    int
	on   func(supplied int)
}

func (r *planReader) fail() error {
	if r.f.Err == readerPanics {
		panic(mishap{})
	}
	if r.f.Err == "" {
		return io.EOF
	}
	if e, ok := namedErrors[r.f.Err]; ok {
		return e
	}
	return errors.New(r.f.Err)
}

// netError is what connections fail with.
type netError struct{ temporary, timeout bool }

func (e netError) Error() string {
	return fmt.Sprintf("network: temporary %v, timeout %v", e.temporary, e.timeout)
}
func (e netError) Temporary() bool { return e.temporary }
func (e netError) Timeout() bool   { return e.timeout }

// silentError has nothing to say, listError cannot be compared with itself, nilError is fine as nil.
type silentError struct{}

func (silentError) Error() string { return "" }

type listError []string

func (e listError) Error() string { return strings.Join(e, ", ") }

type nilError struct{ text string }

func (e *nilError) Error() string {
	if e == nil {
		return "nothing"
	}
	return e.text
}

// namedErrors are failures of a kind that programs look at.
var namedErrors = map[string]error{
	"temporary": netError{temporary: true}, "timeout": netError{timeout: true}, "temporary timeout": netError{true, true}, "network": netError{},
	"deadline": os.ErrDeadlineExceeded, "canceled": context.Canceled, "context deadline": context.DeadlineExceeded, "EINTR": syscall.EINTR, "EAGAIN": syscall.EAGAIN,
	"EPIPE": syscall.EPIPE, "ECONNRESET": syscall.ECONNRESET, "io.ErrNoProgress": io.ErrNoProgress, "os.ErrClosed": os.ErrClosed, "io.ErrClosedPipe": io.ErrClosedPipe,
	"net.ErrClosed": net.ErrClosed, "io.ErrUnexpectedEOF": io.ErrUnexpectedEOF, "bufio.ErrBufferFull": bufio.ErrBufferFull, "io.ErrShortBuffer": io.ErrShortBuffer,
	"silent": silentError{}, "silent pointer": errors.New(""), "list": listError{"a", "b"}, "nil": (*nilError)(nil), "spaces": errors.New(" \n"), "long": errors.New(strings.Repeat("long ", 2000)), "percent": errors.New("%s %d %!"),
	"joined": errors.Join(errors.New("one"), syscall.EPIPE), "wrapped timeout": fmt.Errorf("reading: %w", os.ErrDeadlineExceeded),
	"wrapped": &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}, "path": &os.PathError{Op: "read", Path: "x", Err: syscall.EIO},
}

// errorNames are their names, in order.
func errorNames() (ns []string) {
	for n := range namedErrors {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return
}

func (r *planReader) Read(p []byte) (int, error) {
	r.n++
	if r.on != nil {
		r.on(r.pos)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.bufs) < 64 {
		r.bufs = append(r.bufs, p)
	}
	if r.pos == len(r.data) {
		for i := range p {
			p[i] = '<'
		}
		return 0, r.fail()
	}
	var want int
	switch {
	case r.left > 0:
		want = r.left
		r.left = 0
	case r.step < len(r.f.Plan):
		want = r.f.Plan[r.step]
		r.step++
		if want == 0 {
			return 0, nil
		}
	case r.f.Each > 0:
		want = r.f.Each
	default:
		want = len(r.data)
	}
	if want > len(r.data)-r.pos {
		want = len(r.data) - r.pos
	}
	n := want
	if n > len(p) {
		n = len(p)
		if r.f.Each == 0 || r.step <= len(r.f.Plan) {
			r.left = want - n
		}
	}
	copy(p, r.data[r.pos:r.pos+n])
	for i := n; i < len(p) && i < n+64; i++ {
		p[i] = '7' // scratch
	}
	r.pos += n
	if r.pos == len(r.data) && r.f.WithErr {
		return n, r.fail()
	}
	return n, nil
}

func (r *planReader) scribble() {
	for _, b := range r.bufs {
		for i := range b {
			b[i] = '#'
		}
	}
}

// want is an expected result.
type want struct {
	out      string // rendering of the message, or of message and error when exact
	exact    bool
	optional bool // may be missing (cases left unspecified)
}

func (x want) String() string {
	s := x.out
	if !x.exact {
		s += " | some error"
	}
	if x.optional {
		s += " (or nothing)"
	}
	return s
}

var parsedAlone sync.Map

type alone struct {
	msg, err string
}

// parseAlone is what a new parser of the mode gives for the bytes.
func parseAlone(b []byte, best bool) alone {
	k := string(b)
	if best {
		k += "+"
	} else {
		k += "-"
	}
	if v, ok := parsedAlone.Load(k); ok {
		return v.(alone)
	}
	m, err := new5(best, false, false).Parse(append([]byte{}, b...))
	a := alone{render(m), renderErr(err)}
	if len(k) < 400 {
		parsedAlone.Store(k, a)
	}
	return a
}

const noErr = "<nil>"

func exactly(b []byte, best bool) (want, bool) {
	a := parseAlone(b, best)
	return want{out: a.msg + " | " + a.err, exact: true}, a.err == noErr
}

// states of the framing models visited, for the evidence
type visited struct {
	mu sync.Mutex
	m  map[[4]int]struct{}
	n  int64 // transitions
}

func (v *visited) see(a, b, c, d int) {
	if v == nil {
		return
	}
	v.mu.Lock()
	v.m[[4]int{a, b, c, d}] = struct{}{}
	v.mu.Unlock()
}

// refOctet is the reference framer of octet counting: the expected results, and for each of them the number of bytes
// after which it is known (-1: only when the end of the stream is).
func refOctet(data []byte, failed bool, best bool, max int, v *visited) (ws []want, due []int) {
	emit := func(w want, at int) { ws = append(ws, w); due = append(due, at) }
	broken := want{out: "<nil>"}
	i := 0
	for frame := 0; ; frame++ {
		v.see(0, 0, 0, 0)
		if i == len(data) {
			if frame == 0 {
				emit(broken, -1)
			} else if failed {
				b := broken
				b.optional = true
				emit(b, -1)
			}
			return
		}
		// a length: digits, the first one not zero
		if data[i] < '1' || data[i] > '9' {
			emit(broken, -1)
			return
		}
		n, over := uint64(0), max < 0
		for i < len(data) && data[i] >= '0' && data[i] <= '9' {
			d := uint64(data[i] - '0')
			if n > (1<<63-1-d)/10 {
				over = true // more than any maximum
			} else {
				n = n*10 + d
			}
			i++
			v.see(1, int(n), 0, 0)
		}
		length := int(n)
		if over || length > max {
			// told as soon as the length is known to have ended, or at the end of the stream
			emit(broken, -1)
			return
		}
		if i == len(data) || data[i] != ' ' {
			emit(broken, -1)
			return
		}
		i++
		v.see(2, length, 0, 0)
		if i == len(data) {
			emit(broken, -1)
			return
		}
		if data[i] != '<' {
			emit(broken, -1)
			return
		}
		if len(data)-i < length {
			v.see(3, length, len(data)-i, 0)
			if best {
				a := parseAlone(data[i:], true)
				emit(want{out: a.msg}, -1)
			} else {
				emit(broken, -1)
			}
			return
		}
		for k := 1; k < length && v != nil && length < 200; k++ {
			v.see(3, length, k, 0)
		}
		w, ok := exactly(data[i:i+length], best)
		i += length
		emit(w, i)
		v.see(4, length, b2i(ok), 0)
		if !ok && !best {
			return
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// refLines is the reference framer of the non-transparent framing.
func refLines(data []byte, failed bool, best bool, trailer byte, v *visited) (ws []want, due []int) {
	var cand []byte
	pending := false
	flush := func(at int) {
		if !pending {
			return
		}
		w, _ := exactly(cand[:len(cand)-1], best) // without the trailer
		ws = append(ws, w)
		due = append(due, at)
		pending = false
	}
	i := 0
	for {
		k := bytes.IndexByte(data[i:], trailer)
		if k < 0 {
			break
		}
		line := data[i : i+k+1]
		v.see(0, b2i(pending), b2i(line[0] == '<'), len(cand))
		if line[0] == '<' {
			flush(i + k + 1)
			cand = nil
		}
		cand = append(cand, line...)
		pending = true
		i += k + 1
	}
	flush(-1)
	if rest := data[i:]; len(rest) > 0 {
		v.see(1, len(rest), 0, 0)
		a := parseAlone(rest, best)
		w := want{out: a.msg}
		if a.err != noErr {
			w = want{out: a.msg + " | " + a.err, exact: true}
		}
		ws = append(ws, w)
		due = append(due, -1)
	} else if failed {
		// the failure of the reader between two lines: not specified
		ws = append(ws, want{out: "<nil>", optional: true})
		due = append(due, -1)
	}
	return
}

func (s scfg) expect(data []byte, f feed, v *visited) ([]want, []int) {
	if s.Octet {
		return refOctet(data, f.Err != "", s.Best, s.max(), v)
	}
	return refLines(data, f.Err != "", s.Best, s.trailer(), v)
}

func sameResults(got []string, ws []want) string {
	i := 0
	for k, w := range ws {
		if i == len(got) {
			if w.optional {
				continue
			}
			return fmt.Sprintf("result %d is missing: expected %s; got %d results", k, short(w.String()), len(got))
		}
		ok := got[i] == w.out
		if !w.exact {
			p := w.out + " | "
			ok = strings.HasPrefix(got[i], p) && got[i] != p+noErr
		}
		if !ok {
			return fmt.Sprintf("result %d: expected %s, got %s", k, short(w.String()), short(got[i]))
		}
		i++
	}
	if i < len(got) {
		return fmt.Sprintf("%d results expected, got one more: %s", len(ws), short(got[i]))
	}
	return ""
}

// streamRun is one stream given to a new parser.
type streamRun struct {
	S      scfg
	Data   B
	Feed   feed
	Timing bool `json:",omitempty"` // check when the results are delivered rather than what they are
	ws     []want
	due    []int
}

func (s *streamRun) Kind() string { return "stream" }

var streamReads int64

func (s *streamRun) Run() string {
	ws, due := s.ws, s.due
	if ws == nil {
		ws, due = s.S.expect(s.Data, s.Feed, nil)
	}
	var got []string
	var results []*syslog.Result
	bad := ""
	known := 0
	inside, returned := false, false
	var me uint64
	if s.Timing {
		me = goid()
	}
	l := func(r *syslog.Result) {
		if s.Timing {
			if inside || returned {
				bad = "a result was delivered while another one was being handled, or after the parser had returned"
			}
			inside = true
			if g := goid(); g != me {
				bad = "a result was delivered in another goroutine"
			}
			inside = false
		}
		if r == nil {
			got = append(got, "nil result")
			return
		}
		got = append(got, outcomeOf(r.Message, r.Error))
		results = append(results, r)
	}
	rd := &planReader{data: append([]byte{}, s.Data...), f: s.Feed}
	if s.Timing {
		rd.on = func(supplied int) {
			for known < len(due) && due[known] >= 0 && due[known] <= supplied {
				known++
			}
			n := known
			if len(got) < n && bad == "" {
				bad = fmt.Sprintf("the parser reads on after %d bytes, which hold %d complete messages, with %d results delivered", supplied, n, len(got))
			}
			if inside {
				bad = "the parser reads while a result is being handled"
			}
		}
	}
	s.S.new(l).Parse(rd.as(s.Feed.As))
	returned = true
	atomic.AddInt64(&streamReads, int64(rd.n))
	if s.Timing {
		if bad != "" {
			return bad
		}
		if d := sameResults(got, ws); d != "" {
			return "when the parser returned: " + d
		}
		return ""
	}
	if d := sameResults(got, ws); d != "" {
		return d
	}
	return ""
}

func goid() uint64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	id, _ := strconv.ParseUint(string(f[1]), 10, 64)
	return id
}

func init() {
	replayers["stream"] = func(d json.RawMessage) (Scenario, error) {
		s := &streamRun{}
		return s, json.Unmarshal(d, s)
	}
	replayers["reuse"] = func(d json.RawMessage) (Scenario, error) {
		s := &reuse{}
		return s, json.Unmarshal(d, s)
	}
}

// one stream given to a reused parser
type leg struct {
	Data  B
	Feed  feed
	Panic int `json:",omitempty"` // the listener panics at this result (from 1)
	exp   []string
}

// mishap is what listeners and readers panic with; whoever has called the parser recovers.
type mishap struct{}

const readerPanics = "panic" // as the failure of a reader

func (l *leg) give(p syslog.Parser, r io.Reader) {
	if l.Panic > 0 || l.Feed.Err == readerPanics {
		defer func() {
			if e := recover(); e != nil && e != (mishap{}) {
				panic(e)
			}
		}()
	}
	p.Parse(r)
}

// reuse is a sequence of streams given to one parser.
type reuse struct {
	S    scfg
	Legs []leg
	Long bool `json:",omitempty"` // the retained results are looked at in the end only
	Same bool `json:",omitempty"` // one reader value, given the streams one after the other
}

func (s *reuse) Kind() string { return "reuse" }

func freshStream(s scfg, l leg) []string {
	var got []string
	p := s.new(func(r *syslog.Result) {
		got = append(got, outcomeOf(r.Message, r.Error))
		if len(got) == l.Panic {
			panic(mishap{})
		}
	})
	l.give(p, &planReader{data: append([]byte{}, l.Data...), f: l.Feed})
	return got
}

func (s *reuse) Run() string {
	var got []string
	var kept []*syslog.Result
	var outs []string
	var leg int
	var same *planReader
	late := ""
	cur := -1
	p := s.S.new(func(r *syslog.Result) {
		if cur != leg {
			late = fmt.Sprintf("a result was delivered outside Parse, after stream %d", leg)
		}
		o := outcomeOf(r.Message, r.Error)
		got = append(got, o)
		kept = append(kept, r)
		outs = append(outs, o)
		if len(got) == s.Legs[leg].Panic {
			panic(mishap{})
		}
	})
	check := func(when string) string {
		for k, r := range kept {
			if now := outcomeOf(r.Message, r.Error); now != outs[k] {
				return fmt.Sprintf("the result number %d changed %s: it was %s, it is %s", k, when, short(outs[k]), short(now))
			}
		}
		return ""
	}
	for i := range s.Legs {
		l := &s.Legs[i]
		exp := l.exp
		if exp == nil {
			exp = freshStream(s.S, *l)
		}
		got = got[:0]
		leg, cur = i, i
		rd := &planReader{data: append([]byte{}, l.Data...), f: l.Feed}
		if s.Same {
			if same == nil {
				same = rd
			} else {
				*same = *rd
				rd = same
			}
		}
		l.give(p, rd)
		cur = -1
		rd.scribble()
		if late != "" {
			return late
		}
		if len(got) != len(exp) {
			return fmt.Sprintf("stream %d: a new parser delivers %d results %q, this one %d: %q", i, len(exp), exp, len(got), got)
		}
		for k := range exp {
			if exp[k] != got[k] {
				return fmt.Sprintf("stream %d, result %d: a new parser gives %s, this one %s", i, k, short(exp[k]), short(got[k]))
			}
		}
		if !s.Long {
			if d := check(fmt.Sprintf("after stream %d", i)); d != "" {
				return d
			}
		}
	}
	if d := check("later"); d != "" {
		return d
	}
	if s.Long {
		return ""
	}
	for k := range kept {
		scribble(kept[k].Message)
		kept[k].Message, kept[k].Error = nil, errors.New("changed")
		for j := k + 1; j < len(kept); j++ {
			if now := outcomeOf(kept[j].Message, kept[j].Error); now != outs[j] {
				return fmt.Sprintf("changing the result number %d changed number %d: it was %s, it is %s", k, j, short(outs[j]), short(now))
			}
		}
	}
	// and the parser does not mind
	if len(s.Legs) > 0 {
		l := s.Legs[0]
		exp := freshStream(s.S, l)
		got = got[:0]
		leg, cur = 0, 0
		l.give(p, &planReader{data: append([]byte{}, l.Data...), f: l.Feed})
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", exp) {
			return fmt.Sprintf("after changing the results delivered, the first stream again: a new parser gives %q, this one %q", exp, got)
		}
	}
	return ""
}
