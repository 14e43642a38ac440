package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/nontransparent"
	"github.com/influxdata/go-syslog/v3/octetcounting"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// Reading tells how the bytes of a stream are read.
type Reading struct {
	Sizes   []int // sizes of the reads, one after the other and again; none: as much as asked
	Empty   int   // every so many reads comes an empty one (0: never)
	Empties int   // how many empty ones (0 is 1)
	Scratch bool  // what is left of the space to read into is used as well
	WithEnd bool  // the end comes together with the last bytes
	Fail    bool  // the reader fails instead of telling the end
	FailAs  int   // with which error
	Std     int   // the reader is one of the standard library (1-3), or wrapped in one (4-9), or a connection (10), or a file (11)
}

var failures = []error{errors.New("boom: the reader failed"), io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrDeadlineExceeded, io.ErrNoProgress, syscall.ECONNRESET, &net.OpError{Op: "read", Net: "tcp", Err: os.ErrClosed}}

func (s Reading) failure() error { return failures[uint(s.FailAs)%uint(len(failures))] }

// open gives a reader of the data.
func (s Reading) open(data string) io.Reader {
	r := &reader{data: data, spec: s}
	switch s.Std {
	case 1, 2, 3:
		if s.Fail {
			break
		}
		if s.Std == 1 {
			return strings.NewReader(data)
		}
		if s.Std == 2 {
			return bytes.NewReader([]byte(data))
		}
		return bytes.NewBuffer([]byte(data))
	case 4:
		return bufio.NewReaderSize(r, 16)
	case 5:
		return bufio.NewReaderSize(r, 1<<17)
	case 7, 8:
		// More comes after the limit.
		if s.Fail {
			break
		}
		more := data + "<1>1 - - - - - - beyond\n\x00<17 <1>1 - - - - - -\n\x00"
		if s.Std == 7 {
			return io.LimitReader(&reader{data: more, spec: s}, int64(len(data)))
		}
		return io.NewSectionReader(strings.NewReader("<1>1 before\n\x00"+more), int64(len("<1>1 before\n\x00")), int64(len(data)))
	case 9:
		return io.TeeReader(r, io.Discard)
	case 10:
		return &conn{reader: r}
	case 11:
		// Its start is read already.
		const before = "<1>1 before\n\x0017 "
		r.data, r.given = before+data, len(before)
		return &file{&conn{reader: r}}
	case 6:
		return io.MultiReader(strings.NewReader(data[:len(data)/2]), &reader{data: data[len(data)/2:], spec: s})
	}
	return r
}

type reader struct {
	data    string
	spec    Reading
	i       int // next size
	reads   int
	empties int
	given   int
	ended   int // reads after the end
	onRead  func(given int)
	panics  bool // instead of telling the end
}

// conn is a reader that is a connection, and more.
type conn struct {
	*reader
	closed   bool
	deadline time.Time
	misused  string // what else than reading was done to it
}

func (c *conn) Read(p []byte) (int, error) {
	if c.closed {
		return 0, net.ErrClosed
	}
	n, err := c.reader.Read(p)
	if !c.deadline.IsZero() && !time.Now().Before(c.deadline) {
		return 0, os.ErrDeadlineExceeded
	}
	return n, err
}

func (c *conn) ReadByte() (byte, error) {
	var b [1]byte
	for {
		if n, err := c.Read(b[:]); n > 0 {
			return b[0], nil
		} else if err != nil {
			return b[0], err
		}
	}
}

func (c *conn) misuse(what string) error { c.misused = what; return nil }

func (c *conn) Write(p []byte) (int, error)   { return len(p), c.misuse("written to") }
func (c *conn) Close() error                  { c.closed = true; return c.misuse("closed") }
func (c *conn) CloseRead() error              { c.closed = true; return c.misuse("closed for reading") }
func (c *conn) CloseWrite() error             { return c.misuse("closed for writing") }
func (c *conn) LocalAddr() net.Addr           { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 6514} }
func (c *conn) RemoteAddr() net.Addr          { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 2), Port: 40000} }
func (c *conn) SetDeadline(t time.Time) error { c.deadline = t; return c.misuse("given a deadline") }
func (c *conn) SetReadDeadline(t time.Time) error {
	c.deadline = t
	return c.misuse("given a deadline")
}
func (c *conn) SetWriteDeadline(t time.Time) error { return c.misuse("given a deadline") }

// file is a reader that is a file, or another thing with a position.
type file struct{ *conn }

func (f *file) Seek(offset int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		offset += int64(f.given)
	case io.SeekEnd:
		offset += int64(len(f.data))
	}
	if offset == int64(f.given) {
		return offset, nil // only asked where it is
	}
	if offset < 0 || offset > int64(len(f.data)) {
		return 0, os.ErrInvalid
	}
	f.given = int(offset)
	return offset, f.misuse("moved to another place")
}

func (f *file) Truncate(int64) error { return f.misuse("truncated") }

// readOnly reads the stream, and tells when the reader was used for something else.
func readOnly(o SOpt, data string, spec Reading) ([]sres, error) {
	c := &collector{}
	r := spec.open(data)
	out, bad := c.run(newStream(o.Octet, o.options(c.listen)...), r)
	var used *conn
	switch r := r.(type) {
	case *conn:
		used = r
	case *file:
		used = r.conn
	}
	if used != nil && used.misused != "" && bad == nil {
		bad = fmt.Errorf("the reader is not only read: it was %s", used.misused)
	}
	return out, bad
}

func (r *reader) end() error {
	if r.spec.Fail {
		return r.spec.failure()
	}
	return io.EOF
}

func (r *reader) Read(p []byte) (int, error) {
	if r.onRead != nil {
		r.onRead(r.given)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.given == len(r.data) {
		if r.panics {
			panic(deliberate)
		}
		r.ended++
		if r.ended > 100000 {
			panic("keeps reading after the end")
		}
		return 0, r.end()
	}
	if r.spec.Empty > 0 {
		if r.reads >= r.spec.Empty {
			// Time for empty reads.
			r.empties++
			if r.empties >= max(1, min(r.spec.Empties, 3)) {
				r.reads, r.empties = 0, 0
			}
			return 0, nil
		}
		r.reads++
	}
	n := len(r.data) - r.given
	if len(r.spec.Sizes) > 0 {
		n = min(n, max(1, r.spec.Sizes[r.i%len(r.spec.Sizes)]))
		r.i++
	}
	n = copy(p, r.data[r.given:r.given+n])
	if r.spec.Scratch {
		copy(p[n:], "<1>1 - - - - - - scratch\n\x00 17 <")
	}
	r.given += n
	if r.spec.WithEnd && r.given == len(r.data) {
		return n, r.end()
	}
	return n, nil
}

func (r *Rand) reading() (s Reading) {
	switch r.IntN(6) {
	case 0:
	case 1:
		s.Sizes = []int{1}
	case 2:
		s.Sizes = []int{r.In(1, 20)}
	case 3:
		for n := r.In(1, 10); n > 0; n-- {
			s.Sizes = append(s.Sizes, pick(r, []int{1, 1, 2, 3, 5, 10, 16, 17, 100, 512, 4096, 4097, 8192, 8212}))
		}
	default:
		for n := r.In(1, 20); n > 0; n-- {
			s.Sizes = append(s.Sizes, r.In(1, 60))
		}
	}
	if r.P(25) {
		s.Empty, s.Empties = r.In(1, 5), r.In(1, 3)
	}
	s.WithEnd, s.Scratch = r.P(40), r.P(15)
	s.FailAs = r.IntN(len(failures))
	if r.P(15) {
		s.Std = r.In(1, 11)
	}
	return s
}

// SOpt are the options of a stream parser.
type SOpt struct {
	Octet      bool `shrink:"-"`
	BestEffort bool
	NUL        bool // trailer of the non transparent framing
	Limit      int  // maximum message length, -1 when the option is not given
}

func (o SOpt) limit() int {
	if o.Limit == -1 {
		return 8192
	}
	return o.Limit
}

func (o SOpt) trailer() byte {
	if o.NUL {
		return 0
	}
	return '\n'
}

func (o SOpt) options(l syslog.ParserListener) (out []syslog.ParserOption) {
	out = append(out, syslog.WithListener(l))
	if o.BestEffort {
		out = append(out, syslog.WithBestEffort())
	}
	if o.Limit != -1 {
		out = append(out, syslog.WithMaxMessageLength(o.Limit))
	}
	if !o.Octet && o.NUL {
		out = append(out, nontransparent.WithTrailer(nontransparent.NUL))
	}
	return out
}

func newStream(octet bool, options ...syslog.ParserOption) syslog.Parser {
	if octet {
		return octetcounting.NewParser(options...)
	}
	return nontransparent.NewParser(options...)
}

// sres is a result, written down when it was delivered.
type sres struct {
	msg string // "nil" when there is none
	err string // "nil" when there is none
	res *syslog.Result
	raw *rfc5424.SyslogMessage
}

func (s sres) String() string { return fmt.Sprintf("(%s, %s)", s.msg, s.err) }

func record(res *syslog.Result) (s sres, bad error) {
	if res == nil {
		return s, errors.New("nil result")
	}
	s.res = res
	s.msg, s.err = "nil", showErr(res.Error)
	if res.Message != nil {
		m, ok := res.Message.(*rfc5424.SyslogMessage)
		if !ok {
			return s, fmt.Errorf("message has type %T", res.Message)
		}
		if m == nil {
			return s, errors.New("message is a nil pointer in a not nil interface")
		}
		s.raw = m
		s.msg = show5424(m)
	}
	return s, nil
}

// collector is a listener.
type collector struct {
	out     []sres
	bad     error
	parsing atomic.Bool
	within  atomic.Int32
	first   func() // called once, while the next result is being listened to
}

func (c *collector) listen(res *syslog.Result) {
	if c.within.Add(1) != 1 {
		c.bad = errors.New("the listener is called while it is being called")
	}
	if !c.parsing.Load() {
		c.bad = errors.New("the listener is called when nothing is being parsed")
	}
	s, bad := record(res)
	if bad != nil {
		c.bad = bad
	}
	c.out = append(c.out, s)
	if f := c.first; f != nil {
		c.first = nil
		f()
	}
	c.within.Add(-1)
}

// run parses a stream with the parser.
func (c *collector) run(p syslog.Parser, r io.Reader) ([]sres, error) {
	c.out, c.bad = nil, nil
	c.parsing.Store(true)
	p.Parse(r)
	c.parsing.Store(false)
	c.first = nil
	return c.out, c.bad
}

const deliberate = "a panic of the reader or the listener"

// runPanicky is run for a reader or a listener which may panic.
func (c *collector) runPanicky(p syslog.Parser, r io.Reader) (out []sres, panicked bool, bad error) {
	defer func() {
		if x := recover(); x != nil {
			if x != deliberate {
				panic(x)
			}
			c.parsing.Store(false)
			c.within.Store(0)
			c.first = nil
			out, panicked, bad = c.out, true, c.bad
		}
	}()
	out, bad = c.run(p, r)
	return out, false, bad
}

func runStream(o SOpt, data string, spec Reading) ([]sres, error) {
	c := &collector{}
	return c.run(newStream(o.Octet, o.options(c.listen)...), spec.open(data))
}

func parseFrame(data string, bestEffort bool) (msg, err string, bad error) {
	r, bad := parse5424(new5424(false, bestEffort, false), []byte(data))
	return show5424(r.msg), showErr(r.err), bad
}

// wantRes is what a result must be.
type wantRes struct {
	msg     string
	err     string   // exact text, unless it is ""
	has     []string // what the text contains
	frameAt int      // where the frame ends within the stream
}

func (w wantRes) check(g sres) error {
	if g.msg != w.msg {
		return fmt.Errorf("message is %s, want %s", g.msg, w.msg)
	}
	if w.err != "" && g.err != w.err {
		return fmt.Errorf("error is %s, want %s", g.err, w.err)
	}
	if w.err == "" && g.err == "nil" {
		return fmt.Errorf("there is no error, want one (containing %q)", w.has)
	}
	for _, h := range w.has {
		if !strings.Contains(g.err, h) {
			return fmt.Errorf("error is %q, want %q in it", g.err, h)
		}
	}
	return nil
}

func compareResults(got []sres, want []wantRes) error {
	for i := range got {
		if i >= len(want) {
			return fmt.Errorf("there are %d results, want %d: one more is %v", len(got), len(want), got[i])
		}
		if err := want[i].check(got[i]); err != nil {
			return fmt.Errorf("result %d of %d: %w", i+1, len(want), err)
		}
	}
	if len(got) < len(want) {
		return fmt.Errorf("there are %d results, want %d: the first one missing is %v", len(got), len(want), want[len(got)])
	}
	return nil
}

// How an octet counted stream ends.
const (
	endClean   = "ends between frames"
	endMessage = "ends with a bad message, in strict mode"
	endEmpty   = "empty"
	endLen     = "no message length"
	endZero    = "message length with a leading zero"
	endTooLong = "message too long"
	endSpace   = "no space after the message length"
	endLT      = "message not starting with <"
	endShort   = "ends within the message"
)

type octetModel struct {
	want   []wantRes
	how    string
	frames int
	bad    int // frames which do not hold a valid message
	ends   []int
	stopAt int // how many bytes tell that there is nothing more to parse, -1 when only the end of the stream does
}

// modelOctet is the reference model of octet counting streams.
func modelOctet(data string, bestEffort bool, limit int) (m octetModel, bad error) {
	p := 0
	m.stopAt = -1
	violation := func(how string, has ...string) (octetModel, error) {
		m.how = how
		if p < len(data) {
			m.stopAt = p + 1
		}
		m.want = append(m.want, wantRes{msg: "nil", has: has, frameAt: len(data)})
		return m, bad
	}
	for {
		if p == len(data) {
			if m.frames == 0 {
				return violation(endEmpty)
			}
			m.how = endClean
			return m, nil
		}
		start := p
		for p < len(data) && data[p] >= '0' && data[p] <= '9' {
			p++
		}
		if p == start {
			return violation(endLen)
		}
		if data[start] == '0' {
			p = start
			return violation(endZero)
		}
		n, err := strconv.ParseUint(data[start:p], 10, 64)
		if err != nil {
			n = math.MaxUint64
		}
		if limit < 0 || n > uint64(limit) {
			return violation(endTooLong, strconv.FormatUint(n, 10), strconv.Itoa(limit))
		}
		if p == len(data) || data[p] != ' ' {
			return violation(endSpace)
		}
		p++
		if p == len(data) || data[p] != '<' {
			// A number is read to its end.
			for p < len(data) && (data[p] >= '1' || p > 0 && data[p-1] != ' ' && data[p] == '0') && data[p] <= '9' {
				p++
			}
			return violation(endLT)
		}
		if len(data)-p < int(n) {
			m.how = endShort
			w := wantRes{msg: "nil", frameAt: len(data)}
			if bestEffort {
				var perr string
				if w.msg, perr, bad = parseFrame(data[p:], true); bad != nil {
					return m, bad
				}
				if perr != "nil" {
					w.msg, _, bad = parseFrame(data[p:], true)
				}
			}
			m.want = append(m.want, w)
			return m, bad
		}
		frame := data[p : p+int(n)]
		p += int(n)
		m.frames++
		m.ends = append(m.ends, p)
		msg, perr, bad := parseFrame(frame, bestEffort)
		if bad != nil {
			return m, bad
		}
		if perr != "nil" {
			m.bad++
		}
		m.want = append(m.want, wantRes{msg: msg, err: perr, frameAt: p})
		if perr != "nil" && !bestEffort {
			m.how, m.stopAt = endMessage, p
			return m, nil
		}
	}
}

type ntModel struct {
	want    []wantRes
	outside bool // does not start with '<': nothing is specified
	frames  int
	bad     int
	inner   int // trailers within messages
	tail    int // bytes which are not followed by a trailer
	tailOK  bool
	ends    []int
}

// modelNT is the reference model of non transparent framing.
func modelNT(data string, bestEffort bool, trailer byte, failed Reading) (m ntModel, bad error) {
	if data == "" {
		return m, nil
	}
	if data[0] != '<' {
		m.outside = true
		return m, nil
	}
	emit := func(frame string, end int) error {
		msg, perr, bad := parseFrame(frame, bestEffort)
		if bad != nil {
			return bad
		}
		if perr != "nil" {
			m.bad++
		}
		m.frames++
		m.ends = append(m.ends, end)
		m.want = append(m.want, wantRes{msg: msg, err: perr, frameAt: end})
		return nil
	}
	last := strings.LastIndexByte(data, trailer) + 1 // end of what is terminated
	start := 0
	for p := 1; p <= last; p++ {
		if data[p-1] != trailer {
			continue
		}
		if p < last && data[p] != '<' {
			m.inner++
			continue
		}
		if p == last || data[p] == '<' {
			if bad = emit(data[start:p-1], p); bad != nil {
				return m, bad
			}
			start = p
		}
	}
	if tail := data[last:]; tail != "" {
		m.tail = len(tail)
		msg, perr, bad := parseFrame(tail, bestEffort)
		if bad != nil {
			return m, bad
		}
		w := wantRes{msg: msg, err: perr, frameAt: len(data)}
		if perr == "nil" {
			m.tailOK = true
			w.err = ""
			w.has = []string{"unexpected EOF"}
			if failed.Fail {
				w.has = []string{failed.failure().Error()}
			}
		}
		m.want = append(m.want, w)
	}
	return m, nil
}

// settle lets anything started in the background go on.
func settle() {
	for i := 0; i < 20; i++ {
		runtime.Gosched()
	}
}

var fillers string

func init() {
	b := make([]byte, 5<<20)
	x := uint32(12345)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = 33 + byte((x>>20)%94)
	}
	fillers = string(b)
}

// filler is a text of n visible characters: pieces of it which are lost, moved or doubled are noticed.
func filler(n int) string { return fillers[:max(n, 0)] }
