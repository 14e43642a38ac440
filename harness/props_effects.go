package main

import (
	"errors"
	"flag"
	"fmt"
	"io"
	"log"
	"log/slog"
	"os"
	"runtime"
	"runtime/debug"
	"slices"
	"strings"
	"sync"
	"syscall"
	"time"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/nontransparent"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// Case36 is something done while the process is looked at.
type Case36 struct {
	Kind  int // 0 a message, 1 a stream, 2 a message being built, 3 a trailer type
	Opt   POpt
	In    B
	S     SOpt
	Read  Reading
	Panic bool // the reader panics instead of telling the end
	Build BCase
	Again int // done so many times more
}

// do gives what comes of it.
func (c Case36) do(o *Obs) (string, error) {
	var b strings.Builder
	switch c.Kind {
	case 0:
		o.Label("message")
		p := c.Opt.build()
		for i := 0; i <= c.Again; i++ {
			m, err := p.Parse([]byte(c.In))
			if m == nil && err == nil {
				return "", errors.New("neither message nor error")
			}
			if m != nil {
				o.NonTrivial()
			}
			b.WriteString(outcome(m, err))
			if x, ok := m.(*rfc5424.SyslogMessage); ok && x != nil {
				b.WriteString(serialized(x))
			}
		}
	case 1:
		o.Label("stream")
		for i := 0; i <= c.Again; i++ {
			col := &collector{}
			p := newStream(c.S.Octet, c.S.options(col.listen)...)
			from := c.Read.open(string(c.In))
			if r, ok := from.(*reader); ok {
				r.panics = c.Panic
			}
			out, _, bad := col.runPanicky(p, from)
			if bad != nil {
				return "", bad
			}
			if len(out) > 0 {
				o.NonTrivial()
			}
			for _, r := range out {
				b.WriteString(r.String())
			}
		}
	case 2:
		o.Label("building")
		for i := 0; i <= c.Again; i++ {
			m := buildAll(c.Build.start(), c.Build.Ops)
			b.WriteString(serialized(m))
			if validMsg(m) {
				o.NonTrivial()
			}
		}
	default:
		o.Label("trailer type")
		t, err := nontransparent.TrailerTypeFromString(string(c.In))
		if err == nil {
			o.NonTrivial()
		}
		v, verr := t.Value()
		text, merr := t.MarshalText()
		fmt.Fprintf(&b, "%v %v %v %v %q %v ", t, err, v, verr, text, merr)
		err = t.UnmarshalText([]byte(c.In))
		n := 0
		nontransparent.NewParser(nontransparent.WithTrailer(nontransparent.TrailerType(len(c.In)-1)), syslog.WithListener(func(*syslog.Result) { n++ })).Parse(strings.NewReader(string(c.In)))
		fmt.Fprintf(&b, "%v %v", err, n)
	}
	return b.String(), nil
}

// process is what a process shares among all of its parts.
type process struct {
	written    int64 // to the standard output and error
	goroutines int
	file       int // the lowest file descriptor which is free
	dir        string
	environ    []string
	zone       *time.Location
	args       []string
	stdin      *os.File
	stdout     *os.File
	stderr     *os.File
	logTo      io.Writer
	logFlags   int
	logPrefix  string
	logger     *slog.Logger
	procs      int
	memory     int64
	flags      int
}

var outputFile *os.File
var savedOut, savedErr int

func freeFile() int {
	fd, err := syscall.Dup(savedOut)
	if err != nil {
		panic(err)
	}
	syscall.Close(fd)
	return fd
}

func look() *process {
	p := &process{goroutines: runtime.NumGoroutine(), zone: time.Local, stdin: os.Stdin, stdout: os.Stdout, stderr: os.Stderr,
		logTo: log.Writer(), logFlags: log.Flags(), logPrefix: log.Prefix(), logger: slog.Default(), procs: runtime.GOMAXPROCS(0), memory: debug.SetMemoryLimit(-1)}
	var st syscall.Stat_t
	if err := syscall.Fstat(int(outputFile.Fd()), &st); err != nil {
		panic(err)
	}
	p.written = st.Size
	var b [4096]byte
	n, err := syscall.Getcwd(b[:])
	if err != nil {
		panic(err)
	}
	p.dir = string(b[:n])
	p.environ = os.Environ()
	p.args = slices.Clone(os.Args)
	flag.CommandLine.VisitAll(func(*flag.Flag) { p.flags++ })
	p.file = freeFile()
	return p
}

// compare tells what is not as it was.
func (p *process) compare(was *process) error {
	switch {
	case p.written != was.written:
		b := make([]byte, min(p.written-was.written, 200))
		outputFile.ReadAt(b, was.written)
		return fmt.Errorf("something is written to the standard output or error: %+q", b)
	case p.file != was.file:
		return fmt.Errorf("a file is left open, or another one was closed (the lowest free descriptor was %d and is %d)", was.file, p.file)
	case p.dir != was.dir:
		return fmt.Errorf("the working directory is %q instead of %q", p.dir, was.dir)
	case !slices.Equal(p.environ, was.environ):
		return errors.New("the environment variables have changed")
	case p.zone != was.zone:
		return fmt.Errorf("the local time zone is %v instead of %v", p.zone, was.zone)
	case !slices.Equal(p.args, was.args):
		return errors.New("the arguments of the process have changed")
	case p.stdin != was.stdin, p.stdout != was.stdout, p.stderr != was.stderr:
		return errors.New("os.Stdin, os.Stdout or os.Stderr has changed")
	case p.logTo != was.logTo, p.logFlags != was.logFlags, p.logPrefix != was.logPrefix, p.logger != was.logger:
		return errors.New("the default logger has changed")
	case p.procs != was.procs:
		return fmt.Errorf("GOMAXPROCS is %d instead of %d", p.procs, was.procs)
	case p.memory != was.memory:
		return fmt.Errorf("the memory limit is %d instead of %d", p.memory, was.memory)
	case p.flags != was.flags:
		return errors.New("the flags of the command line have changed")
	}
	return nil
}

// captureOutput lets the standard output and error of the process go to a file until the function returned is called.
func captureOutput() func() {
	if outputFile == nil {
		f, err := os.CreateTemp("", "verif-output-")
		if err != nil {
			fmt.Fprintln(os.Stderr, "the output cannot be captured:", err)
			os.Exit(harnessExit)
		}
		os.Remove(f.Name())
		if savedOut, err = syscall.Dup(1); err == nil {
			savedErr, err = syscall.Dup(2)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "the output cannot be captured:", err)
			os.Exit(harnessExit)
		}
		syscall.CloseOnExec(savedOut)
		syscall.CloseOnExec(savedErr)
		// What the runtime tells when the process crashes goes where it belongs.
		if fd, err := syscall.Dup(savedErr); err == nil {
			syscall.CloseOnExec(fd)
			e := os.NewFile(uintptr(fd), "stderr")
			debug.SetCrashOutput(e, debug.CrashOptions{})
			e.Close()
		}
		outputFile = f
	}
	if st, err := outputFile.Stat(); err == nil && st.Size() > 1<<24 {
		outputFile.Truncate(0)
		outputFile.Seek(0, io.SeekStart)
	}
	fd := int(outputFile.Fd())
	syscall.Dup3(fd, 1, 0)
	syscall.Dup3(fd, 2, 0)
	return func() {
		syscall.Dup3(savedOut, 1, 0)
		syscall.Dup3(savedErr, 2, 0)
	}
}

func eval36(c Case36, o *Obs) error {
	defer captureOutput()()
	before := look()
	if _, err := c.do(o); err != nil {
		return err
	}
	if err := look().compare(before); err != nil {
		return err
	}
	if os.Getenv("VERIF_FUZZ") != "" {
		return nil // others start goroutines too
	}
	// Those which are about to end may do so.
	for i := 0; runtime.NumGoroutine() > before.goroutines; i++ {
		if i == 2000 {
			return fmt.Errorf("there are %d goroutines, %d more than before", runtime.NumGoroutine(), runtime.NumGoroutine()-before.goroutines)
		}
		time.Sleep(time.Millisecond)
	}
	// What came late.
	return look().compare(before)
}

func init() {
	register(Def[Case36]{
		ID:   "C36",
		Rule: "cases are messages parsed (and their accessors called), streams read (also until the reader fails or panics), messages built and serialized, and trailer types converted, of all kinds and with all options, while the standard output and error, the open files, the working directory, the environment, the local time zone, the default logger, the flags and the goroutines of the process are looked at; non-trivial: the input gives a message, a result or a trailer type, or the message built is valid",
		N:    200000,
		Systematic: func(t Tier, do func(mk func() Case36)) {
			n := 0
			message := func(bsd bool) func(mk func() string) {
				return func(mk func() string) {
					n++
					if t.Name != "thorough" && n%7 != 0 {
						return
					}
					k := n
					do(func() Case36 {
						s := mk()
						h := caseKey(&[]string{s})
						return Case36{In: B(s), Opt: POpt{BSD: bsd, Locking: h&1 != 0, BestEffort: h&2 != 0, Compliant: h&4 != 0 && !bsd, Opt: Opt3164{RFC3339: h&8 != 0, Year: []int{0, -1, 2024}[k%3]}}}
					})
				}
			}
			systematic5424(t, message(false))
			systematic3164(t, message(true))
			for i := 0; i < 8; i++ {
				opt := SOpt{Octet: i&1 != 0, BestEffort: i&2 != 0, NUL: i&4 != 0, Limit: -1}
				frame := func(s string) string {
					if opt.Octet {
						return octetFrame(s)
					}
					return s + string([]byte{opt.trailer()})
				}
				const head = "<1>1 - - - - - - "
				streams := []string{"", frame(head), frame(head+"a") + frame(head+"b"), frame(head+"a") + frame("<1>1 - x") + frame(head+"b"), frame(head+"a") + "12 <1", "x", "0 ", "99999 <", frame(head+filler(5000)) + frame(head), frame(head+filler(9000)) + frame(head), frame("x") + frame(""), strings.Repeat(frame(head+"m"), 40) + "<"}
				for _, s := range streams {
					for w := 0; w < 8; w++ {
						for std := 0; std <= 11; std++ {
							do(func() Case36 {
								return Case36{Kind: 1, S: opt, In: B(s), Read: Reading{Sizes: []int{1 + 7*w}, WithEnd: w&1 != 0, Fail: w&2 != 0, FailAs: w + std, Std: std}, Panic: std == 0 && w&4 != 0, Again: w % 3}
							})
						}
					}
				}
			}
			histories(func(n, kind int) {
				do(func() Case36 {
					i := n + 3*kind
					o := SOpt{Octet: i%2 == 0, NUL: i%3 == 0, BestEffort: kind%2 == n%2, Limit: -1}
					return Case36{Kind: 1, S: o, In: B(history(n, kind, func(m string) string {
						if o.Octet {
							return octetFrame(m)
						}
						return m + string([]byte{o.trailer()})
					})), Read: Reading{Fail: i%4 == 1, FailAs: i, WithEnd: i%8 < 2}}
				})
			})
			for _, s := range []string{"LF", "NUL", "lf", "nul", "\"LF\"", "'NUL'", "", "x", "CR", "LF\n", "-1", "2"} {
				do(func() Case36 { return Case36{Kind: 3, In: B(s)} })
			}
		},
		Gen:  gen36,
		Eval: eval36,
	})
	registerC37()
}

func gen36(r *Rand, t Tier) Case36 {
	c := Case36{Kind: pick(r, []int{0, 0, 0, 1, 1, 1, 2, 2, 3})}
	switch c.Kind {
	case 0:
		c.Opt = r.popt()
		if c.Opt.BSD && r.P(20) {
			c.Opt.Opt.Year = -1
		}
		c.In = B(r.inputFor(c.Opt.BSD))
	case 1:
		s := r.anyStream(t)
		c.S, c.In, c.Read = s.Opt, s.Data, s.Read
		c.Read.Fail, c.Panic = r.P(30), r.P(20)
	case 2:
		c.Build = genBCase(r, t)
		if r.P(70) {
			c.Build.Ops = append([]BOp{{Kind: opPriority, N: r.pri()}, {Kind: opVersion, N: r.version()}}, c.Build.Ops...)
		}
	default:
		c.In = B(r.text(2))
	}
	if r.P(20) {
		c.Again = r.In(1, 4)
	}
	return c
}

// Case37 are things done at once, by a goroutine each.
type Case37 struct {
	Parts [][]Case36
}

func registerC37() {
	// Nothing of it depends on the clock.
	settled := func(c Case36) Case36 {
		if c.Opt.Opt.Year == -1 {
			c.Opt.Opt.Year = 0
		}
		return c
	}
	register(Def[Case37]{
		ID:   "C37",
		Race: true,
		Rule: "cases are 2 to 8 (sometimes up to 300) goroutines, each doing 1 to 5 things of any kind (parsing messages of both formats, reading streams of both framings, building and serializing messages, converting trailer types) at the same time as the others (built with the race detector), and batches of systematic messages, streams and builds, one kind for each goroutine; the outcome is compared with what the same gives alone afterwards; non-trivial: things of at least two kinds give a message, a result or a trailer type",
		N:    4000, MaxScale: 15,
		Systematic: func(t Tier, do func(mk func() Case37)) {
			const size = 60
			// What each of the kinds does, in batches.
			var kinds [4][][]func() Case36
			collect := func(k, every int, all func(func(mk func() Case36))) {
				batches(all, every, size, func(_ int, mks []func() Case36) { kinds[k] = append(kinds[k], slices.Clone(mks)) })
			}
			every := sweepEvery(t, 401, 61)
			messages := func(bsd bool, systematic func(Tier, func(func() string))) func(func(mk func() Case36)) {
				return func(do func(mk func() Case36)) {
					systematic(t, func(mk func() string) {
						do(func() Case36 {
							s := mk()
							h := caseKey(&[]string{s})
							return Case36{In: B(s), Opt: POpt{BSD: bsd, Locking: h&1 != 0, BestEffort: h&2 != 0, Compliant: h&4 != 0 && !bsd, Opt: Opt3164{RFC3339: h&8 != 0, Year: int(h >> 4 % 2 * 2024)}}}
						})
					})
				}
			}
			collect(0, every, messages(false, systematic5424))
			collect(1, every, messages(true, systematic3164))
			sweepStreams(t, every, size, func(_ int, mks []func() SCase) {
				var l []func() Case36
				for _, mk := range mks {
					l = append(l, func() Case36 {
						s := mk()
						s.Opt.Limit = min(s.Opt.Limit, 1<<20)
						return Case36{Kind: 1, S: s.Opt, In: s.Data, Read: s.Read}
					})
				}
				kinds[2] = append(kinds[2], l)
			})
			collect(3, every, func(do func(mk func() Case36)) {
				sysBuilder(opPriority, opVersion, opTimestamp, opHostname, opAppname, opProcID, opMsgID, opMessage, opElement, opParameter)(t, func(mk func() BCase) {
					do(func() Case36 {
						b := mk()
						b.Ops = append([]BOp{{Kind: opPriority, N: 165}, {Kind: opVersion, N: 1}}, b.Ops...)
						return Case36{Kind: 2, Build: b}
					})
				})
			})
			most := 0
			for _, k := range kinds {
				most = max(most, len(k))
			}
			for n := range most {
				do(func() (c Case37) {
					for _, k := range kinds {
						if len(k) > 0 {
							var part []Case36
							for _, mk := range k[n%len(k)] {
								part = append(part, mk())
							}
							c.Parts = append(c.Parts, part)
						}
					}
					return c
				})
			}
		},
		Gen: func(r *Rand, t Tier) (c Case37) {
			for n := r.several(); n > 0; n-- {
				var part []Case36
				k := r.In(1, 5)
				if n > 40 || len(c.Parts) > 40 {
					k = 1
				}
				for ; k > 0; k-- {
					part = append(part, settled(gen36(r, t)))
				}
				c.Parts = append(c.Parts, part)
			}
			return c
		},
		Eval: func(c Case37, o *Obs) error {
			got := make([][]string, len(c.Parts))
			errs := make([]error, len(c.Parts))
			gate := make(chan struct{})
			var wg sync.WaitGroup
			for i, part := range c.Parts {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							errs[i] = fmt.Errorf("at the same time as others: panic: %v", r)
						}
					}()
					mine := &Obs{labels: map[string]int{}}
					<-gate
					for round := 0; round < 2; round++ {
						for _, x := range part {
							s, bad := settled(x).do(mine)
							if bad != nil {
								errs[i] = fmt.Errorf("at the same time as others: %w", bad)
								return
							}
							got[i] = append(got[i], s)
						}
					}
				}()
			}
			close(gate)
			wg.Wait()
			kinds := map[int]bool{}
			for i, part := range c.Parts {
				if errs[i] != nil {
					return errs[i]
				}
				for k, x := range part {
					one := &Obs{labels: map[string]int{}}
					want, bad := settled(x).do(one)
					if bad != nil {
						return bad
					}
					if one.nontrivial {
						kind := 2 * x.Kind
						if x.Kind == 0 && x.Opt.BSD || x.Kind == 1 && x.S.Octet {
							kind++
						}
						kinds[kind] = true
					}
					for round := 0; round < 2; round++ {
						if s := got[i][round*len(part)+k]; s != want {
							return fmt.Errorf("thing %d of goroutine %d, done at the same time as others, gives %s, alone it gives %s", k+1, i+1, s, want)
						}
					}
				}
			}
			if len(kinds) > 1 {
				o.NonTrivial()
			}
			o.Label(fmt.Sprintf("%d kinds", len(kinds)))
			return nil
		},
	})
}
