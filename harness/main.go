package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

const raceExit = 66
const harnessExit = 67

// workerResult is what a worker process tells its parent.
type workerResult struct {
	Evals     int
	Distinct  int
	Labels    map[string]int
	Samples   []json.RawMessage
	Exhausted bool // all of the planned cases were run
	Violation *violation
	Hang      bool
}

type violation struct {
	Case  json.RawMessage
	Error string
	Where string // which case of which shard
	Zone  string // the local time zone
}

// localZone is the local time zone of a worker process: nothing judged here depends on it, but for the year in which the
// current one is.
func localZone(shard int) string {
	return []string{"UTC", "America/New_York", "Asia/Kolkata", "Pacific/Apia"}[shard%4]
}

func setLocal(zone string) error {
	l, err := time.LoadLocation(zone)
	if err == nil {
		time.Local = l
	}
	return err
}

// replayFile is the content of a replay file.
type replayFile struct {
	Property  string          `json:"property"`
	Error     string          `json:"error"`
	Where     string          `json:"where"`
	Confirmed string          `json:"confirmed"`
	Zone      string          `json:"zone"`
	Arch      string          `json:"goarch"`
	Case      json.RawMessage `json:"case"`
}

func tierOf(name string) Tier {
	if name == "thorough" {
		return Tier{name, 60}
	}
	return Tier{"quick", 3}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness run|worker|replay|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(runMain(os.Args[2:]))
	case "worker":
		os.Exit(workerMain(os.Args[2:]))
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	case "list":
		for _, id := range ids() {
			fmt.Println(id, checks[id].Race)
		}
	default:
		os.Exit(2)
	}
}

func ids() []string {
	var out []string
	for id := range checks {
		out = append(out, id)
	}
	sort.Strings(out)
	return out
}

// ---------------------------------------------------------------------------------------------------------- worker

type current struct {
	seq  atomic.Int64
	item atomic.Value // any
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const hangAfter = 60 * time.Second
const heapLimit = 3 << 30

type holder struct{ c any }

// watch ends the process when one case makes no progress for hangAfter, or takes all the memory. The time is counted in
// steps, so that a process which is stopped, or gets no processor, for a while is not taken for one that hangs.
func watch(cur *current, onHang func(c any, why string)) {
	const step = 250 * time.Millisecond
	last, steps := int64(-1), 0
	var ms runtime.MemStats
	for i := 0; ; i++ {
		time.Sleep(step)
		s := cur.seq.Load()
		h, _ := cur.item.Load().(holder)
		if s != last || h.c == nil {
			last, steps = s, 0
			continue
		}
		steps++
		if time.Duration(steps)*step > hangAfter {
			onHang(h.c, fmt.Sprintf("no answer after %v", hangAfter))
		}
		if i%4 == 0 && steps > 4 {
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > heapLimit {
				onHang(h.c, "takes more than 3 GiB of memory")
			}
		}
	}
}

func workerMain(args []string) int {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	id := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 8, "")
	out := fs.String("out", "", "")
	trace := fs.String("trace", "", "")
	limit := fs.Duration("limit", 4*time.Minute, "")
	only := fs.String("case", "", "evaluates only the case in this file")
	fs.Parse(args)
	ck := checks[*id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		return 2
	}
	if err := setLocal(localZone(*shard)); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	t := tierOf(*tier)
	res := workerResult{Labels: map[string]int{}, Exhausted: true}
	seen := map[uint64]struct{}{}
	var cur current
	var tf *os.File
	if *trace != "" {
		var err error
		if tf, err = os.Create(*trace); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	finish := func() {
		res.Distinct = len(seen)
		buf := make([]byte, 8*len(seen))
		i := 0
		for k := range seen {
			binary.LittleEndian.PutUint64(buf[i*8:], k)
			i++
		}
		if err := os.WriteFile(*out+".keys", buf, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		d, err := json.Marshal(res)
		if err == nil {
			err = os.WriteFile(*out, d, 0o644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	go watch(&cur, func(c any, why string) {
		d, _ := json.Marshal(c)
		v := workerResult{Evals: 0, Hang: true, Violation: &violation{Case: d, Error: "hang: " + why}}
		dd, _ := json.Marshal(v)
		os.WriteFile(*out+".keys", nil, 0o644)
		os.WriteFile(*out, dd, 0o644)
		os.Exit(4)
	})
	deadline := time.Now().Add(*limit)
	o := &Obs{labels: res.Labels, scale: t.Scale}
	one := func(c any, where string) bool {
		if tf != nil {
			d, _ := json.Marshal(c)
			tf.Truncate(0)
			tf.WriteAt(d, 0)
		}
		cur.item.Store(holder{c})
		cur.seq.Add(1)
		o.nontrivial = false
		err := evalSafe(ck, c, o)
		cur.item.Store(holder{nil})
		res.Evals++
		if o.nontrivial {
			k := caseKey(c)
			if _, dup := seen[k]; !dup {
				seen[k] = struct{}{}
				n := len(seen)
				if n == 3 || n == 50 || n == 1000 || n == 20000 {
					if d, e := json.Marshal(c); e == nil && len(d) < 4000 {
						res.Samples = append(res.Samples, d)
					}
				}
			}
		}
		if err != nil {
			sh := c
			if tf == nil {
				lab := map[string]int{}
				sh = shrink(ck, c, func(x any) bool {
					cur.item.Store(holder{x})
					cur.seq.Add(1)
					e := evalSafe(ck, x, &Obs{labels: lab, scale: t.Scale})
					cur.item.Store(holder{nil})
					return e != nil
				}, 20000, time.Now().Add(20*time.Second))
				if e := evalSafe(ck, clone(ck, sh), &Obs{labels: lab, scale: t.Scale}); e != nil {
					err = e
				} else {
					sh = c
				}
			}
			d, _ := json.Marshal(sh)
			res.Violation = &violation{Case: d, Error: err.Error(), Where: where}
			return false
		}
		return true
	}
	// A panic of a generator is a fault of the harness, never a violation.
	made := func(mk func() any) any {
		defer func() {
			if r := recover(); r != nil {
				fmt.Fprintf(os.Stderr, "the generator failed: %v\n%s\n", r, debug.Stack())
				os.Exit(harnessExit)
			}
		}()
		return mk()
	}
	if *only != "" {
		d, err := os.ReadFile(*only)
		c := ck.Fresh()
		if err == nil {
			err = json.Unmarshal(d, c)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		one(c, "coverage guided fuzzing")
		finish()
		return 0
	}
	idx, stop := 0, false
	if ck.Systematic != nil {
		ck.Systematic(t, func(mk func() any) {
			idx++
			if stop || idx%*shards != *shard {
				return
			}
			if idx&0x3ff == *shard && time.Now().After(deadline) {
				stop = true
				res.Exhausted = false
				return
			}
			if !one(made(mk), fmt.Sprintf("systematic case %d", idx)) {
				stop = true
			}
		})
	}
	res.Labels["systematic cases"] = res.Evals
	if ck.Gen != nil && !stop {
		scale := t.Scale
		if ck.MaxScale > 0 && scale > ck.MaxScale {
			scale = ck.MaxScale
		}
		n := ck.N * scale
		for i := *shard; i < n; i += *shards {
			if i&0x3f < *shards && time.Now().After(deadline) {
				res.Exhausted = false
				break
			}
			r := newRand(*seed, ck.ID, i)
			if !one(made(func() any { return ck.Gen(r, t) }), fmt.Sprintf("random case %d of seed %d", i, *seed)) {
				break
			}
		}
	}
	finish()
	return 0
}

// ---------------------------------------------------------------------------------------------------------- replay

func readReplay(path string) (*replayFile, error) {
	d, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var rf replayFile
	if err := json.Unmarshal(d, &rf); err != nil {
		return nil, err
	}
	return &rf, nil
}

// replayMain evaluates the case of a replay file: 0 it holds, 1 it is violated.
func replayMain(args []string) int {
	if len(args) != 1 {
		fmt.Fprintln(os.Stderr, "usage: harness replay FILE")
		return 2
	}
	rf, err := readReplay(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ck := checks[rf.Property]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown property", rf.Property)
		return 2
	}
	if err := setLocal(rf.Zone); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c := ck.Fresh()
	if err := json.Unmarshal(rf.Case, c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var cur current
	go watch(&cur, func(c any, why string) {
		fmt.Println("violated: hang:", why)
		os.Exit(1)
	})
	times := 1
	if ck.Race {
		times = 30
	}
	for i := 0; i < times; i++ {
		cur.item.Store(holder{c})
		cur.seq.Add(1)
		err := evalSafe(ck, clone(ck, c), &Obs{labels: map[string]int{}, scale: 1})
		if err != nil {
			fmt.Println("violated:", err)
			return 1
		}
	}
	fmt.Println("holds")
	return 0
}

// ---------------------------------------------------------------------------------------------------------- parent

func die(format string, a ...any) int {
	fmt.Fprintf(os.Stderr, "check error: "+format+"\n", a...)
	return 3
}

func runMain(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	id := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	verif := fs.String("verif", "/verif", "")
	also := fs.String("also", "", "what else was run, for the evidence")
	fuzzer := fs.String("fuzzer", "", "test binary for coverage guided fuzzing")
	onlyFuzz := fs.Bool("onlyfuzz", false, "no other cases")
	fuzzTime := fs.Duration("fuzztime", 150*time.Second, "")
	fs.Parse(args)
	start := time.Now()
	ck := checks[*id]
	if ck == nil {
		return die("unknown property %s", *id)
	}
	self, err := os.Executable()
	if err != nil {
		return die("%v", err)
	}
	tmp, err := os.MkdirTemp("", "verif-"+*id+"-")
	if err != nil {
		return die("%v", err)
	}
	defer os.RemoveAll(tmp)

	limit := 4 * time.Minute
	if *tier == "thorough" {
		limit = 9 * time.Minute
	}
	type outcome struct {
		res   *workerResult
		fatal string // output of a worker that died
		race  bool
		err   error
	}
	runWorker := func(shard int, trace string, more ...string) (oc outcome) {
		outf := filepath.Join(tmp, fmt.Sprintf("r%d.json", shard))
		os.Remove(outf)
		a := []string{"worker", "-prop", *id, "-tier", *tier, "-seed", fmt.Sprint(*seed), "-shard", fmt.Sprint(shard),
			"-shards", fmt.Sprint(ck.Shards), "-out", outf, "-limit", limit.String()}
		if trace != "" {
			a = append(a, "-trace", trace)
		}
		a = append(a, more...)
		cmd := exec.Command(self, a...)
		var eb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &eb, &eb
		cmd.Env = workerEnv(ck)
		err := cmd.Run()
		if d, e := os.ReadFile(outf); e == nil {
			var r workerResult
			if e := json.Unmarshal(d, &r); e == nil {
				oc.res = &r
				return
			}
		}
		msg := eb.String()
		if ee, ok := err.(*exec.ExitError); ok {
			oc.race = ee.ExitCode() == raceExit
			goCrash := ee.ExitCode() != harnessExit && (strings.Contains(msg, "fatal error:") || strings.Contains(msg, "panic:") || oc.race || strings.Contains(msg, "DATA RACE"))
			if goCrash {
				oc.fatal = msg
				if oc.fatal == "" {
					oc.fatal = "died"
				}
				return
			}
		}
		oc.err = fmt.Errorf("worker %d: %v: %s", shard, err, tail(msg, 2000))
		return
	}
	outcomes := make([]outcome, ck.Shards)
	sem := make(chan struct{}, max(1, min(runtime.NumCPU(), ck.Shards)))
	if ck.Race {
		sem = make(chan struct{}, max(1, runtime.NumCPU()/2))
	}
	var wg sync.WaitGroup
	if *onlyFuzz {
		outcomes = nil
	}
	for s := range outcomes {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			trace := ""
			if ck.Race {
				trace = filepath.Join(tmp, fmt.Sprintf("trace%d", s))
			}
			outcomes[s] = runWorker(s, trace)
		}()
	}
	wg.Wait()

	total := workerResult{Labels: map[string]int{}, Exhausted: true}
	keys := map[uint64]struct{}{}
	var viol *violation
	hang, hangShard := false, 0
	for s := range outcomes {
		oc := &outcomes[s]
		if oc.err != nil {
			return die("%v", oc.err)
		}
		if oc.res == nil {
			// The worker died within a case: find out which one.
			trace := filepath.Join(tmp, fmt.Sprintf("trace%d", s))
			if !ck.Race {
				again := runWorker(s, trace)
				if again.res != nil && again.res.Violation == nil {
					return die("worker %d died once and then did not: %s", s, tail(oc.fatal, 2000))
				}
				if again.res != nil {
					oc.res = again.res
				}
			}
			if oc.res == nil {
				d, err := os.ReadFile(trace)
				if err != nil || len(d) == 0 {
					return die("worker %d died: %s", s, tail(oc.fatal, 2000))
				}
				oc.res = &workerResult{Violation: &violation{Case: d, Error: "the process died: " + head(oc.fatal, 4000), Where: fmt.Sprintf("shard %d", s)}}
			}
		}
		r := oc.res
		total.Evals += r.Evals
		total.Exhausted = total.Exhausted && r.Exhausted
		for k, n := range r.Labels {
			total.Labels[k] += n
		}
		total.Samples = append(total.Samples, r.Samples...)
		if d, e := os.ReadFile(filepath.Join(tmp, fmt.Sprintf("r%d.json.keys", s))); e == nil {
			for i := 0; i+8 <= len(d); i += 8 {
				keys[binary.LittleEndian.Uint64(d[i:])] = struct{}{}
			}
		}
		// The smallest case, and one with an answer rather than one without.
		if v := r.Violation; v != nil && (viol == nil || hang && !r.Hang || hang == r.Hang && len(v.Case) < len(viol.Case)) {
			viol, hang, hangShard = v, r.Hang, s
			viol.Zone = localZone(s)
		}
	}
	fuzzed := map[string]any{}
	if *fuzzer != "" && viol == nil {
		found, stats, err := fuzzing(ck, *fuzzer, *fuzzTime, tmp)
		if err != nil {
			return die("%v", err)
		}
		fuzzed = stats
		if found != "" {
			// Judge, and shrink, the case found.
			oc := runWorker(ck.Shards, "", "-case", found)
			d, e := os.ReadFile(found)
			switch {
			case e != nil:
				return die("%v", e)
			case oc.res != nil && oc.res.Violation != nil:
				viol, hang = oc.res.Violation, oc.res.Hang
			case oc.fatal != "":
				viol = &violation{Case: d, Error: "the process died: " + head(oc.fatal, 4000), Where: "coverage guided fuzzing"}
			case oc.err != nil:
				return die("%v", oc.err)
			default:
				return die("a case failed while fuzzing, and did not when tried again: %s", head(string(d), 2000))
			}
		}
	}
	nviol := 0
	if viol != nil {
		nviol = 1
	}
	if len(total.Samples) > 12 {
		var s []json.RawMessage
		for i := 0; i < 12; i++ {
			s = append(s, total.Samples[i*len(total.Samples)/12])
		}
		total.Samples = s
	}
	if total.Samples == nil {
		total.Samples = []json.RawMessage{}
	}
	ev := map[string]any{
		"property": *id, "tier": *tier, "seed": *seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":           total.Evals,
			"distinct_nontrivial":   len(keys),
			"rule":                  ck.Rule,
			"samples":               total.Samples,
			"labels":                total.Labels,
			"all_planned_cases_run": total.Exhausted,
			"coverage_guided":       fuzzed,
			"also":                  *also,
		},
		"assumptions": []string{"the reference models and generators in /verif/harness", "Go's compiler, runtime and standard library"},
		"wall_s":      time.Since(start).Seconds(),
		"violations":  nviol,
	}
	evf := filepath.Join(*verif, "evidence", *id+".json")
	os.MkdirAll(filepath.Dir(evf), 0o755)
	writeEvidence := func() error {
		d, _ := json.MarshalIndent(ev, "", " ")
		return os.WriteFile(evf, append(d, '\n'), 0o644)
	}
	if err := writeEvidence(); err != nil {
		return die("%v", err)
	}
	fmt.Printf("%s %s: %d cases, %d distinct non-trivial, %.1fs\n", *id, *tier, total.Evals, len(keys), time.Since(start).Seconds())
	if viol == nil {
		return 0
	}

	rf := replayFile{Property: *id, Error: viol.Error, Where: viol.Where, Zone: viol.Zone, Arch: runtime.GOARCH, Case: viol.Case}
	h := fnv.New64a()
	h.Write(viol.Case)
	rdir := filepath.Join(*verif, "replays")
	os.MkdirAll(rdir, 0o755)
	rpath := filepath.Join(rdir, fmt.Sprintf("%s-%016x.json", *id, h.Sum64()))
	write := func() error {
		d, _ := json.MarshalIndent(rf, "", " ")
		return os.WriteFile(rpath, append(d, '\n'), 0o644)
	}
	if err := write(); err != nil {
		return die("%v", err)
	}
	// Confirm in a process of its own.
	cmd := exec.Command(self, "replay", rpath)
	cmd.Env = workerEnv(ck)
	outb, cerr := cmd.CombinedOutput()
	code := 0
	if ee, ok := cerr.(*exec.ExitError); ok {
		code = ee.ExitCode()
	}
	switch {
	case code == 1 || code == raceExit || strings.Contains(string(outb), "fatal error:"):
		rf.Confirmed = "replayed alone in a new process"
	case hang:
		// Is it the history of the process, or was the machine busy?
		if again := runWorker(hangShard, ""); again.res == nil || again.res.Violation == nil {
			os.Remove(rpath)
			if again.res == nil {
				return die("a case took too long once, then the process died: %s", tail(again.fatal, 2000))
			}
			ev["violations"] = 0
			if err := writeEvidence(); err != nil {
				return die("%v", err)
			}
			fmt.Printf("note: a case took too long once, but neither when replayed nor in a second run: the machine was busy\n")
			return 0
		}
		rf.Confirmed = "seen in two runs, not when replayed alone"
	default:
		rf.Confirmed = "seen within a run (" + viol.Where + "), not when replayed alone"
	}
	if err := write(); err != nil {
		return die("%v", err)
	}
	fmt.Printf("%s\n%s\n", head(viol.Error, 4000), rf.Confirmed)
	fmt.Printf("case: %s\n", head(string(viol.Case), 2000))
	fmt.Printf("VIOLATION property=%s replay=%s\n", *id, rpath)
	return 1
}

var fuzzStats = regexp.MustCompile(`execs: ([0-9]+) .*total: ([0-9]+)\)`)

// fuzzing runs the coverage guided fuzzer; it gives the file of a failing case, if there is one.
func fuzzing(ck *Check, bin string, d time.Duration, tmp string) (found string, stats map[string]any, err error) {
	dir := filepath.Join(tmp, "fuzz")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", nil, err
	}
	out := filepath.Join(dir, "failing")
	cmd := exec.Command(bin, "-test.run=^$", "-test.fuzz=^FuzzCase$", "-test.fuzztime="+d.String(), "-test.fuzzminimizetime=5s", "-test.fuzzcachedir="+filepath.Join(dir, "cache"), fmt.Sprintf("-test.parallel=%d", runtime.NumCPU()))
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "TZ=UTC", "GOMAXPROCS=2", "VERIF_FUZZ="+ck.ID, "VERIF_FUZZ_OUT="+out)
	b, rerr := cmd.CombinedOutput()
	text := string(b)
	stats = map[string]any{"seconds": d.Seconds()}
	if m := fuzzStats.FindAllStringSubmatch(text, -1); m != nil {
		n, _ := strconv.Atoi(m[len(m)-1][1])
		k, _ := strconv.Atoi(m[len(m)-1][2])
		stats["executions"], stats["inputs_reaching_new_code"] = n, k
	}
	if _, e := os.Stat(out); e == nil {
		return out, stats, nil
	}
	if rerr != nil && !strings.Contains(text, "context deadline exceeded") {
		return "", nil, fmt.Errorf("fuzzing: %v: %s", rerr, tail(text, 3000))
	}
	return "", stats, nil
}

func workerEnv(ck *Check) []string {
	env := os.Environ()
	env = append(env, "GOTRACEBACK=single", "TZ=UTC", "GOGC=400")
	if ck.Race {
		env = append(env, fmt.Sprintf("GORACE=halt_on_error=1 exitcode=%d", raceExit))
	} else {
		env = append(env, "GOMAXPROCS=2")
	}
	return env
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}
