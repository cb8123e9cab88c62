// Package kit runs one property as a generated-input search: it draws cases from
// a rapid generator, hands each to an oracle, counts what it did, and turns a
// failure (after rapid's shrinking) into a JSON case that can be replayed.
//
// The process that runs a property talks to /verif/run.py through environment
// variables and files:
//
//	KIT_OUT     directory for result.json / failure.json / current.json
//	KIT_SEED    base seed (never 0), already different for each worker
//	KIT_CHECKS  number of generated cases to aim for
//	KIT_BUDGET  seconds after which no new batch is started
//	KIT_CORPUS  directory of committed regression cases, run first
//	KIT_KNOWN   known-findings file (JSON)
//	KIT_REPLAY  path of one case: run only that one
//	KIT_TRACE   "1": write every case to current.json before running it
//	KIT_HANG    seconds after which a single case is reported as not ending
package kit

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Spec is one property: a generator of cases and an oracle over a case.
type Spec[C any] struct {
	ID   string
	Rule string // how cases are made and what makes one non-trivial
	Gen  func(t *rapid.T) C
	// Check judges one case. It reports a violation through r.Failf; it must be
	// deterministic in c (up to schedules, for the concurrency properties).
	Check func(r *R, c C)

	MaxRSS   int64         // bytes of resident memory after which the process counts as running away (default 3 GiB)
	Hang     time.Duration // wall bound for a single case (default 20s), confirmed by the driver in a fresh process
	Batch    int           // cases per rapid run (default 200)
	Trace    bool          // always write current.json (cases whose failure can be a fatal runtime error)
	Flaky    bool          // schedules matter: do not ask for the failure to recur
	Repeat   int           // how often a flaky case is replayed, 20 if 0
	Setup    func()        // once per process
	Teardown func()
}

// R collects what one case showed.
type R struct {
	nontrivial bool
	tags       []string
	spec       string
	known      map[string]knownFinding
	knownInput bool
}

// KnownInput says that this case is the input of a listed finding, for checks that generate around a defect that is recorded and not repaired.
func (r *R) KnownInput() bool { return r.knownInput }

type failure struct {
	sig, msg string
}

// NonTrivial marks the case as having exercised what the property is about.
func (r *R) NonTrivial() { r.nontrivial = true }

// Tag counts the case in a class of the evidence's histogram.
func (r *R) Tag(s string) { r.tags = append(r.tags, s) }

// Failf reports a violation. sig names the clause that broke: shrinking keeps to
// one sig, and known findings are identified by it together with their input.
func (r *R) Failf(sig, format string, args ...any) {
	panic(failure{sig, fmt.Sprintf(format, args...)})
}

// Guard runs f, and turns a panic of the code under test into a violation.
func (r *R) Guard(sig, what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			if fl, ok := e.(failure); ok {
				panic(fl)
			}
			panic(failure{sig, fmt.Sprintf("%s panicked: %v\n%s", what, e, trimStack(debug.Stack()))})
		}
	}()
	f()
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var keep []string
	for i := 0; i+1 < len(lines); i++ {
		if strings.Contains(lines[i+1], "/repo/") {
			keep = append(keep, lines[i], lines[i+1])
			i++
		}
		if len(keep) > 16 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

type knownFinding struct {
	Property string          `json:"property"`
	Sig      string          `json:"sig"`
	What     string          `json:"what"`
	Case     json.RawMessage `json:"case"`
}

// Result is what a worker reports about its part of a run.
type Result struct {
	Property    string            `json:"property"`
	Evaluations int               `json:"evaluations"`
	NonTrivial  int               `json:"nontrivial"`
	Hashes      []string          `json:"hashes"`
	Rule        string            `json:"rule"`
	Samples     []json.RawMessage `json:"samples"`
	Tags        map[string]int    `json:"tags"`
	Corpus      int               `json:"corpus"`
	Known       []string          `json:"known"` // known findings that still fail
	Done        bool              `json:"done"`
	WallS       float64           `json:"wall_s"`
}

// Failure is a replay file.
type Failure struct {
	Property string          `json:"property"`
	Sig      string          `json:"sig"`
	Message  string          `json:"message"`
	Seed     uint64          `json:"seed,omitempty"`
	Origin   string          `json:"origin"`
	Recurs   bool            `json:"recurs"`
	Case     json.RawMessage `json:"case"`
}

const (
	exitFail   = 90 // a violation; failure.json says which
	exitHang   = 97 // a case did not end; current.json has it
	exitMemory = 98 // memory ran away; current.json has the case
	exitUsage  = 96
)

type runner[C any] struct {
	spec   Spec[C]
	out    string
	known  map[string]knownFinding
	res    Result
	hashes map[uint64]bool
	failed bool

	mu       sync.Mutex
	cur      *C
	curStart time.Time
	trace    bool
	last     *Failure
	replay   bool
	asKnown  bool
	evals    atomic.Int64
}

func envInt(k string, def int) int {
	if v := os.Getenv(k); v != "" {
		if n, err := strconv.Atoi(v); err == nil {
			return n
		}
	}
	return def
}

// Run is the body of a property's Test function. It never returns on a
// violation: it writes failure.json and exits with exitFail.
func Run[C any](t *testing.T, spec Spec[C]) {
	out := os.Getenv("KIT_OUT")
	if out == "" {
		t.Skip("KIT_OUT not set: properties run through /verif/run.py")
	}
	r := &runner[C]{spec: spec, out: out, hashes: map[uint64]bool{}}
	r.res.Property, r.res.Rule, r.res.Tags = spec.ID, spec.Rule, map[string]int{}
	r.trace = spec.Trace || os.Getenv("KIT_TRACE") == "1"
	r.loadKnown()
	if spec.Setup != nil {
		spec.Setup()
	}
	if spec.Teardown != nil {
		defer spec.Teardown()
	}
	go r.watchdog()
	start := time.Now()

	if p := os.Getenv("KIT_REPLAY"); p != "" {
		r.replay = true
		r.runFile(p, "replay")
		r.finish(start)
		return
	}

	// regression cases: inputs of repaired defects and of planted bugs' demonstrations
	if dir := os.Getenv("KIT_CORPUS"); dir != "" {
		files, _ := filepath.Glob(filepath.Join(dir, "*.json"))
		sort.Strings(files)
		for _, f := range files {
			r.runFile(f, "corpus")
			r.res.Corpus++
		}
	}
	// known findings: still failing?
	for sig, k := range r.known {
		if len(k.Case) == 0 {
			continue
		}
		var c C
		if err := json.Unmarshal(k.Case, &c); err != nil {
			fmt.Fprintln(os.Stderr, "known finding does not decode:", sig, err)
			os.Exit(exitUsage)
		}
		r.asKnown = true
		fl := r.one(c, false)
		r.asKnown = false
		if fl != nil {
			if fl.sig == k.Sig {
				r.res.Known = append(r.res.Known, k.What)
			} else {
				r.report(c, fl, 0, "known-findings input")
			}
		}
	}

	seed, _ := strconv.ParseUint(os.Getenv("KIT_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	checks := envInt("KIT_CHECKS", 1000)
	budget := time.Duration(envInt("KIT_BUDGET", 30)) * time.Second
	batch := spec.Batch
	if batch == 0 {
		batch = 200
	}
	must(flag.Set("rapid.nofailfile", "true"))
	must(flag.Set("rapid.shrinktime", "20s"))
	for b, before := 0, r.res.Evaluations; r.res.Evaluations-before < checks && (b == 0 || time.Since(start) < budget); b++ {
		n := batch
		if left := checks + before - r.res.Evaluations; left < n {
			n = left
		}
		must(flag.Set("rapid.checks", strconv.Itoa(n)))
		bs := mix(seed, uint64(b))
		must(flag.Set("rapid.seed", strconv.FormatUint(bs, 10)))
		r.batch(bs)
	}
	r.finish(start)
}

func mix(a, b uint64) uint64 {
	x := a*0x9E3779B97F4A7C15 + b*0xBF58476D1CE4E5B9 + 0x94D049BB133111EB
	x ^= x >> 31
	x *= 0xD6E8FEB86659FD93
	x ^= x >> 29
	x &= 1<<62 - 1
	if x == 0 {
		x = 1
	}
	return x
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "kit:", err)
		os.Exit(exitUsage)
	}
}

type stopTB struct{ name string }
type tbDone struct{}

func (b stopTB) Helper()               {}
func (b stopTB) Name() string          { return b.name }
func (b stopTB) Logf(string, ...any)   {}
func (b stopTB) Log(...any)            {}
func (b stopTB) Skipf(string, ...any)  { panic(tbDone{}) }
func (b stopTB) Skip(...any)           { panic(tbDone{}) }
func (b stopTB) SkipNow()              { panic(tbDone{}) }
func (b stopTB) Errorf(string, ...any) {}
func (b stopTB) Error(...any)          {}
func (b stopTB) Fatalf(string, ...any) { panic(tbDone{}) }
func (b stopTB) Fatal(...any)          { panic(tbDone{}) }
func (b stopTB) FailNow()              { panic(tbDone{}) }
func (b stopTB) Fail()                 {}
func (b stopTB) Failed() bool          { return false }

func (r *runner[C]) batch(seed uint64) {
	var lastCase C
	var lastFail *failure
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(tbDone); !ok {
					panic(e)
				}
			}
		}()
		rapid.Check(stopTB{"kit-" + r.spec.ID}, func(rt *rapid.T) {
			c := r.spec.Gen(rt)
			fl := r.one(c, lastFail == nil)
			if fl != nil {
				lastCase, lastFail = c, fl
				rt.Fatalf("%s", fl.sig)
			}
		})
	}()
	if lastFail != nil {
		r.report(lastCase, lastFail, seed, "generated, then shrunk")
	}
}

// one runs one case and returns its violation, if any. A known finding's sig on
// the known input is not a violation.
func (r *runner[C]) one(c C, count bool) (fl *failure) {
	r.mu.Lock()
	r.cur, r.curStart = &c, time.Now()
	r.mu.Unlock()
	if r.trace {
		r.writeCurrent(&c)
	}
	rr := &R{spec: r.spec.ID, known: r.known, knownInput: r.asKnown}
	func() {
		defer func() {
			if e := recover(); e != nil {
				switch v := e.(type) {
				case failure:
					fl = &v
				default:
					fl = &failure{"panic", fmt.Sprintf("panic: %v\n%s", e, trimStack(debug.Stack()))}
				}
			}
		}()
		r.spec.Check(rr, c)
	}()
	r.mu.Lock()
	r.cur = nil
	r.mu.Unlock()
	if !count {
		return fl
	}
	r.res.Evaluations++
	for _, t := range rr.tags {
		r.res.Tags[t]++
	}
	if rr.nontrivial {
		b, err := json.Marshal(c)
		if err == nil {
			h := fnv.New64a()
			h.Write(b)
			k := h.Sum64()
			if !r.hashes[k] {
				r.hashes[k] = true
				if len(r.res.Samples) < 3 || (len(r.res.Samples) < 6 && k%97 == 0) {
					if len(b) < 3000 {
						r.res.Samples = append(r.res.Samples, b)
					}
				}
			}
		}
	}
	return fl
}

func (r *runner[C]) runFile(p, origin string) {
	raw, err := os.ReadFile(p)
	must(err)
	var f Failure
	must(json.Unmarshal(raw, &f))
	if f.Property != "" && f.Property != r.spec.ID {
		fmt.Fprintf(os.Stderr, "kit: %s is a case of %s, not %s\n", p, f.Property, r.spec.ID)
		os.Exit(exitUsage)
	}
	var c C
	must(json.Unmarshal(f.Case, &c))
	n := 1
	if r.spec.Flaky {
		n = 20
		if r.spec.Repeat > 0 {
			n = r.spec.Repeat
		}
	}
	r.asKnown = strings.HasPrefix(f.Origin, "known")
	defer func() { r.asKnown = false }()
	for i := 0; i < n; i++ {
		if fl := r.one(c, true); fl != nil {
			r.report(c, fl, f.Seed, origin+" "+filepath.Base(p))
		}
	}
}

func (r *runner[C]) report(c C, fl *failure, seed uint64, origin string) {
	raw, err := json.Marshal(c)
	must(err)
	f := Failure{Property: r.spec.ID, Sig: fl.sig, Message: fl.msg, Seed: seed, Origin: origin, Case: raw}
	// is the written case the failing one?
	var c2 C
	if json.Unmarshal(raw, &c2) == nil {
		if fl2 := r.one(c2, false); fl2 != nil {
			f.Recurs = true
			f.Sig, f.Message = fl2.sig, fl2.msg
		}
	}
	b, err := json.MarshalIndent(f, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(r.out, "failure.json"), b, 0o644))
	os.Exit(exitFail)
}

func (r *runner[C]) finish(start time.Time) {
	r.res.Done = true
	r.res.NonTrivial = len(r.hashes)
	for h := range r.hashes {
		r.res.Hashes = append(r.res.Hashes, strconv.FormatUint(h, 36))
	}
	r.res.WallS = time.Since(start).Seconds()
	b, err := json.Marshal(r.res)
	must(err)
	must(os.WriteFile(filepath.Join(r.out, "result.json"), b, 0o644))
}

func (r *runner[C]) writeCurrent(c *C) {
	raw, err := json.Marshal(*c)
	if err != nil {
		return
	}
	f := Failure{Property: r.spec.ID, Sig: "fatal", Case: raw, Origin: "case that was running"}
	b, _ := json.Marshal(f)
	tmp := filepath.Join(r.out, "current.tmp")
	if os.WriteFile(tmp, b, 0o644) == nil {
		os.Rename(tmp, filepath.Join(r.out, "current.json"))
	}
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

func cpu() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func (r *runner[C]) watchdog() {
	max := r.spec.MaxRSS
	if max == 0 {
		max = 3 << 30
	}
	hang := r.spec.Hang
	if hang == 0 {
		hang = 20 * time.Second
	}
	if h := os.Getenv("KIT_HANG"); h != "" {
		if f, err := strconv.ParseFloat(h, 64); err == nil {
			hang = time.Duration(f * float64(time.Second))
		}
	}
	for {
		time.Sleep(20 * time.Millisecond)
		code := 0
		why := ""
		if rss() > max {
			code, why = exitMemory, "resident memory ran away while this case ran"
		}
		r.mu.Lock()
		cur, since := r.cur, r.curStart
		r.mu.Unlock()
		if cur != nil && time.Since(since) > hang {
			code, why = exitHang, "this case did not end"
		}
		if code == 0 || (cur == nil && code == exitHang) {
			continue
		}
		if cur != nil {
			raw, err := json.Marshal(*cur)
			if err == nil {
				buf := make([]byte, 1<<16)
				n := 0
				if code == exitHang {
					n = runtime.Stack(buf, true)
				}
				f := Failure{Property: r.spec.ID, Sig: map[int]string{exitHang: "does-not-end", exitMemory: "runs-away"}[code],
					Message: why + "\n" + trimStack(buf[:n]), Case: raw, Origin: "watchdog"}
				b, _ := json.MarshalIndent(f, "", " ")
				os.WriteFile(filepath.Join(r.out, "current.json"), b, 0o644)
			}
		}
		os.Exit(code)
	}
}

func (r *runner[C]) loadKnown() {
	r.known = map[string]knownFinding{}
	p := os.Getenv("KIT_KNOWN")
	if p == "" {
		return
	}
	b, err := os.ReadFile(p)
	must(err)
	var all struct {
		Findings []knownFinding `json:"findings"`
	}
	must(json.Unmarshal(b, &all))
	for _, k := range all.Findings {
		if k.Property == r.spec.ID {
			r.known[k.Sig] = k
		}
	}
}
