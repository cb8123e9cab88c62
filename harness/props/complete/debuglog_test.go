package complete

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/prometheus/prometheus/pkg/labels"
	"pgregory.net/rapid"

	"sigs.k8s.io/instrumentation-tools/promq/autocomplete/earley"
	"sigs.k8s.io/instrumentation-tools/promq/prom"
	"verif.local/harness/kit"
)

// DebugCase is a session of completions in processes that are told to log into a directory.
type DebugCase struct {
	S        Session
	Nameless int // series without a name that the index is given
	Dir      string
	Old      string // what the log files have in them before
	Procs    int    // that share the directory
}

var debugDirs = []string{"dir", "dir", "old", "old", "odd name", "relative", "link", "missing", "file", "occupied", "half", "full"}

const childEnv = "KIT_DEBUGLOG_CHILD"

func TestMain(m *testing.M) {
	if in := os.Getenv(childEnv); in != "" {
		os.Exit(debugChild(in))
	}
	os.Exit(m.Run())
}

// debugChild answers the session of a case in this process, in a file beside it.
func debugChild(in string) int {
	b, err := os.ReadFile(in)
	var c DebugCase
	if err != nil || json.Unmarshal(b, &c) != nil {
		return 3
	}
	x := prom.NewIndex()
	for i := 0; i < c.Nameless; i++ {
		x.UpdateMetric(prom.ParsedSeries{Labels: labels.FromStrings("a", fmt.Sprint(i))})
	}
	for _, m := range c.S.X.metrics() {
		for _, l := range c.S.X.labels(m) {
			for _, v := range c.S.X[m][l] {
				x.UpdateMetric(prom.ParsedSeries{Labels: labels.FromStrings("__name__", m, l, v)})
			}
		}
	}
	co := earley.NewPromQLCompleter(x)
	var out []string
	for _, a := range c.S.Asks {
		a = clip(a)
		var ss []string
		for _, s := range co.GenerateSuggestions(a.Q, a.Pos) {
			ss = append(ss, s.GetKind()+" "+s.GetValue()+" "+s.GetDetail())
		}
		sort.Strings(ss)
		out = append(out, strings.Join(ss, "\n"))
	}
	b, _ = json.Marshal(out)
	if os.WriteFile(os.Getenv("KIT_DEBUGLOG_OUT"), b, 0o600) != nil {
		return 4
	}
	return 0
}

type childRun struct {
	answers string
	printed string
	err     error
}

func runChild(in, out, dir, cwd string) (c childRun) {
	cmd := exec.Command(os.Args[0])
	cmd.Dir = cwd
	cmd.Env = append(os.Environ(), childEnv+"="+in, "KIT_DEBUGLOG_OUT="+out)
	if dir != "" {
		cmd.Env = append(cmd.Env, "PQ_DEBUG_LOG_DIRECTORY="+dir)
	}
	var p bytes.Buffer
	cmd.Stdout, cmd.Stderr = &p, &p
	c.err = cmd.Run()
	c.printed = p.String()
	b, _ := os.ReadFile(out)
	c.answers = string(b)
	return
}

// tree lists what is below a directory, with the contents of its files.
func tree(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if i.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			out[rel] = string(b)
		} else {
			out[rel] = i.Mode().Type().String()
		}
		return nil
	})
	return out
}

// C35: debug logging.
func TestC35(t *testing.T) {
	kit.Run(t, kit.Spec[DebugCase]{
		ID: "C35",
		Rule: "a session of completions (as in C10, against a real index that may meet nameless series) in processes of its own: without the variable, and 1-3 at once with PQ_DEBUG_LOG_DIRECTORY naming a new directory, one with logs in it, one with an odd name, a relative or linked one, or something unusable; " +
			"non-trivial: something was suggested and the directory was usable",
		Gen: func(t *rapid.T) DebugCase {
			c := DebugCase{S: genSession(t), Dir: rapid.SampledFrom(debugDirs).Draw(t, "dir")}
			c.Nameless = rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "nameless")
			c.Procs = rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "procs")
			c.Old = rapid.SampledFrom([]string{"", "earlier\n", "no line end", strings.Repeat("long ", 3000) + "\n", "\x00\xff"}).Draw(t, "old")
			return c
		},
		Check: checkDebug,
		Batch: 10,
		Hang:  60 * time.Second,
	})
}

func checkDebug(r *kit.R, c DebugCase) {
	top, err := os.MkdirTemp("", "debuglog")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(top)
	cwd := filepath.Join(top, "cwd")
	work := filepath.Join(top, "work")
	logs := filepath.Join(top, "logs")
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	must(os.Mkdir(cwd, 0o700))
	must(os.Mkdir(work, 0o700))
	b, _ := json.Marshal(c)
	in := filepath.Join(work, "in")
	must(os.WriteFile(in, b, 0o600))

	plain := runChild(in, filepath.Join(work, "plain"), "", cwd)
	if plain.err != nil || plain.printed != "" {
		r.Failf("plain", "without the variable: %v, printed %q", plain.err, plain.printed)
	}
	if t := tree(top); len(t) != 4 { // cwd, work and the two files there
		r.Failf("stray", "without the variable, files are written: %q", t)
	}

	at := logs // what the variable says
	usable := map[string]bool{"debug.log": true, "error.log": true}
	switch c.Dir {
	case "missing":
		usable = nil
	case "file":
		must(os.WriteFile(logs, []byte("a file"), 0o600))
		usable = nil
	case "full":
		at = "/dev/full"
		usable = nil
	case "occupied":
		must(os.MkdirAll(filepath.Join(logs, "debug.log"), 0o700))
		must(os.MkdirAll(filepath.Join(logs, "error.log"), 0o700))
		usable = nil
	case "half":
		must(os.MkdirAll(filepath.Join(logs, "debug.log"), 0o700))
		delete(usable, "debug.log")
	case "odd name":
		logs = filepath.Join(top, "lo%d gs %s;'\"ü")
		at = logs
		must(os.Mkdir(logs, 0o700))
	case "relative":
		must(os.Mkdir(logs, 0o700))
		at = "../logs"
	case "link":
		must(os.Mkdir(logs, 0o700))
		at = filepath.Join(work, "link")
		must(os.Symlink(logs, at))
	case "old":
		must(os.Mkdir(logs, 0o700))
		for f := range usable {
			must(os.WriteFile(filepath.Join(logs, f), []byte(c.Old), 0o600))
		}
	default:
		must(os.Mkdir(logs, 0o700))
	}
	r.Tag(c.Dir)
	before := tree(top)
	runs := make([]childRun, c.Procs)
	var wg sync.WaitGroup
	for i := range runs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			runs[i] = runChild(in, filepath.Join(work, fmt.Sprint("logged", i)), at, cwd)
		}()
	}
	wg.Wait()
	for i, x := range runs {
		if x.err != nil || x.printed != "" {
			r.Failf("logged", "logging to %q (%s): the process ends with %v and prints %q", at, c.Dir, x.err, x.printed)
		}
		if x.answers != plain.answers {
			r.Failf("answers", "logging to %q (%s): the suggestions are %s, without logging %s", at, c.Dir, x.answers, plain.answers)
		}
		os.Remove(filepath.Join(work, fmt.Sprint("logged", i)))
	}
	after := tree(top)
	name, _ := filepath.Rel(top, logs)
	for f := range usable {
		f = filepath.Join(name, f)
		old, new := before[f], after[f]
		if !strings.HasPrefix(new, old) {
			r.Failf("lost", "what was in %s (%d bytes) is not there any more", f, len(old))
		}
		if len(new) == len(old) {
			r.Failf("unlogged", "nothing was logged in %s", f)
		}
		added := new[len(old):]
		switch filepath.Base(f) {
		case "error.log":
			if n := strings.Count(added, "\n"); n < c.Procs*(1+c.Nameless) {
				r.Failf("errors", "%d processes that met %d nameless series logged %d lines of errors: %q", c.Procs, c.Nameless, n, added)
			}
		case "debug.log":
			seen := map[string]bool{}
			for _, a := range c.S.Asks {
				a = clip(a)
				if q := strings.TrimSpace(a.Q[:a.Pos]); q != "" && !seen[q] && plain.answers != "" {
					seen[q] = true
				}
			}
			if len(seen) > 0 && strings.Count(added, "\n") <= c.Procs {
				r.Failf("unlogged", "nothing was logged about the completions of %q", seen)
			}
		}
		delete(before, f)
		delete(after, f)
	}
	for f, text := range after {
		if old, ok := before[f]; !ok || old != text {
			r.Failf("stray", "logging to %q (%s) writes %s", at, c.Dir, f)
		}
		delete(before, f)
	}
	for f := range before {
		r.Failf("stray", "logging to %q (%s) removes %s", at, c.Dir, f)
	}
	if usable != nil && strings.ContainsAny(plain.answers, "abcdefghijklmnopqrstuvwxyz(") {
		r.NonTrivial()
	}
}
