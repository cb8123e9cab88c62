package session

import (
	"context"
	"fmt"
	"math"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
	"unicode"

	"github.com/prometheus/prometheus/promql"
	"github.com/prometheus/prometheus/promql/parser"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
	"verif.local/harness/oracle"
)

// Step is something the user, the terminal or the endpoint does.
type Step struct {
	Kind       string // line, wait, complete, resize, grow (the endpoint serves one more series), outage, recover
	Text       string
	Cols, Rows int // the new size, or the new series' value, or the number of failed requests to wait for
}

// Sample is one constant series that the endpoint serves.
type Sample struct {
	Name string
	L    map[string]string
	V    int
}

type sessCase struct {
	Cols, Rows int
	Served     []Sample
	Query      string // of -q
	Steps      []Step
	Quit       string
	Procs      int  // GOMAXPROCS of promq
	Down       bool // the endpoint fails from the start
}

var queries = []string{
	"sum by (a) (m)", "sum by (a) (m)", "max by (a, b) (m)", "sum(n)", "count by (a) (m)", "m", `m{a="x"}`, "n * 2", "nosuch", "vector(7)", "1 + 1", "sum(zq_only_total)",
	`sum by (a) (m{b!="2"})`, "quit", `label_replace(sum(n), "z", "a rather long title", "", "")`, "rate(zq_only_total[20s])", "max_over_time(sum(n)[40s:20ms]) * 1000", "-max_over_time(sum(n)[40s:20ms]) * 1000", "sum(n) + 0.125", "sum without (instance, b) (m)", "-sum(n)",
	"sum(n) % 4", "100*sum(n)%n", "sum(quit)+quit", "q", "exit", `label_replace(sum(n), "z", "ü\\", "", "")`, `sum(n{b!~"a\"b|%s"})`,
	`label_replace(label_replace(sum(n) or sum(quit) or count(nosuch), "z", "long", "", ""), "a", "longer", "nosuchlabelatall", "")`,
}

// heavy queries take a while to evaluate.
var heavy = []string{"max_over_time(sum(n)[40s:3ms]) * 1000", "-max_over_time(sum(n)[40s:3ms]) * 1000", "max_over_time(sum by (a) (m)[40s:4ms])"}
var badQueries = []string{"sum(", "m{", "foo bar", "rate(m)", "m[", "1 +", ")"}

const dockRows = 9

// hues are label values; the series {a="k262"} and {a="k79"} are numbered 255 and 1 modulo 256 (254
// and 0 modulo 255), which is where a wrong choice of colours shows.
var hues = []string{"x", "y", "zed", "k262", "k79", "k706"}

func genSession(t *rapid.T) sessCase {
	size := func() (int, int) {
		return rapid.IntRange(70, 150).Draw(t, "cols"), rapid.IntRange(28, 48).Draw(t, "rows")
	}
	c := sessCase{Quit: rapid.SampledFrom([]string{":q", ":quit"}).Draw(t, "quit")}
	c.Cols, c.Rows = size()
	c.Procs = rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "procs")
	seen := map[string]bool{}
	for n := rapid.IntRange(1, 4).Draw(t, "series"); n > 0; n-- {
		s := Sample{"m", map[string]string{"a": rapid.SampledFrom(hues).Draw(t, "a"), "b": rapid.SampledFrom([]string{"1", "2"}).Draw(t, "b")}, rapid.IntRange(-3, 30).Draw(t, "v")}
		if k := oracle.Key(s.L); !seen[k] {
			seen[k] = true
			c.Served = append(c.Served, s)
		}
	}
	c.Served = append(c.Served, Sample{"n", nil, rapid.IntRange(0, 9).Draw(t, "v")}, Sample{"quit", nil, 1})
	switch rapid.IntRange(0, 5).Draw(t, "start") {
	case 0:
	case 1:
		c.Query = rapid.SampledFrom(badQueries).Draw(t, "query")
	default:
		c.Query = rapid.SampledFrom(queries).Draw(t, "query")
	}
	if rapid.IntRange(0, 19).Draw(t, "down") == 13 {
		c.Down = true
		return c
	}
	down := false
	for n := rapid.IntRange(1, 4).Draw(t, "steps"); n > 0; n-- {
		kinds := []string{"query", "resize", "grow", "outage", "query", "complete", "bad", "command", "query", "query"}
		if down {
			kinds = []string{"recover", "query", "recover", "resize", "bad", "command", "query"}
		}
		switch rapid.SampledFrom(kinds).Draw(t, "kind") {
		case "query":
			if rapid.IntRange(0, 4).Draw(t, "late") == 3 {
				// type while the next result is being computed
				if len(c.Steps) == 0 || c.Steps[len(c.Steps)-1].Kind != "line" || !slices.Contains(queries, c.Steps[len(c.Steps)-1].Text) {
					c.Steps = append(c.Steps, Step{Kind: "line", Text: rapid.SampledFrom(heavy).Draw(t, "heavy")})
				}
				c.Steps = append(c.Steps, Step{Kind: "wait", Cols: 1005 - 5*rapid.IntRange(0, 15).Draw(t, "wait")})
			}
			c.Steps = append(c.Steps, Step{Kind: "line", Text: rapid.SampledFrom(queries).Draw(t, "query")})
		case "bad":
			c.Steps = append(c.Steps, Step{Kind: "line", Text: rapid.SampledFrom(badQueries).Draw(t, "query")})
			if !down && rapid.Bool().Draw(t, "and on") {
				// what was plotted goes on
				c.Steps = append(c.Steps, Step{Kind: "grow", Text: rapid.SampledFrom([]string{"new", "x", "q", "ant"}).Draw(t, "a"), Cols: rapid.IntRange(-3, 60).Draw(t, "v")})
			}
		case "command":
			c.Steps = append(c.Steps, Step{Kind: "line", Text: rapid.SampledFrom([]string{":foo", ":", ":help me", "", "", ":quit now", ":Q", ":qq", ":q!", ":exit", ":quitnow", ":%d", ":q ", ":q:q"}).Draw(t, "command")})
		case "complete":
			c.Steps = append(c.Steps, Step{Kind: "complete", Text: rapid.SampledFrom([]string{"zq", "zq_on", "zq_only_t"}).Draw(t, "prefix")})
		case "resize":
			s := Step{Kind: "resize"}
			s.Cols, s.Rows = size()
			c.Steps = append(c.Steps, s)
		case "grow":
			c.Steps = append(c.Steps, Step{Kind: "grow", Text: rapid.SampledFrom([]string{"new", "x", "q", "ant"}).Draw(t, "a"), Cols: rapid.IntRange(-3, 60).Draw(t, "v")})
		case "outage":
			o := Step{Kind: "outage", Text: rapid.SampledFrom([]string{"", "garbage", "mix", "drop", "mix", "short", "503"}).Draw(t, "outage"), Rows: rapid.SampledFrom([]int{1, 0, 2}).Draw(t, "failures")}
			down = true
			if o.Text == "mix" {
				o.Rows = 8
			}
			c.Steps = append(c.Steps, o)
			if o.Text == "mix" || rapid.Bool().Draw(t, "over") {
				c.Steps = append(c.Steps, Step{Kind: "recover"})
				down = false
			}
		case "recover":
			c.Steps = append(c.Steps, Step{Kind: "recover"})
			down = false
		}
	}
	return c
}

type endpoint struct {
	mu     sync.Mutex
	served []Sample
	n      int // answered
	failed int
	down   bool
	how    string
}

func (e *endpoint) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.down {
		e.failed++
		how := e.how
		if how == "mix" {
			how = []string{"garbage", "drop", "garbage", "short", "garbage", "503", "garbage", ""}[e.failed%8]
		}
		switch how {
		case "garbage": // answered, but not with metrics
			fmt.Fprint(w, []string{"<html>it works</html>\n", "this is a page\n", "m{a=\"b\" 3\n", "m abc\n"}[e.failed/2%4])
		case "drop": // hung up on
			if c, _, err := w.(http.Hijacker).Hijack(); err == nil {
				c.Close()
			}
		case "short": // hung up on half way
			w.Header().Set("Content-Length", "1000")
			fmt.Fprint(w, "m{a=\"half\"} 1\nm{")
		case "503":
			w.WriteHeader(503)
		default:
			w.WriteHeader(500)
		}
		return
	}
	e.n++
	for _, s := range e.served {
		var l []string
		for k, v := range s.L {
			l = append(l, fmt.Sprintf("%s=%q", k, v))
		}
		sort.Strings(l)
		fmt.Fprintf(w, "%s{%s} %d\n", s.Name, strings.Join(l, ","), s.V)
	}
	fmt.Fprintf(w, "zq_only_total %d\n", e.n)
}

func (e *endpoint) scrapes() int {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.n
}

// fails waits until n more requests have failed.
func (e *endpoint) fails(n int, until time.Time) bool {
	count := func() int { e.mu.Lock(); defer e.mu.Unlock(); return e.failed }
	for n += count(); count() < n; time.Sleep(5 * time.Millisecond) {
		if time.Now().After(until) {
			return false
		}
	}
	return true
}

func (e *endpoint) set(down bool, how string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.down, e.how = down, how
}

// squeeze drops everything blank, and with it how text was broken into lines.
func squeeze(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsSpace(r) {
			return -1
		}
		return r
	}, s)
}

// answer is what the session says to a line.
func answer(line string) (text string, plots bool) {
	switch {
	case line == "":
		return "", false
	case line[0] == ':':
		return fmt.Sprintf("no known command %q (hint: try %q)\n", line, ":quit"), false
	}
	if _, err := parser.ParseExpr(line); err != nil {
		return fmt.Sprintf("Unable to set query: %v\n", err), false
	}
	text = fmt.Sprintf("Plotting %q...\n", line)
	if line == "quit" {
		text += "(hint: use \":quit\" to quit)\n"
	}
	return text, true
}

func TestC33(t *testing.T) {
	dir, _ := os.MkdirTemp("", "verif-session")
	kit.Run(t, kit.Spec[sessCase]{
		ID: "C33",
		Rule: "a session of the promq binary with -c in a terminal of its own (a pseudo-terminal and an emulator): an endpoint, an initial query (valid, invalid or none), lines typed (queries, invalid ones, commands, nothing), completions by Tab, resizes, series that appear and outages of the endpoint, then :q; " +
			"non-trivial: at least one plot was checked and at least one step was taken",
		Gen:      genSession,
		Check:    func(r *kit.R, c sessCase) { checkSession(r, c, dir) },
		Setup:    needTerminals,
		Teardown: func() { os.RemoveAll(dir) },
		Hang:     300 * time.Second,
		Batch:    2,
		Flaky:    true,
		Repeat:   1,
	})
}

func needTerminals() {
	f, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		fmt.Fprintln(os.Stderr, "this place has no pseudo-terminals:", err)
		os.Exit(96)
	}
	f.Close()
}

// environment is that of promq, with a configuration that names no cluster.
func environment(dir string, procs int) []string {
	conf := filepath.Join(dir, "config")
	if err := os.WriteFile(conf, []byte("apiVersion: v1\nkind: Config\ncurrent-context: c\nclusters:\n- name: k\n  cluster: {server: 'http://127.0.0.1:1'}\ncontexts:\n- name: c\n  context: {cluster: k, user: u}\n"), 0o600); err != nil {
		panic(err)
	}
	return []string{"KUBECONFIG=" + conf, "HOME=" + dir, "TERM=xterm-256color", "LANG=C.UTF-8", "LC_ALL=C.UTF-8", "PATH=/usr/bin:/bin", fmt.Sprintf("GOMAXPROCS=%d", max(procs, 1)), "TZ=UTC"}
}

const patience = 25 * time.Second

func checkSession(r *kit.R, c sessCase, dir string) {
	e := &endpoint{served: c.Served, down: c.Down}
	srv := httptest.NewServer(e)
	defer srv.Close()
	url := srv.URL + "/m"
	env := environment(dir, c.Procs)
	args := []string{"-c", "-t", url}
	if c.Query != "" {
		args = append(args, "-q", c.Query)
	}
	s, err := start(os.Getenv("KIT_PROMQ"), env, args, c.Cols, c.Rows)
	if err != nil {
		panic(err)
	}
	defer s.close()
	fail := func(sig, format string, a ...any) {
		s.mu.Lock()
		screen := s.vt.String()
		if len(s.unknown) > 0 {
			screen += fmt.Sprintf("(unknown sequences: %q)", s.unknown)
		}
		s.mu.Unlock()
		r.Failf(sig, "%s\nthe screen is\n%s", fmt.Sprintf(format, a...), screen)
	}
	exit := func() int {
		select {
		case <-s.ended:
			return s.cmd.ProcessState.ExitCode()
		case <-time.After(patience):
			fail("stuck", "promq did not end")
		}
		return -1
	}
	if c.Down {
		r.Tag("down from the start")
		if code := exit(); code == 0 {
			fail("no-failure", "promq ended without a failure although its endpoint fails")
		}
		if s.alt {
			fail("terminal", "promq left the terminal in its full-screen mode")
		}
		return
	}

	cols, rows := c.Cols, c.Rows
	promptShows := func() string { return squeeze(strings.Join(s.text(rows-dockRows, 0, rows, cols), "\n")) }
	// exchange waits until the prompt's pane ends with a line, its answer and a fresh prompt.
	exchange := func(what, line string) {
		text, _ := answer(line)
		want := squeeze(">>> " + line + text + ">>> ")
		if !s.until(patience, func() bool { return strings.HasSuffix(promptShows(), want) }) {
			fail("prompt", "%s: the prompt does not come to show %q; it shows %q", what, want, promptShows())
		}
	}
	current, checked := "", 0
	down, grown := false, false
	// plotted waits until the key and the graph are those of the current query.
	plotted := func(what string) {
		if current == "" || down {
			return
		}
		titles, lo, hi := expected(c, url, current)
		width, lines := 1, 0
		for _, t := range titles {
			width = max(width, len(t)+3)
		}
		width = min(width, cols*20/100)
		want := ""
		for _, t := range titles {
			want += squeeze("•" + t)
			lines += (len([]rune("• "+t))+width-1)/width + 1
		}
		if lines > rows-dockRows-2 {
			r.Tag("key too long")
			return
		}
		var got string
		if !s.until(patience, func() bool {
			got = squeeze(strings.Join(s.text(0, 0, rows-dockRows, width), "\n"))
			return got == want
		}) {
			fail("key", "%s: the key of %q does not come to show %q; it shows %q", what, current, want, got)
		}
		checked++
		r.Tag("plot checked")
		if len(titles) == 0 {
			return
		}
		why := ""
		if !s.until(patience, func() bool {
			why = ""
			if got = squeeze(strings.Join(s.text(0, 0, rows-dockRows, width), "\n")); got != want {
				why = fmt.Sprintf("the key shows %q again", got)
				return false
			}
			colours := map[int]bool{}
			n := 0
			for y := 0; y < rows-dockRows; y++ {
				for x := 0; x < width; x++ {
					if s.cells[y][x].rn == '•' {
						colours[s.cells[y][x].fg] = true
						n++
					}
				}
			}
			if n != len(titles) {
				why = fmt.Sprintf("%d bullets for %d series", n, len(titles))
				return false
			}
			corner, drawn := false, false
			for y := 0; y < rows-dockRows; y++ {
				for x := width; x < cols; x++ {
					cell := s.cells[y][x]
					corner = corner || cell.rn == '┗'
					if cell.fg >= 0 {
						if !colours[cell.fg] {
							why = fmt.Sprintf("%q at column %d of row %d is in colour %d, which the key does not have (%v)", cell.rn, x, y, cell.fg, colours)
							return false
						}
						drawn = drawn || cell.rn >= 0x2800 && cell.rn < 0x2900
					}
				}
			}
			if !corner || !drawn {
				why = fmt.Sprintf("axes drawn: %v, a curve drawn: %v", corner, drawn)
				return false
			}
			if why = misdated(s.text(0, width, rows-dockRows, cols)); why != "" {
				return false
			}
			if math.IsNaN(lo) || grown {
				return true
			}
			bottom := ""
			for y := 0; y < rows-dockRows; y++ {
				for x := width; x < cols; x++ {
					if s.cells[y][x].rn == '┨' {
						// two ticks may share a row (C19's known finding), the last one is drawn over the other
						bottom = ""
						if fs := strings.Fields(strings.Join(s.text(y, width, y+1, x), "")); len(fs) > 0 {
							bottom = fs[len(fs)-1]
						}
						v, err := strconv.ParseFloat(bottom, 64)
						if err != nil || v < lo-1e-4*math.Abs(lo)-1e-9 || v > hi+1e-4*math.Abs(hi)+1e-9 {
							why = fmt.Sprintf("the axis has a tick %q, although the values are from %v to %v", bottom, lo, hi)
							return false
						}
						break
					}
				}
			}
			if want := strings.TrimSpace(fmt.Sprintf("%5.5g", lo)); bottom != want {
				why = fmt.Sprintf("the axis starts at %q, although the least value is %s", bottom, want)
				return false
			}
			return true
		}) {
			fail("graph", "%s: the graph of %q is not right: %s", what, current, why)
		}
	}

	if !s.until(patience, func() bool { return s.alt }) {
		fail("start", "promq does not draw anything")
	}
	exchange("at the start", c.Query)
	if _, plots := answer(c.Query); plots {
		current = c.Query
	}
	plotted("at the start")
	last := c.Query
	for i, st := range c.Steps {
		what := fmt.Sprintf("step %d (%s %q)", i, st.Kind, st.Text)
		r.Tag(st.Kind)
		line := st.Text
		if st.Kind == "line" && line == last || st.Kind == "complete" && last == "zq_only_total" {
			continue // its answer would look like the one that is there, and go-prompt loses what is typed before it asks again
		}
		switch st.Kind {
		case "wait":
			time.Sleep(time.Duration(st.Cols) * time.Millisecond)
			continue
		case "outage":
			e.set(true, st.Text)
			r.Tag("outage " + st.Text)
			down = true
			if !e.fails(st.Rows, time.Now().Add(patience)) {
				fail("scraping", "%s: promq does not ask the endpoint any more", what)
			}
			continue
		case "recover":
			e.set(false, "")
			down = false
			n := e.scrapes()
			for end := time.Now().Add(patience); e.scrapes() < n+2; time.Sleep(5 * time.Millisecond) {
				if time.Now().After(end) {
					fail("scraping", "%s: promq does not ask the endpoint any more", what)
				}
			}
			plotted(what)
			continue
		case "grow":
			n := Sample{"m", map[string]string{"a": st.Text, "b": "3"}, st.Cols}
			again := false
			for _, o := range c.Served {
				again = again || oracle.Key(o.L) == oracle.Key(n.L)
			}
			if again {
				continue
			}
			c.Served = append(append([]Sample{}, c.Served...), n)
			grown = true // what was drawn before it came may differ
			e.mu.Lock()
			e.served = c.Served
			e.mu.Unlock()
			plotted(what)
			continue
		case "resize":
			s.vt.resize(st.Cols, st.Rows)
			cols, rows = st.Cols, st.Rows
			if err := s.setSize(cols, rows); err != nil {
				panic(err)
			}
			// the next line typed shows whether the prompt knows its new place
			line = fmt.Sprintf(":size %d", i)
			if !down && current != "" {
				plotted(what)
			} else {
				time.Sleep(300 * time.Millisecond)
			}
			s.typed(line + "\r")
			exchange(what, line)
			last = line
			continue
		case "complete":
			// the second scrape begins when the first one's names are known
			for end := time.Now().Add(patience); e.scrapes() < 3 && time.Now().Before(end) && !down; {
				time.Sleep(5 * time.Millisecond)
			}
			if down && e.scrapes() < 3 {
				continue
			}
			s.typed(line + "\t")
			line = "zq_only_total"
			if !s.until(patience, func() bool { return strings.Contains(promptShows(), ">>>"+line) }) {
				fail("complete", "%s: Tab does not complete %q; the prompt shows %q", what, st.Text, promptShows())
			}
			s.typed("\r")
		default:
			s.typed(line + "\r")
		}
		exchange(what, line)
		last = line
		if _, plots := answer(line); plots {
			current = line
		}
		plotted(what)
	}
	s.typed(c.Quit + "\r")
	if code := exit(); code != 0 {
		fail("exit", "promq ended with %d after %s", code, c.Quit)
	}
	if s.alt || !s.cursor {
		fail("terminal", "promq left the terminal in its full-screen mode (%v) or without a cursor (%v)", s.alt, !s.cursor)
	}
	if checked > 0 && len(c.Steps) > 0 {
		r.NonTrivial()
	}
}

// expected gives the label values of the series that Prometheus would plot, in its order, and
// the least and greatest value, NaN unless every series is constant.
func expected(c sessCase, url, query string) (out []string, lo, hi float64) {
	store := &oracle.Store{}
	now := time.Now()
	for back := int64(3); back >= 0; back-- {
		load := func(name string, l map[string]string, v float64) {
			m := map[string]string{"__name__": name, "instance": url}
			for k, x := range l {
				m[k] = x
			}
			store.Load(m, now.UnixMilli()-back*1000, v)
		}
		for _, s := range c.Served {
			load(s.Name, s.L, float64(s.V))
		}
		load("zq_only_total", nil, float64(10-back))
	}
	eng := promql.NewEngine(promql.EngineOpts{Timeout: time.Minute, MaxSamples: 1 << 20})
	q, err := eng.NewRangeQuery(store, query, now.Add(-time.Minute), now, time.Second)
	if err != nil {
		panic(err)
	}
	defer q.Close()
	m, err := q.Exec(context.Background()).Matrix()
	if err != nil {
		panic(err)
	}
	lo, hi = math.Inf(1), math.Inf(-1)
	for _, s := range m {
		for _, p := range s.Points {
			lo, hi = math.Min(lo, p.V), math.Max(hi, p.V)
			if p.V != s.Points[0].V {
				lo = math.NaN()
			}
		}
		var vals []string
		for _, l := range s.Metric {
			vals = append(vals, l.Value)
		}
		out = append(out, strings.Join(vals, ", "))
	}
	return
}

// misdated says what is wrong with the labels below a graph's time axis: they have the minute and
// second of times in the last minute, later ones to the right.
func misdated(rows []string) string {
	for y, row := range rows {
		if !strings.ContainsRune(row, '┗') {
			continue
		}
		// each is written downwards
		down := map[int]string{}
		for _, row := range rows[y+1:] {
			x := 0
			for _, c := range row {
				if c != ' ' {
					down[x] += string(c)
				}
				x++
			}
		}
		var labels []string
		for x := 0; x < 1000; x++ {
			if l := down[x]; l != "" {
				labels = append(labels, l)
			}
		}
		if len(labels) == 0 {
			return "the time axis has no label"
		}
		now := time.Now().UTC()
		last := -1000
		for _, l := range labels {
			var m, sec int
			if n, err := fmt.Sscanf(l, "%02d:%02d", &m, &sec); n != 2 || err != nil || len(l) != 5 || m > 59 || sec > 59 {
				return fmt.Sprintf("the time axis has a label %q", l)
			}
			ago := (now.Minute()*60 + now.Second() - m*60 - sec + 3600) % 3600
			if ago > 1800 {
				ago -= 3600
			}
			if ago > 70 || ago < -1 {
				return fmt.Sprintf("the time axis has a label %q at %s", l, now.Format("04:05"))
			}
			if -ago < last {
				return fmt.Sprintf("the time axis has the labels %q", labels)
			}
			last = -ago
		}
		return ""
	}
	return "there is no time axis"
}
