package session

import (
	"fmt"
	"math"
	"net/http"
	"net/http/httptest"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/gdamore/tcell"
	"k8s.io/cli-runtime/pkg/genericclioptions"
	"k8s.io/client-go/rest"
	"pgregory.net/rapid"

	"sigs.k8s.io/instrumentation-tools/cmd/cli"
	"sigs.k8s.io/instrumentation-tools/cmd/metrics"
	"sigs.k8s.io/instrumentation-tools/promq/term"
	"sigs.k8s.io/instrumentation-tools/promq/term/plot"

	"verif.local/harness/kit"
)

const windowEnv = "KIT_SESSION_WINDOW"

// TestMain makes this binary the metrics command over a window of any length when asked to: promq
// itself has one of a minute.
func TestMain(m *testing.M) {
	if w := os.Getenv(windowEnv); w != "" {
		var window, period int64
		var flags cli.PromQFlags
		var url string
		if _, err := fmt.Sscanf(w, "%d %d %s", &window, &period, &url); err != nil {
			panic(err)
		}
		flags.Continuous, flags.HostNames, flags.PromQuery = true, []string{url}, os.Getenv(windowEnv+"_QUERY")
		c := metrics.MetricsCommand{
			PromQCommand: cli.PromQCommand{
				RestConfig: &rest.Config{Host: "http://127.0.0.1:1"},
				Streams:    genericclioptions.IOStreams{In: os.Stdin, Out: os.Stdout, ErrOut: os.Stderr},
			},
			Window: time.Duration(window) * time.Millisecond,
			Period: time.Duration(period) * time.Millisecond,
		}
		if err := c.Run(flags); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		os.Exit(0)
	}
	os.Exit(m.Run())
}

// Seen is a sample, so many scrape periods before the session.
type Seen struct {
	Age int
	V   float64
}

type winSeries struct {
	A    string
	Seen []Seen // newest last
}

type winStep struct {
	Kind       string // resize, query, sample (then a query), wait
	Text       string
	Cols, Rows int
	V          float64
}

type winCase struct {
	Promq          bool // the real binary: a minute, every second
	Window, Period int64
	Cols, Rows     int
	Procs          int
	Series         []winSeries
	Query          string
	Backwards      bool // the newest sample is served first
	Steps          []winStep
}

// winQueries keep the samples' times and do not depend on how often one was scraped.
var winQueries = []struct {
	q string
	f func(float64) float64
}{
	{"m", func(v float64) float64 { return v }},
	{"-m", func(v float64) float64 { return -v }},
	{`m{a!="nothing"}`, func(v float64) float64 { return v }},
	{"m * 2", func(v float64) float64 { return v * 2 }},
	{"m + 0.5", func(v float64) float64 { return v + 0.5 }},
	{"100 - m", func(v float64) float64 { return 100 - v }},
	{"abs(m)", math.Abs},
	{"m / 1000", func(v float64) float64 { return v / 1000 }},
}

const lookback = 300_000

func genWindow(t *rapid.T) winCase {
	c := winCase{Procs: rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "procs")}
	const sec, minute, hour, day = 1000, 60_000, 3600_000, 86400_000
	pick := func(unit int64, lo, hi int) int64 { return unit * int64(rapid.IntRange(lo, hi).Draw(t, "window")) }
	unit := 0 // IntRange prefers small numbers
	for _, b := range rapid.SliceOfN(rapid.Bool(), 7, 7).Draw(t, "unit") {
		unit *= 2
		if b {
			unit++
		}
	}
	switch unit % 10 {
	case 0:
		c.Promq, c.Window, c.Period = true, minute, sec
	case 2:
		c.Window, c.Period = pick(sec, 3, 59), rapid.SampledFrom([]int64{100, 200, 500}).Draw(t, "period")
	case 3:
		c.Window, c.Period = rapid.SampledFrom([]int64{minute, minute + sec, minute - 500, hour - sec}).Draw(t, "edge"), 500
	case 1, 4:
		c.Window, c.Period = pick(minute, 1, 59), rapid.SampledFrom([]int64{500, 1000}).Draw(t, "period")
	case 5:
		c.Window, c.Period = pick(hour, 1, 23), sec
	case 6:
		c.Window, c.Period = rapid.SampledFrom([]int64{day, hour, 10 * day, hour + minute, day - sec, 10*day - sec}).Draw(t, "edge"), 2*sec
	case 7:
		c.Window, c.Period = pick(day, 1, 9), 2*sec
	default:
		c.Window, c.Period = pick(day, 10, 40), 5*sec
	}
	size := func() (int, int) {
		least := 22
		if c.Window < minute {
			least = 34 // these labels are long, and written downwards
		}
		return rapid.IntRange(60, 160).Draw(t, "cols"), rapid.IntRange(least, 50).Draw(t, "rows")
	}
	c.Cols, c.Rows = size()
	steps := int(c.Window / c.Period)
	recent := min(steps*2/3, int(lookback/2/c.Period))
	value := rapid.OneOf(rapid.Map(rapid.IntRange(-20, 100), func(i int) float64 { return float64(i) }), rapid.Map(rapid.IntRange(-99999, 999999), func(i int) float64 { return float64(i) / 8 }))
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "series"); i < n; i++ {
		s := winSeries{A: string(rune('p' + 2*i))}
		ages := map[int]bool{}
		if i == 0 {
			ages[rapid.IntRange(0, recent).Draw(t, "age")] = true
		}
		for k := rapid.IntRange(1, 7).Draw(t, "samples"); k > 0; k-- {
			switch rapid.SampledFrom([]int{0, 1, 2, 3, 4}).Draw(t, "where") {
			case 0: // about where the window starts
				ages[max(0, steps+rapid.IntRange(-40, 5).Draw(t, "edge"))] = true
			case 1:
				ages[rapid.IntRange(0, steps+steps/10).Draw(t, "age")] = true
			default:
				ages[int(float64(steps)*rapid.Float64Range(0, 1.05).Draw(t, "part"))] = true
			}
		}
		for a := range ages {
			s.Seen = append(s.Seen, Seen{Age: a})
		}
		sort.Slice(s.Seen, func(i, j int) bool { return s.Seen[i].Age > s.Seen[j].Age })
		for k := range s.Seen {
			s.Seen[k].V = value.Draw(t, "v")
		}
		c.Series = append(c.Series, s)
	}
	query := func() string {
		n := len(winQueries)
		if steps > 8000 {
			n = 3 // the others take Prometheus too long, and a query may take a period at most
		}
		return winQueries[rapid.IntRange(0, n-1).Draw(t, "query")].q
	}
	c.Backwards = rapid.Bool().Draw(t, "backwards")
	c.Query = query()
	if c.Window <= minute && rapid.Bool().Draw(t, "wait") {
		wait := rapid.IntRange(20, 50).Draw(t, "deciseconds")
		c.Steps = append(c.Steps, winStep{Kind: "wait", Cols: wait})
		// the first series starts with the highest or lowest of all, which leaves the window meanwhile
		s := &c.Series[0]
		a := steps - int((2500+int64(rapid.IntRange(0, wait*70).Draw(t, "leaves")))/c.Period)
		if a > 3 {
			for len(s.Seen) > 0 && s.Seen[0].Age >= a-2 {
				s.Seen = s.Seen[1:]
			}
			v := rapid.SampledFrom([]float64{1e6, -1e6, 250000}).Draw(t, "extreme")
			s.Seen = append([]Seen{{a, v}, {a - 1, value.Draw(t, "v")}}, s.Seen...)
		}
	}
	for n := rapid.IntRange(0, 2).Draw(t, "steps"); n > 0; n-- {
		switch k := rapid.SampledFrom([]string{"resize", "query", "sample"}).Draw(t, "kind"); k {
		case "resize":
			s := winStep{Kind: k}
			s.Cols, s.Rows = size()
			c.Steps = append(c.Steps, s)
		default:
			c.Steps = append(c.Steps, winStep{Kind: k, Text: query(), V: value.Draw(t, "v")})
		}
	}
	return c
}

type stamped struct {
	ts int64
	v  float64
}

type docEndpoint struct {
	mu  sync.Mutex
	doc string
}

func (e *docEndpoint) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	e.mu.Lock()
	defer e.mu.Unlock()
	fmt.Fprint(w, e.doc)
}

type winPoint stamped

func (p winPoint) X() int64   { return p.ts }
func (p winPoint) Y() float64 { return p.v }

type winCurve struct {
	id  plot.SeriesId
	pts []plot.Point
}

func (s *winCurve) Title() string        { return "" }
func (s *winCurve) Id() plot.SeriesId    { return s.id }
func (s *winCurve) Points() []plot.Point { return s.pts }

// curves is the range query's answer at a moment, by the definition: at each step the newest sample,
// unless it is older than five minutes.
func curves(c winCase, data map[string][]stamped, f func(float64) float64, now int64) (out plot.SeriesSet) {
	start := now - c.Window
	for i, s := range c.Series {
		cv := &winCurve{id: plot.SeriesId(i + 1)}
		d := data[s.A]
		for k, p := range d {
			until := p.ts + lookback
			if k+1 < len(d) {
				until = min(until, d[k+1].ts-1)
			}
			until = min(until, now)
			first := int64(0)
			if p.ts > start {
				first = (p.ts - start + c.Period - 1) / c.Period
			}
			for t := start + first*c.Period; t <= until; t += c.Period {
				cv.pts = append(cv.pts, winPoint{t, f(p.v)})
			}
		}
		if len(cv.pts) > 0 {
			out = append(out, cv)
		}
	}
	return out
}

func timeLabel(window int64) func(int64) string {
	return func(ms int64) string {
		t := time.Unix(ms/1000, 0).UTC()
		switch {
		case window < 60_000:
			return fmt.Sprintf("%dms", ms)
		case window < 3600_000:
			return fmt.Sprintf("%02d:%02d", t.Minute(), t.Second())
		case window < 24*3600_000:
			return fmt.Sprintf("%02d:%02d", t.Hour(), t.Minute())
		case window < 10*24*3600_000:
			return fmt.Sprintf("%2d %02dh", t.Day(), t.Hour())
		}
		return fmt.Sprintf("%s %2d", t.Month().String()[:3], t.Day())
	}
}

// TestC37: the chart is the picture of the window.
func TestC37(t *testing.T) {
	dir, _ := os.MkdirTemp("", "verif-window")
	kit.Run(t, kit.Spec[winCase]{
		ID: "C37",
		Rule: "a session of promq -c, or of the metrics command over a window of 3 s to 40 days with a period of 0.1 to 5 s, in a terminal of its own; the endpoint serves samples with times of their own spread over the window and before it, and later ones; queries, other queries and resizes; the graph must become, cell for cell, the drawing of the answer at some moment of the last periods; " +
			"non-trivial: the answer has samples at two times or more",
		Gen:      genWindow,
		Check:    func(r *kit.R, c winCase) { checkWindow(r, c, dir) },
		Setup:    needTerminals,
		Teardown: func() { os.RemoveAll(dir) },
		Hang:     300 * time.Second,
		Batch:    2,
		Flaky:    true,
		Repeat:   1,
	})
}

func checkWindow(r *kit.R, c winCase, dir string) {
	e := &docEndpoint{}
	srv := httptest.NewServer(e)
	defer srv.Close()
	url := srv.URL + "/m"
	t0 := time.Now().UnixMilli()
	data := map[string][]stamped{}
	serve := func() {
		doc := ""
		for _, s := range c.Series {
			for _, p := range data[s.A] {
				line := fmt.Sprintf("m{a=%q} %v %d\n", s.A, p.v, p.ts)
				if c.Backwards {
					doc = line + doc
				} else {
					doc += line
				}
			}
		}
		e.mu.Lock()
		e.doc = doc
		e.mu.Unlock()
	}
	times := map[int64]bool{}
	for _, s := range c.Series {
		for _, x := range s.Seen {
			data[s.A] = append(data[s.A], stamped{t0 - int64(x.Age)*c.Period, x.V})
			if int64(x.Age)*c.Period < c.Window {
				times[int64(x.Age)] = true
			}
		}
	}
	serve()
	env := environment(dir, c.Procs)
	bin, args := os.Getenv("KIT_PROMQ"), []string{"-c", "-t", url, "-q", c.Query}
	if !c.Promq {
		bin, _ = os.Executable()
		args = nil
		env = append(env, fmt.Sprintf("%s=%d %d %s", windowEnv, c.Window, c.Period, url), windowEnv+"_QUERY="+c.Query)
	}
	s, err := start(bin, env, args, c.Cols, c.Rows)
	if err != nil {
		panic(err)
	}
	defer s.close()
	cols, rows := c.Cols, c.Rows
	label := timeLabel(c.Window)
	asked := time.Now().UnixMilli()
	// drawn waits for the graph to be the picture of a moment after since, on a range that holds least,
	// and gives the moment and what of the range is certain.
	drawn := func(what, query string, since int64, least [2]float64) (int64, [2]float64) {
		sure := [2]float64{math.Inf(-1), math.Inf(1)}
		var moment int64
		var f func(float64) float64
		for _, q := range winQueries {
			if q.q == query {
				f = q.f
			}
		}
		title := len("p, ") + len(url)
		if strings.HasPrefix(query, "m{") || query == "m" {
			title += len("m, ")
		}
		width := min(title+3, cols*20/100)
		height := rows - dockRows
		screen := tcell.NewSimulationScreen("UTF-8")
		if err := screen.Init(); err != nil {
			panic(err)
		}
		defer screen.Fini()
		screen.SetSize(cols, height)
		var why, got string
		ok := false
		for end := time.Now().Add(patience + 4*time.Duration(c.Period)*time.Millisecond); !ok && time.Now().Before(end); time.Sleep(120 * time.Millisecond) {
			select {
			case <-s.ended:
				r.Failf("died", "%s: the program ended with %v, having written\n%s", what, s.err, s.lastWords())
			default:
			}
			s.mu.Lock()
			now := time.Now().UnixMilli()
			var shown [][]cell
			for y := 0; y < height; y++ {
				shown = append(shown, append([]cell(nil), s.cells[y][width:]...))
			}
			got = s.vt.String()
			s.mu.Unlock()
			// the labels of the time axis, which are written downwards
			labels := map[string]bool{}
			bottom := -1
			for y := range shown {
				for _, c := range shown[y] {
					if c.rn == '┗' {
						bottom = y
					}
				}
			}
			for x := range shown[0] {
				down := ""
				for y := bottom + 1; bottom >= 0 && y < height; y++ {
					down += string(shown[y][x].rn)
				}
				if down = bare(down); down != "" {
					labels[down] = true
				}
			}
			if len(labels) == 0 {
				why = "the time axis has no labels"
				continue
			}
			step := int64(10)
			if c.Window < 60_000 {
				step = 1
			} else if c.Window >= 3600_000 {
				step = 50
			}
			// the ranges that may have been kept since the query was set
			var kept []plot.PlatonicAxes
			for at := asked - c.Period; at <= now+c.Period; at += max(c.Period/4, 50) {
				kept = append(kept, plot.DataToPlatonicGraph(curves(c, data, f, min(at, now)), plot.AutoAxes()).PlatonicAxes)
			}
			hulls := map[[2]float64]bool{}
			lo, hi := math.Inf(1), math.Inf(-1)
			for k := len(kept) - 1; k >= 0; k-- {
				lo, hi = math.Min(lo, kept[k].RangeMin), math.Max(hi, kept[k].RangeMax)
				hulls[[2]float64{lo, hi}] = true
			}
			tried := 0
			why = ""
			for at := now; at > max(now-2*c.Period-2000, since) && !ok; at -= step {
				set := curves(c, data, f, at)
				if len(set) == 0 {
					continue
				}
				auto := plot.DataToPlatonicGraph(set, plot.AutoAxes())
				if first := label(auto.DomainMin); !labels[bare(first)] {
					if why == "" || tried == 0 && len(why) < 200 {
						why = fmt.Sprintf("no tick of the time axis is labelled like %q, which would be the first at %d", first, at)
					}
					continue
				}
				for h := range hulls {
					a := plot.AutoAxes()
					a.RangeMin, a.RangeMax = math.Min(h[0], least[0]), math.Max(h[1], least[1])
					g := plot.DataToPlatonicGraph(set, a)
					tried++
					if bad := differs(screen, g, label, shown, cols, height, width); bad == "" {
						ok, moment = true, at
						sure = [2]float64{math.Max(sure[0], g.RangeMin), math.Min(sure[1], g.RangeMax)}
					} else {
						why = bad
					}
				}
			}
		}
		if !ok {
			r.Failf("picture", "%s: the graph of %s over %v every %v is not that of any recent moment: %s\nthe screen is\n%s", what, query,
				time.Duration(c.Window)*time.Millisecond, time.Duration(c.Period)*time.Millisecond, why, got)
		}
		if len(times) > 1 {
			r.NonTrivial()
		}
		return moment, sure
	}
	free := [2]float64{math.Inf(1), math.Inf(-1)}
	switch {
	case c.Promq:
		r.Tag("promq")
	case c.Window < 60_000:
		r.Tag("window below a minute")
	case c.Window < 3600_000:
		r.Tag("window of minutes")
	case c.Window < 24*3600_000:
		r.Tag("window of hours")
	case c.Window < 240*3600_000:
		r.Tag("window of days")
	default:
		r.Tag("window of weeks")
	}
	drawn("at the start", c.Query, 0, free)
	last := c.Query
	for i, st := range c.Steps {
		what := fmt.Sprintf("after step %d (%s %s)", i, st.Kind, st.Text)
		r.Tag(st.Kind)
		switch st.Kind {
		case "wait":
			// the first answer to a query does not determine the range, the next one does
			at, _ := drawn(what, last, 0, free)
			at, kept := drawn(what, last, at+c.Period/2, free)
			time.Sleep(time.Duration(st.Cols) * 100 * time.Millisecond)
			drawn(what, last, at, kept)
			continue
		case "resize":
			s.vt.resize(st.Cols, st.Rows)
			cols, rows = st.Cols, st.Rows
			if err := s.setSize(cols, rows); err != nil {
				panic(err)
			}
		default:
			if st.Text == last {
				continue
			}
			if st.Kind == "sample" {
				// as new as possible, on the steps of the others
				name := c.Series[len(c.Series)-1].A
				d := data[name]
				ts := t0 + (time.Now().UnixMilli()-t0)/c.Period*c.Period
				if len(d) == 0 || d[len(d)-1].ts < ts {
					data[name] = append(d, stamped{ts, st.V})
					serve()
				}
			}
			time.Sleep(100 * time.Millisecond) // go-prompt loses what is typed right after Enter
			asked = time.Now().UnixMilli()
			s.typed(st.Text + "\r")
			last = st.Text
		}
		drawn(what, last, 0, free)
	}
	s.typed(":q\r")
	select {
	case <-s.ended:
	case <-time.After(patience):
		r.Failf("stuck", "promq did not end")
	}
	if code := s.cmd.ProcessState.ExitCode(); code != 0 {
		r.Failf("exit", "promq ended with %d", code)
	}
	runtime.KeepAlive(e)
}

// differs compares what is shown with the drawing of a graph.
func differs(screen tcell.SimulationScreen, g *plot.PlatonicGraph, label func(int64) string, shown [][]cell, cols, height, width int) string {
	screen.Clear()
	v := &term.GraphView{Graph: g, RangeLabeler: func(v float64) string { return fmt.Sprintf("%5.5g", v) }, DomainLabeler: label}
	v.SetBox(term.PositionBox{StartCol: width, Cols: cols - width, Rows: height})
	v.FlushTo(screen)
	colour := map[tcell.Color]int{}
	for y := 0; y < height; y++ {
		for x := range shown[y] {
			rn, _, sty, _ := screen.GetContent(x+width, y)
			fg, _, _ := sty.Decompose()
			if rn == 0 {
				rn = ' '
			}
			c := shown[y][x]
			if c.rn == 0 {
				c.rn = ' '
			}
			if c.rn != rn {
				return fmt.Sprintf("at row %d, column %d there is %q, not %q", y, x+width, c.rn, rn)
			}
			if fg == tcell.ColorDefault {
				if c.fg >= 0 {
					return fmt.Sprintf("%q at row %d, column %d is coloured", c.rn, y, x+width)
				}
				continue
			}
			if rn == ' ' {
				continue // a blank shows no colour
			}
			if old, ok := colour[fg]; ok && old != c.fg || c.fg < 0 {
				return fmt.Sprintf("%q at row %d, column %d is in colour %d, unlike the rest of its series (%d)", c.rn, y, x+width, c.fg, old)
			}
			colour[fg] = c.fg
		}
	}
	return ""
}

// bare drops blanks and cells never written.
func bare(s string) string {
	return strings.NewReplacer(" ", "", "\x00", "").Replace(s)
}
