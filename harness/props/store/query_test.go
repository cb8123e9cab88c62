package store

import (
	"context"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"
	"github.com/prometheus/prometheus/promql/parser"
	"pgregory.net/rapid"

	"sigs.k8s.io/instrumentation-tools/promq/prom"
	"verif.local/harness/kit"
	"verif.local/harness/oracle"
	"verif.local/harness/promqlgen"
)

var vocab = promqlgen.Vocab{
	Metrics: []string{"m1", "m2", "up", "nosuch"},
	Labels:  []string{"a", "b", "job"},
	Values:  []string{"x", "y", "z", ""},
	Regexps: []string{".*", ".+", "x|y", "", "[^x]*", "y?", "[xy]", "x"},
}

type queryCase struct {
	Ops   []Op
	Q     []string
	At    int64 // instant evaluation, ms
	Start int64
	Step  int64
	N     int64
}

// value is a query result, keyed by label set.
type value map[string][]oracle.Pt

func toValue(res *promql.Result) (value, string) {
	out := value{}
	switch v := res.Value.(type) {
	case promql.Vector:
		for _, s := range v {
			out[oracle.Key(s.Metric.Map())] = append(out[oracle.Key(s.Metric.Map())], oracle.Pt{T: s.T, V: s.V})
		}
		return out, "vector"
	case promql.Matrix:
		for _, s := range v {
			k := oracle.Key(s.Metric.Map())
			for _, p := range s.Points {
				out[k] = append(out[k], oracle.Pt{T: p.T, V: p.V})
			}
		}
		return out, "matrix"
	case promql.Scalar:
		out[""] = []oracle.Pt{{T: v.T, V: v.V}}
		return out, "scalar"
	case promql.String:
		return value{v.V: nil}, "string"
	}
	return nil, fmt.Sprintf("%T", res.Value)
}

func (v value) String() string {
	var ks []string
	for k := range v {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		sb.WriteString(" {" + showKey(k) + "}:" + pts(v[k]))
	}
	return sb.String()
}

// sameValue compares results; slack is how far evaluation times may differ.
func sameValue(a, b value, slack int64) bool {
	if len(a) != len(b) {
		return false
	}
	for k, p := range a {
		q, ok := b[k]
		if !ok || len(p) != len(q) {
			return false
		}
		for i := range p {
			if d := p[i].T - q[i].T; d > slack || d < -slack {
				return false
			}
			if !kit.CloseFloat(p[i].V, q[i].V) {
				return false
			}
		}
	}
	return true
}

// TestC04: queries over the store.
func TestC04(t *testing.T) {
	var engine *promql.Engine
	kit.Run(t, kit.Spec[queryCase]{
		ID:   "C04",
		Hang: 15e9,
		Rule: "Load histories (1-4 loads of up to 20 samples over 1-8 series, times in any order over 25 min, optional retention cut) and 1-3 generated well-typed PromQL queries " +
			"(selectors with all matcher kinds, aggregations, range functions, subqueries, vector matching), evaluated as instant and range queries by the same engine over the store and over a naive reference storage; " +
			"non-trivial: the result has at least one sample and the query reads the store.",
		Setup: func() { engine = promql.NewEngine(prom.DefaultEngineOptions(time.Minute, 5000000)) },
		Gen: func(t *rapid.T) queryCase {
			var c queryCase
			var pool []map[string]string
			seen := map[string]bool{}
			for i, n := 0, rapid.IntRange(1, 8).Draw(t, "series"); i < n; i++ {
				m := map[string]string{"__name__": rapid.SampledFrom(vocab.Metrics[:3]).Draw(t, "name")}
				for j, k := 0, rapid.IntRange(0, 3).Draw(t, "nl"); j < k; j++ {
					m[rapid.SampledFrom(vocab.Labels).Draw(t, "l")] = rapid.SampledFrom(vocab.Values[:3]).Draw(t, "v")
				}
				if !seen[oracle.Key(m)] {
					seen[oracle.Key(m)] = true
					pool = append(pool, m)
				}
			}
			wide := 0
			if rapid.IntRange(0, 99).Draw(t, "wide") == 57 {
				wide = rapid.IntRange(20, 300).Draw(t, "more series")
			}
			for i := 0; i < wide; i++ {
				pool = append(pool, map[string]string{"__name__": vocab.Metrics[i%3], "n": fmt.Sprint(i), "a": vocab.Values[i%2]})
			}
			jitter := rapid.IntRange(0, 3).Draw(t, "jitter") == 2
			special := rapid.IntRange(0, 9).Draw(t, "special") == 6
			for i, n := 0, rapid.IntRange(1, 4).Draw(t, "ops"); i < n; i++ {
				var l []Smp
				for j, k := 0, rapid.IntRange(1, 20).Draw(t, "n")+wide; j < k; j++ {
					s := j
					if j >= len(pool) || wide == 0 {
						s = rapid.IntRange(0, len(pool)-1).Draw(t, "s")
					}
					x := Smp{
						L: pool[s],
						T: rapid.Int64Range(0, 100).Draw(t, "T") * 15000,
						V: kit.F(rapid.IntRange(-20, 200).Draw(t, "V")),
					}
					if jitter {
						x.T += rapid.Int64Range(-1, 2000).Draw(t, "off")
					}
					if special && rapid.Bool().Draw(t, "odd") {
						x.V = kit.F(rapid.SampledFrom([]float64{math.NaN(), math.Inf(1), math.Inf(-1), 1e300, 0.1, -0.0, math.SmallestNonzeroFloat64}).Draw(t, "V"))
					}
					l = append(l, x)
				}
				c.Ops = append(c.Ops, Op{Load: l})
				if rapid.IntRange(0, 5).Draw(t, "clean") == 0 {
					cut := rapid.Int64Range(0, 60).Draw(t, "cut") * 15000
					c.Ops = append(c.Ops, Op{Clean: &cut})
				}
			}
			for i, n := 0, rapid.IntRange(1, 3).Draw(t, "nq"); i < n; i++ {
				if rapid.IntRange(0, 5).Draw(t, "selection") == 4 {
					c.Q = append(c.Q, promqlgen.Selection(t, vocab))
					continue
				}
				c.Q = append(c.Q, promqlgen.Query(t, vocab))
			}
			c.At = rapid.Int64Range(0, 120).Draw(t, "at") * 15000
			c.Start = rapid.Int64Range(0, 100).Draw(t, "start") * 15000
			c.Step = rapid.SampledFrom([]int64{15000, 60000, 7000, 300000}).Draw(t, "step")
			c.N = rapid.Int64Range(0, 12).Draw(t, "steps")
			return c
		},
		Check: func(r *kit.R, c queryCase) {
			st, model := prom.NewRangeStorage(), &oracle.Store{}
			apply(r, st, model, c.Ops)
			ctx := context.Background()
			for _, qs := range c.Q {
				if _, err := parser.ParseExpr(qs); err != nil {
					r.Tag("generated query does not parse")
					continue
				}
				reads := strings.ContainsAny(qs, "mu{")
				run := func(s queryable, rng bool) (value, string, error) {
					var q promql.Query
					var err error
					if rng {
						end := c.Start + c.N*c.Step
						q, err = engine.NewRangeQuery(s, qs, time.UnixMilli(c.Start), time.UnixMilli(end), time.Duration(c.Step)*time.Millisecond)
					} else {
						q, err = engine.NewInstantQuery(s, qs, time.UnixMilli(c.At))
					}
					if err != nil {
						return nil, "", err
					}
					defer q.Close()
					res := q.Exec(ctx)
					if res.Err != nil {
						return nil, "", res.Err
					}
					v, k := toValue(res)
					return v, k, nil
				}
				for _, rng := range []bool{false, true} {
					hv, hk, herr := run(st, rng)
					wv, wk, werr := run(model, rng)
					if (herr == nil) != (werr == nil) {
						r.Failf("query-error", "%q (range %v): over the store: error %v; over the reference: error %v", qs, rng, herr, werr)
					}
					if herr != nil {
						r.Tag("query fails on both")
						continue
					}
					if hk != wk || !sameValue(hv, wv, 0) {
						r.Failf("query-result", "%q (range %v):\n store:     %s %v\n reference: %s %v", qs, rng, hk, hv, wk, wv)
					}
					if len(hv) > 0 && reads {
						r.NonTrivial()
						r.Tag(hk + " result")
					} else {
						r.Tag("empty result")
					}
				}
			}
		},
	})
}

// Act is a step in the life of a periodic query.
type Act struct {
	Scrape []Ago  `json:",omitempty"`
	Err    bool   `json:",omitempty"` // the source fails (after returning data)
	CbErr  bool   `json:",omitempty"` // the consumer fails
	Query  string `json:",omitempty"` // set this query
	Set    bool   `json:",omitempty"`
	Manual bool   `json:",omitempty"` // ask for an evaluation
	During string `json:",omitempty"` // set this query while the source is being asked
}

// Ago is a sample some seconds before the present.
type Ago struct {
	L   map[string]string
	Ago int64 // seconds
	V   kit.F
	Now bool `json:",omitempty"` // has no time of its own: it is of the scrape
}

type lifeCase struct {
	Instant  bool
	Window   int // minutes, 0 stands for 10
	Interval int // minutes, 0 stands for 1
	Acts     []Act
}

func (c lifeCase) times() prom.Range {
	w := prom.Range{Window: 10 * time.Minute, Interval: time.Minute, Instant: c.Instant}
	if c.Interval > 0 {
		w.Window, w.Interval = time.Duration(c.Window)*time.Minute, time.Duration(c.Interval)*time.Minute
	}
	return w
}

func genGood(t *rapid.T) string {
	q := genShort(t)
	if rapid.IntRange(0, 7).Draw(t, "lengthen") == 3 {
		n := rapid.IntRange(1, 300).Draw(t, "long")
		q = strings.Repeat("(", n) + q + strings.Repeat(rapid.SampledFrom([]string{")", " )", "\n)"}).Draw(t, "pad"), n)
	}
	return q
}

func genShort(t *rapid.T) string {
	if rapid.IntRange(0, 2).Draw(t, "selection") == 1 {
		return promqlgen.Selection(t, vocab)
	}
	return rapid.SampledFrom(goodQueries).Draw(t, "good")
}

var goodQueries = []string{"m1", "sum(m1)", `{__name__=~".+"}`, `m1{a="x"}`, `m1{a!="x"}`, "count by (a) (m1)", "max_over_time(m2[10m])",
	"m1 + on(a) m2", "m1 or up", "1 + 1", "sum without (a) (m2)", "count_over_time(m1[3m])", "m2 offset 5m", "m1 > 5"}

// accepted, but their evaluation fails for some data
var failingQueries = []string{"m1 + on() m2", "m2 * on(b) group_left m1", `label_replace(m1, "__name__", "up", "", "")`, `m1 and on() up + on() m1`, "sum by (a) (m1 / on() m2)"}
var badQueries = []string{"", "sum(", "m1{", "m1[5m", "foo bar", "sum by a (m1)", "1 +", "rate(m1)", "m1{a=~\"(\"}", "{}"}

type source struct {
	mu    sync.Mutex
	data  []prom.ParsedSeries
	err   error
	calls int
	at    time.Time
	live  map[int]bool
	// during is called while the source is being asked
	during func()
}

func (s *source) ScrapePrometheusEndpoint(ctx context.Context, nowish time.Time) ([]prom.ParsedSeries, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.calls++
	s.at = nowish
	if s.during != nil {
		s.during()
	}
	for i := range s.data {
		if s.live[i] {
			s.data[i].Timestamp = prom.PromTimestamp(nowish)
		}
	}
	return s.data, s.err
}

func genLife(t *rapid.T) lifeCase {
	c := lifeCase{Instant: rapid.Bool().Draw(t, "instant")}
	if rapid.Bool().Draw(t, "times") {
		c.Window = rapid.SampledFrom([]int{0, 1, 7, 10, 30, 60, 120, 1440, 14400}).Draw(t, "window")
		c.Interval = rapid.SampledFrom([]int{1, 2, 5, 7, 10, 20, 60}).Draw(t, "interval")
	}
	for i, n := 0, rapid.IntRange(1, 10).Draw(t, "acts"); i < n; i++ {
		switch k := rapid.IntRange(0, 9).Draw(t, "k"); {
		case k < 4 && i > 0 || k == 9:
			a := Act{Err: rapid.IntRange(0, 4).Draw(t, "err") == 0, CbErr: rapid.IntRange(0, 6).Draw(t, "cberr") == 0}
			a.Scrape = []Ago{}
			for j, m := 0, rapid.IntRange(0, 6).Draw(t, "n"); j < m; j++ {
				l := map[string]string{"__name__": rapid.SampledFrom([]string{"m1", "m2", "up"}).Draw(t, "name")}
				if rapid.Bool().Draw(t, "la") {
					l["a"] = rapid.SampledFrom([]string{"x", "y"}).Draw(t, "a")
				}
				if rapid.IntRange(0, 2).Draw(t, "lb") == 1 {
					l["b"] = rapid.SampledFrom([]string{"x", "z"}).Draw(t, "b")
				}
				// half a minute off every evaluation and lookback boundary
				ago := rapid.Int64Range(0, 24).Draw(t, "ago")*60 + 30
				if c.Window > 60 && rapid.Bool().Draw(t, "long ago") {
					ago = 60*int64(max(0, c.Window-rapid.SampledFrom([]int{0, 1, 3, 5, 6, 10, 20, 30, 50, 70, -1, -4, -5}).Draw(t, "from the start"))) + 30
				}
				if rapid.IntRange(0, 12).Draw(t, "future") == 0 {
					ago = -3630
				}
				a.Scrape = append(a.Scrape, Ago{L: l, Ago: ago, V: kit.F(rapid.IntRange(-5, 50).Draw(t, "V")), Now: rapid.IntRange(0, 3).Draw(t, "now") == 2})
			}
			if rapid.IntRange(0, 4).Draw(t, "during") == 0 {
				a.During = genGood(t)
			}
			c.Acts = append(c.Acts, a)
		case k == 6 && rapid.Bool().Draw(t, "failing"):
			c.Acts = append(c.Acts, Act{Set: true, Query: rapid.SampledFrom(failingQueries).Draw(t, "failingq")})
		case k < 7:
			c.Acts = append(c.Acts, Act{Set: true, Query: genGood(t)})
		case k == 7:
			c.Acts = append(c.Acts, Act{Set: true, Query: rapid.SampledFrom(badQueries).Draw(t, "bad")})
		default:
			c.Acts = append(c.Acts, Act{Manual: true})
		}
	}
	return c
}

// TestC07: the life of a periodic query.
func TestC07(t *testing.T) {
	var ref *promql.Engine
	kit.Run(t, kit.Spec[lifeCase]{
		ID:   "C07",
		Hang: 15e9,
		Rule: "Histories of 1-10 steps: scrapes that succeed, fail at the source (with stray data) or whose consumer fails; valid and invalid query changes, also while the source is being asked; queries whose evaluation fails; evaluations on demand; instant and range mode with windows up to an hour. " +
			"Each delivery is compared with the current query evaluated over everything ingested so far, and the index with everything observed; non-trivial: a delivery with samples after a failed step.",
		Setup: func() { ref = promql.NewEngine(prom.DefaultEngineOptions(time.Minute, 5000000)) },
		Gen:   genLife,
		Check: func(r *kit.R, c lifeCase) {
			base := time.Now()
			src := &source{}
			pd := prom.NewPeriodicData(src, prom.DefaultEngineOptions(time.Minute, 5000000))
			pd.Times = c.times()
			model := &oracle.Store{}
			index := map[string]map[string]map[string]bool{}
			query, failedBefore := "", false
			ctx := context.Background()
			boom := errors.New("boom")

			for i, a := range c.Acts {
				if time.Since(base) > 10*time.Second {
					r.Tag("too slow to judge")
					return
				}
				var seen []value
				var kinds []string
				var resErr error
				cb := func(cbErr bool) prom.ResultsCallback {
					return func(res *promql.Result) error {
						if res.Err != nil {
							resErr = res.Err
							seen, kinds = append(seen, nil), append(kinds, "error")
							if cbErr {
								return boom
							}
							return nil
						}
						v, k := toValue(res)
						seen, kinds = append(seen, v), append(kinds, k)
						if cbErr {
							return boom
						}
						return nil
					}
				}
				judge := func() {
					wv, wk, werr := evalNow(ctx, ref, model, query, c.times())
					if len(seen) != 1 {
						r.Failf("delivery", "step %d: %d deliveries, want 1 (the evaluation over the reference: %v)", i, len(seen), werr)
					}
					if werr != nil {
						r.Tag("evaluation fails")
						failedBefore = true
						if resErr == nil {
							r.Failf("delivery", "step %d: evaluating %q should fail: %v", i, query, werr)
						}
						return
					}
					if resErr != nil {
						r.Failf("delivery", "step %d: evaluating %q failed: %v", i, query, resErr)
					}
					if kinds[0] != wk || !sameValue(seen[0], wv, 20000) {
						r.Failf("delivery", "step %d: delivery for %q (%+v):\n have %s %v\n want %s %v", i, query, c.times(), kinds[0], seen[0], wk, wv)
					}
					if len(wv) > 0 && failedBefore {
						r.NonTrivial()
					}
				}
				switch {
				case a.Set:
					err := pd.SetQuery(ctx, a.Query)
					_, perr := parser.ParseExpr(a.Query)
					if (err == nil) != (perr == nil) {
						r.Failf("set-query", "step %d: SetQuery(%q): %v, want %v", i, a.Query, err, perr)
					}
					if err == nil {
						query = a.Query
					} else {
						failedBefore = true
						r.Tag("query refused")
					}
				case a.Manual:
					err := pd.ManuallyExecuteQuery(ctx, cb(false))
					if query == "" {
						if err == nil {
							r.Failf("empty-query", "step %d: evaluation without a query succeeded", i)
						}
						continue
					}
					if err != nil {
						r.Failf("evaluate", "step %d: %q: %v", i, query, err)
					}
					judge()
				default:
					src.data, src.err, src.live = nil, nil, map[int]bool{}
					stamped := map[string]bool{}
					for i, s := range a.Scrape {
						// one sample of a series per moment: which of two counts is not settled
						if key := fmt.Sprint(s.L); s.Now && !stamped[key] {
							src.live[i], stamped[key] = true, true
						}
						src.data = append(src.data, prom.ParsedSeries{Labels: labels.FromMap(s.L), Timestamp: base.UnixMilli() - s.Ago*1000, Value: float64(s.V)})
					}
					if a.Err {
						src.err = boom
					}
					var late chan error
					blocked := false
					src.during = nil
					if a.During != "" {
						late = make(chan error, 1)
						src.during = func() {
							go func() { late <- pd.SetQuery(ctx, a.During) }()
							select {
							case err := <-late:
								late <- err
							case <-time.After(500 * time.Millisecond):
								blocked = true
							}
						}
					}
					pd.Callback = cb(a.CbErr)
					calls := src.calls
					time.Sleep(2 * time.Millisecond) // no two scrapes in a millisecond
					t0 := time.Now()
					if late != nil {
						query = a.During
					}
					err := pd.Scrape(ctx)
					if late != nil {
						select {
						case serr := <-late:
							if serr != nil {
								r.Failf("set-query", "step %d: SetQuery(%q): %v", i, a.During, serr)
							}
							r.Tag("query set during a scrape")
						case <-time.After(10 * time.Second):
							r.Failf("set-query", "step %d: SetQuery(%q), called during the scrape, has not returned 10 s after it", i, a.During)
						}
					}
					if blocked {
						r.Tag("query changes wait for the scrape")
						return
					}
					if src.calls != calls+1 {
						r.Failf("source", "step %d: the source was asked %d times", i, src.calls-calls)
					}
					if src.at.Before(t0.Add(-time.Second)) || src.at.After(time.Now().Add(time.Second)) {
						r.Failf("source", "step %d: the scrape time given to the source is %v, now %v", i, src.at, t0)
					}
					if a.Err {
						failedBefore = true
						r.Tag("source failed")
						if !errors.Is(err, boom) {
							r.Failf("source-error", "step %d: a failed scrape reported %v", i, err)
						}
						if len(seen) != 0 {
							r.Failf("source-error", "step %d: a failed scrape delivered results", i)
						}
						break
					}
					for i, s := range a.Scrape {
						at := base.UnixMilli() - s.Ago*1000
						if src.live[i] {
							at = src.at.UnixMilli()
							r.Tag("sample of the scrape's time")
						}
						model.Load(s.L, at, float64(s.V))
						n := s.L["__name__"]
						if index[n] == nil {
							index[n] = map[string]map[string]bool{}
						}
						for k, v := range s.L {
							if k == "__name__" {
								continue
							}
							if index[n][k] == nil {
								index[n][k] = map[string]bool{}
							}
							index[n][k][v] = true
						}
					}
					if query == "" {
						if err == nil {
							r.Failf("empty-query", "step %d: a scrape without a query succeeded", i)
						}
						failedBefore = true
						break
					}
					if a.CbErr {
						failedBefore = true
						r.Tag("consumer failed")
						if !errors.Is(err, boom) {
							r.Failf("consumer-error", "step %d: the consumer's error came back as %v", i, err)
						}
					} else if err != nil {
						r.Failf("scrape", "step %d: scrape with query %q: %v", i, query, err)
					}
					judge()
				}
				if pd.Query != query {
					r.Failf("current-query", "step %d: current query is %q, want %q", i, pd.Query, query)
				}
				checkIndex(r, pd.GetIndex(), index, false)
			}
		},
	})
}

func evalNow(ctx context.Context, e *promql.Engine, s queryable, qs string, w prom.Range) (value, string, error) {
	var q promql.Query
	var err error
	now := time.Now()
	if w.Instant {
		q, err = e.NewInstantQuery(s, qs, now)
	} else {
		q, err = e.NewRangeQuery(s, qs, now.Add(-w.Window), now, w.Interval)
	}
	if err != nil {
		return nil, "", err
	}
	defer q.Close()
	res := q.Exec(ctx)
	if res.Err != nil {
		return nil, "", res.Err
	}
	v, k := toValue(res)
	return v, k, nil
}

type raceCase struct {
	Instant bool
	Scrapes [][]Ago
	Queries []string
	Readers int
}

// TestC08: concurrent use. Built with the race detector.
func TestC08(t *testing.T) {
	kit.Run(t, kit.Spec[raceCase]{
		ID:    "C08",
		Trace: true,
		Flaky: true,
		Hang:  60e9,
		Batch: 20,
		Rule: "Concurrent use under the race detector: one goroutine scrapes generated batches (4-10), one changes the query through a generated list (with invalid ones), 1-3 read the index and walk what it returns, as the interactive command does; " +
			"deliveries must belong to a query that had been set by then, index reads must lie between what was and what will have been ingested, and the state afterwards must be the sequential one; non-trivial: a query change or an index read fell between the first and the last scrape.",
		Gen: func(t *rapid.T) raceCase {
			c := raceCase{Instant: rapid.Bool().Draw(t, "instant"), Readers: rapid.IntRange(1, 3).Draw(t, "readers")}
			for i, n := 0, rapid.IntRange(4, 10).Draw(t, "scrapes"); i < n; i++ {
				var b []Ago
				for j, m := 0, rapid.IntRange(1, 8).Draw(t, "n"); j < m; j++ {
					l := map[string]string{"__name__": rapid.SampledFrom([]string{"m1", "m2", "up", "m4"}).Draw(t, "name")}
					for x, y := 0, rapid.IntRange(0, 2).Draw(t, "nl"); x < y; x++ {
						l[rapid.SampledFrom([]string{"a", "b"}).Draw(t, "l")] = rapid.SampledFrom([]string{"p", "q", "r", "s"}).Draw(t, "v")
					}
					b = append(b, Ago{L: l, Ago: rapid.Int64Range(0, 8).Draw(t, "ago")*60 + 30, V: kit.F(rapid.IntRange(0, 9).Draw(t, "V"))})
				}
				c.Scrapes = append(c.Scrapes, b)
			}
			// each valid query has its own constant value, so a delivery tells which one it was for
			for i, n := 0, rapid.IntRange(2, 12).Draw(t, "queries"); i < n; i++ {
				if rapid.IntRange(0, 5).Draw(t, "bad") == 0 {
					c.Queries = append(c.Queries, rapid.SampledFrom(badQueries).Draw(t, "badq"))
				} else {
					c.Queries = append(c.Queries, fmt.Sprintf("vector(%d) + 0 * count({__name__=~\".+\"})", i+1))
				}
			}
			return c
		},
		Check: checkRace,
	})
}

func checkRace(r *kit.R, c raceCase) {
	base := time.Now()
	ctx := context.Background()
	src := &source{}
	pd := prom.NewPeriodicData(src, prom.DefaultEngineOptions(time.Minute, 5000000))
	pd.Times = prom.Range{Window: 10 * time.Minute, Interval: time.Minute, Instant: c.Instant}
	if err := pd.SetQuery(ctx, "vector(0) + 0 * count({__name__=~\".+\"})"); err != nil {
		r.Failf("set-query", "%v", err)
	}
	var mu sync.Mutex
	var started, done int // queries: SetQuery entered / returned (counted over c.Queries)
	var fails []string
	fail := func(f string, a ...any) {
		mu.Lock()
		defer mu.Unlock()
		fails = append(fails, fmt.Sprintf(f, a...))
	}
	validBefore := func(n int) int { // last valid query among the first n, 0 if none
		v := 0
		for i := 0; i < n && i < len(c.Queries); i++ {
			if strings.HasPrefix(c.Queries[i], "vector") {
				v = i + 1
			}
		}
		return v
	}
	lastSeen := -1
	deliveries := 0
	lowAt := 0
	pd.Callback = func(res *promql.Result) error {
		if res.Err != nil {
			return res.Err
		}
		mu.Lock()
		hi := started
		lo := lowAt
		mu.Unlock()
		v, _ := toValue(res)
		deliveries++
		for _, p := range v {
			if len(p) == 0 {
				continue
			}
			k := int(p[len(p)-1].V)
			lastSeen = k
			if k > hi || (k < validBefore(lo)) {
				fail("a delivery is for query %d, but queries %d..%d were current", k, validBefore(lo), hi)
			}
		}
		return nil
	}
	stop := make(chan struct{})
	gate := make(chan struct{})
	var wg, readers sync.WaitGroup
	finished := map[string]map[string]map[string]bool{}
	all := map[string]map[string]map[string]bool{}
	add := func(m map[string]map[string]map[string]bool, s Ago) {
		n := s.L["__name__"]
		if m[n] == nil {
			m[n] = map[string]map[string]bool{}
		}
		for k, v := range s.L {
			if k != "__name__" {
				if m[n][k] == nil {
					m[n][k] = map[string]bool{}
				}
				m[n][k][v] = true
			}
		}
	}
	for _, b := range c.Scrapes {
		for _, s := range b {
			add(all, s)
		}
	}
	reads := 0
	for i := 0; i < c.Readers; i++ {
		readers.Add(1)
		go func() {
			defer readers.Done()
			<-gate
			ix := pd.GetIndex()
			for {
				select {
				case <-stop:
					return
				default:
				}
				mu.Lock()
				want := []string{}
				for n := range finished {
					want = append(want, n)
				}
				reads++
				mu.Unlock()
				names := ix.GetMetricNames()
				for _, n := range want {
					if !names.Has(n) {
						fail("metric %q was ingested but the index does not name it", n)
					}
				}
				for _, n := range names.List() {
					if all[n] == nil {
						fail("the index names a metric that was never there: %q", n)
					}
					for _, d := range ix.GetStoredDimensionsForMetric(n).List() {
						for _, v := range ix.GetStoredValuesForMetricAndDimension(n, d).List() {
							if !all[n][d][v] {
								fail("index has %s{%s=%q}, which was never there", n, d, v)
							}
						}
					}
				}
			}
		}()
	}
	wg.Add(2)
	go func() {
		defer wg.Done()
		<-gate
		for _, b := range c.Scrapes {
			var data []prom.ParsedSeries
			for _, s := range b {
				data = append(data, prom.ParsedSeries{Labels: labels.FromMap(s.L), Timestamp: base.UnixMilli() - s.Ago*1000, Value: float64(s.V)})
			}
			src.mu.Lock()
			src.data = data
			src.mu.Unlock()
			mu.Lock()
			lowAt = done
			mu.Unlock()
			if err := pd.Scrape(ctx); err != nil {
				fail("scrape: %v", err)
			}
			mu.Lock()
			for _, s := range b {
				add(finished, s)
			}
			mu.Unlock()
		}
	}()
	between := 0
	go func() {
		defer wg.Done()
		<-gate
		for i, q := range c.Queries {
			mu.Lock()
			started = i + 1
			if len(finished) > 0 {
				between++
			}
			mu.Unlock()
			err := pd.SetQuery(ctx, q)
			if (err == nil) != strings.HasPrefix(q, "vector") {
				fail("SetQuery(%q) = %v", q, err)
			}
			mu.Lock()
			done = i + 1
			mu.Unlock()
			time.Sleep(time.Duration(50+i*37%100) * time.Microsecond)
		}
	}()
	close(gate)
	wg.Wait()
	close(stop)
	readers.Wait()
	if len(fails) > 0 {
		r.Failf("concurrent", "%s", strings.Join(fails[:min(4, len(fails))], "; "))
	}
	if between > 0 || reads > 0 {
		r.NonTrivial()
	}
	if deliveries != len(c.Scrapes) {
		r.Failf("concurrent", "%d deliveries for %d scrapes", deliveries, len(c.Scrapes))
	}
	// afterwards: the last valid query, over everything
	src.data = nil
	lowAt = len(c.Queries)
	lastSeen = -1
	if err := pd.Scrape(ctx); err != nil {
		r.Failf("concurrent", "final scrape: %v", err)
	}
	if len(fails) > 0 {
		r.Failf("concurrent", "%s", fails[0])
	}
	if lastSeen != validBefore(len(c.Queries)) {
		r.Failf("concurrent", "after everything the current query is number %d, want %d", lastSeen, validBefore(len(c.Queries)))
	}
	checkIndexFull(r, pd.GetIndex(), all)
	_ = math.Pi
}

func checkIndexFull(r *kit.R, ix prom.Indexer, all map[string]map[string]map[string]bool) {
	checkIndex(r, ix, all, false)
}
