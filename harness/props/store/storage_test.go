package store

import (
	"fmt"
	"context"
	"math"
	"testing"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/storage"
	"pgregory.net/rapid"

	"sigs.k8s.io/instrumentation-tools/promq/prom"
	"verif.local/harness/kit"
	"verif.local/harness/oracle"
)

// Op is a step of a storage history.
type Op struct {
	Load  []Smp  `json:",omitempty"`
	Clean *int64 `json:",omitempty"`
	// Bulk loads this many series with one sample each, at At, At+Step...
	Bulk     int   `json:",omitempty"`
	At, Step int64 `json:",omitempty"`
	Wide     bool  `json:",omitempty"` // each has a label name of its own
}

func genTime(t *rapid.T) int64 {
	switch rapid.IntRange(0, 9).Draw(t, "tk") {
	case 0:
		return rapid.SampledFrom([]int64{math.MinInt64, math.MaxInt64, -1, 0, 1, 1600000000000}).Draw(t, "T")
	default:
		return rapid.Int64Range(0, 25).Draw(t, "T") * 1000
	}
}

func genLoad(t *rapid.T, pool []map[string]string, max int) []Smp {
	n := rapid.IntRange(1, max).Draw(t, "n")
	var out []Smp
	for i := 0; i < n; i++ {
		out = append(out, Smp{
			L: pool[rapid.IntRange(0, len(pool)-1).Draw(t, "s")],
			T: genTime(t),
			V: genVal.Draw(t, "V"),
		})
	}
	return out
}

// Step is a move of an iterator: Next, or Seek to a time.
type Step struct {
	Seek *int64 `json:",omitempty"`
}

type storeCase struct {
	Ops   []Op
	Steps []Step
}

// TestC02: samples of each series, whatever the arrival order.
func TestC02(t *testing.T) {
	kit.Run(t, kit.Spec[storeCase]{
		ID: "C02",
		Rule: "Histories of 1-8 loads of 1-12 samples over a pool of 1-5 series, with times drawn from a small range " +
			"(so equal and backward times are common) plus extreme ones, then an iterator walk of Next/Seek steps; " +
			"non-trivial: some series received a sample older than its newest one.",
		Gen: func(t *rapid.T) storeCase {
			pool := genPool(t, 5)
			var c storeCase
			for i, n := 0, rapid.IntRange(1, 8).Draw(t, "ops"); i < n; i++ {
				c.Ops = append(c.Ops, Op{Load: genLoad(t, pool, 12)})
			}
			for i, n := 0, rapid.IntRange(0, 8).Draw(t, "steps"); i < n; i++ {
				if rapid.Bool().Draw(t, "seek") {
					v := genTime(t) + rapid.Int64Range(-1, 1).Draw(t, "d")*rapid.Int64Range(0, 1).Draw(t, "e")
					c.Steps = append(c.Steps, Step{Seek: &v})
				} else {
					c.Steps = append(c.Steps, Step{})
				}
			}
			return c
		},
		Check: func(r *kit.R, c storeCase) {
			st, model := prom.NewRangeStorage(), &oracle.Store{}
			for i, op := range c.Ops {
				if err := st.LoadData(parsedAll(op.Load)); err != nil {
					r.Failf("load-error", "LoadData: %v", err)
				}
				for _, s := range op.Load {
					if x := model.Find(s.L); x != nil && len(x.Pts) > 0 {
						last := x.Pts[len(x.Pts)-1].T
						if s.T < last {
							r.NonTrivial()
							r.Tag("backward")
						} else if s.T == last {
							r.Tag("same time")
						}
					}
					model.Load(s.L, s.T, float64(s.V))
				}
				if i%2 == 1 || i == len(c.Ops)-1 {
					compareSeries(r, "after load "+itoa(i), everything(r, st), model.List)
				}
			}
			// two iterators of one series do not disturb each other, and both obey the
			// Next/Seek contract (Seek never goes back)
			m, _ := matcher(labels.MatchRegexp, "__name__", ".+")
			q, _ := st.Querier(context.Background(), math.MinInt64, math.MaxInt64)
			set := q.Select(false, nil, m)
			for set.Next() {
				x := set.At()
				want := model.Find(x.Labels().Map())
				if want == nil {
					r.Failf("series-extra", "unknown series %s", x.Labels())
				}
				walk(r, x, want, c.Steps)
			}
		},
	})
}

func walk(r *kit.R, x storage.Series, want *oracle.Series, steps []Step) {
	a, b := x.Iterator(), x.Iterator()
	pos, ok := -1, false
	for i, s := range steps {
		var have bool
		if s.Seek != nil {
			if pos < 0 {
				pos = 0
			}
			for pos < len(want.Pts) && want.Pts[pos].T < *s.Seek {
				pos++
			}
			have = a.Seek(*s.Seek)
		} else {
			if pos < len(want.Pts) {
				pos++
			}
			have = a.Next()
		}
		ok = pos < len(want.Pts)
		if have != ok {
			r.Failf("iterator", "step %d of %v on %s: iterator says %v, want %v", i, stepText(steps), pts(want.Pts), have, ok)
		}
		if !ok {
			// past the end: it stays there
			r.Tag("past the end")
			continue
		}
		t, v := a.At()
		if t != want.Pts[pos].T || !oracle.SameBits(v, want.Pts[pos].V) {
			r.Failf("iterator", "step %d of %v on %s: iterator is at %v@%d, want %v@%d", i, stepText(steps), pts(want.Pts), v, t, want.Pts[pos].V, want.Pts[pos].T)
		}
	}
	var all []oracle.Pt
	for b.Next() {
		t, v := b.At()
		all = append(all, oracle.Pt{T: t, V: v})
	}
	comparePts(r, "a second iterator of the same series", all, want.Pts)
}

func stepText(steps []Step) (out []string) {
	for _, s := range steps {
		if s.Seek != nil {
			out = append(out, "Seek("+itoa64(*s.Seek)+")")
		} else {
			out = append(out, "Next")
		}
	}
	return
}

// M is a label matcher.
type M struct {
	T int // labels.MatchType
	N string
	V string
}

type selectCase struct {
	Ops []Op
	Ms  [][]M
}

var matchVals = rapid.OneOf(
	genLVal,
	rapid.SampledFrom([]string{"", "nosuch"}),
)

var matchRes = rapid.SampledFrom([]string{".*", ".+", "", "x|y", "x|", "[a-c]+", "[^x]*", "2..", "a.b", "http.*", "(x)?", "z?y?", "up|m", "u.*"})

func genMatcher(t *rapid.T, pool []map[string]string) M {
	m := M{T: rapid.IntRange(0, 3).Draw(t, "mt")}
	m.N = rapid.OneOf(genLName, rapid.SampledFrom([]string{"__name__", "missing"})).Draw(t, "mn")
	re := m.T >= 2
	switch {
	case re:
		m.V = matchRes.Draw(t, "re")
	case rapid.Bool().Draw(t, "from pool"):
		if v, ok := pool[rapid.IntRange(0, len(pool)-1).Draw(t, "p")][m.N]; ok {
			m.V = v
			break
		}
		fallthrough
	default:
		m.V = matchVals.Draw(t, "mv")
	}
	return m
}

// TestC03: selection by matchers.
func TestC03(t *testing.T) {
	kit.Run(t, kit.Spec[selectCase]{
		ID:   "C03",
		Hang: 8e9,
		Rule: "Stores of 1-12 series (0-3 labels each over small alphabets), optionally cleaned in between, queried with 1-5 matcher lists " +
			"of 1-3 matchers of all four kinds over present, absent and empty label values; non-trivial: a matcher list selects some but not all series.",
		Gen: func(t *rapid.T) selectCase {
			pool := genPool(t, 12)
			var c selectCase
			for i, n := 0, rapid.IntRange(1, 3).Draw(t, "ops"); i < n; i++ {
				c.Ops = append(c.Ops, Op{Load: genLoad(t, pool, 14)})
				if rapid.IntRange(0, 5).Draw(t, "clean") == 0 {
					cut := genTime(t)
					c.Ops = append(c.Ops, Op{Clean: &cut})
				}
			}
			for i, n := 0, rapid.IntRange(1, 5).Draw(t, "queries"); i < n; i++ {
				var ms []M
				for j, k := 0, rapid.IntRange(1, 3).Draw(t, "matchers"); j < k; j++ {
					ms = append(ms, genMatcher(t, pool))
				}
				if rapid.IntRange(0, 19).Draw(t, "long list") == 11 {
					for k := rapid.IntRange(1, 8).Draw(t, "more"); k > 0; k-- {
						ms = append(ms, genMatcher(t, pool))
					}
				}
				c.Ms = append(c.Ms, ms)
			}
			if rapid.IntRange(0, 149).Draw(t, "wide") == 97 {
				// many values of one label
				var l []Smp
				for i := rapid.IntRange(9, 400).Draw(t, "values"); i > 0; i-- {
					m := map[string]string{"w": fmt.Sprintf("v%d", i)}
					for k, v := range pool[i%len(pool)] {
						m[k] = v
					}
					l = append(l, Smp{L: m, T: genTime(t), V: kit.F(i)})
				}
				at := rapid.IntRange(0, len(c.Ops)).Draw(t, "at")
				c.Ops = append(c.Ops[:at:at], append([]Op{{Load: l}}, c.Ops[at:]...)...)
				for k := rapid.IntRange(1, 4).Draw(t, "wide queries"); k > 0; k-- {
					ms := []M{{T: rapid.IntRange(0, 3).Draw(t, "mt"), N: "w"}}
					if ms[0].T >= 2 {
						ms[0].V = rapid.SampledFrom([]string{"v.*", "v1.*", "v[0-4]+", "v7", "", ".*5", "v(1|2|30)", "v[1-9]?", "[^3]*"}).Draw(t, "re")
					} else {
						ms[0].V = rapid.SampledFrom([]string{"v7", "", "v11", "nosuch"}).Draw(t, "mv")
					}
					if rapid.Bool().Draw(t, "and") {
						ms = append(ms, genMatcher(t, pool))
					}
					if rapid.Bool().Draw(t, "swap") && len(ms) == 2 {
						ms[0], ms[1] = ms[1], ms[0]
					}
					c.Ms = append(c.Ms, ms)
				}
			}
			return c
		},
		Check: func(r *kit.R, c selectCase) {
			st, model := prom.NewRangeStorage(), &oracle.Store{}
			apply(r, st, model, c.Ops)
			for _, ms := range c.Ms {
				var lm []*labels.Matcher
				text := "select"
				for _, m := range ms {
					x, err := matcher(labels.MatchType(m.T), m.N, m.V)
					if err != nil {
						return // not a valid regexp
					}
					text += " " + x.String()
					lm = append(lm, x)
				}
				var want []*oracle.Series
				for _, x := range model.List {
					all := true
					for _, m := range lm {
						all = all && m.Matches(x.Labels[m.Name])
					}
					if all {
						want = append(want, x)
					}
				}
				if len(want) > 0 && len(want) < len(model.List) {
					r.NonTrivial()
				}
				if len(want) == 0 {
					r.Tag("nothing selected")
				}
				compareSeries(r, text, readSelect(r, st, lm...), want)
				// asking again gives the same
				compareSeries(r, text+" (again)", readSelect(r, st, lm...), want)
			}
		},
	})
}

type rangeStore interface {
	queryable
	LoadData([]prom.ParsedSeries) error
	Clean(int64)
}

func apply(r *kit.R, st rangeStore, model *oracle.Store, ops []Op) {
	for _, op := range ops {
		if op.Clean != nil {
			st.Clean(*op.Clean)
			model.Clean(*op.Clean)
			continue
		}
		load := op.Load
		for j := 0; j < op.Bulk; j++ {
			load = append(load, Smp{L: map[string]string{"__name__": "bulk", "a": "xyz"[j%3 : j%3+1], "n": itoa(j)}, T: op.At + int64(j)*op.Step, V: kit.F(j)})
			if op.Wide {
				load[len(load)-1].L["w"+itoa(j)] = "xyz"[j%2 : j%2+1]
			}
		}
		if op.Bulk > 64 {
			r.Tag("many series")
		}
		if err := st.LoadData(parsedAll(load)); err != nil {
			r.Failf("load-error", "LoadData: %v", err)
		}
		for _, s := range load {
			model.Load(s.L, s.T, float64(s.V))
		}
	}
}

// TestC05: retention.
func TestC05(t *testing.T) {
	kit.Run(t, kit.Spec[selectCase]{
		ID: "C05",
		Rule: "Histories of 2-12 loads and retention cuts over 1-6 series (now and then up to 150 more), the cut drawn around the stored times; after each step the whole store, " +
			"and each series by exact and negative matchers at the end, is compared with a model; non-trivial: a cut removed part of a series, or a series that was later loaded again.",
		Gen: func(t *rapid.T) selectCase {
			pool := genPool(t, 6)
			var c selectCase
			for i, n := 0, rapid.IntRange(2, 12).Draw(t, "ops"); i < n; i++ {
				if rapid.IntRange(0, 2).Draw(t, "kind") == 0 {
					cut := genTime(t) + rapid.Int64Range(-1, 1).Draw(t, "d")
					c.Ops = append(c.Ops, Op{Clean: &cut})
				} else if rapid.IntRange(0, 19).Draw(t, "bulk") == 0 {
					c.Ops = append(c.Ops, Op{Bulk: rapid.IntRange(2, 150).Draw(t, "many"), At: genTime(t), Step: rapid.Int64Range(0, 2).Draw(t, "step")})
				} else {
					c.Ops = append(c.Ops, Op{Load: genLoad(t, pool, 6)})
				}
			}
			return c
		},
		Check: func(r *kit.R, c selectCase) {
			st, model := prom.NewRangeStorage(), &oracle.Store{}
			gone := map[string]map[string]string{}
			for i, op := range c.Ops {
				before := map[string]*oracle.Series{}
				n := model.Samples()
				for _, x := range model.List {
					before[oracle.Key(x.Labels)] = x
				}
				apply(r, st, model, []Op{op})
				for k, x := range before {
					if model.Find(x.Labels) == nil {
						gone[k] = x.Labels
						r.Tag("series emptied")
					}
				}
				for k := range gone {
					if model.Find(gone[k]) != nil {
						delete(gone, k)
						r.Tag("series came back")
						r.NonTrivial()
					}
				}
				if op.Clean != nil && model.Samples() < n && model.Samples() > 0 {
					r.NonTrivial()
				}
				compareSeries(r, "after step "+itoa(i), everything(r, st), model.List)
			}
			for _, l := range gone {
				var ms []*labels.Matcher
				for n, v := range l {
					m, _ := matcher(labels.MatchEqual, n, v)
					ms = append(ms, m)
				}
				var want []*oracle.Series
			next:
				for _, x := range model.List {
					for n, v := range l {
						if x.Labels[n] != v {
							continue next
						}
					}
					want = append(want, x)
				}
				compareSeries(r, "series emptied by a cut", readSelect(r, st, ms...), want)
			}
		},
	})
}
