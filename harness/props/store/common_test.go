package store

import (
	"context"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/storage"
	"pgregory.net/rapid"

	"sigs.k8s.io/instrumentation-tools/promq/prom"
	"verif.local/harness/kit"
	"verif.local/harness/oracle"
)

// Smp is one sample to load: a label set, a time and a value.
type Smp struct {
	L map[string]string
	T int64
	V kit.F
}

func (s Smp) parsed() prom.ParsedSeries {
	return prom.ParsedSeries{Labels: labels.FromMap(s.L), Timestamp: s.T, Value: float64(s.V)}
}

func parsedAll(in []Smp) []prom.ParsedSeries {
	out := make([]prom.ParsedSeries, len(in))
	for i, s := range in {
		out[i] = s.parsed()
	}
	return out
}

var (
	genName  = rapid.SampledFrom([]string{"up", "http_requests_total", "go_goroutines", "m", "rest_client:rate5m"})
	genLName = rapid.SampledFrom([]string{"a", "b", "job", "instance", "code", "le"})
	genLVal  = rapid.OneOf(
		rapid.SampledFrom([]string{"x", "y", "z", "1", "200", "xy", "http://h:1/metrics", "ü", "a\"b", "a\nb", " "}),
		rapid.StringMatching(`[a-c0-2]{1,3}`),
	)
	genVal = rapid.Custom(func(t *rapid.T) kit.F {
		switch rapid.IntRange(0, 9).Draw(t, "vk") {
		case 0:
			return kit.F(rapid.SampledFrom([]float64{math.NaN(), math.Inf(1), math.Inf(-1), 0, math.MaxFloat64, 5e-324}).Draw(t, "v"))
		case 1:
			return kit.F(rapid.Float64().Draw(t, "v"))
		default:
			return kit.F(rapid.IntRange(-50, 1000).Draw(t, "v"))
		}
	})
)

func genLabels(t *rapid.T, extra int) map[string]string {
	m := map[string]string{"__name__": genName.Draw(t, "name")}
	n := rapid.IntRange(0, extra).Draw(t, "nl")
	for i := 0; i < n; i++ {
		m[genLName.Draw(t, "l")] = genLVal.Draw(t, "lv")
	}
	return m
}

// twins are label sets whose 64-bit hashes are the same.
var twins = [][2]map[string]string{
	{{"__name__": "metric", "lbl": "qeYKm3"}, {"__name__": "metric", "lbl": "2fUczT"}},
	{{"__name__": "metric", "lbl1": "value", "lbl2": "l6CQ5y"}, {"__name__": "metric", "lbl1": "value", "lbl2": "v7uDlF"}},
}

// genPool makes distinct label sets, so that several samples meet in one series.
func genPool(t *rapid.T, max int) []map[string]string {
	n := rapid.IntRange(1, max).Draw(t, "series")
	var out []map[string]string
	seen := map[string]bool{}
	if rapid.IntRange(0, 15).Draw(t, "twins") == 7 {
		p := rapid.SampledFrom(twins).Draw(t, "pair")
		out = append(out, p[0], p[1])
	}
	for i := 0; i < n; i++ {
		m := genLabels(t, 3)
		if k := oracle.Key(m); !seen[k] {
			seen[k] = true
			out = append(out, m)
		}
	}
	return out
}

func matcher(tp labels.MatchType, n, v string) (*labels.Matcher, error) {
	return labels.NewMatcher(tp, n, v)
}

type queryable interface {
	Querier(ctx context.Context, mint, maxt int64) (storage.Querier, error)
}

// got is one selected series, read through a fresh iterator.
type got struct {
	key string
	pts []oracle.Pt
}

func readSelect(r *kit.R, s queryable, ms ...*labels.Matcher) []got {
	q, err := s.Querier(context.Background(), math.MinInt64, math.MaxInt64)
	if err != nil {
		r.Failf("querier", "Querier: %v", err)
	}
	defer q.Close()
	set := q.Select(false, nil, ms...)
	var out []got
	for set.Next() {
		x := set.At()
		g := got{key: oracle.Key(x.Labels().Map())}
		it := x.Iterator()
		for it.Next() {
			t, v := it.At()
			g.pts = append(g.pts, oracle.Pt{T: t, V: v})
		}
		if it.Err() != nil {
			r.Failf("iter-err", "iterator error %v", it.Err())
		}
		out = append(out, g)
	}
	if set.Err() != nil {
		r.Failf("set-err", "series set error %v", set.Err())
	}
	return out
}

func showKey(k string) string {
	return strings.NewReplacer("\x00", "=", "\x01", ",").Replace(k)
}

// compare selected series with the model's (order of series is not compared).
func compareSeries(r *kit.R, where string, have []got, want []*oracle.Series) {
	hm := map[string]got{}
	for _, g := range have {
		if _, dup := hm[g.key]; dup {
			r.Failf("series-twice", "%s: series {%s} returned more than once", where, showKey(g.key))
		}
		hm[g.key] = g
	}
	var wk []string
	for _, w := range want {
		k := oracle.Key(w.Labels)
		wk = append(wk, k)
		g, ok := hm[k]
		if !ok {
			r.Failf("series-missing", "%s: series {%s} is missing (has %d samples in the model)", where, showKey(k), len(w.Pts))
		}
		comparePts(r, where+": series {"+showKey(k)+"}", g.pts, w.Pts)
		delete(hm, k)
	}
	if len(hm) > 0 {
		var ks []string
		for k := range hm {
			ks = append(ks, showKey(k))
		}
		sort.Strings(ks)
		r.Failf("series-extra", "%s: series that should not be there: %s", where, strings.Join(ks, " | "))
	}
}

func comparePts(r *kit.R, where string, have, want []oracle.Pt) {
	same := len(have) == len(want)
	for i := 0; same && i < len(have); i++ {
		same = have[i].T == want[i].T && oracle.SameBits(have[i].V, want[i].V)
	}
	if !same {
		r.Failf("samples", "%s:\n have %s\n want %s", where, pts(have), pts(want))
	}
}

func pts(p []oracle.Pt) string {
	var sb strings.Builder
	for i, x := range p {
		if i > 40 {
			sb.WriteString(" ...")
			break
		}
		fmt.Fprintf(&sb, " %v@%d", x.V, x.T)
	}
	return sb.String()
}

func everything(r *kit.R, s queryable) []got {
	m, err := matcher(labels.MatchRegexp, "__name__", ".+")
	if err != nil {
		panic(err)
	}
	return readSelect(r, s, m)
}
