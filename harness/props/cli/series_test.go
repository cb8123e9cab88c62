package cli

import (
	"strings"
	"testing"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"
	"pgregory.net/rapid"

	"sigs.k8s.io/instrumentation-tools/cmd/metrics"
	"sigs.k8s.io/instrumentation-tools/promq/term/plot"
	"verif.local/harness/kit"
	"verif.local/harness/oracle"
)

type seriesCase struct {
	R    Res
	Swap int // a second result with the same series, rotated by this
}

func TestC31(t *testing.T) {
	kit.Run(t, kit.Spec[seriesCase]{
		ID:   "C31",
		Rule: "a query result of every type and the same series again in another order; non-trivial: a matrix with at least two series and two points",
		Gen: func(t *rapid.T) seriesCase {
			return seriesCase{genRes(t, "matrix", "matrix", "matrix", "matrix", "matrix", "matrix", "vector", "scalar", "string", "err"), rapid.IntRange(0, 4).Draw(t, "swap")}
		},
		Check: checkSeries,
	})
}

func checkSeries(r *kit.R, c seriesCase) {
	r.Tag(c.R.Kind)
	res := c.R.result()
	conv := func(res *promql.Result) (set plot.SeriesSet, err error) {
		r.Guard("panic", "PromResultToPromSeriesSet", func() { set, err = metrics.PromResultToPromSeriesSet(res) })
		return
	}
	set, err := conv(res)
	if c.R.Kind != "matrix" {
		if err == nil {
			r.Failf("no-error", "a result of kind %s was taken for series", c.R.Kind)
		}
		return
	}
	if err != nil {
		r.Failf("error", "a matrix was refused: %v", err)
	}
	// the data of a query is only valid until it is closed, so scribble over it
	m := res.Value.(promql.Matrix)
	for i := range m {
		for j := range m[i].Points {
			m[i].Points[j] = promql.Point{T: 12345, V: 54321}
		}
	}
	if len(set) != len(c.R.Series) {
		r.Failf("count", "%d series from %d", len(set), len(c.R.Series))
	}
	total := 0
	byKey := map[string]plot.SeriesId{}
	for i, s := range c.R.Series {
		var vals []string
		for _, l := range labels.FromMap(s.L) {
			vals = append(vals, l.Value)
		}
		if want := strings.Join(vals, ", "); set[i].Title() != want {
			r.Failf("title", "series %v is titled %q, not %q", s.L, set[i].Title(), want)
		}
		id := set[i].Id()
		if id < 1 || id > 255 {
			r.Failf("id-range", "series %v has id %d: 0 means that there is none, and ids are used as one of 256 colours", s.L, id)
		}
		if old, ok := byKey[key(s.L)]; ok && old != id {
			r.Failf("id-unstable", "series %v has ids %d and %d", s.L, old, id)
		}
		byKey[key(s.L)] = id
		pts := set[i].Points()
		if len(pts) != len(s.Pts) {
			r.Failf("points", "series %v has %d points, not %d", s.L, len(pts), len(s.Pts))
		}
		for j, p := range s.Pts {
			total++
			if pts[j].X() != p.T || !oracle.SameBits(pts[j].Y(), float64(p.V)) {
				r.Failf("point", "series %v point %d is (%d, %v), not %v", s.L, j, pts[j].X(), pts[j].Y(), p)
			}
		}
	}
	// the same series in another query keeps its id: this is its colour
	if n := len(c.R.Series); n > 0 {
		rot := c.R
		k := c.Swap % n
		rot.Series = append(append([]Ser{}, c.R.Series[k:]...), c.R.Series[:k]...)
		for i := range rot.Series {
			rot.Series[i].Pts = rot.Series[i].Pts[:len(rot.Series[i].Pts)/2]
		}
		set2, err := conv(rot.result())
		if err != nil || len(set2) != n {
			r.Failf("again", "the same series in another order: %d, %v", len(set2), err)
		}
		for i, s := range rot.Series {
			if set2[i].Id() != byKey[key(s.L)] {
				r.Failf("id-unstable", "series %v changed its id from %d to %d between two results", s.L, byKey[key(s.L)], set2[i].Id())
			}
		}
	}
	if len(c.R.Series) > 1 && total > 1 {
		r.NonTrivial()
	}
}
