package store

import (
	"context"
	"math"
	"slices"
	"sort"
	"testing"

	"github.com/prometheus/prometheus/pkg/labels"
	"pgregory.net/rapid"

	"sigs.k8s.io/instrumentation-tools/promq/prom"
	"verif.local/harness/kit"
	"verif.local/harness/oracle"
)

// Lookup asks for the values of a label, or for the label names (Name == "").
type Lookup struct {
	Name string
	Ms   []M
}

type lookupCase struct {
	Ops []Op
	Ls  []Lookup
}

// TestC34: label names and values of the stored series.
func TestC34(t *testing.T) {
	kit.Run(t, kit.Spec[lookupCase]{
		ID:   "C34",
		Hang: 8e9,
		Rule: "Histories of 1-6 loads and retention cuts over 1-10 series; after each step 1-4 lookups of label names or of one label's values, " +
			"with 0-3 matchers of all four kinds, are compared with the model's series, and the answers overwritten by the caller; non-trivial: the matchers of a lookup select some but not all series and its answer is not empty.",
		Gen: func(t *rapid.T) lookupCase {
			pool := genPool(t, 10)
			var c lookupCase
			for i, n := 0, rapid.IntRange(1, 6).Draw(t, "ops"); i < n; i++ {
				if i > 0 && rapid.IntRange(0, 2).Draw(t, "kind") == 0 {
					cut := genTime(t)
					c.Ops = append(c.Ops, Op{Clean: &cut})
				} else {
					c.Ops = append(c.Ops, Op{Load: genLoad(t, pool, 10)})
				}
				if rapid.IntRange(0, 40).Draw(t, "bulky") == 23 {
					c.Ops = append(c.Ops, Op{Bulk: rapid.IntRange(10, 120).Draw(t, "bulk"), At: genTime(t), Wide: rapid.Bool().Draw(t, "wide")})
				}
			}
			for i, n := 0, rapid.IntRange(1, 4).Draw(t, "lookups"); i < n; i++ {
				var l Lookup
				if rapid.IntRange(0, 2).Draw(t, "what") > 0 {
					l.Name = rapid.OneOf(genLName, rapid.SampledFrom([]string{"__name__", "missing", "lbl"})).Draw(t, "name")
				}
				for j, k := 0, rapid.IntRange(0, 3).Draw(t, "matchers"); j < k; j++ {
					l.Ms = append(l.Ms, genMatcher(t, pool))
				}
				c.Ls = append(c.Ls, l)
			}
			return c
		},
		Check: func(r *kit.R, c lookupCase) {
			st, model := prom.NewRangeStorage(), &oracle.Store{}
			for i, op := range c.Ops {
				apply(r, st, model, []Op{op})
				for _, l := range c.Ls {
					lookup(r, st, model, l, "after step "+itoa(i))
				}
			}
		},
	})
}

func lookup(r *kit.R, st queryable, model *oracle.Store, l Lookup, where string) {
	var lm []*labels.Matcher
	for _, m := range l.Ms {
		x, err := matcher(labels.MatchType(m.T), m.N, m.V)
		if err != nil {
			return // not a valid regexp
		}
		where += " " + x.String()
		lm = append(lm, x)
	}
	seen := map[string]bool{}
	n := 0
	for _, x := range model.List {
		all := true
		for _, m := range lm {
			all = all && m.Matches(x.Labels[m.Name])
		}
		if !all {
			continue
		}
		n++
		for k, v := range x.Labels {
			if l.Name == "" {
				seen[k] = true
			} else if k == l.Name {
				seen[v] = true
			}
		}
	}
	var want []string
	for k := range seen {
		want = append(want, k)
	}
	sort.Strings(want)
	if n > 0 && n < len(model.List) && len(want) > 0 {
		r.NonTrivial()
	}
	q, err := st.Querier(context.Background(), math.MinInt64, math.MaxInt64)
	if err != nil {
		r.Failf("querier", "Querier: %v", err)
	}
	defer q.Close()
	for again := 0; again < 2; again++ {
		var have []string
		if l.Name == "" {
			r.Tag("names")
			have, _, err = q.LabelNames(lm...)
			if err == nil && !sort.StringsAreSorted(have) {
				r.Failf("unsorted", "%s: the label names are not in sorted order: %q", where, have)
			}
		} else {
			r.Tag("values")
			have, _, err = q.LabelValues(l.Name, lm...)
		}
		if err != nil {
			r.Failf("lookup-error", "%s: lookup of %q: %v", where, l.Name, err)
		}
		sorted := append([]string(nil), have...)
		sort.Strings(sorted)
		if !slices.Equal(sorted, want) {
			r.Failf("lookup", "%s: lookup of label %q (\"\": names) gives %q, the stored series have %q", where, l.Name, have, want)
		}
		for i := range have {
			have[i] = "overwritten"
		}
	}
}
