// Package oracle holds the reference models the checks compare against. They
// are written for obviousness, not speed, and share no code with /repo.
package oracle

import (
	"context"
	"math"
	"sort"
	"strings"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/storage"
	"github.com/prometheus/prometheus/tsdb/chunkenc"
)

// Pt is one sample.
type Pt struct {
	T int64
	V float64
}

// Series is a label set and its samples in time order.
type Series struct {
	Labels map[string]string
	Pts    []Pt
}

// Store is a list of series, searched linearly.
type Store struct{ List []*Series }

// Key is a canonical text for a label set; empty values count as absent.
func Key(m map[string]string) string {
	var ks []string
	for k, v := range m {
		if v != "" {
			ks = append(ks, k+"\x00"+v+"\x01")
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, "")
}

func (s *Store) Find(m map[string]string) *Series {
	k := Key(m)
	for _, x := range s.List {
		if Key(x.Labels) == k {
			return x
		}
	}
	return nil
}

// Load adds one sample: after every sample that is not later than it.
func (s *Store) Load(m map[string]string, t int64, v float64) {
	x := s.Find(m)
	if x == nil {
		x = &Series{Labels: map[string]string{}}
		for k, v := range m {
			if v != "" {
				x.Labels[k] = v
			}
		}
		s.List = append(s.List, x)
	}
	at := 0
	for i, p := range x.Pts {
		if p.T <= t {
			at = i + 1
		}
	}
	x.Pts = append(x.Pts, Pt{})
	copy(x.Pts[at+1:], x.Pts[at:])
	x.Pts[at] = Pt{t, v}
}

// Clean drops samples older than t and the series left empty.
func (s *Store) Clean(t int64) {
	var list []*Series
	for _, x := range s.List {
		var keep []Pt
		for _, p := range x.Pts {
			if p.T >= t {
				keep = append(keep, p)
			}
		}
		if len(keep) > 0 {
			x.Pts = keep
			list = append(list, x)
		}
	}
	s.List = list
}

func (s *Store) Samples() (n int) {
	for _, x := range s.List {
		n += len(x.Pts)
	}
	return
}

// Querier makes the model a prometheus storage, for differential evaluation.
func (s *Store) Querier(context.Context, int64, int64) (storage.Querier, error) {
	return querier{s}, nil
}

type querier struct{ s *Store }

func (q querier) Select(_ bool, _ *storage.SelectHints, ms ...*labels.Matcher) storage.SeriesSet {
	var out []*Series
next:
	for _, x := range q.s.List {
		for _, m := range ms {
			if !m.Matches(x.Labels[m.Name]) {
				continue next
			}
		}
		out = append(out, x)
	}
	return &set{out, -1}
}
func (querier) LabelValues(string, ...*labels.Matcher) ([]string, storage.Warnings, error) {
	return nil, nil, nil
}
func (querier) LabelNames(...*labels.Matcher) ([]string, storage.Warnings, error) {
	return nil, nil, nil
}
func (querier) Close() error { return nil }

type set struct {
	l []*Series
	i int
}

func (s *set) Next() bool                 { s.i++; return s.i < len(s.l) }
func (s *set) At() storage.Series         { return one{s.l[s.i]} }
func (s *set) Err() error                 { return nil }
func (s *set) Warnings() storage.Warnings { return nil }

type one struct{ s *Series }

func (o one) Labels() labels.Labels       { return labels.FromMap(o.s.Labels) }
func (o one) Iterator() chunkenc.Iterator { return &iter{o.s.Pts, -1} }

type iter struct {
	p []Pt
	i int
}

func (it *iter) Next() bool {
	if it.i < len(it.p) {
		it.i++
	}
	return it.i < len(it.p)
}
func (it *iter) Seek(t int64) bool {
	if it.i < 0 {
		it.i = 0
	}
	for it.i < len(it.p) && it.p[it.i].T < t {
		it.i++
	}
	return it.i < len(it.p)
}
func (it *iter) At() (int64, float64) { return it.p[it.i].T, it.p[it.i].V }
func (it *iter) Err() error           { return nil }

// SameBits compares sample values: equal, or both NaN.
func SameBits(a, b float64) bool { return a == b || (math.IsNaN(a) && math.IsNaN(b)) }
