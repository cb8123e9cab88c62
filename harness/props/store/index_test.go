package store

import (
	"fmt"
	"sort"
	"testing"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/tsdb/index"
	"pgregory.net/rapid"

	"sigs.k8s.io/instrumentation-tools/promq/prom"
	"verif.local/harness/kit"
	"verif.local/harness/oracle"
)

type posOp struct {
	Add   map[string]string `json:",omitempty"`
	ID    uint64            `json:",omitempty"`
	Del   []uint64          `json:",omitempty"`
	Order bool              `json:",omitempty"`
	// Many more ids: ID+1, ID+2..., the values of label c in turn
	Many int `json:",omitempty"`
	// DelMod deletes every id that leaves the rest ID when divided by it
	DelMod uint64 `json:",omitempty"`
	// Hold takes a list, reads Read of its ids, and leaves the rest for the end
	Hold *posHold `json:",omitempty"`
}

type posHold struct {
	Name, Value string
	Read        int
}

type posCase struct {
	Unordered bool
	Ops       []posOp
}

type postings interface {
	Add(uint64, labels.Labels)
	Delete(map[uint64]struct{})
	Get(string, string) index.Postings
	UnsafeGet(string, string) index.Postings
	All() index.Postings
	EnsureOrder()
	SortedKeys() []labels.Label
	IterNames(func(string))
	IterValues(string, func(string))
}

// TestC06: the label index.
func TestC06(t *testing.T) {
	kit.Run(t, kit.Spec[posCase]{
		ID: "C06",
		Rule: "Histories of 1-25 operations on a label index, ordered from the start or ordered on demand: add an id (unique, in any order; sometimes up to 150 more) under 0-4 labels, " +
			"delete a set of ids (known and unknown, or a fraction of all), order, take a list and read a part of it (the rest is read at the end); after each step every list, key and name is compared with a set model; non-trivial: an id was deleted while others share its labels.",
		Gen: func(t *rapid.T) posCase {
			c := posCase{Unordered: rapid.Bool().Draw(t, "unordered")}
			used := map[uint64]bool{}
			var ids []uint64
			for i, n := 0, rapid.IntRange(1, 25).Draw(t, "ops"); i < n; i++ {
				switch k := rapid.IntRange(0, 9).Draw(t, "k"); {
				case i == 0 && c.Unordered && rapid.Bool().Draw(t, "early"):
					c.Ops = append(c.Ops, posOp{Order: true})
				case k < 6 || len(ids) == 0:
					id := rapid.Uint64Range(0, 40).Draw(t, "id")
					if rapid.IntRange(0, 20).Draw(t, "big") == 0 {
						id = ^uint64(0) - id
					}
					many := 0
					if rapid.IntRange(0, 11).Draw(t, "bulk") == 0 {
						id, many = uint64(1000*(i+1)), rapid.IntRange(1, 150).Draw(t, "many")
						for j := 1; j <= many; j++ {
							ids = append(ids, id+uint64(j))
						}
					}
					if used[id] {
						continue
					}
					used[id] = true
					ids = append(ids, id)
					m := map[string]string{}
					for j, k := 0, rapid.IntRange(0, 4).Draw(t, "nl"); j < k; j++ {
						m[rapid.SampledFrom([]string{"a", "b", "c"}).Draw(t, "n")] = rapid.SampledFrom([]string{"x", "y", "z"}).Draw(t, "v")
					}
					c.Ops = append(c.Ops, posOp{Add: m, ID: id, Many: many})
				case k < 9 && rapid.IntRange(0, 3).Draw(t, "hold") == 0:
					c.Ops = append(c.Ops, posOp{Hold: &posHold{rapid.SampledFrom([]string{"", "a", "b", "c"}).Draw(t, "hn"),
						rapid.SampledFrom([]string{"x", "y", "z"}).Draw(t, "hv"), rapid.IntRange(0, 3).Draw(t, "read")}})
				case k < 9 && rapid.IntRange(0, 4).Draw(t, "mod") == 0:
					m := rapid.Uint64Range(1, 4).Draw(t, "m")
					c.Ops = append(c.Ops, posOp{DelMod: m, ID: rapid.Uint64Range(0, m-1).Draw(t, "rest")})
				case k < 9:
					d := []uint64{}
					for j, k := 0, rapid.IntRange(0, 4).Draw(t, "nd"); j < k; j++ {
						d = append(d, ids[rapid.IntRange(0, len(ids)-1).Draw(t, "d")])
					}
					if rapid.IntRange(0, 4).Draw(t, "unknown") == 0 {
						d = append(d, 77)
					}
					c.Ops = append(c.Ops, posOp{Del: d})
				default:
					c.Ops = append(c.Ops, posOp{Order: true})
				}
			}
			return c
		},
		Check: func(r *kit.R, c posCase) {
			var p postings = prom.NewmemPostings()
			if c.Unordered {
				p = prom.NewUnorderedmemPostings()
			}
			model := map[uint64]map[string]string{}
			type held struct {
				list index.Postings
				want []uint64
				what posHold
				step int
			}
			var holds []held
			ordered := !c.Unordered // for good, once it was ensured
			// lists are reordered in place when a smaller id comes late
			var top uint64
			added := func(id uint64) {
				if id < top {
					holds = nil
				} else {
					top = id
				}
			}
			for i, op := range c.Ops {
				switch {
				case op.Hold != nil:
					if c.Unordered {
						continue
					}
					h := held{what: *op.Hold, step: i}
					if h.what.Name == "" {
						h.what.Value = ""
					}
					for id, m := range model {
						if h.what.Name == "" || m[h.what.Name] == h.what.Value {
							h.want = append(h.want, id)
						}
					}
					sort.Slice(h.want, func(i, j int) bool { return h.want[i] < h.want[j] })
					h.list = p.Get(h.what.Name, h.what.Value)
					for j := 0; j < h.what.Read && len(h.want) > 0; j++ {
						if !h.list.Next() || h.list.At() != h.want[0] {
							r.Failf("postings", "step %d: reading %s=%s does not give %d", i, h.what.Name, h.what.Value, h.want[0])
						}
						h.want = h.want[1:]
					}
					holds = append(holds, h)
				case op.Add != nil:
					p.Add(op.ID, labels.FromMap(op.Add))
					model[op.ID] = op.Add
					added(op.ID)
					for j := 1; j <= op.Many; j++ {
						m := map[string]string{"c": "xyz"[j%3 : j%3+1]}
						for k, v := range op.Add {
							if k != "c" {
								m[k] = v
							}
						}
						p.Add(op.ID+uint64(j), labels.FromMap(m))
						model[op.ID+uint64(j)] = m
						added(op.ID + uint64(j))
					}
					if op.Many > 0 {
						r.Tag("many")
					}
				case op.Del != nil || op.DelMod > 0:
					del := map[uint64]struct{}{}
					if op.DelMod > 0 {
						for id := range model {
							if id%op.DelMod == op.ID {
								del[id] = struct{}{}
							}
						}
						if len(del) > 64 {
							r.Tag("many deleted")
						}
					}
					for _, d := range op.Del {
						del[d] = struct{}{}
					}
					for d := range del {
						if m, ok := model[d]; ok {
							delete(model, d)
							for _, o := range model {
								for k, v := range m {
									if o[k] == v {
										r.NonTrivial()
									}
								}
							}
						}
					}
					p.Delete(del)
				default:
					if !ordered && len(model) < 2 {
						r.Tag("ordered early")
					}
					p.EnsureOrder()
					ordered = true
				}
				if !ordered && i == len(c.Ops)-1 {
					p.EnsureOrder()
					ordered = true
				}
				checkPostings(r, p, model, ordered, i)
			}
			// what was handed out is not changed by what happened since
			for _, h := range holds {
				var have []uint64
				for h.list.Next() {
					have = append(have, h.list.At())
				}
				if fmt.Sprint(have) != fmt.Sprint(h.want) {
					r.Failf("held", "the rest of the list of %s=%s taken in step %d reads %v at the end, want %v", h.what.Name, h.what.Value, h.step, have, h.want)
				}
				if len(h.want) > 0 {
					r.Tag("held list")
				}
			}
		},
	})
}

func checkPostings(r *kit.R, p postings, model map[uint64]map[string]string, ordered bool, step int) {
	want := map[labels.Label][]uint64{}
	var all []uint64
	for id, m := range model {
		all = append(all, id)
		for k, v := range m {
			l := labels.Label{Name: k, Value: v}
			want[l] = append(want[l], id)
		}
	}
	same := func(what string, have index.Postings, want []uint64) {
		var h []uint64
		for have.Next() {
			h = append(h, have.At())
		}
		if have.Err() != nil {
			r.Failf("postings-err", "%s: %v", what, have.Err())
		}
		w := append([]uint64{}, want...)
		sort.Slice(w, func(i, j int) bool { return w[i] < w[j] })
		if !ordered {
			sort.Slice(h, func(i, j int) bool { return h[i] < h[j] })
		}
		if len(h) != len(w) {
			r.Failf("postings", "step %d: %s has ids %v, want %v", step, what, h, w)
		}
		for i := range h {
			if h[i] != w[i] {
				r.Failf("postings", "step %d: %s has ids %v, want %v (ascending)", step, what, h, w)
			}
		}
	}
	same("all", p.All(), all)
	an, av := prom.AllPostingsKey()
	same("the all-key", p.Get(an, av), all)
	for _, n := range []string{"a", "b", "c", "d"} {
		vals := map[string]bool{}
		for _, v := range []string{"x", "y", "z", "w"} {
			w := want[labels.Label{Name: n, Value: v}]
			same(n+"="+v, p.Get(n, v), w)
			same(n+"="+v+" (unlocked)", p.UnsafeGet(n, v), w)
			if len(w) > 0 {
				vals[v] = true
			}
		}
		seen := map[string]int{}
		p.IterValues(n, func(v string) { seen[v]++ })
		if len(seen) != len(vals) {
			r.Failf("values", "step %d: values of %s are %v, want %v", step, n, seen, vals)
		}
		for v := range vals {
			if seen[v] != 1 {
				r.Failf("values", "step %d: values of %s are %v, want %v", step, n, seen, vals)
			}
		}
	}
	names := map[string]bool{}
	for l := range want {
		names[l.Name] = true
	}
	seen := map[string]bool{}
	p.IterNames(func(n string) {
		if seen[n] {
			r.Failf("names", "step %d: name %q twice", step, n)
		}
		seen[n] = true
	})
	if seen[an] != (len(model) > 0) {
		r.Failf("names", "step %d: the name of the all-series entry is among the names: %v, with %d ids", step, seen[an], len(model))
	}
	delete(seen, an)
	if len(seen) != len(names) {
		r.Failf("names", "step %d: label names %v, want %v", step, seen, names)
	}
	keys := p.SortedKeys()
	n, hasAll := 0, false
	for i, k := range keys {
		if i > 0 && (keys[i-1].Name > k.Name || keys[i-1].Name == k.Name && keys[i-1].Value >= k.Value) {
			r.Failf("keys", "step %d: keys not sorted: %v", step, keys)
		}
		if k.Name == an && k.Value == av {
			hasAll = true
			continue
		}
		n++
		if len(want[k]) == 0 {
			r.Failf("keys", "step %d: key %v has no id", step, k)
		}
	}
	if n != len(want) || hasAll != (len(model) > 0) {
		r.Failf("keys", "step %d: keys %v, want %v", step, keys, want)
	}
}

type idxCase struct {
	Ops []Smp
	Mut bool
}

// TestC09: the metric index behind autocompletion.
func TestC09(t *testing.T) {
	kit.Run(t, kit.Spec[idxCase]{
		ID: "C09",
		Rule: "Histories of 1-20 observed series (names, 0-3 labels, some without a name), all read back after every few steps, with every returned set then emptied and extended by the reader; " +
			"non-trivial: two different series of one metric.",
		Gen: func(t *rapid.T) idxCase {
			var c idxCase
			for i, n := 0, rapid.IntRange(1, 20).Draw(t, "n"); i < n; i++ {
				m := genLabels(t, 3)
				if rapid.IntRange(0, 8).Draw(t, "noname") == 0 {
					delete(m, "__name__")
				}
				c.Ops = append(c.Ops, Smp{L: m})
			}
			if rapid.IntRange(0, 99).Draw(t, "many") == 37 {
				kind, like := rapid.IntRange(0, 2).Draw(t, "of what"), genLabels(t, 2)
				like["__name__"] = "m"
				for i := rapid.SampledFrom([]int{20, 70, 130, 260, 700}).Draw(t, "more"); i > 0; i-- {
					m := map[string]string{}
					for k, v := range like {
						m[k] = v
					}
					switch x := fmt.Sprintf("v%d", i); kind {
					case 0:
						m["w"] = x
					case 1:
						m[x] = "w"
					default:
						m["__name__"] = x
					}
					c.Ops = append(c.Ops, Smp{L: m})
				}
			}
			if rapid.IntRange(0, 15).Draw(t, "twins") == 7 {
				p := rapid.SampledFrom(twins).Draw(t, "pair")
				for _, m := range p {
					i := rapid.IntRange(0, len(c.Ops)).Draw(t, "at")
					c.Ops = append(c.Ops[:i], append([]Smp{{L: m}}, c.Ops[i:]...)...)
				}
			}
			c.Mut = rapid.Bool().Draw(t, "mut")
			return c
		},
		Check: func(r *kit.R, c idxCase) {
			ix := prom.NewIndex()
			model, keys := idxModel{}, map[string]map[string]bool{}
			if len(c.Ops) > 30 {
				r.Tag("many")
			}
			// what remains if series are taken for seen when their hash is
			lossy, hashes := idxModel{}, map[uint64]bool{}
			for i, s := range c.Ops {
				ix.UpdateMetric(s.parsed())
				if n := s.L["__name__"]; n != "" {
					model.add(s.L)
					if h := labels.FromMap(s.L).Hash(); !hashes[h] {
						hashes[h] = true
						lossy.add(s.L)
					}
					if keys[n] == nil {
						keys[n] = map[string]bool{}
					}
					keys[n][oracle.Key(s.L)] = true
					if len(keys[n]) > 1 {
						r.NonTrivial()
					}
				}
				if (i%4 != 3 || len(c.Ops) > 30 && i%50 != 3) && i != len(c.Ops)-1 {
					continue
				}
				for round := 0; round < 2; round++ {
					if d := model.diff(ix, c.Mut); d != "" {
						if lossy.diff(ix, c.Mut) == "" {
							if !r.KnownInput() {
								r.Tag("hash-collision (known finding)")
								return
							}
							r.Failf("hash-collision", "a series was ignored because of its hash: %s", d)
						}
						r.Failf("index", "%s", d)
					}
				}
			}
		},
	})
}

// idxModel is a set of metrics with their labels with their values.
type idxModel map[string]map[string]map[string]bool

func (model idxModel) add(l map[string]string) {
	n := l["__name__"]
	if model[n] == nil {
		model[n] = map[string]map[string]bool{}
	}
	for k, v := range l {
		if k == "__name__" {
			continue
		}
		if model[n][k] == nil {
			model[n][k] = map[string]bool{}
		}
		model[n][k][v] = true
	}
}

// diff says where the index differs from the model.
func (model idxModel) diff(ix prom.Indexer, mutate bool) (bad string) {
	names := map[string]bool{}
	for n := range model {
		names[n] = true
	}
	eq := func(what string, have map[string]struct{}, want map[string]bool) {
		ok := len(have) == len(want)
		for k := range want {
			if _, h := have[k]; !h {
				ok = false
			}
		}
		if !ok && bad == "" {
			bad = fmt.Sprintf("%s: %v, want %v", what, have, want)
		}
	}
	conv := func(s interface{ List() []string }) map[string]struct{} {
		m := map[string]struct{}{}
		for _, x := range s.List() {
			m[x] = struct{}{}
		}
		return m
	}
	ns := ix.GetMetricNames()
	eq("metric names", conv(ns), names)
	for _, n := range append(keysOf(model), "nosuch") {
		ds := ix.GetStoredDimensionsForMetric(n)
		want := map[string]bool{}
		for d := range model[n] {
			want[d] = true
		}
		eq("labels of "+n, conv(ds), want)
		for _, d := range []string{"a", "b", "job", "instance", "code", "le", "lbl", "lbl2", "nosuch", "__name__", "w", "v1", "v2", "v64", "v77", "v300"} {
			vs := ix.GetStoredValuesForMetricAndDimension(n, d)
			eq("values of "+n+"."+d, conv(vs), model[n][d])
			if mutate && vs != nil {
				vs.Insert("made up by the reader")
				for k := range vs {
					if k != "made up by the reader" {
						vs.Delete(k)
						break
					}
				}
			}
		}
		if mutate && ds != nil {
			ds.Insert("made up by the reader")
		}
	}
	if mutate && ns != nil {
		ns.Insert("made up by the reader")
	}
	return
}

func checkIndex(r *kit.R, ix prom.Indexer, model idxModel, mutate bool) {
	if d := model.diff(ix, mutate); d != "" {
		r.Failf("index", "%s", d)
	}
}

func keysOf(m map[string]map[string]map[string]bool) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}
