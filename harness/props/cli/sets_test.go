package cli

import (
	"cmp"
	"fmt"
	"math"
	"slices"
	"sort"
	"testing"

	"pgregory.net/rapid"

	"sigs.k8s.io/instrumentation-tools/notstdlib/sets"
	"verif.local/harness/kit"
)

// the elements cases are made of, in order
var (
	universeByte   = []byte{0, 1, 2, 9, 31, 32, 65, 97, 127, 128, 254, 255}
	universeInt    = []int{math.MinInt, -1000, -2, -1, 0, 1, 2, 10, 11, 255, 1 << 40, math.MaxInt}
	universeInt32  = []int32{math.MinInt32, -1000, -2, -1, 0, 1, 2, 10, 11, 255, 1 << 30, math.MaxInt32}
	universeInt64  = []int64{math.MinInt64, -1 << 33, -2, -1, 0, 1, 2, 10, 11, 255, 1 << 40, math.MaxInt64}
	universeString = []string{"", " ", "A", "B", "a", "a b", "a_b", "aa", "b", "ba", "é", "日"}
	universeUint64 = []uint64{0, 1, 2, 3, 9, 10, 11, 255, 256, 1 << 40, 1 << 63, math.MaxUint64}
)

const elements = 108

// and ordinary ones, so that sets can be large
func init() {
	for i := 0; i < elements-12; i++ {
		universeByte = append(universeByte, byte(130+i))
		universeInt = append(universeInt, 300+i)
		universeInt32 = append(universeInt32, int32(300+i))
		universeInt64 = append(universeInt64, int64(300+i))
		universeString = append(universeString, fmt.Sprintf("item%d", i))
		universeUint64 = append(universeUint64, uint64(300+i))
	}
	slices.Sort(universeByte)
	slices.Sort(universeInt)
	slices.Sort(universeInt32)
	slices.Sort(universeInt64)
	slices.Sort(universeString)
	slices.Sort(universeUint64)
}

func genItems(t *rapid.T) []int {
	if rapid.IntRange(0, 15).Draw(t, "most") == 11 {
		// all but a few, so that large sets differ in little
		out := map[int]bool{}
		for i := rapid.IntRange(0, 2).Draw(t, "out"); i > 0; i-- {
			out[rapid.IntRange(0, elements-1).Draw(t, "o")] = true
		}
		var l []int
		for i := rapid.SampledFrom([]int{0, 0, 40}).Draw(t, "from"); i < elements; i++ {
			if !out[i] {
				l = append(l, i)
			}
		}
		return l
	}
	if rapid.IntRange(0, 7).Draw(t, "many") != 5 {
		return rapid.SliceOfN(rapid.IntRange(0, elements-1), 0, 6).Draw(t, "items")
	}
	lo := rapid.SampledFrom([]int{0, 4, 20}).Draw(t, "lo")
	hi := lo + rapid.SampledFrom([]int{13, 18, 25}).Draw(t, "n")
	skip := rapid.IntRange(lo, hi).Draw(t, "skip")
	var l []int
	for i := lo; i < hi; i++ {
		if i != skip {
			l = append(l, i)
		}
	}
	return l
}

// ops are the operations of one set, over indices into the universe of its element type.
type ops struct {
	fresh                           func(items []int) any
	keySet                          func(items []int) any
	insert, delete                  func(s any, items []int) any
	has                             func(s any, item int) bool
	hasAll, hasAny                  func(s any, items []int) bool
	difference, union, intersection func(a, b any) any
	superset, equal                 func(a, b any) bool
	list, unsorted                  func(s any) []int
	popAny                          func(s any) (int, bool)
	length                          func(s any) int
	raw                             func(s any) []int // what the map holds
	zero                            int               // index of the zero value, or -1
}

func adapt[S ~map[T]sets.Empty, T cmp.Ordered](
	universe []T,
	fresh func(...T) S, keySet func(any) S, insert, del func(S, ...T) S, has func(S, T) bool, hasAll, hasAny func(S, ...T) bool,
	difference, union, intersection func(S, S) S, superset, equal func(S, S) bool,
	list, unsorted func(S) []T, popAny func(S) (T, bool), length func(S) int,
) *ops {
	el := func(ix []int) []T {
		var out []T
		for _, i := range ix {
			out = append(out, universe[i])
		}
		return out
	}
	index := func(v T) int {
		i := sort.Search(len(universe), func(i int) bool { return universe[i] >= v })
		if i < len(universe) && universe[i] == v {
			return i
		}
		return -1
	}
	ix := func(l []T) []int {
		out := []int{}
		for _, v := range l {
			out = append(out, index(v))
		}
		return out
	}
	var zero T
	return &ops{
		fresh: func(i []int) any { return fresh(el(i)...) },
		keySet: func(i []int) any {
			m := map[T]func(){}
			for _, v := range el(i) {
				m[v] = nil
			}
			return keySet(m)
		},
		insert:       func(s any, i []int) any { return insert(s.(S), el(i)...) },
		delete:       func(s any, i []int) any { return del(s.(S), el(i)...) },
		has:          func(s any, i int) bool { return has(s.(S), universe[i]) },
		hasAll:       func(s any, i []int) bool { return hasAll(s.(S), el(i)...) },
		hasAny:       func(s any, i []int) bool { return hasAny(s.(S), el(i)...) },
		difference:   func(a, b any) any { return difference(a.(S), b.(S)) },
		union:        func(a, b any) any { return union(a.(S), b.(S)) },
		intersection: func(a, b any) any { return intersection(a.(S), b.(S)) },
		superset:     func(a, b any) bool { return superset(a.(S), b.(S)) },
		equal:        func(a, b any) bool { return equal(a.(S), b.(S)) },
		list:         func(s any) []int { return ix(list(s.(S))) },
		unsorted:     func(s any) []int { return ix(unsorted(s.(S))) },
		popAny: func(s any) (int, bool) {
			v, ok := popAny(s.(S))
			return index(v), ok
		},
		length: func(s any) int { return length(s.(S)) },
		raw: func(s any) []int {
			out := []int{}
			for v := range s.(S) {
				out = append(out, index(v))
			}
			sort.Ints(out)
			return out
		},
		zero: index(zero),
	}
}

type setOp struct {
	Op    string
	A, B  int // sets
	To    int // where a new set goes
	Items []int
}

type setsCase struct {
	Type string
	Ops  []setOp
}

const registers = 4

func TestC32(t *testing.T) {
	names := make([]string, 0, len(setOps))
	for n := range setOps {
		names = append(names, n)
	}
	sort.Strings(names)
	opNames := []string{"new", "keyset", "insert", "insert", "insert", "delete", "has", "hasall", "hasany", "difference", "union", "intersection", "superset", "equal", "list", "pop", "popall"}
	kit.Run(t, kit.Spec[setsCase]{
		ID:   "C32",
		Rule: "one of the six element types and a history of up to 25 operations over four sets, whose results become operands; the model is a set of element indices; non-trivial: an operation of two sets, neither empty, that differ",
		Gen: func(t *rapid.T) setsCase {
			c := setsCase{Type: rapid.SampledFrom(names).Draw(t, "type")}
			reg := rapid.IntRange(0, registers-1)
			for i := rapid.IntRange(0, 3).Draw(t, "made"); i > 0; i-- {
				c.Ops = append(c.Ops, setOp{Op: rapid.SampledFrom([]string{"new", "keyset"}).Draw(t, "made by"), To: i, Items: genItems(t)})
			}
			if rapid.IntRange(0, 7).Draw(t, "alike") == 3 {
				// two sets that differ in little, compared
				l := genItems(t)
				m := append([]int(nil), l...)
				for i := rapid.IntRange(0, 2).Draw(t, "less"); i > 0 && len(m) > 0; i-- {
					k := rapid.IntRange(0, len(m)-1).Draw(t, "k")
					m = append(m[:k:k], m[k+1:]...)
				}
				for i := rapid.IntRange(0, 1).Draw(t, "more"); i > 0; i-- {
					m = append(m, rapid.IntRange(0, elements-1).Draw(t, "x"))
				}
				c.Ops = append(c.Ops, setOp{Op: "new", To: 0, Items: l}, setOp{Op: "new", To: 1, Items: m})
				for _, op := range []string{"superset", "equal", "intersection", "difference", "union"} {
					a := rapid.IntRange(0, 1).Draw(t, "first")
					c.Ops = append(c.Ops, setOp{Op: op, A: a, B: 1 - a, To: 2})
				}
			}
			for n := rapid.IntRange(1, 25).Draw(t, "n"); n > 0; n-- {
				c.Ops = append(c.Ops, setOp{
					Op: rapid.SampledFrom(opNames).Draw(t, "op"),
					A:  reg.Draw(t, "a"), B: reg.Draw(t, "b"), To: reg.Draw(t, "to"),
					Items: genItems(t),
				})
			}
			return c
		},
		Check: checkSets,
	})
}

func checkSets(r *kit.R, c setsCase) {
	r.Tag(c.Type)
	o := setOps[c.Type]()
	var real [registers]any
	var model [registers]map[int]bool
	for i := range real {
		real[i], model[i] = o.fresh(nil), map[int]bool{}
	}
	sorted := func(m map[int]bool) []int {
		out := []int{}
		for k := range m {
			out = append(out, k)
		}
		sort.Ints(out)
		return out
	}
	same := func(a, b []int) bool { return fmt.Sprint(a) == fmt.Sprint(b) }
	setOf := func(items []int) map[int]bool {
		m := map[int]bool{}
		for _, i := range items {
			m[i] = true
		}
		return m
	}
	where := ""
	bad := func(sig, format string, args ...any) {
		r.Failf(sig, "%s: %s: %s", c.Type, where, fmt.Sprintf(format, args...))
	}
	for i, op := range c.Ops {
		a, b, ma, mb := real[op.A], real[op.B], model[op.A], model[op.B]
		where = fmt.Sprintf("step %d %s of %v and %v, items %v", i, op.Op, sorted(ma), sorted(mb), op.Items)
		want := map[int]bool{}
		truth := func(sig string, got, want bool) {
			if got != want {
				bad(sig, "%v instead of %v", got, want)
			}
		}
		superset := func(x, y map[int]bool) bool {
			for k := range y {
				if !x[k] {
					return false
				}
			}
			return true
		}
		switch op.Op {
		case "new":
			real[op.To], model[op.To] = o.fresh(op.Items), setOf(op.Items)
		case "keyset":
			real[op.To], model[op.To] = o.keySet(op.Items), setOf(op.Items)
		case "insert":
			ret := o.insert(a, op.Items)
			for _, x := range op.Items {
				ma[x] = true
			}
			if !same(o.raw(ret), sorted(ma)) {
				bad("insert", "returned %v", o.raw(ret))
			}
		case "delete":
			ret := o.delete(a, op.Items)
			for _, x := range op.Items {
				delete(ma, x)
			}
			if !same(o.raw(ret), sorted(ma)) {
				bad("delete", "returned %v", o.raw(ret))
			}
		case "has":
			for x := 0; x < elements; x++ {
				truth("has", o.has(a, x), ma[x])
			}
		case "hasall":
			truth("hasall", o.hasAll(a, op.Items), superset(ma, setOf(op.Items)))
		case "hasany":
			any := false
			for _, x := range op.Items {
				any = any || ma[x]
			}
			truth("hasany", o.hasAny(a, op.Items), any)
		case "difference", "union", "intersection":
			var res any
			switch op.Op {
			case "difference":
				res = o.difference(a, b)
				for k := range ma {
					if !mb[k] {
						want[k] = true
					}
				}
			case "union":
				res = o.union(a, b)
				for k := range ma {
					want[k] = true
				}
				for k := range mb {
					want[k] = true
				}
			default:
				res = o.intersection(a, b)
				for k := range ma {
					if mb[k] {
						want[k] = true
					}
				}
			}
			if !same(o.raw(res), sorted(want)) {
				bad(op.Op, "gives %v instead of %v", o.raw(res), sorted(want))
			}
			real[op.To], model[op.To] = res, want
			if len(ma) > 0 && len(mb) > 0 && !same(sorted(ma), sorted(mb)) {
				r.NonTrivial()
				r.Tag(op.Op)
			}
		case "superset":
			truth("superset", o.superset(a, b), superset(ma, mb))
		case "equal":
			truth("equal", o.equal(a, b), same(sorted(ma), sorted(mb)))
		case "list":
			if got := o.list(a); !same(got, sorted(ma)) {
				bad("list", "lists %v instead of %v", got, sorted(ma))
			}
			got := o.unsorted(a)
			sort.Ints(got)
			if !same(got, sorted(ma)) {
				bad("unsortedlist", "lists %v instead of %v", got, sorted(ma))
			}
		case "pop", "popall":
			for n := 0; ; n++ {
				x, ok := o.popAny(a)
				if ok != (len(ma) > 0) {
					bad("pop", "says %v with %v left", ok, sorted(ma))
				}
				if !ok {
					if x != o.zero {
						bad("pop", "an empty set gave element %d", x)
					}
					break
				}
				if !ma[x] {
					bad("pop", "gave %d, which is not among %v", x, sorted(ma))
				}
				delete(ma, x)
				if op.Op == "pop" {
					break
				}
			}
		}
		// every set is what it should be: operations leave their operands alone, and no two sets are one
		for k := range real {
			if !same(o.raw(real[k]), sorted(model[k])) || o.length(real[k]) != len(model[k]) {
				bad("state", "set %d is now %v (length %d) instead of %v", k, o.raw(real[k]), o.length(real[k]), sorted(model[k]))
			}
		}
	}
}
