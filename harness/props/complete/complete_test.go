package complete

import (
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/prometheus/prometheus/promql/parser"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
)

// Typed is a query and the points of typing it at which completion is asked.
type Typed struct {
	X     Index
	Q     []Tok
	Cuts  []int // per token: how much of it is typed when completion is asked (-1: not asked)
	Fresh bool  // forget the parser's history before every question
	After string
}

func genTyped(t *rapid.T) Typed {
	x := genIndex(t)
	q := genQuery(t, x)
	c := Typed{X: x, Q: q}
	for i, k := range q {
		if i >= 14 && i < len(q)-14 || len(q) > 60 && i >= 4 && i < len(q)-6 {
			c.Cuts = append(c.Cuts, -1)
			continue
		}
		n := rapid.IntRange(-1, 3).Draw(t, "cut")
		if n > 1 {
			n = rapid.IntRange(0, len(k.S)).Draw(t, "len")
		}
		if n > len(k.S) {
			n = len(k.S)
		}
		c.Cuts = append(c.Cuts, n)
	}
	c.Fresh = rapid.IntRange(0, 3).Draw(t, "fresh") == 0
	c.After = rapid.SampledFrom([]string{"", " ", " + 1", ")", " by (x)"}).Draw(t, "after")
	return c
}

// C12: whatever the next word of a valid query is, it is offered while it is typed.
func TestC12(t *testing.T) {
	kit.Run(t, kit.Spec[Typed]{
		ID:   "C12",
		Rule: "a typed grammar generates a valid query (accepted by the Prometheus parser) over a generated index, and completion is asked while its tokens are typed, at generated lengths; non-trivial when at least two offered words of at least two classes were judged",
		Gen:  genTyped,
		Check: func(r *kit.R, c Typed) {
			full := text(c.Q)
			if _, err := parser.ParseExpr(full); err != nil {
				r.Tag("not a valid query")
				return
			}
			co := newCompleter(c.X)
			forget(co)
			before := ""
			seen := map[string]bool{}
			judged := 0
			for i, k := range c.Q {
				if k.K == "end" {
					break // the completer's language ends here
				}
				before += k.Pre
				if i < len(c.Cuts) && c.Cuts[i] >= 0 {
					n := c.Cuts[i]
					if n > len(k.S) {
						n = len(k.S)
					}
					if judge(r, co, c, before, k, n) {
						seen[k.K] = true
						judged++
						r.Tag(k.K)
					}
				}
				before += k.S
			}
			if judged >= 2 && len(seen) >= 2 {
				r.NonTrivial()
			}
		},
	})
}

func judge(r *kit.R, co interface {
	comp
}, c Typed, before string, k Tok, n int) bool {
	want := k.S
	kind := ""
	switch {
	case k.K == "units" || k.K == "sub":
		if strings.HasSuffix(before, " :") {
			// recorded, not repaired: the colon right before the number is part of
			// the completion prefix, so that the parser has not seen it
			r.Tag("a resolution whose colon has a space only before it")
			if !r.KnownInput() {
				return false
			}
		}
		want = k.S[len(k.S)-1:]
		kind = "time-unit"
		n = len(k.S) - 1
	case k.K == "group-label" && k.M == "":
		return false
	case wordClass[k.K]:
		if k.K == "label" {
			kind = "metric-label"
		}
		if n > 0 && strings.ContainsAny(k.S[:n], separators) {
			n = 0
		}
		for n > 0 && n < len(k.S) && k.S[n]&0xC0 == 0x80 {
			n--
		}
	case opClass[k.K]:
		n = 0
		if before != "" && !strings.ContainsAny(before[len(before)-1:], separators) {
			return false
		}
	default:
		return false
	}
	q := before + k.S[:n]
	if c.Fresh {
		forget(co)
	}
	got := ask(r, co, q+c.After, len(q))
	for _, s := range got {
		if s.v == want && (kind == "" || s.kind == kind) {
			return true
		}
	}
	r.Failf("missing-"+k.K, "typing %s: after %s the completer does not offer %s (%s); it offers %s", strconv.Quote(text(c.Q)), strconv.Quote(q), want, k.K, show(got))
	return false
}

// C13: what is offered can be written there.
type Sound struct {
	X    Index
	Q    []Tok
	Mut  []Mut
	Cut  int // token before which completion is asked
	Typd int // how much of the token is typed
}

// Mut replaces one token of the query, to leave the completer's own language.
type Mut struct {
	At int
	By string
}

var foreign = []string{"@ 100", "@ start()", "offset -5m", "atan2", "@ end()", "group(up)", "up{}", "{a=\"b\"}", "(up)", "topk(5, up)", "-up", "inf", "nan",
	"last_over_time(up[5m])", "count_values(\"x\", up)", "sgn(up)", "\"str\"", "up[5m:]", "by", "1h", "@", "atan2 ", "bool", "start", "end", "group", "up{a=\"1\",}", "(1)", "- -1", "+-up", "#c", "sum(up) by"}

func genSound(t *rapid.T) Sound {
	x := genIndex(t)
	c := Sound{X: x, Q: genQuery(t, x)}
	if rapid.IntRange(0, 1).Draw(t, "mutate") == 1 {
		for i, k := 0, rapid.IntRange(1, 2).Draw(t, "nmut"); i < k; i++ {
			m := Mut{rapid.IntRange(0, len(c.Q)-1).Draw(t, "at"), rapid.SampledFrom(foreign).Draw(t, "by")}
			if op := c.Q[m.At]; op.K == "arith" || op.K == "cmp" {
				m.By = "atan2"
			}
			c.Mut = append(c.Mut, m)
		}
	}
	if len(c.Mut) > 0 && rapid.Bool().Draw(t, "after") {
		c.Cut = c.Mut[0].At + 1
	} else {
		c.Cut = rapid.IntRange(0, len(c.Q)).Draw(t, "cut")
	}
	c.Typd = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "typed")
	return c
}

// closed is q with the brackets that are open in it closed.
func closed(q string) string {
	var open []byte
	var quote byte
	for i := 0; i < len(q); i++ {
		c := q[i]
		switch {
		case quote != 0:
			if c == '\\' && quote != '`' {
				i++
			} else if c == quote {
				quote = 0
			}
		case c == '"' || c == '\'' || c == '`':
			quote = c
		case c == '(':
			open = append(open, ')')
		case c == '{':
			open = append(open, '}')
		case c == '[':
			open = append(open, ']')
		case (c == ')' || c == '}' || c == ']') && len(open) > 0:
			open = open[:len(open)-1]
		}
	}
	for i := len(open) - 1; i >= 0; i-- {
		q += string(open[i])
	}
	return q
}

// viable says whether q is the start of some query, as far as the Prometheus
// parser's syntax (not its typing rules) is concerned.
func viable(q string) (bool, string) {
	_, err := parser.ParseExpr(q)
	if err == nil {
		return true, ""
	}
	var errs parser.ParseErrors
	if e, ok := err.(parser.ParseErrors); ok {
		errs = e
	} else {
		return false, err.Error()
	}
	for _, e := range errs {
		m := e.Err.Error()
		switch {
		case strings.Contains(m, "unexpected end of input"), strings.Contains(m, "unclosed left"), strings.Contains(m, "no expression found in input"),
			strings.Contains(m, "missing unit character in duration"):
			// more text can still mend it
		case strings.HasPrefix(m, "unexpected "), strings.HasPrefix(m, "unknown function"), strings.HasPrefix(m, "bad "), strings.HasPrefix(m, "unterminated"),
			strings.HasPrefix(m, "unrecognized"), strings.HasPrefix(m, "invalid "), strings.HasPrefix(m, "bool modifier can only"),
			strings.HasPrefix(m, "offset m"), strings.HasPrefix(m, "ranges only allowed for"), strings.HasPrefix(m, "no grouping allowed"):
			return false, m
		}
	}
	return true, ""
}

var groupSide = regexp.MustCompile(`group_(left|right)\s*$`)

// inGroupSide says whether a parenthesis that directly follows group_left or
// group_right is still open at the end of q.
func inGroupSide(q string) bool {
	var open []bool
	for i := 0; i < len(q); i++ {
		switch q[i] {
		case '(':
			open = append(open, groupSide.MatchString(q[:i]))
		case ')':
			if len(open) > 0 {
				open = open[:len(open)-1]
			}
		}
	}
	for _, o := range open {
		if o {
			return true
		}
	}
	return false
}

func TestC13(t *testing.T) {
	kit.Run(t, kit.Spec[Sound]{
		ID:   "C13",
		Rule: "a query of the completer's own language, half of them with tokens replaced by other PromQL, is cut at a generated place; every suggestion there is written out and must leave something the Prometheus parser can still read on from, and names and values must be the index's; non-trivial when at least one suggestion was judged",
		Gen:  genSound,
		Check: func(r *kit.R, c Sound) {
			q := ""
			inner := ""
			var at Tok
			for i, k := range c.Q {
				if i == c.Cut {
					at = k
					q += k.Pre
					n := c.Typd
					if n > len(k.S) {
						n = len(k.S)
					}
					if wordClass[k.K] && !strings.ContainsAny(k.S[:n], separators) {
						for n > 0 && n < len(k.S) && k.S[n]&0xC0 == 0x80 {
							n--
						}
						inner = k.S[:n]
					}
					if k.K == "units" {
						inner = k.S[:len(k.S)-1]
					}
					break
				}
				s := k.S
				for _, m := range c.Mut {
					if m.At == i {
						s = m.By
					}
				}
				if s == "=~" || s == "!~" || s == "=" || s == "!=" {
					s += " "
				}
				q += k.Pre + s
			}
			if q != "" && inner != "" && !strings.ContainsAny(q[len(q)-1:], separators) {
				q += " "
			}
			if at.K == "" || !strings.HasSuffix(q, " ") && at.K != "label" && at.K != "value" {
				q += " "
			}
			if at.K == "units" || at.K == "sub" {
				q = strings.TrimRight(q, " ")
				if !strings.HasSuffix(q, "[") {
					q += " "
				}
			}
			if ok, _ := viable(q); !ok {
				r.Tag("not the start of a query")
				return
			}
			if inGroupSide(q) {
				// recorded, not repaired: the completer (and its tests) take what
				// follows group_left( for an expression as well as a label list
				r.Tag("in the parenthesis after group_left or group_right")
				if !r.KnownInput() {
					return
				}
			}
			co := newCompleter(c.X)
			forget(co)
			got := ask(r, co, q+inner, len(q+inner))
			if len(got) > 0 {
				r.NonTrivial()
			} else {
				r.Tag("nothing offered")
			}
			for i := 1; i < len(got); i++ {
				if got[i-1].v < got[i].v {
					r.Failf("order", "suggestions for %q are not in descending order: %q before %q", q+inner, got[i-1].v, got[i].v)
				}
			}
			for _, s := range got {
				written := q + s.v + " "
				switch {
				case s.kind == "time-unit":
					written = q + inner + s.v + " "
					if strings.HasSuffix(q, "[") {
						written = q + inner + s.v + "]"
					}
				case !strings.HasPrefix(s.v, inner):
					r.Failf("prefix", "after %q: %q is offered for the prefix %q", q, s.v, inner)
				}
				switch s.v { // the parser only looks at these when they are whole
				case "offset":
					written = closed(written + "1m ")
				case "group_left", "group_right":
					written = closed(written + "up ")
				}
				r.Tag(s.kind)
				ok, why := viable(written)
				if !ok && strings.HasSuffix(written, "]") {
					ok, _ = viable(strings.TrimSuffix(written, "]") + ":]")
				}
				if !ok {
					r.Failf("unsound-"+s.kind, "after %q the completer offers %s (%s), but %q cannot become a query: %s", q+inner, s.v, s.kind, written, why)
				}
				if s.kind == "metric-id" && !strings.HasPrefix(s.v, `"`) {
					if _, ok := c.X[s.v]; !ok {
						r.Failf("metric-not-in-index", "after %q: %q is offered as a metric, but is none", q+inner, s.v)
					}
				}
			}
			if len(c.Mut) > 0 {
				return
			}
			for i, k := range c.Q {
				if i < c.Cut && k.K == "end" {
					return // no longer the completer's language
				}
			}
			var want []string
			switch at.K {
			case "label":
				want = c.X.labels(at.M)
			case "value":
				for _, v := range c.X[at.M][at.L] {
					want = append(want, strconv.Quote(v))
				}
			default:
				return
			}
			wm := map[string]bool{}
			for _, w := range want {
				if strings.HasPrefix(w, inner) {
					wm[w] = true
				}
			}
			for _, s := range got {
				if !wm[s.v] {
					r.Failf("foreign-"+at.K, "after %q: %q is offered as a %s of %s%s, which has %v", q+inner, s.v, at.K, at.M, at.L, want)
				}
				delete(wm, s.v)
			}
			for w := range wm {
				r.Failf("short-"+at.K, "after %q: %q is not offered, of %v", q+inner, w, want)
			}
			r.Tag("exact-" + at.K)
		},
	})
}
