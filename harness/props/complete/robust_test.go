package complete

import (
	"regexp"
	"strings"
	"testing"
	"unicode/utf8"

	"pgregory.net/rapid"

	"sigs.k8s.io/instrumentation-tools/promq/autocomplete"
	"verif.local/harness/kit"
)

type comp = autocomplete.PromQLCompleter

// Ask is one question to the completer.
type Ask struct {
	Q   string
	Pos int
}

// Session is what one user asked, in order, in one process.
type Session struct {
	X    Index
	Asks []Ask
}

var soup = []string{"sum", "by", "(", ")", "{", "}", "[", "]", ",", "=", "!=", "=~", "\"", "'", "`", "\"x\"", "up", "foo", "5m", "5", ":", "offset", "bool", "on", "ignoring",
	"group_left", "rate", "time", "scalar", "and", "or", "unless", "+", "-", "*", "/", "^", "%", "==", ">", " ", " ", " ", "  ", "\t", "\n", "@", "#", "\\", "é", "日本", "\u00a0", "$", "!", "~", "<", "1e", "0x", "..", "inf", "NaN", "a:b", ":a", "_", "{{", "[[", "((", "label_replace", "1h30m", "\"\\", "\x00", "\ufffd", "topk", "without", "5m:1m", "start()", ";", "ª"}

func genText(t *rapid.T, x Index) string {
	if rapid.IntRange(0, 127).Draw(t, "long") == 77 { // a long list of names
		n := rapid.IntRange(15, 60).Draw(t, "items")
		m := rapid.SampledFrom(x.metrics()).Draw(t, "metric")
		switch rapid.IntRange(0, 2).Draw(t, "list") {
		case 0:
			return "sum(" + m + ") by (" + strings.Repeat("a,", n)
		case 1:
			return m + "{" + strings.Repeat("a=\"x\",", n/3)
		default:
			return strings.Repeat("abs(", n) + m
		}
	}
	switch rapid.IntRange(0, 5).Draw(t, "tk") {
	case 0:
		return strings.Join(rapid.SliceOfN(rapid.SampledFrom(soup), 0, 24).Draw(t, "soup"), "")
	case 1:
		return rapid.StringN(0, 24, -1).Draw(t, "str")
	case 2:
		return strings.Join(rapid.SliceOfN(rapid.SampledFrom(soup), 0, 16).Draw(t, "soup"), " ")
	default:
		q := genQuery(t, x)
		if rapid.Bool().Draw(t, "mutate") {
			for i, k := 0, rapid.IntRange(1, 3).Draw(t, "nmut"); i < k; i++ {
				j := rapid.IntRange(0, len(q)-1).Draw(t, "at")
				switch rapid.IntRange(0, 2).Draw(t, "how") {
				case 0:
					q[j].S = ""
				case 1:
					q[j].S = rapid.SampledFrom(soup).Draw(t, "by")
				default:
					q[j].S += rapid.SampledFrom(soup).Draw(t, "by")
				}
			}
		}
		return text(q)
	}
}

func genPos(t *rapid.T, q string) int {
	if rapid.Bool().Draw(t, "end") {
		return len(q)
	}
	p := rapid.IntRange(0, len(q)).Draw(t, "pos")
	for p < len(q) && !utf8.RuneStart(q[p]) {
		p++
	}
	return p
}

var wordRE = regexp.MustCompile(`[A-Za-z_0-9:]+`)

func rewordAt(t *rapid.T, x Index, q string) string {
	ws := wordRE.FindAllStringIndex(q, -1)
	if len(ws) == 0 {
		return q
	}
	// mostly the early words: they are the context of what follows
	i := 0
	if rapid.Bool().Draw(t, "anyword") {
		i = rapid.IntRange(0, len(ws)-1).Draw(t, "word")
	}
	w := q[ws[i][0]:ws[i][1]]
	switch rapid.IntRange(0, 4).Draw(t, "reword") {
	case 0:
		w = strings.ToUpper(w)
	case 1:
		w = strings.ToLower(w)
	case 2:
		w = rapid.SampledFrom(x.metrics()).Draw(t, "metric")
	case 3:
		b := []byte(w) // one of the same length
		b[rapid.IntRange(0, len(b)-1).Draw(t, "char")] = rapid.SampledFrom([]byte("aAbBmMxX1_")).Draw(t, "by")
		w = string(b)
	default:
		for _, m := range x.metrics() {
			if len(m) == len(w) && m != w {
				w = m
				break
			}
		}
	}
	return q[:ws[i][0]] + w + q[ws[i][1]:]
}

// contextPair is a line that stops where a label name or value is due, and the
// same line with one earlier name replaced, mostly by one of the same length.
func contextPair(t *rapid.T, x Index) (string, string, bool) {
	q := genQuery(t, x)
	var due []int
	for i, k := range q {
		if k.K == "label" || k.K == "value" || k.K == "group-label" {
			due = append(due, i)
		}
	}
	if len(due) == 0 {
		return "", "", false
	}
	at := rapid.SampledFrom(due).Draw(t, "due")
	q = q[:at+1]
	q[at].S = ""
	a := text(q)
	var names []int
	for i, k := range q[:at] {
		if k.K == "metric" || k.K == "label" || k.K == "aggr" || k.K == "func" || k.K == "group-label" {
			names = append(names, i)
		}
	}
	i := names[len(names)-1]
	if len(names) > 1 && rapid.Bool().Draw(t, "earlier") {
		i = rapid.SampledFrom(names).Draw(t, "name")
	}
	from := q[i].S
	pool := metricPool
	if q[i].K == "label" || q[i].K == "group-label" {
		pool = labelPool
	}
	var same []string
	for _, w := range pool {
		if len(w) == len(from) && w != from {
			same = append(same, w)
		}
	}
	if len(same) == 0 || rapid.IntRange(0, 3).Draw(t, "other") == 0 {
		b := []byte(from)
		b[rapid.IntRange(0, len(b)-1).Draw(t, "char")] = rapid.SampledFrom([]byte("aAbBmMxX1_")).Draw(t, "by")
		q[i].S = string(b)
	} else {
		q[i].S = rapid.SampledFrom(same).Draw(t, "by")
	}
	return a, text(q), true
}

// longPair is two lines of many words that differ in the last name only.
func longPair(t *rapid.T, x Index) []Ask {
	m := rapid.SampledFrom(x.metrics()).Draw(t, "metric")
	q := m + "{" + strings.Repeat(`common="c1",`, rapid.IntRange(4, 24).Draw(t, "matchers"))
	var out []Ask
	for i := 0; i < 2; i++ {
		a := q + rapid.SampledFrom(append(x.labels(m), "none")).Draw(t, "label") + "="
		out = append(out, Ask{a, len(a)})
	}
	return out
}

func genSession(t *rapid.T) Session {
	c := Session{X: genIndex(t)}
	if rapid.IntRange(0, 127).Draw(t, "long") == 77 {
		c.Asks = longPair(t, c.X)
		return c
	}
	n := rapid.IntRange(1, 6).Draw(t, "asks")
	q := ""
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 9).Draw(t, "next") {
		case 0:
			q = genText(t, c.X)
		case 8, 9: // where a name is asked for that depends on an earlier word, write that word anew
			if a, b, ok := contextPair(t, c.X); ok {
				c.Asks = append(c.Asks, Ask{a, len(a)}, Ask{b, len(b)})
				q = b
				continue
			}
		case 6, 7: // write another word in place of one, often one much like it
			q = rewordAt(t, c.X, q)
		case 1: // type on
			q += rapid.SampledFrom(soup).Draw(t, "more")
		case 2: // delete some
			p := genPos(t, q)
			q = q[:p]
		case 3: // edit in the middle
			p := genPos(t, q)
			q = q[:p] + rapid.SampledFrom(soup).Draw(t, "mid") + q[p:]
		case 4: // delete in the middle
			p := genPos(t, q)
			_, w := utf8.DecodeRuneInString(q[p:])
			q = q[:p] + q[p+w:]
		default: // move the cursor only
			if q == "" {
				q = genText(t, c.X)
			}
		}
		if len(q) > 300 {
			q = q[:0]
		}
		c.Asks = append(c.Asks, Ask{q, genPos(t, q)})
	}
	return c
}

func clip(a Ask) Ask {
	if a.Pos > len(a.Q) {
		a.Pos = len(a.Q)
	}
	return a
}

// C10: completion answers, whatever is on the line.
func TestC10(t *testing.T) {
	kit.Run(t, kit.Spec[Session]{
		ID:   "C10",
		Rule: "a session of completion requests over random text, token soup and mutated queries, typed on, deleted and edited in the middle; non-trivial when a line is not a valid query and has at least three tokens' worth of text",
		Gen:  genSession,
		Check: func(r *kit.R, c Session) {
			co := newCompleter(c.X)
			forget(co)
			for _, a := range c.Asks {
				a = clip(a)
				got := ask(r, co, a.Q, a.Pos)
				if len(a.Q[:a.Pos]) > 5 {
					r.NonTrivial()
				}
				if len(got) > 0 {
					r.Tag("suggested")
				} else {
					r.Tag("silent")
				}
				for _, s := range got {
					if s.v == "" {
						r.Failf("empty", "an empty suggestion (%s) for %q", s.kind, a.Q[:a.Pos])
					}
				}
			}
		},
	})
}

// C11: what is suggested depends on the line, not on what was asked before.
func TestC11(t *testing.T) {
	kit.Run(t, kit.Spec[Session]{
		ID:   "C11",
		Rule: "a session of completion requests as in C10; every answer is compared with the answer of a parser that has parsed nothing before, and text after the cursor must not matter; non-trivial when at least two requests share their first token and suggest something",
		Gen:  genSession,
		Check: func(r *kit.R, c Session) {
			co := newCompleter(c.X)
			// the answers of a parser with no history
			var want []string
			n := 0
			for _, a := range c.Asks {
				a = clip(a)
				forget(co)
				s := ask(r, co, a.Q[:a.Pos], a.Pos)
				want = append(want, canon(s))
				if len(s) > 0 {
					n++
				}
			}
			if n >= 2 {
				r.NonTrivial()
			}
			forget(co)
			for i, a := range c.Asks {
				a = clip(a)
				got := canon(ask(r, co, a.Q, a.Pos))
				if got != want[i] {
					r.Failf("history", "request %d of the session, %q: suggestions differ from those of a fresh parser\n after this history: %s\n fresh: %s", i, a.Q[:a.Pos], strings.ReplaceAll(got, "\x00", " "), strings.ReplaceAll(want[i], "\x00", " "))
				}
				again := canon(ask(r, co, a.Q, a.Pos))
				if again != got {
					r.Failf("repeat", "asking for %q twice in a row gives different suggestions", a.Q[:a.Pos])
				}
			}
		},
	})
}
