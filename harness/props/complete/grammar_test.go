package complete

import (
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// Tok is one token of a generated query, with what the completer owes for it.
type Tok struct {
	S    string // text
	K    string // class: what should be offered where it starts
	M    string `json:",omitempty"` // the metric whose label or label value this is
	L    string `json:",omitempty"` // the label whose value this is
	Pre  string // white space written before it
	Over string `json:",omitempty"` // subquery resolution: the text since the last separator
}

// Classes that the completer offers by name, at any point of typing the word.
var wordClass = map[string]bool{"metric": true, "aggr": true, "func": true, "label": true, "group-label": true, "value": true,
	"aggrkw": true, "bool": true, "offset": true, "groupkw": true, "groupside": true, "set": true}

// Classes that are offered before their first character is typed.
var opClass = map[string]bool{"arith": true, "cmp": true, "match": true, "unary": true}

type qg struct {
	t    *rapid.T
	x    Index
	ms   []string
	out  []Tok
	last string // a metric precedes
	// tight: no white space around operators
	tight bool
	// airy: white space inside range brackets
	airy bool
}

func (g *qg) n(lo, hi int) int       { return rapid.IntRange(lo, hi).Draw(g.t, "n") }
func (g *qg) chance(one int) bool    { return g.n(1, one) == 1 }
func (g *qg) pick(l []string) string { return rapid.SampledFrom(l).Draw(g.t, "pick") }
func (g *qg) emit(k, s string)       { g.out = append(g.out, Tok{S: s, K: k, Pre: g.space(k, s)}) }
func (g *qg) emitM(k, s, m, l string) {
	g.out = append(g.out, Tok{S: s, K: k, M: m, L: l, Pre: g.space(k, s)})
}

func wordlike(s string) bool {
	c := s[len(s)-1]
	return c == '_' || c == ':' || c == '"' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// Operators and words get a space before them; punctuation only sometimes.
func (g *qg) space(k, s string) string {
	if len(g.out) == 0 {
		return ""
	}
	prev := g.out[len(g.out)-1]
	need := false
	switch {
	case opClass[k] && (prev.K != "punct" || prev.S == "[" || prev.S == ":"):
		need = k != "unary"
	case opClass[prev.K] && k != "value":
		need = prev.K != "unary"
	case wordlike(prev.S) && wordlike(s) && k != "value":
		need = true
	}
	if (k == "units" || k == "sub" || s == ":" || s == "]") && g.airy {
		return g.pick([]string{"", "", " "})
	}
	if k == "units" || k == "sub" || s == ":" || s == "[" || s == "]" {
		return ""
	}
	if g.tight && (opClass[k] || opClass[prev.K]) && !(wordlike(prev.S) && wordlike(s) && prev.K != "match") {
		return ""
	}
	if need {
		return g.pick([]string{" ", " ", "  "})
	}
	if !g.tight && g.chance(4) {
		return " "
	}
	return ""
}

var (
	aggrs    = []string{"sum", "max", "min", "avg", "stddev", "stdvar", "count"}
	setOps   = []string{"and", "or", "unless"}
	arith    = []string{"+", "-", "*", "/", "%", "^"}
	cmps     = []string{"==", "!=", ">", "<", ">=", "<="}
	units    = []string{"s", "m", "h", "d", "w", "y"}
	instants = []string{"abs", "absent", "ceil", "exp", "floor", "ln", "log10", "log2", "round", "sort", "sort_desc", "sqrt", "timestamp", "day_of_month", "day_of_week", "days_in_month", "hour", "minute", "month", "year"}
	ranges   = []string{"absent_over_time", "avg_over_time", "changes", "count_over_time", "delta", "deriv", "idelta", "increase", "irate", "max_over_time", "min_over_time", "rate", "resets", "stddev_over_time", "stdvar_over_time", "sum_over_time"}
)

// query draws a complete query of the completer's own language.
func genQuery(t *rapid.T, x Index) []Tok {
	switch rapid.IntRange(0, 511).Draw(t, "chain") {
	case 387:
		return genChain(t, x)
	case 388:
		return genMatchers(t, x)
	}
	q := genDepth(t, x, rapid.IntRange(0, 3).Draw(t, "depth"))
	if len(q) > 40 {
		q = genDepth(t, x, 1)
	}
	return q
}

// genChain is a long sum of metrics inside an aggregation: its items span the whole line.
func genChain(t *rapid.T, x Index) []Tok {
	g := &qg{t: t, x: x, ms: x.metrics(), tight: rapid.Bool().Draw(t, "tight")}
	g.emit("aggr", g.pick(aggrs))
	g.emit("punct", "(")
	for i, k := 0, g.n(12, 24); i < k; i++ {
		if i > 0 {
			g.emit("arith", g.pick(arith))
		}
		g.last = g.pick(g.ms)
		g.emit("metric", g.last)
	}
	g.emit("punct", ")")
	g.emit("aggrkw", g.pick([]string{"by", "without"}))
	g.grouping()
	return g.out
}

// genMatchers is one selector with many matchers: a long line that parses quickly.
func genMatchers(t *rapid.T, x Index) []Tok {
	g := &qg{t: t, x: x, ms: x.metrics()}
	m := g.pick(g.ms)
	g.last = m
	g.emit("metric", m)
	g.emit("punct", "{")
	for i, k := 0, g.n(15, 22); i < k; i++ {
		if i > 0 {
			g.emit("punct", ",")
		}
		l := g.pick(g.x.labels(m))
		g.emitM("label", l, m, "")
		g.emit("match", g.pick([]string{"=", "!=", "=~", "!~"}))
		g.emitM("value", strconv.Quote(g.pick(g.x[m][l])), m, l)
	}
	g.emit("punct", "}")
	return g.out
}

func genDepth(t *rapid.T, x Index, d int) []Tok {
	g := &qg{t: t, x: x, ms: x.metrics(), tight: rapid.IntRange(0, 2).Draw(t, "tight") == 0, airy: rapid.IntRange(0, 5).Draw(t, "airy") == 0}
	switch g.n(0, 11) {
	case 0:
		g.scalar(d)
	case 1:
		g.matrix(d)
	case 2:
		g.emit("unary", g.pick([]string{"-", "+"}))
		if g.chance(4) {
			g.scalar(d)
		} else {
			g.vector(d)
		}
	default:
		g.vector(d)
	}
	return g.out
}

func text(toks []Tok) string {
	var sb strings.Builder
	for _, k := range toks {
		sb.WriteString(k.Pre)
		sb.WriteString(k.S)
	}
	return sb.String()
}

func (g *qg) number() string      { return g.pick([]string{"1", "2", "0.5", "10", "300", "1e3", "0x1f"}) }
func (g *qg) pickn(up ...int) int { return g.n(91, up[g.n(0, len(up)-1)]) }
func (g *qg) dur() string {
	n := strconv.Itoa(g.n(1, 90))
	switch g.n(0, 7) {
	case 0:
		return strconv.Itoa(g.pickn(999, 9999, 99999, 999999)) + g.pick(units[:4])
	case 1:
		return g.pick([]string{"0", "00"}) + n + g.pick(units)
	}
	return n + g.pick(units)
}

func (g *qg) scalar(d int) {
	if d <= 0 {
		if g.chance(4) {
			g.emit("func", "time")
			g.emit("punct", "(")
			g.emit("punct", ")")
			return
		}
		g.emit("num", g.number())
		return
	}
	switch g.n(0, 5) {
	case 0:
		g.scalar(d - 1)
		g.emit("arith", g.pick(arith))
		g.scalar(d - 1)
	case 1:
		g.scalar(d - 1)
		g.emit("cmp", g.pick(cmps))
		g.emit("bool", "bool")
		g.scalar(d - 1)
	case 2:
		g.emit("punct", "(")
		g.scalar(d - 1)
		g.emit("arith", g.pick(arith))
		g.scalar(d - 1)
		g.emit("punct", ")")
	case 3:
		g.emit("func", "scalar")
		g.emit("punct", "(")
		if g.chance(4) {
			g.emit("unary", "-")
		}
		g.vector(d - 1)
		g.emit("punct", ")")
	case 4:
		g.emit("punct", "(")
		g.emit("unary", g.pick([]string{"-", "+"}))
		g.scalar(d - 1)
		g.emit("punct", ")")
	default:
		g.scalar(0)
	}
}

func (g *qg) selector() {
	m := g.pick(g.ms)
	g.emit("metric", m)
	g.last = m
	if g.chance(2) {
		g.emit("punct", "{")
		for i, k := 0, g.n(1, 3); i < k; i++ {
			if i > 0 {
				g.emit("punct", ",")
			}
			l := g.pick(g.x.labels(m))
			g.emitM("label", l, m, "")
			g.emit("match", g.pick([]string{"=", "!=", "=~", "!~"}))
			g.emitM("value", strconv.Quote(g.pick(g.x[m][l])), m, l)
		}
		g.emit("punct", "}")
	}
}

func (g *qg) offset() {
	g.emit("offset", "offset")
	g.emit("units", g.dur())
	g.out[len(g.out)-1].Pre = " "
}

func (g *qg) matrix(d int) {
	if d > 0 && g.chance(3) {
		g.vector(d - 1)
		g.emit("punct", "[")
		g.emit("units", g.dur())
		g.emit("punct", ":")
		if g.chance(2) {
			over := g.out[len(g.out)-2].S + ":"
			g.emit("sub", g.dur())
			g.out[len(g.out)-1].Over = over
		}
		g.emit("punct", "]")
	} else {
		g.selector()
		g.emit("punct", "[")
		g.emit("units", g.dur())
		g.emit("punct", "]")
	}
	if g.chance(4) {
		g.offset()
	}
}

// grouping writes a label list; label names are only owed when a metric precedes.
func (g *qg) grouping() {
	g.emit("punct", "(")
	k := g.n(0, 2)
	for i := 0; i < k; i++ {
		if i > 0 {
			g.emit("punct", ",")
		}
		g.emitM("group-label", "common", g.last, "")
	}
	if k > 0 && g.chance(5) {
		g.emit("punct", ",")
	}
	g.emit("punct", ")")
}

func (g *qg) vector(d int) {
	if d <= 0 {
		g.selector()
		if g.chance(5) {
			g.offset()
		}
		return
	}
	switch g.n(0, 9) {
	case 0, 1, 2:
		if g.n(0, 9) == 0 {
			// an aggregation with a parameter: up to the parameter, the completer's language has it
			g.emit("aggr", g.pick([]string{"topk", "bottomk", "quantile"}))
			g.emit("punct", "(")
			g.emit("func", "scalar")
			g.emit("punct", "(")
			g.vector(0)
			g.emit("punct", ")")
			g.emit("end", ",")
			g.vector(0)
			g.emit("punct", ")")
			return
		}
		g.emit("aggr", g.pick(aggrs))
		before, after := g.chance(4), g.chance(2)
		if before {
			g.emit("aggrkw", g.pick([]string{"by", "without"}))
			g.grouping()
		}
		g.emit("punct", "(")
		g.vector(d - 1)
		g.emit("punct", ")")
		if after && !before {
			g.emit("aggrkw", g.pick([]string{"by", "without"}))
			g.grouping()
		}
	case 3:
		g.emit("func", g.pick(instants))
		g.emit("punct", "(")
		g.vector(d - 1)
		g.emit("punct", ")")
	case 4:
		g.emit("func", g.pick(ranges))
		g.emit("punct", "(")
		g.matrix(d - 1)
		g.emit("punct", ")")
	case 5:
		switch g.n(0, 4) {
		case 0:
			g.emit("func", "vector")
			g.emit("punct", "(")
			g.scalar(d - 1)
			g.emit("punct", ")")
		case 1:
			g.emit("func", g.pick([]string{"clamp_max", "clamp_min", "round"}))
			g.emit("punct", "(")
			g.vector(d - 1)
			g.emit("punct", ",")
			g.scalar(d - 1)
			g.emit("punct", ")")
		case 2:
			g.emit("func", g.pick([]string{"quantile_over_time"}))
			g.emit("punct", "(")
			g.scalar(d - 1)
			g.emit("punct", ",")
			g.matrix(d - 1)
			g.emit("punct", ")")
		case 3:
			g.emit("func", "histogram_quantile")
			g.emit("punct", "(")
			g.scalar(d - 1)
			g.emit("punct", ",")
			g.vector(d - 1)
			g.emit("punct", ")")
		default:
			g.emit("func", g.pick([]string{"predict_linear"}))
			g.emit("punct", "(")
			g.matrix(d - 1)
			g.emit("punct", ",")
			g.scalar(d - 1)
			g.emit("punct", ")")
		}
	case 6:
		g.vector(d - 1)
		g.emit("set", g.pick(setOps))
		if g.chance(3) {
			g.emit("groupkw", g.pick([]string{"on", "ignoring"}))
			g.grouping()
		}
		g.vector(d - 1)
	case 7:
		paren := g.chance(2)
		if paren {
			g.emit("punct", "(")
		}
		g.vector(d - 1)
		g.binop()
		if g.chance(3) {
			g.emit("groupkw", g.pick([]string{"on", "ignoring"}))
			g.grouping()
			if g.chance(2) {
				g.emit("groupside", g.pick([]string{"group_left", "group_right"}))
				if g.chance(2) {
					g.grouping()
				}
			}
		}
		g.vector(d - 1)
		if paren {
			g.emit("punct", ")")
		}
	case 8:
		if g.chance(2) {
			g.vector(d - 1)
			g.binop()
			g.scalar(d - 1)
		} else {
			g.scalar(d - 1)
			g.binop()
			g.vector(d - 1)
		}
	default:
		g.emit("punct", "(")
		g.emit("unary", "-")
		g.vector(d - 1)
		g.emit("punct", ")")
	}
}

func (g *qg) binop() {
	if g.chance(2) {
		g.emit("arith", g.pick(arith))
		return
	}
	g.emit("cmp", g.pick(cmps))
	if g.chance(3) {
		g.emit("bool", "bool")
	}
}
