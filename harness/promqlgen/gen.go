// Package promqlgen generates well-typed PromQL over a small vocabulary.
package promqlgen

import (
	"fmt"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// Vocab is what selectors may mention.
type Vocab struct {
	Metrics []string
	Labels  []string
	Values  []string
	Regexps []string
}

type g struct {
	t *rapid.T
	v Vocab
}

// Query draws an instant-vector or scalar expression.
func Query(t *rapid.T, v Vocab) string {
	x := g{t, v}
	d := rapid.IntRange(0, 3).Draw(t, "depth")
	if rapid.IntRange(0, 9).Draw(t, "scalar") == 0 {
		return x.scalar(d)
	}
	return x.vector(d)
}

func (x g) pick(l []string) string { return rapid.SampledFrom(l).Draw(x.t, "pick") }
func (x g) n(lo, hi int) int       { return rapid.IntRange(lo, hi).Draw(x.t, "n") }
func (x g) chance(one int) bool    { return x.n(1, one) == 1 }
func (x g) dur() string            { return x.pick([]string{"30s", "1m", "90s", "5m", "10m", "1h"}) }

func (x g) matchers() string {
	var ms []string
	for i, k := 0, x.n(0, 2); i < k; i++ {
		switch x.n(0, 3) {
		case 0:
			ms = append(ms, x.pick(x.v.Labels)+`="`+x.pick(x.v.Values)+`"`)
		case 1:
			ms = append(ms, x.pick(x.v.Labels)+`!="`+x.pick(x.v.Values)+`"`)
		case 2:
			ms = append(ms, x.pick(x.v.Labels)+`=~"`+x.pick(x.v.Regexps)+`"`)
		default:
			ms = append(ms, x.pick(x.v.Labels)+`!~"`+x.pick(x.v.Regexps)+`"`)
		}
	}
	return strings.Join(ms, ",")
}

func (x g) selector() string {
	ms := x.matchers()
	switch x.n(0, 7) {
	case 0:
		if ms != "" {
			ms = "," + ms
		}
		return `{__name__=~"` + x.pick([]string{".+", "m.*", "up|m1", ".*[0-9]"}) + `"` + ms + `}`
	default:
		m := x.pick(x.v.Metrics)
		if ms != "" || x.chance(6) {
			return m + "{" + ms + "}"
		}
		return m
	}
}

func (x g) offset() string {
	if x.chance(6) {
		return " offset " + x.dur()
	}
	return ""
}

func (x g) matrix(d int) string {
	if d > 0 && x.chance(4) {
		return x.vector(d-1+0) + "[" + x.dur() + ":" + x.pick([]string{"30s", "1m", "17s"}) + "]" + x.offset()
	}
	return x.selector() + "[" + x.dur() + "]" + x.offset()
}

func (x g) grouping() string {
	var ls []string
	for i, k := 0, x.n(0, 2); i < k; i++ {
		ls = append(ls, x.pick(x.v.Labels))
	}
	return x.pick([]string{"by", "without"}) + " (" + strings.Join(ls, ", ") + ")"
}

func (x g) scalar(d int) string {
	if d <= 0 {
		return x.pick([]string{"1", "2", "0.5", "time()", "-3", "10"})
	}
	switch x.n(0, 3) {
	case 0:
		return "(" + x.scalar(d-1) + " " + x.pick([]string{"+", "-", "*", "/", "%", "^"}) + " " + x.scalar(d-1) + ")"
	case 1:
		return "scalar(" + x.vector(d-1) + ")"
	case 2:
		return "(" + x.scalar(d-1) + " " + x.pick([]string{"==", "!=", ">", "<", ">=", "<="}) + " bool " + x.scalar(d-1) + ")"
	default:
		return x.scalar(0)
	}
}

func (x g) vector(d int) string {
	if d <= 0 {
		return x.selector() + x.offset()
	}
	switch x.n(0, 9) {
	case 0, 1:
		op := x.pick([]string{"sum", "avg", "min", "max", "count", "group", "stddev", "stdvar"})
		arg := "(" + x.vector(d-1) + ")"
		switch x.n(0, 2) {
		case 0:
			return op + arg
		case 1:
			return op + " " + x.grouping() + " " + arg
		default:
			return op + arg + " " + x.grouping()
		}
	case 2:
		return x.pick([]string{"rate", "increase", "delta", "irate", "idelta", "sum_over_time", "avg_over_time", "min_over_time",
			"max_over_time", "count_over_time", "last_over_time", "changes", "resets", "deriv", "stddev_over_time", "present_over_time", "absent_over_time"}) + "(" + x.matrix(d-1) + ")"
	case 3:
		return x.pick([]string{"abs", "ceil", "floor", "exp", "sqrt", "sgn", "timestamp", "absent", "round"}) + "(" + x.vector(d-1) + ")"
	case 4, 5:
		return "(" + x.vector(d-1) + " " + x.pick([]string{"+", "-", "*", "/", ">", "<", "==", "!=", "> bool", "== bool", "and", "or", "unless"}) + " " + x.matching() + x.vector(d-1) + ")"
	case 6:
		op := x.pick([]string{"+", "-", "*", "/", ">", "<=", "!= bool"})
		if x.chance(2) {
			return "(" + x.vector(d-1) + " " + op + " " + x.scalar(d-1) + ")"
		}
		return "(" + x.scalar(d-1) + " " + op + " " + x.vector(d-1) + ")"
	case 7:
		return "vector(" + x.scalar(d-1) + ")"
	case 8:
		return fmt.Sprintf(`label_replace(%s, "dst", "$1-x", "%s", "(.*)")`, x.vector(d-1), x.pick(x.v.Labels))
	default:
		return "-" + x.selector()
	}
}

func (x g) matching() string {
	if !x.chance(3) {
		return ""
	}
	var ls []string
	for i, k := 0, x.n(0, 2); i < k; i++ {
		ls = append(ls, x.pick(x.v.Labels))
	}
	return x.pick([]string{"on", "ignoring"}) + " (" + strings.Join(ls, ", ") + ") "
}

// Selection draws a selector with up to four matchers, or a simple aggregation of one: nothing that
// depends on when exactly it is evaluated.
func Selection(t *rapid.T, v Vocab) string {
	x := g{t, v}
	var ms []string
	for k := x.n(0, 4); k > 0; k-- {
		l := x.pick(v.Labels)
		if len(ms) > 0 && x.chance(3) { // the same label again
			l = ms[len(ms)-1][:strings.IndexAny(ms[len(ms)-1], "=!")]
		}
		switch x.n(0, 3) {
		case 0:
			ms = append(ms, l+"="+strconv.Quote(x.pick(v.Values)))
		case 1:
			ms = append(ms, l+"!="+strconv.Quote(x.pick(v.Values)))
		case 2:
			ms = append(ms, l+"=~"+strconv.Quote(x.pick(v.Regexps)))
		default:
			ms = append(ms, l+"!~"+strconv.Quote(x.pick(v.Regexps)))
		}
	}
	sel := ""
	if x.chance(3) {
		name := `__name__=~` + strconv.Quote(x.pick([]string{".+", v.Metrics[0] + ".*", strings.Join(v.Metrics[:2], "|"), ".*[a-z]", "[^_]+"}))
		if x.chance(4) {
			name = `__name__!=""`
		}
		at := x.n(0, len(ms))
		ms = append(ms[:at:at], append([]string{name}, ms[at:]...)...)
	} else {
		sel = x.pick(v.Metrics)
	}
	if len(ms) > 0 {
		sel += "{" + strings.Join(ms, ",") + "}"
	}
	switch x.n(0, 7) {
	case 0:
		return x.pick([]string{"sum", "count", "max", "min"}) + "(" + sel + ")"
	case 1:
		return x.pick([]string{"count", "max"}) + " " + x.grouping() + " (" + sel + ")"
	case 2:
		return sel + " " + x.pick([]string{"or", "and", "unless"}) + " " + x.pick(v.Metrics)
	}
	return sel
}
