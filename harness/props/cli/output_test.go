package cli

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/fatih/color"
	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"
	"gopkg.in/yaml.v2"
	"pgregory.net/rapid"

	"sigs.k8s.io/instrumentation-tools/promq/prom"
	"verif.local/harness/kit"
	"verif.local/harness/oracle"
)

// Pt is one sample of a result.
type Pt struct {
	T int64
	V kit.F
}

// Ser is one series of a result: of a vector when it has exactly one point.
type Ser struct {
	L   map[string]string
	Pts []Pt
}

// Res is the result of a query.
type Res struct {
	Kind   string // vector, matrix, scalar, string, err
	Series []Ser
	T      int64
	V      kit.F
	S      string
}

func (r Res) result() *promql.Result {
	switch r.Kind {
	case "vector":
		v := promql.Vector{}
		for _, s := range r.Series {
			v = append(v, promql.Sample{Metric: labels.FromMap(s.L), Point: promql.Point{T: s.Pts[0].T, V: float64(s.Pts[0].V)}})
		}
		return &promql.Result{Value: v}
	case "matrix":
		m := promql.Matrix{}
		for _, s := range r.Series {
			ser := promql.Series{Metric: labels.FromMap(s.L), Points: []promql.Point{}}
			for _, p := range s.Pts {
				ser.Points = append(ser.Points, promql.Point{T: p.T, V: float64(p.V)})
			}
			m = append(m, ser)
		}
		return &promql.Result{Value: m}
	case "scalar":
		return &promql.Result{Value: promql.Scalar{T: r.T, V: float64(r.V)}}
	case "string":
		return &promql.Result{Value: promql.String{T: r.T, V: r.S}}
	}
	return &promql.Result{Err: errors.New("went wrong: " + r.S), Value: promql.Vector{}}
}

var (
	genText = rapid.OneOf(
		rapid.SampledFrom([]string{"x", "y", "", "200", "true", "null", "~", "1e3", ".nan", "- a", "a: b", "#c", "<b>&", "a\"b", "a\nb", "a\\b", "a\\u003cb", "\\x41", " a ", "ü", "日本", "http://h:1/metrics?a=1", "\u2028", "a\tb", "%s", "{a=\"b\"}", "[31m", "'", "!x", "@", "0x1F", "1_000", "2001-01-01", "yes", "="}),
		rapid.StringMatching(`[a-zA-Z0-9_ .:/"'\\{}=,\[\]#&-]{0,8}`),
		rapid.StringMatching("[é日🎉a]{1,4}"),
		rapid.Custom(func(t *rapid.T) string {
			return strings.Repeat(rapid.SampledFrom([]string{"x", "long label ", "é", "a\"b\n"}).Draw(t, "unit"), rapid.SampledFrom([]int{9, 40, 90, 130, 400}).Draw(t, "times"))
		}),
	)
	genLName = rapid.SampledFrom([]string{"a", "b", "B", "job", "instance", "code", "le", "_x", "true", "y"})
	genMName = rapid.SampledFrom([]string{"up", "http_requests_total", "m", "rest_client:rate5m", ":x", "true"})
	genFloat = rapid.Custom(func(t *rapid.T) kit.F {
		switch rapid.IntRange(0, 5).Draw(t, "vk") {
		case 0:
			return kit.F(rapid.SampledFrom([]float64{math.NaN(), math.Inf(1), math.Inf(-1), 0, math.Copysign(0, -1), math.MaxFloat64, 5e-324, 1e21, 1e-7, 0.1, 1e15 + 0.5}).Draw(t, "v"))
		case 1, 2:
			return kit.F(rapid.Float64().Draw(t, "v"))
		default:
			return kit.F(rapid.IntRange(-50, 100000).Draw(t, "v"))
		}
	})
	genTime = rapid.OneOf(
		rapid.Int64Range(1_500_000_000_000, 1_900_000_000_000),
		rapid.Int64Range(-2000, 2000),
		rapid.Int64Range(-4_000_000_000_000, 4_000_000_000_000),
	)
)

func genMetric(t *rapid.T) map[string]string {
	m := map[string]string{}
	if rapid.IntRange(0, 5).Draw(t, "named") > 0 {
		m["__name__"] = genMName.Draw(t, "name")
	}
	for i := rapid.IntRange(0, 4).Draw(t, "nl"); i > 0; i-- {
		m[genLName.Draw(t, "l")] = genText.Draw(t, "lv")
	}
	return m
}

func genRes(t *rapid.T, kinds ...string) Res {
	r := Res{Kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
	switch r.Kind {
	case "vector", "matrix":
		for i := rapid.IntRange(0, 5).Draw(t, "series"); i > 0; i-- {
			s := Ser{L: genMetric(t)}
			n := 1
			if r.Kind == "matrix" {
				n = rapid.IntRange(0, 5).Draw(t, "pts")
			}
			for ; n > 0; n-- {
				s.Pts = append(s.Pts, Pt{genTime.Draw(t, "T"), genFloat.Draw(t, "V")})
			}
			r.Series = append(r.Series, s)
		}
		if n := len(r.Series); n > 0 && rapid.IntRange(0, 63).Draw(t, "bulky") == 41 {
			for i, k := 0, rapid.SampledFrom([]int{30, 300, 1100}).Draw(t, "bulk"); i < k; i++ {
				s := Ser{L: map[string]string{}, Pts: r.Series[i%n].Pts}
				for l, v := range r.Series[i%n].L {
					s.L[l] = v
				}
				s.L["bulk"] = strconv.Itoa(i)
				r.Series = append(r.Series, s)
			}
		}
		if n := len(r.Series); n > 0 && r.Kind == "matrix" && rapid.IntRange(0, 63).Draw(t, "long") == 41 {
			s := &r.Series[n-1]
			for i, k := 0, rapid.SampledFrom([]int{70, 800, 3000}).Draw(t, "points"); i < k; i++ {
				s.Pts = append(s.Pts, Pt{int64(i) * 1000, kit.F(i % 97)})
			}
		}
	case "scalar":
		r.T, r.V = genTime.Draw(t, "T"), genFloat.Draw(t, "V")
	case "string":
		r.T, r.S = genTime.Draw(t, "T"), genText.Draw(t, "S")
	default:
		r.S = genText.Draw(t, "S")
	}
	return r
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

func strip(s string) string { return ansi.ReplaceAllString(s, "") }

// jsonPoint reads [seconds, "value"].
func jsonPoint(r *kit.R, where string, v any) Pt {
	a, ok := v.([]any)
	if !ok || len(a) != 2 {
		r.Failf("json-point", "%s is not a pair of time and value: %#v", where, v)
	}
	n, ok := a[0].(json.Number)
	s, ok2 := a[1].(string)
	if !ok || !ok2 {
		r.Failf("json-point", "%s is not a number and a string: %#v", where, v)
	}
	f, err := n.Float64()
	if err != nil {
		r.Failf("json-point", "%s has time %q", where, n)
	}
	val, err := strconv.ParseFloat(s, 64)
	if err != nil {
		r.Failf("json-point", "%s has value %q", where, s)
	}
	return Pt{int64(math.Round(f * 1000)), kit.F(val)}
}

func jsonMetric(r *kit.R, where string, v any) map[string]string {
	m, ok := v.(map[string]any)
	if !ok {
		r.Failf("json-metric", "%s is no object of labels: %#v", where, v)
	}
	out := map[string]string{}
	for k, x := range m {
		s, ok := x.(string)
		if !ok {
			r.Failf("json-metric", "%s: label %q is %#v", where, k, x)
		}
		out[k] = s
	}
	return out
}

// decodeJSON reads the answer the way a script would, knowing the kind of result it asked for.
func decodeJSON(r *kit.R, text, kind string) Res {
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		r.Failf("json-invalid", "the JSON output does not parse: %v\n%s", err, text)
	}
	if d.More() {
		r.Failf("json-invalid", "there is more after the JSON value\n%s", text)
	}
	got := Res{Kind: kind}
	switch kind {
	case "vector", "matrix":
		l, ok := v.([]any)
		if !ok {
			r.Failf("json-shape", "the JSON output is no array\n%s", text)
		}
		for i, e := range l {
			where := fmt.Sprintf("element %d", i)
			o, ok := e.(map[string]any)
			if !ok || len(o) != 2 {
				r.Failf("json-shape", "%s is not an object with two members: %#v", where, e)
			}
			s := Ser{L: jsonMetric(r, where, o["metric"])}
			if kind == "vector" {
				s.Pts = []Pt{jsonPoint(r, where, o["value"])}
			} else {
				vs, ok := o["values"].([]any)
				if !ok {
					r.Failf("json-shape", "%s has no values: %#v", where, e)
				}
				for _, p := range vs {
					s.Pts = append(s.Pts, jsonPoint(r, where, p))
				}
			}
			got.Series = append(got.Series, s)
		}
	case "scalar":
		p := jsonPoint(r, "the scalar", v)
		got.T, got.V = p.T, p.V
	case "string":
		a, ok := v.([]any)
		if !ok || len(a) != 2 {
			r.Failf("json-shape", "the string is %#v", v)
		}
		n, ok := a[0].(json.Number)
		s, ok2 := a[1].(string)
		if !ok || !ok2 {
			r.Failf("json-shape", "the string is %#v", v)
		}
		f, _ := n.Float64()
		got.T, got.S = int64(math.Round(f*1000)), s
	}
	return got
}

func decodeYAML(r *kit.R, text, kind string) Res {
	got := Res{Kind: kind}
	bad := func(err error) {
		if err != nil {
			r.Failf("yaml-invalid", "the YAML output does not parse as a %s: %v\n%s", kind, err, text)
		}
	}
	switch kind {
	case "vector":
		var v promql.Vector
		bad(yaml.UnmarshalStrict([]byte(text), &v))
		for _, s := range v {
			got.Series = append(got.Series, Ser{s.Metric.Map(), []Pt{{s.T, kit.F(s.V)}}})
		}
	case "matrix":
		var v promql.Matrix
		bad(yaml.UnmarshalStrict([]byte(text), &v))
		for _, s := range v {
			o := Ser{L: s.Metric.Map()}
			for _, p := range s.Points {
				o.Pts = append(o.Pts, Pt{p.T, kit.F(p.V)})
			}
			got.Series = append(got.Series, o)
		}
	case "scalar":
		var v promql.Scalar
		bad(yaml.UnmarshalStrict([]byte(text), &v))
		got.T, got.V = v.T, kit.F(v.V)
	case "string":
		var v promql.String
		bad(yaml.UnmarshalStrict([]byte(text), &v))
		got.T, got.S = v.T, v.V
	}
	return got
}

func promValue(v kit.F) string { return strconv.FormatFloat(float64(v), 'f', -1, 64) }

// promSeries is the Prometheus notation of a label set, without __name__ when bare.
func promSeries(l map[string]string, bare bool) string {
	var sb strings.Builder
	sb.WriteByte('{')
	first := true
	for _, x := range labels.FromMap(l) {
		if x.Name == "__name__" && bare {
			continue
		}
		if !first {
			sb.WriteString(", ")
		}
		first = false
		sb.WriteString(x.Name + "=" + strconv.Quote(x.Value))
	}
	sb.WriteByte('}')
	return sb.String()
}

func promText(x Res) string {
	var lines []string
	switch x.Kind {
	case "vector":
		for _, s := range x.Series {
			lines = append(lines, fmt.Sprintf("%s%s => %s @[%d]", s.L["__name__"], promSeries(s.L, true), promValue(s.Pts[0].V), s.Pts[0].T))
		}
	case "matrix":
		for _, s := range x.Series {
			pts := make([]string, len(s.Pts))
			for i, p := range s.Pts {
				pts[i] = fmt.Sprintf("%s @[%d]", promValue(p.V), p.T)
			}
			lines = append(lines, promSeries(s.L, false)+" =>\n"+strings.Join(pts, "\n"))
		}
	case "scalar":
		return fmt.Sprintf("scalar: %s @[%d]", promValue(x.V), x.T)
	case "string":
		return x.S
	}
	return strings.Join(lines, "\n")
}

func sameRes(a, b Res) string {
	if len(a.Series) != len(b.Series) {
		return fmt.Sprintf("%d series instead of %d", len(b.Series), len(a.Series))
	}
	for i := range a.Series {
		x, y := a.Series[i], b.Series[i]
		if key(x.L) != key(y.L) {
			return fmt.Sprintf("series %d has labels %v instead of %v", i, y.L, x.L)
		}
		if len(x.Pts) != len(y.Pts) {
			return fmt.Sprintf("series %d has %d points instead of %d", i, len(y.Pts), len(x.Pts))
		}
		for j := range x.Pts {
			if x.Pts[j].T != y.Pts[j].T || !oracle.SameBits(float64(x.Pts[j].V), float64(y.Pts[j].V)) {
				return fmt.Sprintf("series %d point %d is %v instead of %v", i, j, y.Pts[j], x.Pts[j])
			}
		}
	}
	if a.T != b.T || !oracle.SameBits(float64(a.V), float64(b.V)) || a.S != b.S {
		return fmt.Sprintf("%v %v %q instead of %v %v %q", b.T, b.V, b.S, a.T, a.V, a.S)
	}
	return ""
}

type outCase struct {
	R       Res
	Format  string
	Colors  bool // asked for
	NoColor bool // no terminal
}

func TestC29(t *testing.T) {
	kit.Run(t, kit.Spec[outCase]{
		ID:   "C29",
		Rule: "a query result of every type (vector, matrix, scalar, string, error) with any label names, printable and awkward label values and values, a format and colours on or off; non-trivial: at least two series or a value that needs escaping or is not finite",
		Gen: func(t *rapid.T) outCase {
			return outCase{
				R:       genRes(t, "vector", "vector", "vector", "matrix", "matrix", "scalar", "string", "err"),
				Format:  rapid.SampledFrom([]string{"json", "json", "yaml", "prometheus", "prometheus", "", "JSON", "xml", "jsonpath"}).Draw(t, "format"),
				Colors:  rapid.Bool().Draw(t, "colors"),
				NoColor: rapid.Bool().Draw(t, "nocolor"),
			}
		},
		Check: checkOutput,
	})
}

func checkOutput(r *kit.R, c outCase) {
	color.NoColor = c.NoColor
	r.Tag(c.R.Kind)
	r.Tag("format " + c.Format)
	res := c.R.result()
	var out *string
	var err error
	r.Guard("panic", "ToPrettyFormat", func() { out, err = prom.ToPrettyFormat(res, c.Format, c.Colors) })
	if !equalResult(res, c.R.result()) {
		r.Failf("mutated", "formatting changed the result")
	}
	known := c.Format == "json" || c.Format == "yaml" || c.Format == "prometheus"
	if !known || c.R.Kind == "err" {
		if err == nil {
			r.Failf("no-error", "no error for format %q and a result of kind %s", c.Format, c.R.Kind)
		}
		if known && !errors.Is(err, res.Err) {
			r.Failf("wrong-error", "the query's error %v became %v", res.Err, err)
		}
		return
	}
	if err != nil || out == nil {
		r.Failf("error", "formatting as %s failed: %v", c.Format, err)
	}
	text := *out
	if !c.Colors && strings.Contains(text, "\x1b") || c.NoColor && c.Format == "json" && strings.Contains(text, "\x1b") {
		r.Failf("colored", "colours although none were asked for: %q", text)
	}
	var got Res
	switch c.Format {
	case "json":
		got = decodeJSON(r, strip(text), c.R.Kind)
	case "yaml":
		got = decodeYAML(r, text, c.R.Kind)
	default:
		if want := promText(c.R); text != want {
			r.Failf("prometheus", "Prometheus format is\n%s\ninstead of\n%s", text, want)
		}
		got = c.R
	}
	if d := sameRes(c.R, got); d != "" {
		r.Failf(c.Format+"-differs", "%s output reads back with %s\n%s", c.Format, d, text)
	}
	if len(c.R.Series) > 1 || c.R.S != "" || c.R.V != 0 {
		r.NonTrivial()
	}
}

func equalResult(a, b *promql.Result) bool {
	if a.Err != nil || b.Err != nil {
		return true
	}
	return reflect.TypeOf(a.Value) == reflect.TypeOf(b.Value) && a.Value.String() == b.Value.String()
}

// key identifies a label set, empty labels included.
func key(m map[string]string) string {
	if len(m) == 0 {
		return "{}"
	}
	b, _ := json.Marshal(m)
	return string(b)
}
