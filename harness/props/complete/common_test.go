package complete

import (
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	"pgregory.net/rapid"

	"sigs.k8s.io/instrumentation-tools/notstdlib/sets"
	"sigs.k8s.io/instrumentation-tools/promq/autocomplete"
	"sigs.k8s.io/instrumentation-tools/promq/autocomplete/earley"
	"verif.local/harness/kit"
)

// Index is the index the completer asks: metric -> label -> values.
type Index map[string]map[string][]string

func (x Index) GetMetricNames() sets.String {
	s := sets.NewString()
	for m := range x {
		s.Insert(m)
	}
	return s
}

func (x Index) GetStoredDimensionsForMetric(m string) sets.String {
	s := sets.NewString()
	for l := range x[m] {
		s.Insert(l)
	}
	return s
}

func (x Index) GetStoredValuesForMetricAndDimension(m, l string) sets.String {
	return sets.NewString(x[m][l]...)
}

func (x Index) metrics() []string {
	var out []string
	for m := range x {
		out = append(out, m)
	}
	sort.Strings(out)
	return out
}

func (x Index) labels(m string) []string {
	var out []string
	for l := range x[m] {
		out = append(out, l)
	}
	sort.Strings(out)
	return out
}

var (
	metricPool = []string{"up", "go_goroutines", "http_requests_total", "http_requests", "summary", "andy", "by_host", "m", "job:rate5m", "offset_total", "ratex", "process_cpu_seconds_total", "timex", "apiserver_request_total", "b", "UP", "M", "B", "gg"}
	// every metric has the label "common", so that it can be asked for wherever some metric precedes
	labelPool = []string{"a", "b", "job", "instance", "code", "le", "job_name", "summ", "A", "Job"}
	valuePool = []string{"x", "y", "200", "abc", "abd", "http://h:1/m", "a b", "ü", "q\"q", "", "a,b", "日本"}
)

func genIndex(t *rapid.T) Index {
	x := Index{}
	n := rapid.IntRange(1, 5).Draw(t, "metrics")
	for i := 0; i < n; i++ {
		m := rapid.SampledFrom(metricPool).Draw(t, "metric")
		ls := map[string][]string{"common": {"c1", "c2"}}
		for j, k := 0, rapid.IntRange(0, 3).Draw(t, "nlabels"); j < k; j++ {
			ls[rapid.SampledFrom(labelPool).Draw(t, "label")] = rapid.SliceOfNDistinct(rapid.SampledFrom(valuePool), 1, 3, rapid.ID[string]).Draw(t, "values")
		}
		x[m] = ls
	}
	if rapid.IntRange(0, 9).Draw(t, "large") == 0 {
		enlarge(t, x)
	}
	return x
}

// enlarge makes the index one of many metrics, many labels or many or long values.
func enlarge(t *rapid.T, x Index) {
	m := rapid.SampledFrom(x.metrics()).Draw(t, "enlarged")
	n := rapid.SampledFrom([]int{20, 70, 150, 300}).Draw(t, "many")
	what := rapid.IntRange(0, 5).Draw(t, "what") % 4
	stem := rapid.SampledFrom([]string{"aa_", m[:1] + "0", m + "_", "zz_"}).Draw(t, "stem")
	for i := 0; i < n; i++ {
		w := "n" + strconv.Itoa(i*7919%n) + "_"
		switch what {
		case 0:
			x[stem+w] = map[string][]string{"common": {"c1", "c2"}}
		case 1:
			x[m][w] = []string{"x"}
		case 2:
			x[m]["common"] = append(x[m]["common"], w)
		case 3:
			x[m][strings.Repeat("l", n)] = []string{strings.Repeat("v", n), strings.Repeat("日本", n)}
			x[strings.Repeat("k", n)] = x[m]
			return
		}
	}
}

type sug struct{ v, kind, detail string }

// ask runs one completion in the process's one parser.
func ask(r *kit.R, c autocomplete.PromQLCompleter, q string, pos int) []sug {
	var ms []autocomplete.Match
	r.Guard("panic", "GenerateSuggestions("+strconv.Quote(q)+", "+strconv.Itoa(pos)+")", func() {
		ms = c.GenerateSuggestions(q, pos)
	})
	out := make([]sug, len(ms))
	for i, m := range ms {
		out[i] = sug{m.GetValue(), m.GetKind(), m.GetDetail()}
	}
	return out
}

func newCompleter(x Index) autocomplete.PromQLCompleter { return earley.NewPromQLCompleter(x) }

// promql is the completer's grammar, found by its type in the process's parser.
var promql = func() *earley.Grammar {
	v := reflect.ValueOf(earley.PromQLParser).Elem()
	for i := 0; v.Kind() == reflect.Struct && i < v.NumField(); i++ {
		f := v.Field(i)
		switch f.Type() {
		case reflect.TypeOf(earley.Grammar{}):
			return (*earley.Grammar)(unsafe.Pointer(f.UnsafeAddr()))
		case reflect.TypeOf(&earley.Grammar{}):
			return *(**earley.Grammar)(unsafe.Pointer(f.UnsafeAddr()))
		}
	}
	return nil
}()

// forget gives the process a parser that has parsed nothing.
func forget(c autocomplete.PromQLCompleter) {
	if promql != nil {
		earley.PromQLParser = earley.NewEarleyParser(*promql)
		return
	}
	earley.PromQLParser.Parse("")
}

func canon(ss []sug) string {
	out := make([]string, len(ss))
	for i, s := range ss {
		out[i] = s.kind + "\x00" + s.v + "\x00" + s.detail
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func has(ss []sug, v string) bool {
	for _, s := range ss {
		if s.v == v {
			return true
		}
	}
	return false
}

func values(ss []sug) []string {
	var out []string
	for _, s := range ss {
		out = append(out, s.v)
	}
	sort.Strings(out)
	return out
}

func show(ss []sug) string {
	v := values(ss)
	if len(v) > 40 {
		return strings.Join(v[:40], " ") + " ... (" + strconv.Itoa(len(v)) + ")"
	}
	return "[" + strings.Join(v, " ") + "]"
}

const separators = " []{}()+-*/%^=!><~,"
