package cli

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/base64"
	"encoding/pem"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/fatih/color"
	"github.com/prometheus/prometheus/promql"
	"github.com/prometheus/prometheus/promql/parser"
	"k8s.io/cli-runtime/pkg/genericclioptions"
	"pgregory.net/rapid"

	"sigs.k8s.io/instrumentation-tools/cmd"
	"verif.local/harness/kit"
	"verif.local/harness/oracle"
	"verif.local/harness/promqlgen"
)

// Line is one sample line of an endpoint's text.
type Line struct {
	L   map[string]string
	V   kit.F
	Age int64 // seconds before now, of an explicit timestamp; below zero it is ahead, but -1 stands for none
}

// Host is one endpoint.
type Host struct {
	Lines []Line
	Fault string // "", refused, status NNN (with the text), empty NNN (without), malformed, cut
	Gzip  bool
	Redir bool   // answers by way of a redirect
	Path  string // what the URL ends in
	Bulk  int    `json:",omitempty"` // so many more series
	Names bool   `json:",omitempty"` // and so many more names
	Pad   int    `json:",omitempty"` // megabytes of comments before the samples
	Slow  int    `json:",omitempty"` // milliseconds until it answers the first time
	Drip  bool   `json:",omitempty"` // answers in pieces
	Hops  int    `json:",omitempty"` // redirects after the first
}

func (h Host) lines() []Line {
	l := append([]Line(nil), h.Lines...)
	for i := 0; i < h.Bulk; i++ {
		m := Line{L: map[string]string{"__name__": "bulk", "code": strconv.Itoa(i), "a": "x"}, V: kit.F(i), Age: -1}
		if h.Names {
			m.L = map[string]string{"__name__": fmt.Sprintf("bulk_%d", i)}
			if i%3 > 0 {
				m.L[fmt.Sprintf("l%d", i%7)] = "x"
			}
		}
		l = append(l, m)
	}
	return l
}

type cliCase struct {
	Hosts  []Host
	Conf   bool // the first host is the kubeconfig's cluster and there are no -t flags
	TLS    bool // the cluster serves HTTPS, with a certificate that the kubeconfig vouches for
	Token  string
	Base   string // path of the cluster's URL
	List   bool
	Query  string
	Output string // "-" leaves the flag out
	Long   bool   // long flags
	NoCol  bool
	Real   bool // run the binary itself
	Linger bool // wait whether anything comes after the end
}

var (
	cliNames  = []string{"up", "m", "http_requests_total", "jobs:rate5m", "m_total", "Upper_M"}
	cliLabels = []string{"a", "b", "code", "instance", "le"}
	cliValues = []string{"x", "y", "X", "200", "", "a\"b", "c\\d", "n\nl", "ü", "x y", "{a=\"b\"}", "1e3", "%d of 100%", "%s%n"}
	cliQuery  = []string{
		"", "", "", "up", "m", "m_total", "nosuch", `m{a="x"}`, `m{a!="x"}`, `{a=~"x|y"}`, `{__name__=~"m.*",a=""}`, `{a!~"x.*",__name__!=""}`,
		"sum(m)", "sum by (a) (m)", "count(up)", "max without (instance) (m)", "m + 1", "m * 2 > 3", "m and up", "m unless on (a) up", "-m", "abs(m)",
		"count({__name__=~\".+\"})", "count by (instance) ({__name__=~\".+\"})", "vector(3)", "1 + 2", "scalar(vector(4))", `"text"`, `"a \"quoted\" ü"`,
		"m[5m]", "m_total[30m]", "absent(nosuch)", "absent(m)", "m offset 5m", "label_replace(m, \"z\", \"$1-\", \"a\", \"(.*)\")", "sum_over_time(m[10m])", "jobs:rate5m", "Upper_M", `m{a="X"}`, `up{a!="X"}`, "  ", " up ", "SUM(m)", "\n", "up # a comment", "sum(bulk)", "topk(3, bulk)",
		`{instance=~".+"}`, `count({instance=""})`, "1 / 0", "0 / 0", "m > 1e9", "http_requests_total == bool 3",
		"sum(", "m{", "foo bar", "m[5m", "1 +", "rate(m)", "sum_over_time(m)", "m{a=b}", ")", "m + \"x\"",
	}
)

func genHost(t *rapid.T) Host {
	h := Host{Gzip: rapid.IntRange(0, 5).Draw(t, "gzip") == 0, Redir: rapid.IntRange(0, 7).Draw(t, "redirect") == 0}
	h.Path = rapid.SampledFrom([]string{"", "/metrics", "/metrics?a=1,2", "/m%20x", "/a/b?x=y&z", "/\"q\"", "/", "/metrics/", "/A//b"}).Draw(t, "path")
	seen := map[string]bool{}
	for n := rapid.IntRange(0, 6).Draw(t, "lines"); n > 0; n-- {
		l := Line{L: map[string]string{"__name__": rapid.SampledFrom(cliNames).Draw(t, "name")}, Age: -1}
		for k := rapid.IntRange(0, 3).Draw(t, "nl"); k > 0; k-- {
			l.L[rapid.SampledFrom(cliLabels).Draw(t, "l")] = rapid.SampledFrom(cliValues).Draw(t, "lv")
		}
		if rapid.IntRange(0, 31).Draw(t, "wide") == 21 {
			for k, n := 0, rapid.IntRange(5, 40).Draw(t, "nl"); k < n; k++ {
				l.L[fmt.Sprintf("wide_%d", k)] = "v"
			}
		}
		switch rapid.IntRange(0, 9).Draw(t, "vk") {
		case 0:
			l.V = genFloat.Draw(t, "v")
		default:
			l.V = kit.F(rapid.IntRange(-5, 20).Draw(t, "v"))
		}
		switch rapid.IntRange(0, 9).Draw(t, "stamp") {
		case 8:
			l.Age = -rapid.Int64Range(100, 2000).Draw(t, "ahead")
		case 0:
			l.Age = rapid.Int64Range(20, 200).Draw(t, "age") // still current
		case 1:
			l.Age = rapid.Int64Range(400, 1500).Draw(t, "age") // beyond the lookback of five minutes
		}
		id := map[string]string{}
		for k, v := range l.L {
			if v != "" && k != "instance" { // overridden, and then the same series
				id[k] = v
			}
		}
		k := key(id)
		if l.Age != -1 {
			k += fmt.Sprint(" at ", l.Age) // a series may be there with more than one timestamp
		}
		if !seen[k] {
			seen[k] = true
			h.Lines = append(h.Lines, l)
		}
	}
	if rapid.IntRange(0, 63).Draw(t, "bulky") == 41 {
		h.Bulk = rapid.SampledFrom([]int{20, 150, 1200}).Draw(t, "bulk")
		h.Names = rapid.Bool().Draw(t, "names")
	}
	switch rapid.IntRange(0, 199).Draw(t, "transport") {
	case 101, 102:
		h.Pad = rapid.SampledFrom([]int{1, 3, 7, 12, 20, 40}).Draw(t, "pad")
	case 103, 104:
		h.Slow = rapid.SampledFrom([]int{200, 1200, 1200, 1200, 2500, 2500, 5500, 11000}).Draw(t, "slow")
	case 105, 106, 107, 108, 109, 110:
		h.Drip = true
	}
	if h.Redir {
		h.Hops = rapid.IntRange(0, 4).Draw(t, "hops")
	}
	if rapid.IntRange(0, 14).Draw(t, "faulty") == 0 {
		h.Fault = rapid.SampledFrom([]string{"refused", "status 404", "status 500", "status 503", "status 206", "status 203", "status 400", "empty 204", "empty 500", "empty 401", "malformed", "malformed", "malformed 1", "malformed 2", "malformed 3", "cut", "scheme"}).Draw(t, "fault")
	}
	return h
}

func genCLI(t *rapid.T) cliCase {
	c := cliCase{
		Hosts:  rapid.SliceOfN(rapid.Custom(genHost), 1, 3).Draw(t, "hosts"),
		Conf:   rapid.IntRange(0, 3).Draw(t, "kubeconfig") == 0,
		List:   rapid.IntRange(0, 4).Draw(t, "list") == 0,
		Query:  rapid.SampledFrom(cliQuery).Draw(t, "query"),
		Output: rapid.SampledFrom([]string{"-", "json", "json", "yaml", "yaml", "prometheus", "prometheus", "xml"}).Draw(t, "output"),
		Long:   rapid.Bool().Draw(t, "long"),
		NoCol:  rapid.Bool().Draw(t, "nocolor"),
		Real:   rapid.IntRange(0, 9).Draw(t, "real") == 7,
		Linger: rapid.IntRange(0, 99).Draw(t, "linger") == 61,
	}
	if rapid.IntRange(0, 3).Draw(t, "selection") == 2 {
		c.Query = promqlgen.Selection(t, promqlgen.Vocab{Metrics: cliNames, Labels: cliLabels, Values: cliValues,
			Regexps: []string{".*", ".+", "x|y", "", "[^x]*", "x?", "x", "2..", "(?i)x", "[xy]"}})
	}
	if c.List && rapid.IntRange(0, 19).Draw(t, "long list") == 7 {
		c.Hosts[0].Bulk, c.Hosts[0].Names = rapid.SampledFrom([]int{150, 600, 1200, 2500}).Draw(t, "how long"), true
	}
	slow := false
	for _, h := range c.Hosts {
		slow = slow || h.Slow > 0
	}
	for i, h := range c.Hosts {
		// no sample comes of age while an endpoint is slow
		if slow {
			var l []Line
			for _, m := range h.Lines {
				if m.Age == -1 {
					l = append(l, m)
				}
			}
			c.Hosts[i].Lines = l
		}
	}
	if c.Conf {
		c.Hosts = c.Hosts[:1]
		c.Hosts[0].Path = "/metrics"
		c.Base = rapid.SampledFrom([]string{"", "/k8s/clusters/c-1"}).Draw(t, "base")
		c.TLS = rapid.Bool().Draw(t, "tls")
		c.Token = rapid.SampledFrom([]string{"", "s3cr3t"}).Draw(t, "token")
	}
	return c
}

// farm serves every case's endpoints from one server, each case under its own prefix.
type farm struct {
	*httptest.Server
	tls   *httptest.Server
	ca    string
	mu    sync.Mutex
	n     int
	hosts map[string]Host
	// those that have been slow already
	slowed map[string]bool
	now    time.Time
	seen   []*http.Request
	dir    string
}

func newFarm() *farm {
	f := &farm{hosts: map[string]Host{}}
	f.Server = httptest.NewServer(http.HandlerFunc(f.serve))
	f.tls = httptest.NewTLSServer(http.HandlerFunc(f.serve))
	f.ca = base64.StdEncoding.EncodeToString(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: f.tls.Certificate().Raw}))
	f.dir, _ = os.MkdirTemp("", "verif-cli")
	return f
}

func escapeLabel(s string) string {
	return strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "\n", "\\n").Replace(s)
}

func sampleValue(v kit.F) string { return strconv.FormatFloat(float64(v), 'g', -1, 64) }

func (h Host) text(now time.Time) string {
	var sb strings.Builder
	sb.WriteString("# HELP up A metric.\n# TYPE up gauge\n")
	for _, l := range h.lines() {
		sb.WriteString(l.L["__name__"])
		var names []string
		for k := range l.L {
			if k != "__name__" {
				names = append(names, k)
			}
		}
		sort.Sort(sort.Reverse(sort.StringSlice(names)))
		if len(names) > 0 {
			for i, k := range names {
				sep := ","
				if i == 0 {
					sep = "{"
				}
				fmt.Fprintf(&sb, "%s%s=\"%s\"", sep, k, escapeLabel(l.L[k]))
			}
			sb.WriteString("}")
		}
		sb.WriteString(" " + sampleValue(l.V))
		if l.Age != -1 {
			fmt.Fprintf(&sb, " %d", now.UnixMilli()-l.Age*1000)
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

func (f *farm) serve(w http.ResponseWriter, q *http.Request) {
	f.mu.Lock()
	f.seen = append(f.seen, q)
	uri := q.URL.RequestURI()
	plain := uri
	for strings.HasPrefix(plain, "/moved") {
		plain = plain[len("/moved"):]
	}
	h, ok := f.hosts[plain]
	now, slow := f.now, !f.slowed[plain]
	f.slowed[plain] = true
	f.mu.Unlock()
	if !ok {
		http.Error(w, "no such endpoint", 404)
		return
	}
	if slow && h.Slow > 0 {
		time.Sleep(time.Duration(h.Slow) * time.Millisecond)
	}
	if h.Redir && !strings.HasPrefix(uri, strings.Repeat("/moved", h.Hops+1)) {
		w.Header().Set("Location", "/moved"+uri)
		w.WriteHeader(302)
		return
	}
	body := []byte(h.text(now))
	if h.Pad > 0 {
		line := "# a comment that does not matter to anyone, whatever it may say about #\n"
		body = append([]byte(strings.Repeat(line, h.Pad<<20/len(line))), body...)
	}
	// an endpoint gives what it is asked for: this format only to those who can read it
	if a := strings.ToLower(q.Header.Get("Accept")); strings.Contains(a, "openmetrics") || strings.Contains(a, "protobuf") || strings.Contains(a, "json") {
		w.Header().Set("Content-Type", a)
		w.Write([]byte("{\"data\": \"in another format\"}"))
		return
	}
	var code int
	switch kind, _ := fmt.Sscanf(h.Fault, "status %d", &code); {
	case kind == 1:
		w.WriteHeader(code)
	case h.Fault == "malformed":
		body = append(body, "m{a=\"x\" 1\n"...)
	case h.Fault == "malformed 1":
		body = append(body, "m{a=\"x\" 1"...)
	case h.Fault == "malformed 2":
		body = append([]byte("m abc\n"), body...)
	case h.Fault == "malformed 3":
		body = append(append([]byte("<html>\n"), body...), "</html>"...)
	case h.Fault == "cut":
		w.Header().Set("Content-Length", strconv.Itoa(len(body)+100))
		w.Write(body)
		return
	default:
		if n, _ := fmt.Sscanf(h.Fault, "empty %d", &code); n == 1 {
			w.WriteHeader(code)
			return
		}
	}
	if h.Gzip && h.Fault == "" && strings.Contains(q.Header.Get("Accept-Encoding"), "gzip") {
		w.Header().Set("Content-Encoding", "gzip")
		z := gzip.NewWriter(w)
		z.Write(body)
		z.Close()
		return
	}
	if h.Drip {
		for n := len(body)/3 + 1; len(body) > n; body = body[n:] {
			w.Write(body[:n])
			w.(http.Flusher).Flush()
		}
	}
	w.Write(body)
}

type syncBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
	n  int
}

func (s *syncBuffer) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.n++
	return s.b.Write(p)
}

func (s *syncBuffer) String() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.String()
}

func TestC30(t *testing.T) {
	var f *farm
	kit.Run(t, kit.Spec[cliCase]{
		ID: "C30",
		Rule: "an invocation of the command line: one to three endpoints served over HTTP (labels that need escapes, own and stale timestamps, their own instance label, gzip, redirects, slow answers, answers in pieces and of up to 40 MB, and faults: refused, error status with or without text, malformed, cut short), given by -t or as the kubeconfig's cluster with a token, a query, an output format or a listing; " +
			"the answer is compared with Prometheus' engine over a model of what the endpoints serve; non-trivial: at least two series are served and the answer is not empty, or an endpoint fails",
		Gen:      genCLI,
		Check:    func(r *kit.R, c cliCase) { checkCLI(r, c, f) },
		Setup:    func() { f = newFarm() },
		Teardown: func() { f.Close(); f.tls.Close(); os.RemoveAll(f.dir) },
		Hang:     60 * time.Second,
		Batch:    50,
	})
}

func checkCLI(r *kit.R, c cliCase, f *farm) {
	color.NoColor = c.NoCol
	// lay out the endpoints
	f.mu.Lock()
	f.n++
	f.hosts, f.slowed = map[string]Host{}, map[string]bool{}
	f.seen = nil
	f.now = time.Now()
	var urls []string
	for i, h := range c.Hosts {
		p := fmt.Sprintf("%s/c%d/h%d%s", c.Base, f.n, i, h.Path)
		u := f.URL + p
		if c.TLS {
			u = f.tls.URL + p
		}
		if h.Fault == "refused" {
			u = "http://127.0.0.1:1" + p
		}
		if h.Fault == "scheme" {
			u = "nosuch://127.0.0.1" + p
		}
		f.hosts[strings.ReplaceAll(p, "\"", "%22")] = h
		urls = append(urls, u)
	}
	now := f.now
	f.mu.Unlock()
	fault := ""
	served := 0
	for _, h := range c.Hosts {
		if h.Slow > 1000 {
			r.Tag("slow endpoint")
		}
		if h.Pad > 1 {
			r.Tag("long text")
		}
		if h.Fault != "" {
			fault = h.Fault
		}
		served += len(h.lines())
	}

	// the command line
	server := "http://127.0.0.1:1"
	if c.Conf {
		server = strings.TrimSuffix(urls[0], "/metrics")
	}
	conf := filepath.Join(f.dir, "config")
	token, ca := "", ""
	if c.TLS {
		ca = ", certificate-authority-data: " + f.ca
	}
	if c.Token != "" {
		token = "token: " + c.Token
	}
	must(os.WriteFile(conf, []byte("apiVersion: v1\nkind: Config\ncurrent-context: c\nclusters:\n- name: k\n  cluster: {server: '"+server+"'"+ca+"}\nusers:\n- name: u\n  user: {"+token+"}\ncontexts:\n- name: c\n  context: {cluster: k, user: u}\n"), 0o600))
	must(os.Setenv("KUBECONFIG", conf))
	flag := func(short, long string) string {
		if c.Long {
			return "--" + long
		}
		return "-" + short
	}
	var args []string
	if !c.Conf {
		for _, u := range urls {
			args = append(args, flag("t", "targets"), u)
		}
	}
	if c.Query != "" {
		args = append(args, flag("q", "query"), c.Query)
	}
	if c.Output != "-" {
		args = append(args, flag("o", "output"), c.Output)
	}
	if c.List {
		args = append(args, flag("l", "list"))
	}
	format := c.Output
	if format == "-" {
		format = "json"
	}

	var out, errOut, cobraOut syncBuffer
	root := cmd.NewCmdPromQ(genericclioptions.IOStreams{In: strings.NewReader(""), Out: &out, ErrOut: &errOut})
	root.SetArgs(args)
	root.SetOut(&cobraOut)
	root.SetErr(&cobraOut)
	before := time.Now().UnixMilli()
	var err error
	if c.Real {
		r.Tag("binary")
		ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
		defer cancel()
		p := exec.CommandContext(ctx, os.Getenv("KIT_PROMQ"), args...)
		p.Stdout, p.Stderr = &out, &errOut
		if err = p.Run(); err != nil && p.ProcessState.ExitCode() != 1 {
			r.Failf("exit", "promq %q ended with %v instead of status 1: %s", args, err, errOut.String())
		}
		if strings.Contains(out.String(), "\x1b") {
			r.Failf("color", "promq %q prints colours into a pipe: %q", args, out.String())
		}
	} else {
		r.Guard("panic", "promq", func() { err = root.Execute() })
	}
	after := time.Now().UnixMilli()
	text := out.String()
	f.mu.Lock()
	seen := append([]*http.Request(nil), f.seen...)
	f.mu.Unlock()
	if c.Linger {
		r.Tag("lingered")
		time.Sleep(1300 * time.Millisecond)
		f.mu.Lock()
		late := len(f.seen) - len(seen)
		f.mu.Unlock()
		if now := out.String(); now != text {
			r.Failf("again", "promq %q had returned and printed more afterwards: %q, then %q", args, text, now[len(text):])
		}
		if late > 0 {
			r.Failf("late-scrape", "promq %q had returned and made %d more requests afterwards", args, late)
		}
	}
	if c.Token != "" && c.TLS && fault != "refused" && fault != "scheme" {
		for _, q := range seen {
			if q.Header.Get("Authorization") != "Bearer "+c.Token {
				r.Failf("token", "the cluster was asked without the token of the kubeconfig: %q", q.Header.Get("Authorization"))
			}
		}
	}

	what := fmt.Sprintf("promq %q", args)
	mustFail := func(sig, why string) {
		if err == nil {
			r.Failf(sig, "%s succeeded although %s, and printed %q", what, why, text)
		}
		if text != "" {
			r.Failf(sig+"-output", "%s failed (%v) and still printed %q", what, err, text)
		}
	}
	if fault != "" {
		r.Tag("fault " + fault)
		r.NonTrivial()
		mustFail("fault", "an endpoint fails: "+fault)
		return
	}

	// what is served, as series
	store := &oracle.Store{}
	var all []map[string]string
	for i, h := range c.Hosts {
		for _, l := range h.lines() {
			m := map[string]string{}
			for k, v := range l.L {
				if v != "" {
					m[k] = v
				}
			}
			m["instance"] = urls[i]
			all = append(all, m)
			ts := now.UnixMilli()
			if l.Age != -1 {
				ts -= l.Age * 1000
			}
			store.Load(m, ts, float64(l.V))
		}
	}
	if c.List {
		r.Tag("listing")
		if err != nil {
			r.Failf("list-error", "%s failed: %v", what, err)
		}
		set := map[string]bool{}
		for _, m := range all {
			var names []string
			for k := range m {
				if k != "__name__" && k != "instance" {
					names = append(names, k)
				}
			}
			sort.Strings(names)
			set[fmt.Sprintf("%s { %s }", m["__name__"], strings.Join(names, ", "))] = true
		}
		var want []string
		for k := range set {
			want = append(want, k)
		}
		sort.Strings(want)
		var sb strings.Builder
		for _, l := range want {
			sb.WriteString("--" + l + "\n")
		}
		if got := strip(text); got != sb.String() {
			r.Failf("list", "%s lists\n%s\ninstead of\n%s", what, got, sb.String())
		}
		if c.NoCol && strings.Contains(text, "\x1b") {
			r.Failf("list-color", "%s lists in colours without a terminal: %q", what, text)
		}
		if len(want) > 1 {
			r.NonTrivial()
		}
		return
	}

	query := c.Query
	if query == "" {
		query = `{__name__=~".+"}`
	}
	if _, perr := parser.ParseExpr(query); perr != nil {
		r.Tag("invalid query")
		mustFail("bad-query", "the query is not valid: "+perr.Error())
		return
	}
	if format != "json" && format != "yaml" && format != "prometheus" {
		mustFail("bad-format", "the format is unknown")
		return
	}
	eng := promql.NewEngine(promql.EngineOpts{Timeout: time.Minute, MaxSamples: 1 << 20})
	q, perr := eng.NewInstantQuery(store, query, now)
	must(perr)
	defer q.Close()
	want := q.Exec(context.Background())
	if want.Err != nil {
		r.Tag("failing query")
		mustFail("query-error", "the query cannot be executed: "+want.Err.Error())
		return
	}
	if err != nil {
		r.Failf("error", "%s failed: %v (and said %q)", what, err, errOut.String()+cobraOut.String())
	}
	exp := expected(want)
	r.Tag("answer " + exp.Kind)
	if !strings.HasSuffix(text, "\n") {
		r.Failf("no-newline", "%s printed %q, which does not end its last line", what, text)
	}
	body := strings.TrimSuffix(text, "\n")
	var got Res
	switch format {
	case "json":
		got = decodeJSON(r, strip(body), exp.Kind)
	case "yaml":
		got = decodeYAML(r, body, exp.Kind)
	default:
		got = readProm(r, body, exp)
	}
	// times: that of the evaluation, or of the samples
	okTime := func(got, want int64) bool {
		if format == "prometheus" && exp.Kind == "string" {
			return true // has none
		}
		if want < now.UnixMilli() {
			return got == want // an explicit one
		}
		return got >= before && got <= after
	}
	if exp.Kind == "scalar" || exp.Kind == "string" {
		if !okTime(got.T, exp.T) || got.S != exp.S || !oracle.SameBits(float64(got.V), float64(exp.V)) {
			r.Failf("answer", "%s answers %+v instead of %+v", what, got, exp)
		}
		r.NonTrivial()
		return
	}
	sortSeries(exp.Series)
	sortSeries(got.Series)
	if len(exp.Series) != len(got.Series) {
		r.Failf("answer", "%s answers with %d series instead of %d\n%s", what, len(got.Series), len(exp.Series), text)
	}
	for i, e := range exp.Series {
		g := got.Series[i]
		if key(e.L) != key(g.L) || len(e.Pts) != len(g.Pts) {
			r.Failf("answer", "%s answers with %+v instead of %+v", what, g, e)
		}
		for j := range e.Pts {
			if !okTime(g.Pts[j].T, e.Pts[j].T) || !oracle.SameBits(float64(g.Pts[j].V), float64(e.Pts[j].V)) {
				r.Failf("answer", "%s answers with point %+v instead of %+v for %v (run from %d to %d)", what, g.Pts[j], e.Pts[j], e.L, before, after)
			}
		}
	}
	if served > 1 && len(exp.Series) > 0 {
		r.NonTrivial()
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func sortSeries(s []Ser) {
	sort.SliceStable(s, func(i, j int) bool { return key(s[i].L) < key(s[j].L) })
}

func expected(res *promql.Result) Res {
	switch v := res.Value.(type) {
	case promql.Vector:
		out := Res{Kind: "vector"}
		for _, s := range v {
			out.Series = append(out.Series, Ser{s.Metric.Map(), []Pt{{s.T, kit.F(s.V)}}})
		}
		return out
	case promql.Matrix:
		out := Res{Kind: "matrix"}
		for _, s := range v {
			o := Ser{L: s.Metric.Map()}
			for _, p := range s.Points {
				o.Pts = append(o.Pts, Pt{p.T, kit.F(p.V)})
			}
			out.Series = append(out.Series, o)
		}
		return out
	case promql.Scalar:
		return Res{Kind: "scalar", T: v.T, V: kit.F(v.V)}
	case promql.String:
		return Res{Kind: "string", T: v.T, S: v.V}
	}
	panic("no such type")
}

// readProm reads Prometheus' own notation back, by looking for the lines that are expected up to their times.
func readProm(r *kit.R, text string, exp Res) Res {
	got := Res{Kind: exp.Kind}
	point := func(s string) Pt {
		i := strings.LastIndex(s, " @[")
		if i < 0 || !strings.HasSuffix(s, "]") {
			r.Failf("prometheus", "%q is no point in\n%s", s, text)
		}
		ts, err := strconv.ParseInt(s[i+3:len(s)-1], 10, 64)
		v, err2 := strconv.ParseFloat(s[:i], 64)
		if err != nil || err2 != nil {
			r.Failf("prometheus", "%q is no point in\n%s", s, text)
		}
		return Pt{ts, kit.F(v)}
	}
	switch exp.Kind {
	case "string":
		got.S = text
		return got
	case "scalar":
		p := point(strings.TrimPrefix(text, "scalar: "))
		got.T, got.V = p.T, p.V
		return got
	}
	byHead := map[string]map[string]string{}
	for _, s := range exp.Series {
		if exp.Kind == "vector" {
			byHead[s.L["__name__"]+promSeries(s.L, true)] = s.L
		} else {
			byHead[promSeries(s.L, false)] = s.L
		}
	}
	if text == "" {
		return got
	}
	var cur *Ser
	flush := func() {
		if cur != nil {
			got.Series = append(got.Series, *cur)
		}
		cur = nil
	}
	for _, l := range strings.Split(text, "\n") {
		sep := " => "
		if exp.Kind == "matrix" {
			sep = " =>"
		}
		if i := strings.LastIndex(l, sep); i >= 0 {
			flush()
			m, ok := byHead[l[:i]]
			if !ok {
				r.Failf("prometheus", "no series is written %q; the output is\n%s", l[:i], text)
			}
			cur = &Ser{L: m}
			l = strings.TrimPrefix(l[i+len(sep):], " ")
			if l == "" {
				continue
			}
		}
		if cur == nil {
			r.Failf("prometheus", "%q belongs to no series", l)
		}
		cur.Pts = append(cur.Pts, point(l))
	}
	flush()
	return got
}
