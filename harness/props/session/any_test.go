package session

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verif.local/harness/kit"
)

// AnyStep is something that happens to a session, without waiting for what it does.
type AnyStep struct {
	Kind       string // type, pause (Cols milliseconds), resize, serve
	Text       string
	Cols, Rows int
}

type anyCase struct {
	Cols, Rows int
	Args       []string
	Steps      []AnyStep
	Procs      int
}

var (
	anyKeys = []string{"\t", "\t", "\r", "\r", "\x1b[A", "\x1b[B", "\x1b[C", "\x1b[D", "\x1b[Z", "\x1b[H", "\x1b[F", "\x1b[3~", "\x1bOP", "\x1b[15~", "\x1b[1;5C", "\x1b[1;2A", "\x1b", "\x1b\x1b", "\x1bb", "\x7f", "\x7f", "\x08",
		"\x01", "\x02", "\x03", "\x04", "\x05", "\x06", "\x07", "\x0a", "\x0b", "\x0c", "\x0e", "\x0f", "\x10", "\x12", "\x13", "\x14", "\x15", "\x16", "\x17", "\x18", "\x19", "\x1a", "\x1c", "\x1d", "\x1e", "\x1f", "\x00"}
	anyText = []string{"sum by (a) (m)", "sum(", "m{a=\"", "ü", "世界", "e\u0301", "\U0001F600", "{}", "((", ")", ":", ":q ", ":foo", "zq_", "m{a=~\".*\"}", "rate(m[5m])", "m[5m]", "\"x\"", "1", " ", "topk(3, m)", "m * on(a) group_left m", "label_replace(m, \"z\", \"$1\", \"a\", \"(.*)\")", "histogram_quantile(0.9, m)", "\xff\xfe", "%d", "1/0", "-1/0", "0/0", "time() * 1e300", "m offset 1m", "m+m+m+m+m"}
	anyDocs = []string{"", "m 1\n", "m{a=\"x\"} 3\nm{a=\"y\"} 4\n", "m NaN\nn +Inf\nk -Inf\n", "m{", "m{a=\"世界\"} 1e300\n", "zq_only 5\n", "many", "500", "slow", "<html>", "m{a=\"" + strings.Repeat("long ", 60) + "\"} 1\n", "m 1\nm 2\n", "m 1e-300\n", "# TYPE m histogram\nm_bucket{le=\"1\"} 3\nm_bucket{le=\"+Inf\"} 5\n"}
)

func genAny(t *rapid.T) anyCase {
	size := func() (int, int) {
		if rapid.IntRange(0, 3).Draw(t, "odd size") == 0 {
			return rapid.IntRange(1, 30).Draw(t, "cols"), rapid.IntRange(1, 16).Draw(t, "rows")
		}
		return rapid.IntRange(20, 160).Draw(t, "cols"), rapid.IntRange(9, 50).Draw(t, "rows")
	}
	c := anyCase{Procs: rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "procs")}
	c.Cols, c.Rows = size()
	if rapid.Bool().Draw(t, "query") {
		c.Args = []string{"-q", rapid.SampledFrom(append([]string{"sum by (a) (m)"}, queries...)).Draw(t, "q")}
	}
	if rapid.IntRange(0, 3).Draw(t, "second target") == 0 {
		c.Args = append(c.Args, "-t", "SECOND")
	}
	for n := rapid.IntRange(2, 14).Draw(t, "steps"); n > 0; n-- {
		switch rapid.IntRange(0, 9).Draw(t, "kind") {
		case 0:
			s := AnyStep{Kind: "resize"}
			s.Cols, s.Rows = size()
			c.Steps = append(c.Steps, s)
		case 1:
			c.Steps = append(c.Steps, AnyStep{Kind: "serve", Text: rapid.SampledFrom(anyDocs).Draw(t, "doc")})
		case 2, 3:
			c.Steps = append(c.Steps, AnyStep{Kind: "pause", Cols: rapid.SampledFrom([]int{5, 30, 100, 400, 1000}).Draw(t, "ms")})
		case 4, 5: // a whole line
			c.Steps = append(c.Steps, AnyStep{Kind: "type", Text: rapid.SampledFrom(queries).Draw(t, "query") + "\r"})
		default:
			text := ""
			for k := rapid.IntRange(1, 8).Draw(t, "keys"); k > 0; k-- {
				text += rapid.OneOf(rapid.SampledFrom(anyKeys), rapid.SampledFrom(anyText), rapid.SampledFrom(queries), rapid.StringMatching(`[ -~]{1,4}`)).Draw(t, "text")
			}
			if !utf8.ValidString(text) {
				text = strings.ToValidUTF8(text, "\u009b")
			}
			c.Steps = append(c.Steps, AnyStep{Kind: "type", Text: text})
		}
	}
	return c
}

type anyEndpoint struct {
	mu  sync.Mutex
	doc string
}

func (e *anyEndpoint) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	e.mu.Lock()
	doc := e.doc
	e.mu.Unlock()
	switch doc {
	case "500":
		w.WriteHeader(500)
	case "slow":
		select {
		case <-time.After(1500 * time.Millisecond):
		case <-q.Context().Done():
		}
		fmt.Fprint(w, "m 7\n")
	case "many":
		for i := 0; i < 80; i++ {
			fmt.Fprintf(w, "m{a=\"v%d\",b=\"%d\"} %d\n", i, i%7, i*i)
		}
	default:
		fmt.Fprint(w, doc)
	}
}

// TestC36: nothing that is typed or happens ends a session but its end.
func TestC36(t *testing.T) {
	dir, _ := os.MkdirTemp("", "verif-any")
	kit.Run(t, kit.Spec[anyCase]{
		ID: "C36",
		Rule: "a session of a race-detecting promq -c in a terminal of its own: bursts of keys, words, queries, completions, control and function keys, Unicode and pasted text, resizes down to one cell, and changes of what one or two endpoints serve (also failures, garbage, delays, many series), all without waiting; then :q until it ends; " +
			"non-trivial: keys were typed around a resize or a change of what is served",
		Gen:      genAny,
		Check:    func(r *kit.R, c anyCase) { checkAny(r, c, dir) },
		Setup:    needTerminals,
		Teardown: func() { os.RemoveAll(dir) },
		Hang:     300 * time.Second,
		Batch:    2,
		Flaky:    true,
		Repeat:   4,
	})
}

func checkAny(r *kit.R, c anyCase, dir string) {
	e := &anyEndpoint{doc: "m{a=\"x\"} 3\nm{a=\"y\",b=\"1\"} 4\nzq_only_total 5\nn 2\n"}
	srv := httptest.NewServer(e)
	defer srv.Close()
	race := filepath.Join(dir, "race")
	old, _ := filepath.Glob(race + ".*")
	for _, f := range old {
		os.Remove(f)
	}
	env := append(environment(dir, c.Procs), "GORACE=halt_on_error=1 exitcode=66 log_path="+race)
	args := []string{"-c", "-t", srv.URL + "/m"}
	for _, a := range c.Args {
		if a == "SECOND" {
			second := httptest.NewServer(&anyEndpoint{doc: "m{a=\"z\"} 9\n"})
			defer second.Close()
			a = second.URL + "/n"
		}
		args = append(args, a)
	}
	s, err := start(os.Getenv("KIT_PROMQ"), env, args, c.Cols, c.Rows)
	if err != nil {
		panic(err)
	}
	defer s.close()
	ended := func(why string) bool {
		select {
		case <-s.ended:
		default:
			return false
		}
		if logs, _ := filepath.Glob(race + ".*"); len(logs) > 0 {
			b, _ := os.ReadFile(logs[0])
			r.Failf("race", "%s: a data race:\n%.6000s", why, b)
		}
		if code := s.cmd.ProcessState.ExitCode(); code != 0 {
			r.Failf("died", "%s: promq ended with %v (%d), having written\n%s", why, s.err, code, s.lastWords())
		}
		return true
	}
	if !s.until(90*time.Second, func() bool { return s.alt }) {
		ended("at the start")
		r.Failf("start", "promq does not draw anything")
	}
	typed, events := false, false
	for i, st := range c.Steps {
		if ended(fmt.Sprintf("before step %d", i)) {
			return // something typed was :q
		}
		r.Tag(st.Kind)
		switch st.Kind {
		case "type":
			s.typed(st.Text)
			typed = true
		case "pause":
			time.Sleep(time.Duration(st.Cols) * time.Millisecond)
		case "resize":
			s.vt.resize(st.Cols, st.Rows)
			if err := s.setSize(st.Cols, st.Rows); err != nil {
				panic(err)
			}
			events = true
		case "serve":
			e.mu.Lock()
			e.doc = st.Text
			e.mu.Unlock()
			events = true
		}
	}
	if typed && events {
		r.NonTrivial()
	}
	s.vt.resize(100, 40)
	s.setSize(100, 40)
	for end := time.Now().Add(90 * time.Second); ; {
		if ended("after " + fmt.Sprint(len(c.Steps)) + " steps and :q") {
			break
		}
		if time.Now().After(end) {
			s.cmd.Process.Signal(syscall.SIGQUIT)
			select {
			case <-s.ended:
			case <-time.After(5 * time.Second):
			}
			r.Failf("stuck", "promq does not end on :q; asked what it does, it says\n%s", s.lastWords())
		}
		s.typed("\x05\x15:q\r")
		select {
		case <-s.ended:
		case <-time.After(1500 * time.Millisecond):
		}
	}
	if s.alt || !s.cursor {
		r.Failf("terminal", "promq left the terminal in its full-screen mode (%v) or without a cursor (%v)", s.alt, !s.cursor)
	}
}
