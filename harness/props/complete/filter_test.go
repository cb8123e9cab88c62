package complete

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"testing"

	prompt "github.com/c-bata/go-prompt"
	"pgregory.net/rapid"

	"sigs.k8s.io/instrumentation-tools/cmd/metrics"
	"sigs.k8s.io/instrumentation-tools/notstdlib/sets"
	"sigs.k8s.io/instrumentation-tools/promq/autocomplete"
	"verif.local/harness/kit"
)

// Filt is a set of candidates and a pattern.
type Filt struct {
	Items []string
	Pat   string
	Fold  bool
}

func subsequence(s, sub []rune) bool {
	if len(sub) == 0 {
		return true
	}
	for i, c := range s {
		if c == sub[0] {
			return subsequence(s[i+1:], sub[1:])
		}
	}
	return false
}

// C15: the candidate filters.
func TestC15(t *testing.T) {
	kit.Run(t, kit.Spec[Filt]{
		ID:   "C15",
		Rule: "a set of candidates of mixed case and scripts and a pattern, mostly taken from a candidate; non-trivial when the pattern keeps some candidates and drops others",
		Gen: func(t *rapid.T) Filt {
			word := rapid.OneOf(rapid.StringMatching(`[abAB_]{0,5}`), rapid.StringOfN(rapid.RuneFrom([]rune("aAbBéÉ日本ß\"\\\n ſıµςäĩĤ")), 0, 6, -1), rapid.SampledFrom([]string{"http_requests_total", "HTTP_requests", "sum", "Sum"}))
			f := Filt{Items: rapid.SliceOfN(word, 0, 8).Draw(t, "items"), Fold: rapid.Bool().Draw(t, "fold")}
			if len(f.Items) > 0 && rapid.IntRange(0, 3).Draw(t, "own") > 0 {
				rs := []rune(rapid.SampledFrom(f.Items).Draw(t, "from"))
				switch rapid.IntRange(0, 2).Draw(t, "how") {
				case 0:
					f.Pat = string(rs[:rapid.IntRange(0, len(rs)).Draw(t, "len")])
				case 1:
					for _, c := range rs {
						if rapid.Bool().Draw(t, "keep") {
							f.Pat += string(c)
						}
					}
				default:
					f.Pat = strings.ToUpper(string(rs[:rapid.IntRange(0, len(rs)).Draw(t, "len")]))
				}
			} else {
				f.Pat = word.Draw(t, "pat")
			}
			return f
		},
		Check: func(r *kit.R, f Filt) {
			fold := func(s string) string {
				if f.Fold {
					return strings.ToLower(s)
				}
				return s
			}
			check := func(name string, fn func(sets.String, string, bool) sets.String, keep func(item, pat string) bool) {
				in := sets.NewString(f.Items...)
				var got sets.String
				r.Guard("panic", name, func() { got = fn(in, f.Pat, f.Fold) })
				want := map[string]bool{}
				for _, i := range f.Items {
					if keep(fold(i), fold(f.Pat)) {
						want[i] = true
					}
				}
				if len(want) > 0 && len(want) < len(in) {
					r.NonTrivial()
				}
				for i := range got {
					if !want[i] {
						r.Failf(name+"-extra", "%s(%q, %q, %v) has %q", name, f.Items, f.Pat, f.Fold, i)
					}
				}
				for i := range want {
					if !got.Has(i) {
						r.Failf(name+"-missing", "%s(%q, %q, %v) lacks %q: %q", name, f.Items, f.Pat, f.Fold, i, got.List())
					}
				}
				if !in.Equal(sets.NewString(f.Items...)) {
					r.Failf(name+"-input", "%s changed its input set to %q", name, in.List())
				}
			}
			check("FilterPrefix", autocomplete.FilterPrefix, strings.HasPrefix)
			check("FilterFuzzy", autocomplete.FilterFuzzy, func(i, p string) bool { return subsequence([]rune(i), []rune(p)) })

			in := sets.NewString(f.Items...)
			var q []string
			for s := range autocomplete.Enquote(in) {
				u, err := strconv.Unquote(s)
				if err != nil || !strings.HasPrefix(s, `"`) {
					r.Failf("enquote", "Enquote(%q) has %s, which is no double-quoted string", f.Items, s)
				}
				q = append(q, u)
			}
			sort.Strings(q)
			if strings.Join(q, "\x00") != strings.Join(in.List(), "\x00") || len(q) != len(in) {
				r.Failf("enquote-set", "Enquote(%q) unquotes to %q", f.Items, q)
			}
		},
	})
}

// Edit is one thing done to the prompt line.
type Edit struct {
	Op string // insert, left, right, backspace
	S  string `json:",omitempty"`
	N  int    `json:",omitempty"`
}

type spy struct {
	autocomplete.PromQLCompleter
	q     string
	pos   int
	asked bool
	give  []autocomplete.Match
}

type match struct{ v, k, d string }

func (m match) GetValue() string  { return m.v }
func (m match) GetKind() string   { return m.k }
func (m match) GetDetail() string { return m.d }

func (s *spy) GenerateSuggestions(q string, pos int) []autocomplete.Match {
	s.q, s.pos, s.asked = q, pos, true
	return s.give
}

type editCase struct {
	Edits []Edit
	Give  []string
}

// C16: completion is asked for exactly the text before the cursor.
func TestC16(t *testing.T) {
	kit.Run(t, kit.Spec[editCase]{
		ID:   "C16",
		Rule: "a prompt line edited by inserting text (wide and multi-byte characters included), moving and deleting; after every edit the completion request must be for the text before the cursor, and the answers must arrive unchanged; non-trivial when the cursor stands behind a multi-byte character",
		Gen: func(t *rapid.T) editCase {
			var c editCase
			n := rapid.IntRange(1, 8).Draw(t, "edits")
			for i := 0; i < n; i++ {
				switch rapid.IntRange(0, 4).Draw(t, "op") {
				case 0, 1, 2:
					c.Edits = append(c.Edits, Edit{Op: "insert", S: rapid.OneOf(rapid.SampledFrom([]string{"sum(", "up", "é", "日本", "{a=\"", "ü\"", "🙂", " ", "e\u0301", "foo\n"}), rapid.StringN(0, 5, -1)).Draw(t, "s")})
				case 3:
					c.Edits = append(c.Edits, Edit{Op: rapid.SampledFrom([]string{"left", "right"}).Draw(t, "dir"), N: rapid.IntRange(1, 5).Draw(t, "n")})
				default:
					c.Edits = append(c.Edits, Edit{Op: "backspace", N: rapid.IntRange(1, 3).Draw(t, "n")})
				}
			}
			c.Give = rapid.SliceOfN(rapid.SampledFrom([]string{"up", "sum", "\"日本\"", "", "foo", "up", "apiserver_request_duration_seconds_bucket_of_a_very_long_name", "\"a b\\n\"", strings.Repeat("x", 300)}), 0, 4).Draw(t, "give")
			if rapid.IntRange(0, 49).Draw(t, "many") == 33 {
				for i := rapid.IntRange(20, 700).Draw(t, "more"); i > 0; i-- {
					c.Give = append(c.Give, fmt.Sprintf("candidate_%d", i))
				}
			}
			return c
		},
		Check: func(r *kit.R, c editCase) {
			s := &spy{}
			for i, g := range c.Give {
				s.give = append(s.give, match{g, "kind", "detail" + strconv.Itoa(i)})
			}
			co := metrics.NewCompleter(s)
			b := prompt.NewBuffer()
			for _, e := range c.Edits {
				switch e.Op {
				case "insert":
					b.InsertText(e.S, false, true)
				case "left":
					b.CursorLeft(e.N)
				case "right": // as the arrow key does, one at a time
					for i := 0; i < e.N; i++ {
						b.CursorRight(1)
					}
				case "backspace":
					b.DeleteBeforeCursor(e.N)
				}
				d := *b.Document()
				if !strings.HasPrefix(d.Text, d.TextBeforeCursor()) {
					return // go-prompt itself lost track of the cursor
				}
				s.asked = false
				var got []prompt.Suggest
				r.Guard("panic", "Complete", func() { got = co.Complete(d) })
				before := d.TextBeforeCursor()
				if before == "" {
					if len(got) != 0 {
						r.Failf("empty-line", "suggestions %v with nothing before the cursor", got)
					}
					continue
				}
				if len(before) != len([]rune(before)) {
					r.NonTrivial()
				}
				if !s.asked {
					r.Failf("not-asked", "nothing was asked for %q", before)
				}
				if s.pos < 0 || s.pos > len(s.q) || s.q[:s.pos] != before {
					r.Failf("position", "the line is %q with the cursor after %q; completion was asked for %q at %d", d.Text, before, s.q, s.pos)
				}
				if len(got) != len(c.Give) {
					r.Failf("answers", "%d answers given, %d shown", len(c.Give), len(got))
				}
				for i := range got {
					if got[i].Text != c.Give[i] || got[i].Description != "detail"+strconv.Itoa(i) {
						r.Failf("answers", "answer %d is shown as %q (%q), was %q", i, got[i].Text, got[i].Description, c.Give[i])
					}
				}
			}
		},
	})
}
