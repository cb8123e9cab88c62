package store

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"sigs.k8s.io/instrumentation-tools/promq/prom"
	"verif.local/harness/kit"
	"verif.local/harness/oracle"
)

// Line is one line of an exposition document: a sample, or text that carries none.
type Line struct {
	Text   string `json:",omitempty"` // comment, metadata or blank line, verbatim
	Sample bool
	Name   string   `json:",omitempty"`
	Ls     []LV     `json:",omitempty"`
	Brace  bool     `json:",omitempty"` // write {} even without labels
	Tail   bool     `json:",omitempty"` // trailing comma in the braces
	Gap    string   `json:",omitempty"` // between series and value
	VText  string   `json:",omitempty"`
	V      kit.F    `json:",omitempty"`
	T      *int64   `json:",omitempty"`
	TGap   string   `json:",omitempty"`
	_      struct{} `json:"-"`
}

type LV struct {
	N string
	V string
}

type parseCase struct {
	Lines   []Line
	Extra   map[string]string
	Now     int64 // ms
	NowNano int64 // below a ms
	NoEOL   bool
	Bad     int    // >0: corrupt this sample line (1-based among samples)
	BadHow  string `json:",omitempty"`
}

func escape(v string) string {
	return strings.NewReplacer(`\`, `\\`, "\n", `\n`, `"`, `\"`).Replace(v)
}

func (l Line) render() string {
	if !l.Sample {
		return l.Text
	}
	var sb strings.Builder
	sb.WriteString(l.Name)
	if len(l.Ls) > 0 || l.Brace {
		sb.WriteString("{")
		for i, x := range l.Ls {
			if i > 0 {
				sb.WriteString(",")
			}
			sb.WriteString(x.N + `="` + escape(x.V) + `"`)
		}
		if l.Tail && len(l.Ls) > 0 {
			sb.WriteString(",")
		}
		sb.WriteString("}")
	}
	sb.WriteString(l.Gap + l.VText)
	if l.T != nil {
		sb.WriteString(l.TGap + strconv.FormatInt(*l.T, 10))
	}
	return sb.String()
}

var (
	genMetric  = rapid.StringMatching(`[a-zA-Z_:][a-zA-Z0-9_:]{0,8}`)
	genLabelN  = rapid.OneOf(rapid.SampledFrom([]string{"a", "b", "job", "instance", "le", "quantile", "_x"}), rapid.StringMatching(`[a-zA-Z_][a-zA-Z0-9_]{0,5}`))
	genTextVal = rapid.Custom(func(t *rapid.T) string {
		n := rapid.IntRange(0, 6).Draw(t, "n")
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteString(rapid.SampledFrom([]string{"a", "Z", "0", " ", `\`, `"`, "\n", "n", "{", "}", ",", "=", "#", "é", "日", "\t", "🙂", "\\n", "'"}).Draw(t, "c"))
		}
		return sb.String()
	})
)

func genSampleLine(t *rapid.T) Line {
	l := Line{Sample: true, Name: genMetric.Draw(t, "metric")}
	seen := map[string]bool{"__name__": true}
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "labels"); i < n; i++ {
		nm := genLabelN.Draw(t, "ln")
		if seen[nm] {
			continue
		}
		seen[nm] = true
		l.Ls = append(l.Ls, LV{nm, genTextVal.Draw(t, "lv")})
	}
	l.Brace = rapid.Bool().Draw(t, "brace")
	l.Tail = rapid.IntRange(0, 4).Draw(t, "tail") == 0
	l.Gap = rapid.SampledFrom([]string{" ", " ", "  ", "\t", " \t "}).Draw(t, "gap")
	l.TGap = rapid.SampledFrom([]string{" ", " ", "  ", "\t"}).Draw(t, "tgap")
	v := float64(genVal.Draw(t, "value"))
	switch {
	case math.IsNaN(v):
		l.VText = rapid.SampledFrom([]string{"NaN", "nan", "Nan"}).Draw(t, "nan")
	case math.IsInf(v, 1):
		l.VText = rapid.SampledFrom([]string{"+Inf", "Inf", "+inf"}).Draw(t, "inf")
	case math.IsInf(v, -1):
		l.VText = "-Inf"
	default:
		f := rapid.SampledFrom([]byte{'g', 'e', 'f', 'G'}).Draw(t, "fmt")
		l.VText = strconv.FormatFloat(v, f, -1, 64)
		if rapid.IntRange(0, 9).Draw(t, "plus") == 0 && v >= 0 && !math.Signbit(v) {
			l.VText = "+" + l.VText
		}
	}
	l.V = kit.F(v)
	if rapid.IntRange(0, 2).Draw(t, "ts") == 0 {
		ts := rapid.OneOf(rapid.Int64Range(0, 2e12), rapid.SampledFrom([]int64{0, 1, math.MaxInt64, 1395066363000})).Draw(t, "T")
		l.T = &ts
	}
	return l
}

func genOtherLine(t *rapid.T) Line {
	m := genMetric.Draw(t, "meta")
	return Line{Text: rapid.SampledFrom([]string{
		"", "# just a comment", "#", "# HELP " + m + " text with 5 words {a=\"b\"} 7", "# TYPE " + m + " counter",
		"# TYPE " + m + " histogram", "# TYPE " + m + " untyped", "# TYPE " + m + " gauge", "# TYPE " + m + " summary",
		"# " + m + " 12", "#" + m + "{a=\"b\"} 1", "# HELP " + m + " é\\n",
	}).Draw(t, "text")}
}

var badHows = []string{"no value", "word value", "open brace", "open quote", "no quote", "bad label name", "word timestamp", "float timestamp", "third number", "bad name", "bad utf8", "no equals"}

func corrupt(how string, l Line) string {
	name := l.Name
	switch how {
	case "no value":
		return name
	case "word value":
		return name + " abc"
	case "open brace":
		return name + `{a="b" 1`
	case "open quote":
		return name + `{a="b} 1`
	case "no quote":
		return name + `{a=b} 1`
	case "bad label name":
		return name + `{1a="b"} 1`
	case "word timestamp":
		return name + " 1 abc"
	case "float timestamp":
		return name + " 1 1.5"
	case "third number":
		return name + " 1 2 3"
	case "bad name":
		return "1" + name + " 1"
	case "bad utf8":
		return name + "{a=\"\xff\"} 1"
	default:
		return name + `{a"b"} 1`
	}
}

func (c parseCase) text() string {
	var sb strings.Builder
	n := 0
	for i, l := range c.Lines {
		s := l.render()
		if l.Sample {
			n++
			if n == c.Bad {
				s = corrupt(c.BadHow, l)
			}
		}
		sb.WriteString(s)
		if i < len(c.Lines)-1 || !c.NoEOL {
			sb.WriteString("\n")
		}
	}
	return sb.String()
}

// TestC01: text exposition in, series out.
func TestC01(t *testing.T) {
	kit.Run(t, kit.Spec[parseCase]{
		ID: "C01",
		Rule: "Exposition documents of 0-12 lines: samples (0-4 labels with escapes and unicode, values in several notations, optional own timestamp, spacing variants) " +
			"mixed with comments, metadata and blanks, 0-3 extra labels that may clash with the document's, optionally one corrupted line; " +
			"non-trivial: at least two samples, or a corrupted line after a good sample.",
		Gen: func(t *rapid.T) parseCase {
			var c parseCase
			samples := 0
			for i, n := 0, rapid.IntRange(0, 12).Draw(t, "lines"); i < n; i++ {
				if rapid.IntRange(0, 3).Draw(t, "other") == 0 {
					c.Lines = append(c.Lines, genOtherLine(t))
				} else {
					c.Lines = append(c.Lines, genSampleLine(t))
					samples++
				}
			}
			c.Extra = map[string]string{}
			for i, n := 0, rapid.IntRange(0, 3).Draw(t, "extra"); i < n; i++ {
				v := genTextVal.Draw(t, "ev")
				if v == "" {
					v = "v"
				}
				c.Extra[genLabelN.Draw(t, "en")] = v
			}
			c.Now = rapid.Int64Range(0, 4e12).Draw(t, "now")
			c.NowNano = rapid.Int64Range(0, 999999).Draw(t, "nano")
			c.NoEOL = rapid.Bool().Draw(t, "noeol")
			if samples > 0 && rapid.IntRange(0, 3).Draw(t, "corrupt") == 0 {
				c.Bad = rapid.IntRange(1, samples).Draw(t, "bad")
				c.BadHow = rapid.SampledFrom(badHows).Draw(t, "how")
			}
			return c
		},
		Check: func(r *kit.R, c parseCase) {
			text := c.text()
			now := time.Unix(c.Now/1000, (c.Now%1000)*1e6+c.NowNano)
			if ms := prom.PromTimestamp(now); ms != c.Now {
				r.Failf("timestamp", "PromTimestamp of %d ms is %d", c.Now, ms)
			}
			for _, extra := range []map[string]string{nil, c.Extra} {
				var have []prom.ParsedSeries
				var err error
				in := []byte(text)
				if extra == nil {
					have, err = prom.ParseTextData(in, now)
				} else {
					have, err = prom.ParseTextDataWithAdditionalLabels(in, now, extra)
				}
				if string(in) != text {
					r.Failf("input-changed", "parsing changed its input")
				}
				if c.Bad > 0 {
					r.Tag("corrupted: " + c.BadHow)
					if c.Bad > 1 {
						r.NonTrivial()
					}
					if err == nil {
						r.Failf("bad-accepted", "a document with a bad line (%s) was accepted: %q", c.BadHow, text)
					}
					if len(have) > 0 {
						r.Failf("bad-partial", "a rejected document still gave %d series: %q", len(have), text)
					}
					continue
				}
				if err != nil {
					r.Failf("good-rejected", "%v parsing %q", err, text)
				}
				i := 0
				for _, l := range c.Lines {
					if !l.Sample {
						continue
					}
					if i >= len(have) {
						r.Failf("sample-missing", "%d samples from %q", len(have), text)
					}
					h := have[i]
					i++
					want := map[string]string{"__name__": l.Name}
					for _, x := range l.Ls {
						want[x.N] = x.V
					}
					for k, v := range extra {
						if _, clash := want[k]; clash {
							r.Tag("extra label overrides")
						}
						want[k] = v
					}
					hm := h.Labels.Map()
					if len(hm) != len(h.Labels) {
						r.Failf("labels", "duplicate label names in %v", h.Labels)
					}
					for j := 1; j < len(h.Labels); j++ {
						if h.Labels[j-1].Name >= h.Labels[j].Name {
							r.Failf("labels-unsorted", "labels of %v are not sorted by name", h.Labels)
						}
					}
					if oracle.Key(hm) != oracle.Key(want) {
						r.Failf("labels", "sample %d of %q has labels %v, want %v", i, text, hm, want)
					}
					if !oracle.SameBits(h.Value, float64(l.V)) || math.Signbit(h.Value) != math.Signbit(float64(l.V)) && !math.IsNaN(h.Value) {
						r.Failf("value", "sample %d of %q has value %v, want %v", i, text, h.Value, float64(l.V))
					}
					wt := c.Now
					if l.T != nil {
						wt = *l.T
						r.Tag("own timestamp")
					}
					if h.Timestamp != wt {
						r.Failf("sample-time", "sample %d of %q has time %d, want %d", i, text, h.Timestamp, wt)
					}
				}
				if i != len(have) {
					r.Failf("sample-extra", "%d samples, want %d, from %q", len(have), i, text)
				}
				if i >= 2 {
					r.NonTrivial()
				}
			}
			_ = fmt.Sprint
		},
	})
}
