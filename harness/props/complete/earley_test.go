package complete

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"sigs.k8s.io/instrumentation-tools/promq/autocomplete/earley"
	"verif.local/harness/kit"
)

// Gram is a grammar without empty rules. Symbols: "A".."E" are non-terminals
// (A is the root), others are terminals, "t/s" a terminal t with subtype s.
type Gram struct {
	Rules [][]string // left side, then the right side
	Words [][]string // token type lists, asked one after the other
	Pos   []int      // how tokens of each list are spaced (editing moves positions)
	Names int        `json:",omitempty"` // which names the non-terminals have
}

// Names for A..E: much alike, one the end of another, or a terminal's as well.
var ntNames = [][]string{
	{"A", "B", "C", "D", "E"},
	{"expr-a", "expr-b", "expr-c", "expr-d", "expr-e"},
	{"e", "ee", "eee", "eeee", "eeeee"},
	{"root", "a", "b", "x", "i"},
	{"Rule", "rule", "rULE", "RULE", "elur"},
}

var (
	nts   = []string{"A", "B", "C", "D", "E"}
	terms = []string{"a", "b", "c", "i/x", "i/y", "i"}
	toks  = []string{"a", "b", "c", "i", "x"}
)

func isNT(s string) bool { return s[0] >= 'A' && s[0] <= 'E' }

func genGram(t *rapid.T) Gram {
	var g Gram
	n := rapid.IntRange(1, 5).Draw(t, "nts")
	sym := rapid.Custom(func(t *rapid.T) string {
		if rapid.IntRange(0, 1).Draw(t, "nt") == 0 && n > 1 {
			return nts[rapid.IntRange(1, n-1).Draw(t, "which")]
		}
		return rapid.SampledFrom(terms).Draw(t, "term")
	})
	for i := 0; i < n; i++ {
		for j, k := 0, rapid.IntRange(1, 3).Draw(t, "alts"); j < k; j++ {
			g.Rules = append(g.Rules, append([]string{nts[i]}, rapid.SliceOfN(sym, 1, 4).Draw(t, "rhs")...))
		}
	}
	// a few long sentences, in which many items of one rule meet in one state set
	depth, most, asks := 4, 10, 6
	if rapid.IntRange(0, 59).Draw(t, "long") == 0 {
		depth, most, asks = 40, 34, 2
		rec := nts[rapid.IntRange(0, n-1).Draw(t, "rec")]
		for i, k := 0, rapid.IntRange(1, 2).Draw(t, "recs"); i < k; i++ {
			r := []string{rec}
			for _, s := range rapid.SampledFrom([]string{"a@", "a@b", "ab@", "@a@", "@a", "@ba", "a@b@", "aba@"}).Draw(t, "shape") {
				if s == '@' {
					r = append(r, rec)
				} else {
					r = append(r, string(s))
				}
			}
			g.Rules = append(g.Rules, r)
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "shuffle") == 0 {
		g.Rules = rapid.Permutation(g.Rules).Draw(t, "order")
	}
	g.Names = rapid.IntRange(0, len(ntNames)-1).Draw(t, "names")
	m := rapid.IntRange(1, asks).Draw(t, "asks")
	var w []string
	for i := 0; i < m; i++ {
		switch rapid.IntRange(0, 4).Draw(t, "next") {
		case 0, 1: // follow the grammar: a derivation, cut
			w = derive(t, g, "A", depth, most+4)
			if len(w) > most {
				w = w[:most]
			}
			w = append([]string(nil), w[:rapid.IntRange(0, len(w)).Draw(t, "cut")]...)
		case 2:
			w = append(append([]string(nil), w...), rapid.SliceOfN(rapid.SampledFrom(toks), 1, 3).Draw(t, "more")...)
		case 3:
			w = append([]string(nil), w[:rapid.IntRange(0, len(w)).Draw(t, "keep")]...)
		default:
			w = append([]string(nil), w...)
			if len(w) > 0 {
				w[rapid.IntRange(0, len(w)-1).Draw(t, "at")] = rapid.SampledFrom(toks).Draw(t, "by")
			}
		}
		g.Words = append(g.Words, w)
		g.Pos = append(g.Pos, rapid.IntRange(1, 2).Draw(t, "gap"))
	}
	return g
}

func derive(t *rapid.T, g Gram, s string, depth, most int) []string {
	if !isNT(s) {
		p := strings.Split(s, "/")
		return p[rapid.IntRange(0, len(p)-1).Draw(t, "ty"):len(p)][:1]
	}
	if depth == 0 {
		return []string{"a"}
	}
	var alts [][]string
	for _, r := range g.Rules {
		if r[0] == s {
			alts = append(alts, r[1:])
		}
	}
	if depth > 6 { // still room: prefer to go on
		var more [][]string
		for _, r := range alts {
			for _, x := range r {
				if x == s {
					more = append(more, r)
					break
				}
			}
		}
		if len(more) > 0 {
			alts = more
		}
	}
	var out []string
	for _, x := range alts[rapid.IntRange(0, len(alts)-1).Draw(t, "alt")] {
		out = append(out, derive(t, g, x, depth-1, most)...)
		if len(out) > most {
			break
		}
	}
	return out
}

func matches(sym, tok string) bool {
	for _, p := range strings.Split(sym, "/") {
		if p == tok {
			return true
		}
	}
	return false
}

// nextTerminals computes, by a fixpoint over spans, which terminals can follow
// the words in some sentence prefix that the grammar allows.
func nextTerminals(g Gram, w []string) []string {
	n := len(w)
	// yields[A][i] = set of j such that A derives w[i:j]
	type span struct {
		a    string
		i, j int
	}
	yields := map[span]bool{}
	ends := func(sym string, i int) []int {
		if !isNT(sym) {
			if i < n && matches(sym, w[i]) {
				return []int{i + 1}
			}
			return nil
		}
		var out []int
		for j := i; j <= n; j++ {
			if yields[span{sym, i, j}] {
				out = append(out, j)
			}
		}
		return out
	}
	for changed := true; changed; {
		changed = false
		for _, r := range g.Rules {
			for i := 0; i <= n; i++ {
				at := map[int]bool{i: true}
				for _, s := range r[1:] {
					nx := map[int]bool{}
					for p := range at {
						for _, e := range ends(s, p) {
							nx[e] = true
						}
					}
					at = nx
				}
				for e := range at {
					if k := (span{r[0], i, e}); !yields[k] {
						yields[k] = true
						changed = true
					}
				}
			}
		}
	}
	type need struct {
		a string
		i int
	}
	asked := map[need]bool{}
	out := map[string]bool{}
	var visit func(a string, i int)
	visit = func(a string, i int) {
		if asked[need{a, i}] {
			return
		}
		asked[need{a, i}] = true
		for _, r := range g.Rules {
			if r[0] != a {
				continue
			}
			at := map[int]bool{i: true}
			for _, s := range r[1:] {
				nx := map[int]bool{}
				for p := range at {
					if isNT(s) {
						visit(s, p)
					} else if p == n {
						parts := strings.Split(s, "/")
						out[parts[len(parts)-1]] = true
					}
					for _, e := range ends(s, p) {
						nx[e] = true
					}
				}
				at = nx
			}
		}
	}
	visit("A", 0)
	var l []string
	for s := range out {
		l = append(l, s)
	}
	sort.Strings(l)
	return l
}

func buildGrammar(g Gram) *earley.Grammar {
	nt := map[string]earley.NonTerminalNode{}
	for i, s := range nts {
		nt[s] = earley.NewNonTerminal(ntNames[g.Names%len(ntNames)][i], i == 0)
	}
	var rules []*earley.GrammarRule
	for _, r := range g.Rules {
		var rhs []earley.Symbol
		for _, s := range r[1:] {
			p := strings.Split(s, "/")
			switch {
			case isNT(s):
				rhs = append(rhs, nt[s])
			case len(p) == 2:
				rhs = append(rhs, earley.NewTerminalWithSubType(earley.TokenType(p[0]), earley.TokenType(p[1])))
			default:
				rhs = append(rhs, earley.NewTerminal(earley.TokenType(s)))
			}
		}
		rules = append(rules, earley.NewRule(nt[r[0]], rhs...))
	}
	return earley.NewGrammar(rules...)
}

// lexed is what the lexer would give: the words and an end token, with positions.
func lexed(w []string, gap int) earley.Tokens {
	var out earley.Tokens
	p := 0
	for _, s := range w {
		out = append(out, earley.Tokhan{Type: earley.TokenType(s), Val: s, StartPos: p, EndPos: p + 1})
		p += gap
	}
	return append(out, earley.Tokhan{Type: earley.EOF, Val: "", StartPos: p, EndPos: p})
}

func suggested(ts []earley.ContextualToken) (string, bool) {
	var l []string
	seen := map[string]bool{}
	for _, t := range ts {
		if seen[string(t.TokenType)] {
			return string(t.TokenType), false
		}
		seen[string(t.TokenType)] = true
		l = append(l, string(t.TokenType))
	}
	sort.Strings(l)
	return strings.Join(l, " "), true
}

// C14: the parser suggests exactly the terminals that can come next.
func TestC14(t *testing.T) {
	kit.Run(t, kit.Spec[Gram]{
		ID:   "C14",
		Rule: "a random grammar without empty rules (recursive and ambiguous ones included) and a session of token lists, most of them cut from derivations, typed on, shortened and edited; non-trivial when some asked list has two or more tokens and can be continued",
		Gen:  genGram,
		Check: func(r *kit.R, g Gram) {
			for _, x := range g.Rules {
				if len(x) < 2 || !isNT(x[0]) {
					return
				}
			}
			long := earley.NewEarleyParser(*buildGrammar(g))
			for i, w := range g.Words {
				want := strings.Join(nextTerminals(g, w), " ")
				in := lexed(w, g.Pos[i])
				if len(w) >= 2 && want != "" {
					r.NonTrivial()
				}
				if want == "" {
					r.Tag("dead end")
				}
				var got []earley.ContextualToken
				r.Guard("panic", "GetSuggestedTokenType", func() { got = earley.NewEarleyParser(*buildGrammar(g)).GetSuggestedTokenType(in) })
				h, ok := suggested(got)
				if !ok {
					r.Failf("twice", "%s is suggested twice after %v", h, w)
				}
				if h != want {
					r.Failf("fresh", "grammar %s\nafter %v a fresh parser suggests [%s]; the grammar allows [%s]", showG(g), w, h, want)
				}
				r.Guard("panic-history", "GetSuggestedTokenType", func() { got = long.GetSuggestedTokenType(in) })
				h, ok = suggested(got)
				if !ok {
					r.Failf("twice", "%s is suggested twice after %v", h, w)
				}
				if h != want {
					r.Failf("history", "grammar %s\nafter %v (request %d of %v) the parser suggests [%s]; the grammar allows [%s]", showG(g), w, i, g.Words, h, want)
				}
			}
		},
	})
}

func showG(g Gram) string {
	var l []string
	for _, r := range g.Rules {
		l = append(l, fmt.Sprintf("%s -> %s", r[0], strings.Join(r[1:], " ")))
	}
	return strings.Join(l, "; ")
}
