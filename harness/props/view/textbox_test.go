package view

import (
	"fmt"
	"testing"
	"unicode"

	"github.com/mattn/go-runewidth"
	"pgregory.net/rapid"

	"sigs.k8s.io/instrumentation-tools/promq/term"
	"verif.local/harness/kit"
)

// TextOp is a step in the life of a text box: exactly one of the fields is used.
type TextOp struct {
	Write *string
	Style int
	Box   *Box
	Flush bool
}

// glyph is a character with the marks that combine with it.
type glyph struct {
	text  string
	width int
	sty   int
	nl    bool
}

// glyphs splits one written chunk the way the text box documents: marks join the character before them in the chunk, or a space where there is none.
func glyphs(chunk string, sty int) []glyph {
	var out []glyph
	join := false
	for _, rn := range chunk {
		switch {
		case rn == '\n':
			out = append(out, glyph{nl: true})
			join = false
		case unicode.IsControl(rn):
		case runewidth.RuneWidth(rn) == 0:
			if !join {
				out = append(out, glyph{text: " ", width: 1, sty: sty})
				join = true
			}
			out[len(out)-1].text += string(rn)
		default:
			out = append(out, glyph{text: string(rn), width: runewidth.RuneWidth(rn), sty: sty})
			join = true
		}
	}
	return out
}

// lay wraps everything written into lines of cols cells.
func lay(gs []glyph, cols int) [][]cell {
	lines := [][]cell{nil}
	for _, g := range gs {
		if g.nl {
			lines = append(lines, nil)
			continue
		}
		if g.width > cols {
			continue
		}
		last := len(lines) - 1
		if len(lines[last])+g.width > cols {
			lines = append(lines, nil)
			last++
		}
		lines[last] = append(lines[last], cell{text: g.text, sty: styles[g.sty]})
		for i := 1; i < g.width; i++ {
			lines[last] = append(lines[last], cell{any: true})
		}
	}
	return lines
}

// C23: text in a box.
func TestC23(t *testing.T) {
	kit.Run(t, kit.Spec[[]TextOp]{
		ID:   "C23",
		Rule: "histories of 1-14 writes (0-14 pieces of narrow, wide, astral and combining characters and newlines, in four styles), boxes of 0-8 rows by 0-24 columns anywhere on a marked screen and flushes, interleaved, ending in a flush; non-trivial when a flush wraps or scrolls",
		Gen: func(t *rapid.T) []TextOp {
			n := rapid.IntRange(1, 14).Draw(t, "ops")
			var ops []TextOp
			box := func() TextOp {
				return TextOp{Box: &Box{rapid.IntRange(0, 4).Draw(t, "col"), rapid.IntRange(0, 4).Draw(t, "row"), rapid.IntRange(0, 24).Draw(t, "cols"), rapid.IntRange(0, 8).Draw(t, "rows")}}
			}
			if rapid.IntRange(0, 15).Draw(t, "large") == 9 {
				// many pieces in a large box
				small := box
				box = func() TextOp {
					op := small()
					op.Box.Cols, op.Box.Rows = rapid.SampledFrom([]int{8, 60, 150}).Draw(t, "cols"), rapid.SampledFrom([]int{10, 50, 90}).Draw(t, "rows")
					return op
				}
				every := rapid.SampledFrom([]int{3, 20, 100, 2000}).Draw(t, "newline every")
				for i, n := 0, rapid.SampledFrom([]int{30, 150, 700, 1300}).Draw(t, "many"); i < n; i++ {
					s := []string{"• ", "a title", "", "日本", "x"}[i%5]
					if i%every == every-1 {
						s += "\n\n"
					}
					ops = append(ops, TextOp{Write: &s, Style: i % len(styles)})
				}
			}
			for i := 0; i < n; i++ {
				switch k := rapid.IntRange(0, 9).Draw(t, "op"); {
				case k < 5:
					s := genText(t, true)
					if rapid.IntRange(0, 15).Draw(t, "lead") == 0 {
						s = "\u0301" + s
					}
					ops = append(ops, TextOp{Write: &s, Style: rapid.IntRange(0, len(styles)-1).Draw(t, "style")})
				case k < 7:
					ops = append(ops, box())
				default:
					ops = append(ops, TextOp{Flush: true})
				}
			}
			return append(append(ops, box()), TextOp{Flush: true})
		},
		Check: func(r *kit.R, ops []TextOp) {
			tb := &term.TextBox{}
			var gs []glyph
			var box Box
			for i, op := range ops {
				switch {
				case op.Write != nil:
					r.Guard("panic", fmt.Sprintf("op %d: WriteString", i), func() { tb.WriteString(*op.Write, styles[op.Style]) })
					gs = append(gs, glyphs(*op.Write, op.Style)...)
				case op.Box != nil:
					box = *op.Box
					r.Guard("panic", fmt.Sprintf("op %d: SetBox", i), func() { tb.SetBox(box.pos()) })
				default:
					s := newScreen(box.Col+box.Cols+3, box.Row+box.Rows+3)
					r.Guard("panic", fmt.Sprintf("op %d: FlushTo", i), func() { tb.FlushTo(s) })
					lines := lay(gs, box.Cols)
					if len(lines) > 1 && box.Cols > 0 && box.Rows > 0 {
						r.NonTrivial()
						r.Tag("wraps")
					}
					if over := len(lines) - box.Rows; over > 0 && box.Rows > 0 {
						lines = lines[over:]
						r.Tag("scrolls")
					}
					for row := 0; row < box.Row+box.Rows+3; row++ {
						for col := 0; col < box.Col+box.Cols+3; col++ {
							got := at(s, col, row)
							want := untouched
							if box.has(col, row) {
								want = blank
								if l := row - box.Row; l < len(lines) && col-box.Col < len(lines[l]) {
									want = lines[l][col-box.Col]
								}
								if want.any {
									continue
								}
								if got != want {
									r.Failf("content", "op %d: row %d column %d of the box %+v shows %s, wanted %s; the box:\n%s", i, row-box.Row, col-box.Col, box, got, want, dump(s, box.pos()))
								}
							} else if got != want {
								r.Failf("outside", "op %d: row %d column %d, outside the box %+v, shows %s", i, row, col, box, got)
							}
						}
					}
					s.Fini()
				}
			}
		},
	})
}
