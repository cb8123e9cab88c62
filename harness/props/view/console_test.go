package view

import (
	"fmt"
	"strings"
	"testing"

	prompt "github.com/c-bata/go-prompt"
	"github.com/gdamore/tcell"
	"pgregory.net/rapid"

	"sigs.k8s.io/instrumentation-tools/promq/term"
	"verif.local/harness/kit"
)

// ConOp is one call go-prompt makes on its console, or one of the drawing thread's.
type ConOp struct {
	Op   string
	N    int
	M    int
	Text string
	Bold bool
	Box  *Box
}

// tty is a terminal: a grid, a cursor that may stand just past the end of a line, a style.
type tty struct {
	rows, cols int
	grid       [][]cell
	row, col   int
	sty        tcell.Style
}

func (m *tty) resize(b Box) {
	g := make([][]cell, b.Rows)
	for r := range g {
		g[r] = make([]cell, b.Cols)
		for c := range g[r] {
			g[r][c] = blank
			if r < m.rows && c < m.cols {
				g[r][c] = m.grid[r][c]
			}
		}
	}
	m.grid, m.rows, m.cols = g, b.Rows, b.Cols
	m.col = min(m.col, m.cols)
	m.row = max(0, min(m.row, m.rows-1))
}

func (m *tty) clear(row, from, to int) {
	if row < 0 || row >= m.rows {
		return
	}
	for c := max(from, 0); c < to && c < m.cols; c++ {
		m.grid[row][c] = blank
	}
}

func (m *tty) down() { // index
	if m.row < m.rows-1 {
		m.row++
		return
	}
	if m.rows > 0 {
		m.grid = append(m.grid[1:], make([]cell, m.cols))
		m.clear(m.rows-1, 0, m.cols)
	}
}

func (m *tty) up() { // reverse index
	if m.row > 0 {
		m.row--
		return
	}
	if m.rows > 0 {
		m.grid = append([][]cell{make([]cell, m.cols)}, m.grid[:m.rows-1]...)
		m.clear(0, 0, m.cols)
	}
}

func (m *tty) newline() {
	m.clear(m.row, m.col, m.cols)
	m.col = 0
	m.down()
}

func (m *tty) write(s string) {
	for _, g := range glyphs(s, 0) {
		if g.nl {
			m.newline()
			continue
		}
		if g.width > m.cols {
			continue
		}
		if m.col+g.width > m.cols {
			m.newline()
		}
		if m.row < m.rows {
			m.grid[m.row][m.col] = cell{text: g.text, sty: m.sty}
			for i := 1; i < g.width; i++ {
				m.grid[m.row][m.col+i] = cell{any: true}
			}
		}
		m.col += g.width
	}
}

func (m *tty) forward(n int) { m.col = max(0, min(m.col+n, m.cols-1)) }
func (m *tty) vert(n int)    { m.row = max(0, min(m.row+n, m.rows-1)) }

var conOps = []string{"write", "write", "write", "write", "newline", "color", "color", "eraseScreen", "eraseUp", "eraseDown", "eraseStart", "eraseEnd", "eraseLine",
	"goto", "up", "down", "forward", "backward", "scrollDown", "scrollUp", "scrollDown", "scrollUp", "show", "show", "hide", "flush", "title", "box", "draw", "draw"}

// C24: the console the prompt draws itself on.
func TestC24(t *testing.T) {
	kit.Run(t, kit.Spec[[]ConOp]{
		ID:   "C24",
		Rule: "histories of 4-40 calls of go-prompt's console interface (writes of narrow, wide, astral and combining characters, newlines, colours, erasures, cursor moves by -2-12, index and reverse index, cursor display) and of the drawing side (boxes of 1-8 rows by 1-20 columns, redraws), against a terminal model; non-trivial when something is written over several lines, or after the cursor or the contents went backwards",
		Gen: func(t *rapid.T) []ConOp {
			b := func() *Box {
				return &Box{rapid.IntRange(0, 4).Draw(t, "col"), rapid.IntRange(0, 4).Draw(t, "row"), rapid.IntRange(1, 20).Draw(t, "cols"), rapid.IntRange(1, 8).Draw(t, "rows")}
			}
			if rapid.IntRange(0, 11).Draw(t, "large") == 7 {
				b = func() *Box {
					return &Box{0, 1, rapid.SampledFrom([]int{3, 80, 150, 300}).Draw(t, "cols"), rapid.SampledFrom([]int{1, 20, 30, 50, 70}).Draw(t, "rows")}
				}
			}
			cur := b()
			ops := []ConOp{{Op: "box", Box: cur}}
			n := rapid.IntRange(4, 40).Draw(t, "ops")
			for i := 0; i < n; i++ {
				op := ConOp{Op: rapid.SampledFrom(conOps).Draw(t, "op")}
				switch op.Op {
				case "write":
					op.Text = genText(t, rapid.IntRange(0, 4).Draw(t, "nl") == 0)
					if cur.Rows > 8 && rapid.IntRange(0, 2).Draw(t, "fill") == 0 {
						op.Text = strings.Repeat("fill ", cur.Cols*rapid.IntRange(0, cur.Rows).Draw(t, "upto")/5) + op.Text
					}
				case "color":
					op.N, op.M, op.Bold = rapid.IntRange(0, 16).Draw(t, "fg"), rapid.IntRange(0, 16).Draw(t, "bg"), rapid.Bool().Draw(t, "bold")
				case "goto":
					op.N, op.M = rapid.IntRange(0, cur.Rows-1).Draw(t, "row"), rapid.IntRange(0, cur.Cols-1).Draw(t, "col")
				case "up", "down", "forward", "backward":
					op.N = rapid.IntRange(-2, 12).Draw(t, "n")
					if cur.Rows > 8 {
						op.N *= rapid.SampledFrom([]int{1, 1, 7, 40}).Draw(t, "times")
					}
				case "box":
					if rapid.IntRange(0, 1).Draw(t, "really") == 0 {
						continue
					}
					cur = b()
					op.Box = cur
				}
				ops = append(ops, op)
			}
			return append(ops, ConOp{Op: "draw"})
		},
		Check: func(r *kit.R, ops []ConOp) {
			cur := &cursorLog{}
			v := &term.PromptView{Screen: cur}
			w, in := consoleOf(v)
			m := &tty{}
			var box Box
			repaints, shown, showCol, showRow := 0, false, 0, 0
			changed := false
			for i, op := range ops {
				var do func()
				switch op.Op {
				case "write":
					do = func() { w.WriteStr(op.Text) }
					before := m.row
					m.write(op.Text)
					if changed || m.row != before {
						r.NonTrivial()
					}
				case "newline":
					do = func() { w.WriteRaw([]byte("\n")) }
					m.newline()
				case "color":
					do = func() { w.SetColor(prompt.Color(op.N), prompt.Color(op.M), op.Bold) }
					m.sty = tcell.StyleDefault.Bold(op.Bold)
					if op.N > 0 {
						m.sty = m.sty.Foreground(ansi[op.N-1])
					}
					if op.M > 0 {
						m.sty = m.sty.Background(ansi[op.M-1])
					}
				case "eraseScreen":
					do = w.EraseScreen
					for k := 0; k < m.rows; k++ {
						m.clear(k, 0, m.cols)
					}
				case "eraseUp":
					do = w.EraseUp
					m.clear(m.row, 0, m.col+1)
					for k := 0; k < m.row; k++ {
						m.clear(k, 0, m.cols)
					}
				case "eraseDown":
					do = w.EraseDown
					m.clear(m.row, m.col, m.cols)
					for k := m.row + 1; k < m.rows; k++ {
						m.clear(k, 0, m.cols)
					}
				case "eraseStart":
					do = w.EraseStartOfLine
					m.clear(m.row, 0, m.col+1)
				case "eraseEnd":
					do = w.EraseEndOfLine
					m.clear(m.row, m.col, m.cols)
				case "eraseLine":
					do = w.EraseLine
					m.clear(m.row, 0, m.cols)
				case "goto":
					do = func() { w.CursorGoTo(op.N, op.M) }
					m.row, m.col = op.N, op.M
				case "up":
					do = func() { w.CursorUp(op.N) }
					m.vert(-op.N)
					changed = true
				case "down":
					do = func() { w.CursorDown(op.N) }
					m.vert(op.N)
				case "forward":
					do = func() { w.CursorForward(op.N) }
					if op.N < 0 { // stays where it is at the far side
						m.col = max(0, m.col+op.N)
					} else {
						m.forward(op.N)
					}
				case "backward":
					do = func() { w.CursorBackward(op.N) }
					if op.N < 0 {
						m.forward(-op.N)
					} else {
						m.col = max(0, m.col-op.N)
					}
					changed = true
				case "scrollDown":
					do = w.ScrollDown
					m.down()
				case "scrollUp":
					do = w.ScrollUp
					m.up()
					changed = true
				case "show":
					do = w.ShowCursor
					shown, showCol, showRow = true, box.Col+m.col, box.Row+m.row
				case "hide":
					do = w.HideCursor
					shown = false
				case "flush":
					do = func() {
						if err := w.Flush(); err != nil {
							r.Failf("flush", "op %d: Flush: %v", i, err)
						}
					}
					repaints++
				case "title":
					do = func() { w.SetTitle("a title"); w.ClearTitle() }
				case "box":
					box = *op.Box
					do = func() { v.SetBox(box.pos()) }
					m.resize(box)
				case "draw":
					do = func() {}
				}
				what := fmt.Sprintf("op %d (%s)", i, op.Op)
				r.Guard("panic", what, do)
				r.Tag(op.Op)
				if shown != cur.shown || shown && (cur.col != showCol || cur.row != showRow) {
					r.Failf("cursor", "%s: the cursor is shown: %v at column %d row %d; wanted %v, %d, %d", what, cur.shown, cur.col, cur.row, shown, showCol, showRow)
				}
				if cur.repaints != repaints {
					r.Failf("repaint", "%s: %d repaints were asked for, after %d flushes", what, cur.repaints, repaints)
				}
				if sz := in.GetWinSize(); sz == nil || int(sz.Col) != box.Cols || int(sz.Row) != box.Rows {
					r.Failf("winsize", "%s: the prompt is told of a window %+v, the box is %+v", what, sz, box)
				}
				if op.Op != "draw" {
					continue
				}
				s := newScreen(box.Col+box.Cols+2, box.Row+box.Rows+2)
				r.Guard("panic", "FlushTo", func() { v.FlushTo(s) })
				for row := 0; row < box.Row+box.Rows+2; row++ {
					for col := 0; col < box.Col+box.Cols+2; col++ {
						got := at(s, col, row)
						if !box.has(col, row) {
							if got != untouched {
								r.Failf("outside", "%s: row %d column %d, outside the box %+v, shows %s", what, row, col, box, got)
							}
							continue
						}
						want := m.grid[row-box.Row][col-box.Col]
						if !want.any && got != want {
							r.Failf("content", "%s: row %d column %d of the box %+v shows %s, wanted %s; the box:\n%s", what, row-box.Row, col-box.Col, box, got, want, dump(s, box.pos()))
						}
					}
				}
				s.Fini()
			}
		},
	})
}

// ansi is the terminal colour of each colour go-prompt names.
var ansi = []tcell.Color{tcell.ColorBlack, tcell.ColorMaroon, tcell.ColorGreen, tcell.ColorOlive, tcell.ColorNavy, tcell.ColorPurple, tcell.ColorTeal, tcell.ColorSilver,
	tcell.ColorGray, tcell.ColorRed, tcell.ColorLime, tcell.ColorYellow, tcell.ColorBlue, tcell.ColorFuchsia, tcell.ColorAqua, tcell.ColorWhite}
