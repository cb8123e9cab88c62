package render

import (
	"math"
	"sort"
	"testing"

	"github.com/gdamore/tcell"
	"pgregory.net/rapid"

	"sigs.k8s.io/instrumentation-tools/promq/term"
	"sigs.k8s.io/instrumentation-tools/promq/term/plot"
	"verif.local/harness/kit"
)

// View is a graph in a box on a screen.
type View struct {
	Series         []Ser
	Prev           *Axes
	Row, Col       int
	Rows, Cols     int
	DomD, RngD     int
	DomLbl, RngLbl int
	Empty          bool // no graph at all
}

const mark = '\u25a0'

// markStyle tells untouched cells apart.
var markStyle = tcell.StyleDefault.Foreground(tcell.ColorRed).Bold(true)

// newScreen is a screen with marks everywhere.
func newScreen(cols, rows int) tcell.SimulationScreen {
	s := tcell.NewSimulationScreen("UTF-8")
	if err := s.Init(); err != nil {
		panic(err)
	}
	s.SetSize(cols, rows)
	s.Fill(mark, markStyle)
	return s
}

// C21: a graph on the screen.
func TestC21(t *testing.T) {
	kit.Run(t, kit.Spec[View]{
		ID:   "C21",
		Rule: "a graph view over 0-3 series of 0-25 samples of every magnitude (NaN, infinities, flat, far from zero, extreme spreads), in a box of 0-24 by 0-70 (sometimes 60 by 200) characters somewhere on a marked screen, default and explicit tick spacing; non-trivial when at least two samples are dots on the screen",
		Gen: func(t *rapid.T) View {
			v := View{Series: genSeries(t, 3, 25)}
			v.Prev = genAxes(t, v.Series)
			v.Row, v.Col = rapid.IntRange(0, 4).Draw(t, "row"), rapid.IntRange(0, 6).Draw(t, "col")
			v.Rows = rapid.OneOf(rapid.IntRange(0, 6), rapid.IntRange(10, 24), rapid.IntRange(10, 24)).Draw(t, "rows")
			v.Cols = rapid.OneOf(rapid.IntRange(0, 10), rapid.IntRange(20, 70), rapid.IntRange(20, 70)).Draw(t, "cols")
			if large(t) {
				v.Rows, v.Cols = rapid.IntRange(24, 60).Draw(t, "Rows"), rapid.IntRange(70, 200).Draw(t, "Cols")
			}
			v.DomD, v.RngD = rapid.IntRange(0, 12).Draw(t, "dd"), rapid.IntRange(0, 12).Draw(t, "rd")
			v.DomLbl, v.RngLbl = rapid.IntRange(0, len(domLabelers)-1).Draw(t, "dl"), rapid.IntRange(0, len(rngLabelers)-1).Draw(t, "rl")
			v.Empty = rapid.IntRange(0, 30).Draw(t, "empty") == 0
			return v
		},
		Check: func(r *kit.R, v View) {
			g := plot.DataToPlatonicGraph(build(v.Series), v.Prev.axes())
			gv := &term.GraphView{Graph: g, DomainLabeler: domLabelers[v.DomLbl], RangeLabeler: rngLabelers[v.RngLbl], DomainTickSpacing: v.DomD, RangeTickSpacing: v.RngD}
			if v.Empty {
				gv.Graph = nil
			}
			scols, srows := v.Col+v.Cols+3, v.Row+v.Rows+3
			s := newScreen(scols, srows)
			defer s.Fini()
			r.Guard("panic", "GraphView", func() {
				gv.SetBox(term.PositionBox{StartCol: v.Col, StartRow: v.Row, Cols: v.Cols, Rows: v.Rows})
				gv.FlushTo(s)
			})
			corner := [2]int{-1, -1}
			touched := 0
			for row := 0; row < srows; row++ {
				for col := 0; col < scols; col++ {
					rn, comb, sty, _ := s.GetContent(col, row)
					if rn == mark && len(comb) == 0 && sty == markStyle {
						continue
					}
					touched++
					if row < v.Row || row >= v.Row+v.Rows || col < v.Col || col >= v.Col+v.Cols {
						r.Failf("outside", "drew %q at row %d, column %d, outside the %d×%d box at (%d,%d)", rn, row, col, v.Rows, v.Cols, v.Row, v.Col)
					}
					if rn == '┗' {
						corner = [2]int{row, col}
					}
				}
			}
			if v.Empty {
				if touched > 0 {
					r.Failf("empty", "a view without a graph draws %d characters", touched)
				}
				return
			}
			if corner[0] < 0 {
				if touched > 0 {
					r.Failf("corner", "%d characters are drawn and no axes", touched)
				}
				// only when there is no room
				if v.DomLbl == 2 && v.RngLbl == 2 && v.Rows > 1 && v.Cols > 1 || v.RngLbl != 1 && v.Rows > 21 && v.Cols > 26 {
					r.Failf("corner", "nothing is drawn in a %d×%d box, which has room", v.Rows, v.Cols)
				}
				return
			}
			// the plot is what is above and right of the corner
			in := plot.ScreenSize{Rows: plot.Row(corner[0] - v.Row), Cols: plot.Column(v.Col + v.Cols - 1 - corner[1])}
			if in.Rows <= 0 || in.Cols <= 0 {
				r.Failf("inner", "axes around nothing")
			}
			prow, pcol := 4*int(in.Rows), 2*int(in.Cols)
			lit := func(row, col int) (bool, tcell.Style) {
				up := prow - 1 - row
				rn, _, sty, _ := s.GetContent(corner[1]+1+col/2, v.Row+up/4)
				return rn >= 0x2800 && rn < 0x2900 && (rn-0x2800)&brailleBit[up%4][col%2] != 0, sty
			}
			// every character of the plot is blank or braille
			for row := 0; row < int(in.Rows); row++ {
				for col := 0; col < int(in.Cols); col++ {
					rn, _, sty, _ := s.GetContent(corner[1]+1+col, v.Row+row)
					if rn == ' ' && sty == tcell.StyleDefault || rn > 0x2800 && rn < 0x2900 {
						continue
					}
					r.Failf("plot", "the plot has %q (style %v) at (%d,%d)", rn, sty, row, col)
				}
			}
			type span struct {
				c0, c1, r0, r1 int
				loose          bool
				cols           []int
				lo, hi         map[int]float64 // rows of the mean of a column's samples
				sty            tcell.Style
			}
			var spans []span
			// near tells whether a pixel is about where a series has samples or a line between two.
			near := func(sp span, row, col int) bool {
				if col < sp.c0 || col > sp.c1 || row < sp.r0 || row > sp.r1 {
					return false
				}
				if sp.loose {
					return true
				}
				i := sort.SearchInts(sp.cols, col)
				if i == len(sp.cols) {
					return false
				}
				b := sp.cols[i]
				a := b
				if i > 0 && b != col {
					a = sp.cols[i-1]
				}
				at := func(rows map[int]float64, c float64) float64 {
					if a == b {
						return rows[a]
					}
					c = math.Max(float64(a), math.Min(c, float64(b)))
					return rows[a] + (rows[b]-rows[a])*(c-float64(a))/float64(b-a)
				}
				lo, hi := math.Inf(1), math.Inf(-1)
				for _, c := range []float64{float64(col) - 1, float64(col) + 1} {
					lo, hi = math.Min(lo, at(sp.lo, c)), math.Max(hi, at(sp.hi, c))
				}
				if i > 0 {
					// C20's known finding: a line that falls stays up
					if prev := sp.cols[i-1]; sp.lo[b] < sp.hi[prev] {
						hi = math.Max(hi, sp.hi[prev])
					}
				}
				// a line's pixels may also be in the columns of its ends
				if b == col {
					for _, k := range []int{i - 1, i + 1} {
						if k < 0 || k >= len(sp.cols) {
							continue
						}
						o := sp.cols[k]
						f := 1 / math.Abs(float64(o-col))
						lo = math.Min(lo, sp.lo[col]+(sp.lo[o]-sp.lo[col])*f)
						hi = math.Max(hi, sp.hi[col]+(sp.hi[o]-sp.hi[col])*f)
					}
				}
				return float64(row) >= lo-1.5 && float64(row) <= hi+1.5
			}
			colours := map[tcell.Style]bool{}
			dots := 0
			a := g.PlatonicAxes
			id := func(y float64) float64 { return y }
			for _, sr := range v.Series {
				colours[tcell.StyleDefault.Foreground(tcell.Color(sr.ID%256))] = true
				var fin []Pt
				for _, p := range sr.Pts {
					if finite(float64(p.Y)) {
						fin = append(fin, p)
					}
				}
				sp := span{c0: 1 << 30, c1: -1, r0: 1 << 30, r1: -1, lo: map[int]float64{}, hi: map[int]float64{}, sty: tcell.StyleDefault.Foreground(tcell.Color(sr.ID % 256))}
				type group struct{ lo, hi, n int }
				groups, unsure := map[int]*group{}, map[int]bool{}
				for _, p := range fin {
					c0, c1 := rounds(idealCol(a, pcol, p.X))
					r0, r1 := rounds(idealRow(a, prow, id, float64(p.Y)))
					sp.c0, sp.c1 = min(sp.c0, c0), max(sp.c1, c1)
					sp.r0, sp.r1 = min(sp.r0, r0), max(sp.r1, r1)
					if c0 != c1 { // half way between two columns: either may have it
						unsure[c0], unsure[c1] = true, true
						sp.loose = true
						continue
					}
					gr := groups[c0]
					if gr == nil {
						gr = &group{}
						groups[c0] = gr
					}
					gr.lo, gr.hi, gr.n = gr.lo+r0, gr.hi+r1, gr.n+1
				}
				for col, gr := range groups {
					sp.cols = append(sp.cols, col)
					sp.lo[col], sp.hi[col] = float64(gr.lo)/float64(gr.n), float64(gr.hi)/float64(gr.n)
					if unsure[col] {
						continue
					}
					dots++
					ok := false
					for row := int(math.Floor(float64(gr.lo) / float64(gr.n))); row <= int(math.Ceil(float64(gr.hi)/float64(gr.n))); row++ {
						on, _ := lit(row, col)
						ok = ok || on
					}
					if !ok {
						r.Failf("dot", "series %d: the %d samples in pixel column %d of %d are not lit near row %d of %d", sr.ID, gr.n, col, pcol, gr.lo/gr.n, prow)
					}
				}
				sort.Ints(sp.cols)
				spans = append(spans, sp)
			}
			owners := map[[2]int]map[tcell.Style]bool{}
			for row := 0; row < prow; row++ {
				for col := 0; col < pcol; col++ {
					on, sty := lit(row, col)
					if !on {
						continue
					}
					ok := false
					char := [2]int{(prow - 1 - row) / 4, col / 2}
					for _, sp := range spans {
						if near(sp, row, col) {
							ok = true
							if owners[char] == nil {
								owners[char] = map[tcell.Style]bool{}
							}
							owners[char][sp.sty] = true
						}
					}
					if !ok {
						r.Failf("stray", "pixel (%d,%d) is lit, and no series comes near", row, col)
					}
					if !colours[sty] {
						r.Failf("colour", "pixel (%d,%d) is drawn in %v, the colour of no series", row, col, sty)
					}
				}
			}
			for char, of := range owners {
				if _, _, sty, _ := s.GetContent(corner[1]+1+char[1], v.Row+char[0]); !of[sty] {
					r.Failf("colour", "the character (%d,%d) of the plot is drawn in %v, the colour of no series near it", char[0], char[1], sty)
				}
			}
			if dots >= 2 {
				r.NonTrivial()
			}
		},
	})
}
