package render

import (
	"math"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"sigs.k8s.io/instrumentation-tools/promq/term/plot"
	"verif.local/harness/kit"
)

// AxesCase is a graph to draw axes for.
type AxesCase struct {
	Series         []Ser
	Prev           *Axes
	Rows, Cols     int
	DomD, RngD     int
	Line           int
	Scale          int
	DomLbl, RngLbl int
}

var domLabelers = []plot.DomainLabeler{
	func(x int64) string { return time.Unix(x/1000, 0).UTC().Format("15:04:05") },
	func(x int64) string { return strconv.FormatInt(x, 10) },
	func(x int64) string { return "" },
	func(x int64) string { return "t" },
	func(x int64) string { return strings.Repeat("=", int(uint64(x)%7)) },
}

var rngLabelers = []plot.RangeLabeler{
	func(y float64) string { return strconv.FormatFloat(y, 'g', -1, 64) },
	func(y float64) string { return strconv.FormatFloat(y, 'f', 1, 64) },
	func(y float64) string { return "" },
	func(y float64) string { return "y" },
	func(y float64) string { return strings.Repeat("#", int(math.Float64bits(y)>>40%9)) },
}

// C19: ticks and axes.
func TestC19(t *testing.T) {
	kit.Run(t, kit.Spec[AxesCase]{
		ID:   "C19",
		Rule: "0-3 series of 0-80 (sometimes 800) samples of every magnitude, boxes of 0-40 by 0-120 (sometimes 80 by 300) characters, tick densities 1-20, labels of fixed and varying length (none, one character, times, numbers), linear and non-linear scales; non-trivial when at least three ticks of both kinds are placed",
		Gen: func(t *rapid.T) AxesCase {
			c := AxesCase{Series: genSeries(t, 3, rapid.SampledFrom([]int{25, 25, 80}).Draw(t, "maxpts"))}
			c.Prev = genAxes(t, c.Series)
			c.Rows = rapid.OneOf(rapid.IntRange(0, 8), rapid.IntRange(12, 40), rapid.IntRange(12, 40)).Draw(t, "rows")
			c.Cols = rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(30, 120), rapid.IntRange(30, 120)).Draw(t, "cols")
			if large(t) {
				c.Rows, c.Cols = rapid.IntRange(40, 80).Draw(t, "Rows"), rapid.IntRange(120, 300).Draw(t, "Cols")
			}
			c.DomD, c.RngD = rapid.IntRange(1, 12).Draw(t, "dd"), rapid.IntRange(1, 12).Draw(t, "rd")
			c.Line = rapid.SampledFrom([]int{1, 1, 1, 2}).Draw(t, "line")
			c.Scale = rapid.IntRange(0, len(scales)-1).Draw(t, "scale")
			c.DomLbl, c.RngLbl = rapid.IntRange(0, len(domLabelers)-1).Draw(t, "dl"), rapid.IntRange(0, len(rngLabelers)-1).Draw(t, "rl")
			return c
		},
		Check: func(r *kit.R, c AxesCase) {
			g := plot.DataToPlatonicGraph(build(c.Series), c.Prev.axes())
			size := plot.ScreenSize{Rows: plot.Row(c.Rows), Cols: plot.Column(c.Cols)}
			dl, rl, scale := domLabelers[c.DomLbl], rngLabelers[c.RngLbl], scales[c.Scale]
			var tk *plot.ScreenTicks
			r.Guard("panic", "EvenlySpacedTicks", func() {
				tk = plot.EvenlySpacedTicks(g, size,
					plot.TickScaling{RangeScale: scale, RangeDensity: c.RngD, DomainDensity: c.DomD},
					plot.Labeling{DomainLabeler: dl, RangeLabeler: rl, LineSize: c.Line})
			})
			in := tk.InnerGraphSize
			if in.Rows < 0 || in.Cols < 0 || tk.MarginRows < plot.Row(c.Line) || tk.MarginCols < plot.Column(c.Line) || tk.LineSize != c.Line {
				r.Failf("inner", "inner size %+v, margins %d and %d, line %d", in, tk.MarginRows, tk.MarginCols, tk.LineSize)
			}
			if fits := c.Rows >= int(tk.MarginRows) && c.Cols >= int(tk.MarginCols); fits != (in.Rows+tk.MarginRows == size.Rows && in.Cols+tk.MarginCols == size.Cols) || !fits && in != (plot.ScreenSize{}) {
				r.Failf("inner", "box %+v with margins of %d rows and %d columns leaves %+v", size, tk.MarginRows, tk.MarginCols, in)
			}
			// the domain
			domOK, rngOK := g.DomainMin <= g.DomainMax, g.RangeMin <= g.RangeMax
			if domOK != (len(tk.DomainTicks) > 0) || rngOK != (len(tk.RangeTicks) > 0) {
				r.Failf("none", "axes %+v have %d domain ticks and %d range ticks", g.PlatonicAxes, len(tk.DomainTicks), len(tk.RangeTicks))
			}
			if n := c.Cols/c.DomD + 2; len(tk.DomainTicks) > n {
				r.Failf("count", "%d domain ticks in %d columns at a density of one in %d", len(tk.DomainTicks), c.Cols, c.DomD)
			}
			spread := g.RangeMax - g.RangeMin
			// (when floating point can tell the steps apart)
			exact := spread > 1e-6*math.Max(math.Abs(g.RangeMin), math.Abs(g.RangeMax)) && spread > 1e-280 && finite(spread)
			if n := c.Cols/c.RngD + 3; len(tk.RangeTicks) > n && exact || len(tk.RangeTicks) > 2*n {
				r.Failf("count", "%d range ticks at a density of one in %d of %d", len(tk.RangeTicks), c.RngD, c.Cols)
			}
			drawn := in.Rows > 0 && in.Cols > 0
			for i, d := range tk.DomainTicks {
				if d.Value < g.DomainMin || d.Value > g.DomainMax {
					r.Failf("domain", "a tick at %d is not between %d and %d", d.Value, g.DomainMin, g.DomainMax)
				}
				if i == 0 && d.Value != g.DomainMin {
					r.Failf("first", "the first tick is at %d, the domain starts at %d", d.Value, g.DomainMin)
				}
				if i > 0 && d.Value <= tk.DomainTicks[i-1].Value {
					r.Failf("ascending", "a tick at %d follows one at %d", d.Value, tk.DomainTicks[i-1].Value)
				}
				if d.Label != dl(d.Value) {
					r.Failf("label", "the tick at %d is labelled %q, not %q", d.Value, d.Label, dl(d.Value))
				}
				if len(d.Label)+c.Line > int(tk.MarginRows) {
					r.Failf("margin", "label %q and the line do not fit %d rows", d.Label, tk.MarginRows)
				}
				if drawn {
					lo, hi := rounds(idealCol(g.PlatonicAxes, int(in.Cols), d.Value))
					if int(d.Col) < lo || int(d.Col) > hi {
						r.Failf("col", "the tick at %d belongs in column %.3f of %d, got %d", d.Value, idealCol(g.PlatonicAxes, int(in.Cols), d.Value), in.Cols, d.Col)
					}
					if i > 0 && d.Col <= tk.DomainTicks[i-1].Col {
						r.Failf("onecol", "two ticks in column %d", d.Col)
					}
				}
			}
			if drawn && domOK {
				// the end of the domain has a tick, of its own or of what shares its column
				last := tk.DomainTicks[len(tk.DomainTicks)-1]
				lo, hi := rounds(idealCol(g.PlatonicAxes, int(in.Cols), g.DomainMax))
				if int(last.Col) < lo || int(last.Col) > hi {
					r.Failf("last", "the last tick is in column %d, the domain ends in column %d", last.Col, lo)
				}
			}
			// evenly spaced: all but the one at the end are whole steps from the start
			if n := len(tk.DomainTicks); n > 2 {
				even := false
				step := (g.DomainMax - g.DomainMin) / int64(max(1, c.Cols/c.DomD))
				if step == 0 {
					step = g.DomainMax - g.DomainMin
				}
				even = true
				for _, d := range tk.DomainTicks[:n-1] {
					even = even && (d.Value-g.DomainMin)%step == 0
				}
				if !even {
					r.Failf("even", "domain ticks %v of [%d,%d] are not steps of %d", tk.DomainTicks, g.DomainMin, g.DomainMax, step)
				}
			}
			// as many as the density and the longest series allow, but for those sharing a column
			if drawn && domOK {
				longest := 1
				for _, x := range g.Series {
					longest = max(longest, len(x.Points()))
				}
				base := max(1, c.Cols/c.DomD)
				step := (g.DomainMax - g.DomainMin) / int64(base)
				if step == 0 {
					step = g.DomainMax - g.DomainMin
				}
				for i, v := 0, g.DomainMin; i < min(base, longest) && v >= g.DomainMin && v <= g.DomainMax; i, v = i+1, v+step {
					lo, hi := rounds(idealCol(g.PlatonicAxes, int(in.Cols), v))
					found := false
					for _, d := range tk.DomainTicks {
						found = found || d.Value == v || int(d.Col) >= lo && int(d.Col) <= hi
					}
					if !found {
						r.Failf("lacking", "no tick at %d: %d columns, one tick in %d, up to %d points in a series, ticks %v of [%d,%d]", v, c.Cols, c.DomD, longest, tk.DomainTicks, g.DomainMin, g.DomainMax)
					}
				}
			}
			// the range
			if drawn && rngOK && exact {
				step := spread / float64(max(1, c.Cols/c.RngD))
				for i, d := range tk.RangeTicks[1:] {
					prev := tk.RangeTicks[i]
					for v := prev.Value + step; v < d.Value-step/1000; v += step {
						lo, hi := rounds(idealRow(g.PlatonicAxes, int(in.Rows), scale, v))
						up := func(t plot.RangeTick) int { return int(in.Rows-1) - int(t.Row) }
						switch {
						case lo <= up(prev) && up(prev) <= hi || lo <= up(d) && up(d) <= hi: // they share a row
						case lo <= int(prev.Row) && int(prev.Row) <= hi: // recorded, not repaired: rows and inverted rows are mixed up
							r.Tag("row left out")
							if r.KnownInput() {
								r.Failf("midrow", "no tick at %g, %d rows up, after one at %g, %d rows from the top", v, lo, prev.Value, prev.Row)
							}
						default:
							r.Failf("lacking", "no tick at %g between %g and %g, although ticks are %g apart", v, prev.Value, d.Value, step)
						}
					}
				}
			}
			if drawn && rngOK && r.KnownInput() {
				last := tk.RangeTicks[len(tk.RangeTicks)-1]
				lo, hi := rounds(idealRow(g.PlatonicAxes, int(in.Rows), scale, g.RangeMax))
				if up := int(in.Rows-1) - int(last.Row); up < lo || up > hi {
					r.Failf("lastrow", "the last tick is %d rows up, the range ends %d rows up", up, lo)
				}
			}
			for i, d := range tk.RangeTicks {
				if d.Value < g.RangeMin || d.Value > g.RangeMax {
					r.Failf("range", "a tick at %g is not between %g and %g", d.Value, g.RangeMin, g.RangeMax)
				}
				if i == 0 && d.Value != g.RangeMin {
					r.Failf("first", "the first tick is at %g, the range starts at %g", d.Value, g.RangeMin)
				}
				if i > 0 && d.Value <= tk.RangeTicks[i-1].Value {
					r.Failf("ascending", "a tick at %g follows one at %g", d.Value, tk.RangeTicks[i-1].Value)
				}
				if d.Label != rl(d.Value) {
					r.Failf("label", "the tick at %g is labelled %q, not %q", d.Value, d.Label, rl(d.Value))
				}
				if len(d.Label)+c.Line > int(tk.MarginCols) {
					r.Failf("margin", "label %q and the line do not fit %d columns", d.Label, tk.MarginCols)
				}
				if drawn {
					lo, hi := rounds(idealRow(g.PlatonicAxes, int(in.Rows), scale, d.Value))
					if up := int(in.Rows-1) - int(d.Row); up < lo || up > hi {
						r.Failf("row", "the tick at %g belongs %.3f rows from the bottom of %d, got row %d from the top", d.Value, idealRow(g.PlatonicAxes, int(in.Rows), scale, d.Value), in.Rows, d.Row)
					}
					if i > 0 && d.Row == tk.RangeTicks[i-1].Row && r.KnownInput() {
						r.Failf("onerow", "ticks at %g and %g share row %d", tk.RangeTicks[i-1].Value, d.Value, d.Row)
					}
				}
				if n := len(tk.RangeTicks); i < n-1 && exact {
					step := spread / float64(max(1, c.Cols/c.RngD))
					if q := (d.Value - g.RangeMin) / step; math.Abs(q-math.Round(q)) > 1e-3 {
						r.Failf("even", "the range tick at %g is %.3f steps of %g from %g", d.Value, q, step, g.RangeMin)
					}
				}
			}
			if len(tk.DomainTicks) >= 3 && len(tk.RangeTicks) >= 3 && drawn {
				r.NonTrivial()
			}
			if !drawn {
				return
			}
			// drawing them
			type what struct {
				rn   rune
				kind plot.AxisCellKind
			}
			cells := map[[2]int][]what{}
			r.Guard("panic", "DrawAxes", func() {
				plot.DrawAxes(tk, func(row plot.Row, col plot.Column, rn rune, kind plot.AxisCellKind) {
					if row < 0 || row >= size.Rows || col < 0 || col >= size.Cols {
						r.Failf("outside", "drew kind %d %q at (%d,%d) of a %d×%d box", kind, rn, row, col, size.Rows, size.Cols)
					}
					if row < in.Rows && col >= tk.MarginCols {
						r.Failf("inside", "drew kind %d %q at (%d,%d), where the plot goes", kind, rn, row, col)
					}
					k := [2]int{int(row), int(col)}
					cells[k] = append(cells[k], what{rn, kind})
				})
			})
			has := func(row, col int, kind plot.AxisCellKind, rn rune) bool {
				for _, w := range cells[[2]int{row, col}] {
					if w.kind == kind && (rn == 0 || w.rn == rn) {
						return true
					}
				}
				return false
			}
			top := func(row, col int) plot.AxisCellKind {
				ws := cells[[2]int{row, col}]
				if len(ws) == 0 {
					return -1
				}
				return ws[len(ws)-1].kind
			}
			axisCol, axisRow := int(tk.MarginCols)-1, int(in.Rows)
			if top(axisRow, axisCol) != plot.AxisCornerKind {
				r.Failf("corner", "the corner (%d,%d) ends up as kind %d", axisRow, axisCol, top(axisRow, axisCol))
			}
			for row := 0; row < int(in.Rows); row++ {
				if k := top(row, axisCol); k != plot.YAxisKind && k != plot.RangeTickKind {
					r.Failf("yaxis", "row %d of the vertical axis is kind %d", row, k)
				}
			}
			for col := int(tk.MarginCols); col < c.Cols; col++ {
				if k := top(axisRow, col); k != plot.XAxisKind && k != plot.DomainTickKind {
					r.Failf("xaxis", "column %d of the horizontal axis is kind %d", col, k)
				}
			}
			for _, d := range tk.RangeTicks {
				if !has(int(d.Row), axisCol, plot.RangeTickKind, 0) {
					r.Failf("tick", "no tick at row %d for %g", d.Row, d.Value)
				}
				for i, rn := range d.Label {
					if !has(int(d.Row), axisCol-len(d.Label)+i, plot.LabelKind, rn) {
						r.Failf("lbl", "label %q of %g is not drawn left of row %d", d.Label, d.Value, d.Row)
					}
				}
			}
			off := 0 // ticks sit below their column, or consistently one to the left of it
			for _, o := range []int{-1, 0} {
				n := 0
				for _, d := range tk.DomainTicks {
					if has(axisRow, int(d.Col)+int(tk.MarginCols)+o, plot.DomainTickKind, 0) {
						n++
					}
				}
				if n == len(tk.DomainTicks) {
					off = o
					break
				}
				if o == 0 {
					r.Failf("tick", "the domain ticks %v are not on the axis at one offset", tk.DomainTicks)
				}
			}
			for _, d := range tk.DomainTicks {
				for i, rn := range d.Label {
					if !has(axisRow+c.Line+i, int(d.Col)+int(tk.MarginCols)+off, plot.LabelKind, rn) {
						r.Failf("lbl", "label %q of %d is not drawn below its tick", d.Label, d.Value)
					}
				}
			}
		},
	})
}
