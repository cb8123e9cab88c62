package render

import (
	"math"
	"testing"

	"pgregory.net/rapid"

	"sigs.k8s.io/instrumentation-tools/promq/term/plot"
	"verif.local/harness/kit"
)

// Proj is data to put on a pixel grid.
type Proj struct {
	Series     []Ser
	Rows, Cols int
	Scale      int
	// Prev, if set, are axes to start from (a previous range, a fixed window)
	Prev *Axes
	// Inherit, if set, are the axes of an earlier drawing, whose range is to be kept
	Inherit *Axes
}

// base are the axes to start from, as plotted and as they should be.
func (p Proj) base() (got, want plot.PlatonicAxes) {
	if p.Inherit == nil {
		return p.Prev.axes(), p.Prev.axes()
	}
	got, want = p.Prev.axes().WithPreviousRange(p.Inherit.axes()), p.Prev.axes()
	want.RangeMin, want.RangeMax = float64(p.Inherit.Y0), float64(p.Inherit.Y1)
	return
}

// Axes are base axes.
type Axes struct {
	X0, X1 int64
	Y0, Y1 kit.F
}

func (a *Axes) axes() plot.PlatonicAxes {
	if a == nil {
		return plot.AutoAxes()
	}
	return plot.PlatonicAxes{DomainMin: a.X0, DomainMax: a.X1, RangeMin: float64(a.Y0), RangeMax: float64(a.Y1)}
}

func genAxes(t *rapid.T, s []Ser) *Axes {
	switch rapid.IntRange(0, 5).Draw(t, "axes") {
	case 0: // a window around or inside the data
		h := hull(s, plot.AutoAxes())
		if h.DomainMin > h.DomainMax {
			return &Axes{X0: 0, X1: 1000, Y0: -1, Y1: 1}
		}
		y0 := rapid.IntRange(-100, 100).Draw(t, "y0")
		return &Axes{X0: h.DomainMin - int64(rapid.IntRange(0, 100000).Draw(t, "l")), X1: h.DomainMax + int64(rapid.IntRange(0, 100000).Draw(t, "r")), Y0: kit.F(y0), Y1: kit.F(y0 + rapid.IntRange(0, 1000).Draw(t, "dy"))}
	case 1: // the range of an earlier drawing, as the command line keeps it
		h := hull(s, plot.AutoAxes())
		a := plot.AutoAxes().WithPreviousRange(h)
		return &Axes{X0: a.DomainMin, X1: a.DomainMax, Y0: kit.F(a.RangeMin), Y1: kit.F(a.RangeMax)}
	}
	return nil
}

// C17: from samples to pixels.
func TestC17(t *testing.T) {
	kit.Run(t, kit.Spec[Proj]{
		ID:   "C17",
		Rule: "0-4 series of 0-30 (sometimes 300) samples (flat, counters, tiny and huge spreads, NaN/Inf samples), a grid of 1-80 by 1-160 (sometimes 260 by 520) pixels, linear and non-linear range scales, automatic, windowed or inherited axes; non-trivial when at least two pixels come out and some pixel stands for several samples",
		Gen: func(t *rapid.T) Proj {
			p := Proj{Series: genSeries(t, 4, 30), Scale: rapid.IntRange(0, len(scales)-1).Draw(t, "scale")}
			p.Rows = rapid.OneOf(rapid.IntRange(1, 8), rapid.IntRange(1, 80)).Draw(t, "rows")
			p.Cols = rapid.OneOf(rapid.IntRange(1, 12), rapid.IntRange(1, 160)).Draw(t, "cols")
			if large(t) {
				p.Rows, p.Cols = rapid.IntRange(80, 260).Draw(t, "Rows"), rapid.IntRange(160, 520).Draw(t, "Cols")
			}
			p.Prev = genAxes(t, p.Series)
			if p.Prev == nil && rapid.IntRange(0, 2).Draw(t, "inherit") == 0 {
				h := hull(genSeries(t, 2, 6), plot.AutoAxes())
				p.Inherit = &Axes{X0: h.DomainMin, X1: h.DomainMax, Y0: kit.F(h.RangeMin), Y1: kit.F(h.RangeMax)}
			}
			return p
		},
		Check: func(r *kit.R, p Proj) {
			set := build(p.Series)
			var g *plot.PlatonicGraph
			base, wantBase := p.base()
			r.Guard("panic", "DataToPlatonicGraph", func() { g = plot.DataToPlatonicGraph(set, base) })
			want := hull(p.Series, wantBase)
			if g.PlatonicAxes != want {
				r.Failf("axes", "the axes are %+v, the smallest box around the base axes and the data is %+v", g.PlatonicAxes, want)
			}
			scale := scales[p.Scale]
			var sg *plot.ScreenGraph
			r.Guard("panic", "ToScreen", func() {
				sg = g.ToScreen(scale, plot.ScreenSize{Rows: plot.Row(p.Rows), Cols: plot.Column(p.Cols)})
			})
			if int(sg.Rows) != p.Rows || int(sg.Cols) != p.Cols {
				r.Failf("size", "a %d×%d grid was asked for, got %d×%d", p.Rows, p.Cols, sg.Rows, sg.Cols)
			}
			if len(sg.Series) != len(set) {
				r.Failf("series", "%d series went in, %d came out", len(set), len(sg.Series))
			}
			pixels, merged := 0, false
			for i, s := range sg.Series {
				if uint16(s.Id) != p.Series[i].ID {
					r.Failf("id", "series %d has id %d, got %d", i, p.Series[i].ID, s.Id)
				}
				var in []plot.Point
				for _, q := range set[i].Points() {
					if finite(q.Y()) {
						in = append(in, q)
					}
				}
				k, lastCol := 0, -1
				for _, px := range s.Points {
					pixels++
					if int(px.Col) <= lastCol {
						r.Failf("columns", "series %d: column %d comes after column %d", i, px.Col, lastCol)
					}
					lastCol = int(px.Col)
					if px.Row < 0 || int(px.Row) >= p.Rows || px.Col < 0 || int(px.Col) >= p.Cols {
						r.Failf("bounds", "series %d: pixel (row %d, col %d) is not in the %d×%d grid", i, px.Row, px.Col, p.Rows, p.Cols)
					}
					if len(px.OriginalPoints) == 0 {
						r.Failf("original", "series %d: a pixel stands for no sample", i)
					}
					merged = merged || len(px.OriginalPoints) > 1
					lo, hi := 0, 0
					for _, o := range px.OriginalPoints {
						if k >= len(in) || in[k] != o {
							r.Failf("original", "series %d: the samples behind the pixels are not the plottable samples in order (position %d)", i, k)
						}
						k++
						c0, c1 := rounds(idealCol(g.PlatonicAxes, p.Cols, o.X()))
						if int(px.Col) < c0 || int(px.Col) > c1 {
							r.Failf("col", "series %d: the sample at %d belongs in column %.3f, got %d", i, o.X(), idealCol(g.PlatonicAxes, p.Cols, o.X()), px.Col)
						}
						r0, r1 := rounds(idealRow(g.PlatonicAxes, p.Rows, scale, o.Y()))
						lo, hi = lo+r0, hi+r1
					}
					n := len(px.OriginalPoints)
					if f, c := math.Floor(float64(lo)/float64(n)), math.Ceil(float64(hi)/float64(n)); float64(px.Row) < f || float64(px.Row) > c {
						r.Failf("row", "series %d, column %d: the mean row of its %d samples is between %.0f and %.0f, got %d", i, px.Col, n, f, c, px.Row)
					}
				}
				if k != len(in) {
					r.Failf("original", "series %d: %d of its %d plottable samples are behind some pixel", i, k, len(in))
				}
			}
			if pixels >= 2 && merged {
				r.NonTrivial()
			}
		},
	})
}

// Dots are cells to light, by pixel.
type Dots struct {
	Rows, Cols int // in characters
	On         []Dot
}

// Dot is one pixel with the series drawn on it.
type Dot struct {
	R, C int
	IDs  []uint16
	Line bool // lit by a line, not by a sample
}

// the dots of a braille character as Unicode numbers them: [row][col]
var brailleBit = [4][2]rune{{0x01, 0x08}, {0x02, 0x10}, {0x04, 0x20}, {0x40, 0x80}}

// C18: braille cells.
func TestC18(t *testing.T) {
	kit.Run(t, kit.Spec[Dots]{
		ID:   "C18",
		Rule: "a grid of 1-12 by 1-20 (sometimes 60 by 200) characters and 0-60 pixels lit by samples or by lines of one or more series; non-trivial when a character has several pixels lit and another has none",
		Gen: func(t *rapid.T) Dots {
			d := Dots{Rows: rapid.IntRange(1, 12).Draw(t, "rows"), Cols: rapid.IntRange(1, 20).Draw(t, "cols")}
			if large(t) {
				d.Rows, d.Cols = rapid.IntRange(12, 60).Draw(t, "Rows"), rapid.IntRange(20, 200).Draw(t, "Cols")
			}
			n := rapid.IntRange(0, 60).Draw(t, "n")
			for i := 0; i < n; i++ {
				d.On = append(d.On, Dot{rapid.IntRange(0, d.Rows*4-1).Draw(t, "r"), rapid.IntRange(0, d.Cols*2-1).Draw(t, "c"), rapid.SliceOfN(rapid.Uint16Range(1, 600), 1, 3).Draw(t, "ids"), rapid.Bool().Draw(t, "line")})
			}
			return d
		},
		Check: func(r *kit.R, d Dots) {
			size := plot.BrailleCellScreenSize(plot.ScreenSize{Rows: plot.Row(d.Rows), Cols: plot.Column(d.Cols)})
			if int(size.Rows) != 4*d.Rows || int(size.Cols) != 2*d.Cols {
				r.Failf("size", "%d×%d characters are %d×%d pixels, got %d×%d", d.Rows, d.Cols, 4*d.Rows, 2*d.Cols, size.Rows, size.Cols)
			}
			seen := map[int]bool{}
			for row := plot.Row(0); row < size.Rows; row++ {
				for col := plot.Column(0); col < size.Cols; col++ {
					i := plot.BrailleCellMapper(row, col, size)
					if i < 0 || i >= int(size.Rows)*int(size.Cols) || seen[i] {
						r.Failf("bijection", "pixel (%d,%d) of %d×%d maps to %d, which is out of range or taken", row, col, size.Rows, size.Cols, i)
					}
					seen[i] = true
				}
			}
			// light them as single-point series, through the renderer
			sg := &plot.ScreenGraph{ScreenSize: size}
			lit := map[[2]int][]uint16{}
			for _, o := range d.On {
				if o.Line {
					continue
				}
				for _, id := range o.IDs {
					sg.Series = append(sg.Series, plot.ScreenSeries{Id: plot.SeriesId(id), Points: []plot.PixelPoint{{Row: plot.Row(o.R), Col: plot.Column(o.C)}}})
					k := [2]int{o.R, o.C}
					lit[k] = append(lit[k], id)
				}
			}
			var rg *plot.RenderedGraph
			r.Guard("panic", "Render", func() { rg = sg.Render(plot.BrailleCellMapper) })
			// pixels of lines are lit after the samples' and are no points
			for _, o := range d.On {
				k := [2]int{o.R, o.C}
				if !o.Line {
					continue
				}
				if lit[k] == nil {
					cell := plot.Cell{Series: plot.SeriesId(o.IDs[0])}
					for _, id := range o.IDs[1:] {
						cell.MoreSeries = append(cell.MoreSeries, plot.SeriesId(id))
					}
					rg.Cells[plot.BrailleCellMapper(plot.Row(o.R), plot.Column(o.C), size)] = cell
				}
				lit[k] = append(lit[k], o.IDs...)
			}
			type out struct {
				rn rune
				id uint16
			}
			got := map[[2]int]out{}
			r.Guard("panic", "DrawBraille", func() {
				plot.DrawBraille(rg, func(row plot.Row, col plot.Column, c rune, id plot.SeriesId) {
					k := [2]int{int(row), int(col)}
					if _, dup := got[k]; dup || row < 0 || int(row) >= d.Rows || col < 0 || int(col) >= d.Cols {
						r.Failf("cover", "character (%d,%d) of %d×%d is out of range or drawn twice", row, col, d.Rows, d.Cols)
					}
					got[k] = out{c, uint16(id)}
				})
			})
			many, none := false, false
			for cr := 0; cr < d.Rows; cr++ {
				for cc := 0; cc < d.Cols; cc++ {
					o, ok := got[[2]int{cr, cc}]
					if !ok {
						r.Failf("cover", "character (%d,%d) of %d×%d is not drawn", cr, cc, d.Rows, d.Cols)
					}
					want, n := rune(0), 0
					ids := map[uint16]bool{}
					for dr := 0; dr < 4; dr++ {
						for dc := 0; dc < 2; dc++ {
							if s := lit[[2]int{4*d.Rows - 1 - (cr*4 + dr), cc*2 + dc}]; s != nil {
								want |= brailleBit[dr][dc]
								ids[s[0]] = true
								n++
							}
						}
					}
					many, none = many || n > 1, none || n == 0
					if n == 0 {
						if o.rn != ' ' || o.id != 0 {
							r.Failf("blank", "character (%d,%d) has nothing lit, drawn as %q in the colour of %d", cr, cc, o.rn, o.id)
						}
						continue
					}
					if o.rn != 0x2800+want {
						r.Failf("glyph", "character (%d,%d) should be %q (dots %08b), drawn as %q", cr, cc, 0x2800+want, want, o.rn)
					}
					if !ids[o.id] {
						r.Failf("colour", "character (%d,%d) is drawn in the colour of series %d, which has no dot of its own there (%v have)", cr, cc, o.id, ids)
					}
				}
			}
			if many && none {
				r.NonTrivial()
			}
		},
	})
}

// Lines are series in pixels.
type Lines struct {
	Rows, Cols int
	Braille    bool
	Series     []Line
}

// Line is one series: pixels with ascending columns.
type Line struct {
	ID  uint16
	Pts [][2]int // row, col
}

// C20: line interpolation.
func TestC20(t *testing.T) {
	kit.Run(t, kit.Spec[Lines]{
		ID:   "C20",
		Rule: "1-8 series of 0-6 pixels with ascending columns, mostly rising, on a grid of up to 48 by 60, or of the size of a full screen (240 by 400); non-trivial when a rising segment is neither flat nor diagonal and skips a row or column",
		Gen: func(t *rapid.T) Lines {
			l := Lines{Rows: 4 * rapid.IntRange(1, 12).Draw(t, "rows"), Cols: 2 * rapid.IntRange(1, 30).Draw(t, "cols"), Braille: rapid.Bool().Draw(t, "braille")}
			big := large(t)
			if big {
				l.Rows, l.Cols = 4*rapid.IntRange(12, 60).Draw(t, "Rows"), 2*rapid.IntRange(30, 200).Draw(t, "Cols")
			}
			order := rapid.IntRange(1, 10).Draw(t, "order") // of the ids
			n := rapid.IntRange(1, 3).Draw(t, "n")
			if rapid.IntRange(0, 9).Draw(t, "more") == 0 {
				n = rapid.IntRange(4, 8).Draw(t, "N")
			}
			for i := 0; i < n; i++ {
				s := Line{ID: uint16(rapid.IntRange(1, 50).Draw(t, "id") + 100*((i*order+7)%11))}
				col := rapid.IntRange(0, l.Cols-1).Draw(t, "c0")
				if rapid.Bool().Draw(t, "left") {
					col = 0
				}
				row := rapid.IntRange(0, l.Rows-1).Draw(t, "r0")
				if rapid.Bool().Draw(t, "bottom") {
					row = 0
				}
				down := rapid.IntRange(0, 3).Draw(t, "down") == 0
				for k := rapid.IntRange(0, 6).Draw(t, "np"); k > 0 && col < l.Cols; k-- {
					s.Pts = append(s.Pts, [2]int{row, col})
					if big && rapid.Bool().Draw(t, "far") {
						col += rapid.IntRange(30, l.Cols).Draw(t, "DC")
					} else {
						col += rapid.OneOf(rapid.IntRange(1, 3), rapid.IntRange(1, 30)).Draw(t, "dc")
					}
					if down {
						row = rapid.IntRange(0, l.Rows-1).Draw(t, "r")
					} else {
						row = rapid.OneOf(rapid.IntRange(row, l.Rows-1), rapid.IntRange(row, min(l.Rows-1, row+4))).Draw(t, "r")
					}
				}
				l.Series = append(l.Series, s)
			}
			return l
		},
		Check: func(r *kit.R, l Lines) {
			size := plot.ScreenSize{Rows: plot.Row(l.Rows), Cols: plot.Column(l.Cols)}
			mapper := plot.SubCellMapper(func(row plot.Row, col plot.Column, size plot.ScreenSize) int {
				return int(row)*int(size.Cols) + int(col)
			})
			if l.Braille {
				mapper = plot.BrailleCellMapper
			}
			sg := &plot.ScreenGraph{ScreenSize: size}
			for _, s := range l.Series {
				out := plot.ScreenSeries{Id: plot.SeriesId(s.ID)}
				for _, p := range s.Pts {
					out.Points = append(out.Points, plot.PixelPoint{Row: plot.Row(p[0]), Col: plot.Column(p[1])})
				}
				sg.Series = append(sg.Series, out)
			}
			var rg *plot.RenderedGraph
			r.Guard("panic", "Render", func() { rg = sg.Render(mapper) })
			if rg.ScreenSize != size || len(rg.Cells) != l.Rows*l.Cols {
				r.Failf("size", "a %d×%d grid came out as %+v with %d cells", l.Rows, l.Cols, rg.ScreenSize, len(rg.Cells))
			}
			at := func(row, col int) plot.Cell { return rg.Cells[mapper(plot.Row(row), plot.Column(col), size)] }
			on := func(c plot.Cell, id uint16) bool {
				if uint16(c.Series) == id {
					return true
				}
				for _, m := range c.MoreSeries {
					if uint16(m) == id {
						return true
					}
				}
				return false
			}
			first := map[[2]int]uint16{}
			for _, s := range l.Series {
				for _, p := range s.Pts {
					if _, ok := first[p]; !ok {
						first[p] = s.ID
					}
				}
			}
			ids := map[uint16]bool{0: true}
			for _, s := range l.Series {
				ids[s.ID] = true
				for _, p := range s.Pts {
					if !on(at(p[0], p[1]), s.ID) {
						r.Failf("point", "series %d has a sample at row %d, column %d, which is not drawn: %+v", s.ID, p[0], p[1], at(p[0], p[1]))
					}
				}
				// what may be lit of it, and what has to
				may := map[[2]int]bool{}
				for _, p := range s.Pts {
					may[p] = true
				}
				for i := 1; i < len(s.Pts); i++ {
					a, b := s.Pts[i-1], s.Pts[i]
					rise, run := b[0]-a[0], b[1]-a[1]
					if rise < 0 && !r.KnownInput() {
						// a listed finding: falling segments are drawn flat or not at all
						for row := b[0]; row <= a[0]; row++ {
							for col := a[1]; col <= b[1]; col++ {
								may[[2]int{row, col}] = true
							}
						}
						continue
					}
					arise, dir, gap := rise, 1, "gap"
					if rise < 0 {
						arise, dir, gap = -rise, -1, "falling"
					}
					if rise > 0 && run > 1 && rise != run && rise > 1 {
						r.NonTrivial()
					}
					if run > arise {
						for k := 0; k <= run; k++ {
							lo, hi := rounds(float64(k) * float64(arise) / float64(run))
							hit := 0
							for v := lo; v <= hi; v++ {
								may[[2]int{a[0] + dir*v, a[1] + k}] = true
								if on(at(a[0]+dir*v, a[1]+k), s.ID) {
									hit++
								}
							}
							if hit == 0 {
								r.Failf(gap, "series %d: the line from row %d col %d to row %d col %d has nothing in column %d near row %d", s.ID, a[0], a[1], b[0], b[1], a[1]+k, a[0]+dir*lo)
							}
						}
					} else {
						for k := 0; k <= arise; k++ {
							lo, hi := rounds(float64(k) * float64(run) / float64(arise))
							hit := 0
							for v := lo; v <= hi; v++ {
								may[[2]int{a[0] + dir*k, a[1] + v}] = true
								if on(at(a[0]+dir*k, a[1]+v), s.ID) {
									hit++
								}
							}
							if hit == 0 {
								r.Failf(gap, "series %d: the line from row %d col %d to row %d col %d has nothing in row %d near column %d", s.ID, a[0], a[1], b[0], b[1], a[0]+dir*k, a[1]+lo)
							}
						}
					}
				}
				for row := 0; row < l.Rows; row++ {
					for col := 0; col < l.Cols; col++ {
						if on(at(row, col), s.ID) && !may[[2]int{row, col}] {
							r.Failf("stray", "series %d is drawn at row %d, column %d, off its points and lines", s.ID, row, col)
						}
					}
				}
			}
			for row := 0; row < l.Rows; row++ {
				for col := 0; col < l.Cols; col++ {
					c := at(row, col)
					if !ids[uint16(c.Series)] {
						r.Failf("stray", "row %d, column %d belongs to series %d, which is not plotted", row, col, c.Series)
					}
					id, isPoint := first[[2]int{row, col}]
					if c.IsPoint != isPoint {
						r.Failf("ispoint", "row %d, column %d: IsPoint is %v, a sample there: %v", row, col, c.IsPoint, isPoint)
					}
					if isPoint && uint16(c.Series) != id {
						r.Failf("order", "row %d, column %d has a sample of series %d first, the cell says %d", row, col, id, c.Series)
					}
					if !isPoint && c.Series != 0 {
						for _, s := range l.Series {
							if on(c, s.ID) {
								if uint16(c.Series) != s.ID {
									r.Failf("order", "row %d, column %d is on the line of series %d first, the cell says %d", row, col, s.ID, c.Series)
								}
								break
							}
						}
					}
				}
			}
		},
	})
}
