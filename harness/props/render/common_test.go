package render

import (
	"math"

	"pgregory.net/rapid"

	"sigs.k8s.io/instrumentation-tools/promq/term/plot"
	"verif.local/harness/kit"
)

// Pt is a sample to plot.
type Pt struct {
	X int64
	Y kit.F
}

// Ser is a series to plot.
type Ser struct {
	ID  uint16
	Pts []Pt
}

type pt struct {
	x int64
	y float64
}

func (p pt) X() int64   { return p.x }
func (p pt) Y() float64 { return p.y }

type ser struct {
	id  plot.SeriesId
	pts []plot.Point
}

func (s *ser) Title() string        { return "t" }
func (s *ser) Id() plot.SeriesId    { return s.id }
func (s *ser) Points() []plot.Point { return s.pts }

func build(in []Ser) plot.SeriesSet {
	var out plot.SeriesSet
	for _, s := range in {
		v := &ser{id: plot.SeriesId(s.ID)}
		for _, p := range s.Pts {
			v.pts = append(v.pts, pt{p.X, float64(p.Y)})
		}
		out = append(out, v)
	}
	return out
}

func finite(y float64) bool { return !math.IsNaN(y) && !math.IsInf(y, 0) }

// genY gives series of one magnitude, with gaps and flat stretches.
func genY(t *rapid.T, kind int) kit.F {
	switch kind {
	case 0: // small integers
		return kit.F(rapid.IntRange(-20, 20).Draw(t, "y"))
	case 1: // flat
		return kit.F(rapid.SampledFrom([]float64{0, -1, 7, 1e9, -3e-5}).Draw(t, "y"))
	case 2:
		return kit.F(rapid.Float64Range(-1e6, 1e6).Draw(t, "y"))
	case 3: // counters
		return kit.F(float64(rapid.Int64Range(0, 1<<40).Draw(t, "y")))
	case 4: // close together, far from zero
		return kit.F(1e15 + float64(rapid.IntRange(0, 8).Draw(t, "y"))/4)
	default:
		return kit.F(rapid.SampledFrom([]float64{math.NaN(), math.Inf(1), math.Inf(-1), 0, 1, -1, 1e-290, 1e300, -1e300, 5e-324, math.MaxFloat64, -math.MaxFloat64, 0.1, 0.30000000000000004}).Draw(t, "y"))
	}
}

// genSeries makes series with ascending times. hole: a few samples have no place on the axis.
// large says whether to draw something of the size of a full screen.
func large(t *rapid.T) bool { return rapid.IntRange(0, 14).Draw(t, "large") == 0 }

func genSeries(t *rapid.T, maxSer, maxPts int) []Ser {
	n := rapid.IntRange(0, maxSer).Draw(t, "nser")
	ymix := rapid.IntRange(0, 6).Draw(t, "ymix")
	base := rapid.SampledFrom([]int64{0, -5000, 1600000000000, 1599999999500}).Draw(t, "base")
	step := rapid.SampledFrom([]int64{1, 15, 1000, 15000, 3600000}).Draw(t, "step")
	var out []Ser
	for i := 0; i < n; i++ {
		s := Ser{ID: uint16(rapid.IntRange(1, 65535).Draw(t, "id"))}
		// ids are unique in a set
		for j := 0; j < len(out); j++ {
			if out[j].ID == s.ID {
				s.ID = s.ID%65535 + 1
				j = -1
			}
		}
		x := base + int64(rapid.IntRange(-5, 5).Draw(t, "x0"))*step
		np := rapid.IntRange(0, maxPts).Draw(t, "npts")
		if large(t) {
			np = rapid.IntRange(maxPts, 10*maxPts).Draw(t, "many")
			if rapid.IntRange(0, 9).Draw(t, "very many") == 7 {
				np *= 6
			}
		}
		for k := 0; k < np; k++ {
			kind := ymix
			if kind == 6 || rapid.IntRange(0, 11).Draw(t, "odd") == 0 {
				kind = rapid.IntRange(0, 5).Draw(t, "yk")
			}
			s.Pts = append(s.Pts, Pt{X: x, Y: genY(t, kind)})
			x += step * rapid.SampledFrom([]int64{1, 1, 1, 2, 7, 40}).Draw(t, "dx")
			if step > 1 && rapid.IntRange(0, 9).Draw(t, "jit") == 0 {
				x += int64(rapid.IntRange(1, int(step-1)).Draw(t, "jitter"))
			}
		}
		out = append(out, s)
	}
	return out
}

// hull is the smallest box around what can be plotted, starting from base axes.
func hull(in []Ser, base plot.PlatonicAxes) plot.PlatonicAxes {
	for _, s := range in {
		for _, p := range s.Pts {
			if p.X < base.DomainMin {
				base.DomainMin = p.X
			}
			if p.X > base.DomainMax {
				base.DomainMax = p.X
			}
			if y := float64(p.Y); finite(y) {
				base.RangeMin = math.Min(base.RangeMin, y)
				base.RangeMax = math.Max(base.RangeMax, y)
			}
		}
	}
	return base
}

// idealCol is where a time belongs, as a real number of columns.
func idealCol(a plot.PlatonicAxes, cols int, x int64) float64 {
	d := a.DomainMax - a.DomainMin
	if d == 0 {
		return 0
	}
	return float64(x-a.DomainMin) / float64(d) * float64(cols-1)
}

// idealRow is where a value belongs, as a real number of rows from the bottom.
func idealRow(a plot.PlatonicAxes, rows int, scale func(float64) float64, y float64) float64 {
	lo, hi := scale(a.RangeMin), scale(a.RangeMax)
	if hi == lo {
		return 0
	}
	if math.IsInf(hi-lo, 0) {
		return (scale(y)/4 - lo/4) / (hi/4 - lo/4) * float64(rows-1)
	}
	return (scale(y) - lo) / (hi - lo) * float64(rows-1)
}

const eps = 1e-6

// rounds says which whole numbers a real number may round to: one, or two when it
// is (up to floating point error) half way between them.
func rounds(v float64) (lo, hi int) {
	return int(math.Round(v - eps)), int(math.Round(v + eps))
}

var scales = []func(float64) float64{
	func(y float64) float64 { return y },
	func(y float64) float64 { return math.Copysign(math.Log1p(math.Abs(y)), y) },
	func(y float64) float64 { return math.Copysign(math.Sqrt(math.Abs(y)), y) },
	func(y float64) float64 { return y/2 + 3 },
	func(y float64) float64 { return math.Atan(y) + 10 },
}
