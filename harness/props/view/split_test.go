package view

import (
	"fmt"
	"testing"

	"github.com/gdamore/tcell"
	"pgregory.net/rapid"

	"sigs.k8s.io/instrumentation-tools/promq/term"
	"verif.local/harness/kit"
)

// Node is a split of the screen, or a leaf (Dock < 0).
type Node struct {
	Dock      int
	Size, Pct int
	A, B      *Node // docked, flexed
	Draws     bool  // leaf: can be flushed
	ID        int   // leaf
}

// Resize is one size given to the whole, after changing the dock of one split.
type Resize struct {
	Box    Box
	Change int // which split to change, -1: none
	Size   int
	Pct    int
}

// Layout is a tree of splits and the sizes it goes through.
type Layout struct {
	Root  *Node
	Sizes []Resize
}

// leaf fills its box with its own character.
type leaf struct {
	id      int
	box     term.PositionBox
	boxed   int
	flushed int
}

func (l *leaf) SetBox(b term.PositionBox) { l.box = b; l.boxed++ }

type drawnLeaf struct{ leaf }

func (l *drawnLeaf) FlushTo(s tcell.Screen) {
	l.flushed++
	for r := 0; r < l.box.Rows; r++ {
		for c := 0; c < l.box.Cols; c++ {
			s.SetContent(l.box.StartCol+c, l.box.StartRow+r, rune('A'+l.id), nil, tcell.StyleDefault)
		}
	}
}

var docks = []term.DockPos{term.PosBelow, term.PosAbove, term.PosLeft, term.PosRight}

func genNode(t *rapid.T, depth int, ids *int) *Node {
	if depth == 0 || rapid.IntRange(0, 3).Draw(t, "leaf") == 0 {
		n := &Node{Dock: -1, ID: *ids, Draws: rapid.IntRange(0, 4).Draw(t, "draws") != 0}
		*ids++
		return n
	}
	n := &Node{Dock: rapid.IntRange(0, 3).Draw(t, "dock"), Size: genDock(t), Pct: genPct(t)}
	n.A = genNode(t, depth-1, ids)
	n.B = genNode(t, depth-1, ids)
	return n
}

func genDock(t *rapid.T) int {
	return rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(-3, 60), rapid.Just(1000), rapid.IntRange(60, 600)).Draw(t, "size")
}

func genPct(t *rapid.T) int {
	return rapid.OneOf(rapid.Just(0), rapid.IntRange(1, 100), rapid.IntRange(0, 150), rapid.SampledFrom([]int{25, 50, 33, 29, 58, 57, 7})).Draw(t, "pct")
}

// dockOf is the size of the docked pane: what was asked for, at most the share, always leaving a line or column to the other pane.
func dockOf(size, pct, total int) int {
	if size > total-1 {
		size = total - 1
	}
	if size < 0 {
		size = 0
	}
	if pct > 0 {
		if m := total * pct / 100; size > m {
			size = m
		}
	}
	return size
}

func (n *Node) places(b Box, out map[int]Box) {
	if n.Dock < 0 {
		out[n.ID] = b
		return
	}
	a, f := b, b
	switch docks[n.Dock] {
	case term.PosBelow:
		d := dockOf(n.Size, n.Pct, b.Rows)
		f.Rows = b.Rows - d
		a.Row, a.Rows = b.Row+f.Rows, d
	case term.PosAbove:
		d := dockOf(n.Size, n.Pct, b.Rows)
		a.Rows = d
		f.Row, f.Rows = b.Row+d, b.Rows-d
	case term.PosLeft:
		d := dockOf(n.Size, n.Pct, b.Cols)
		a.Cols = d
		f.Col, f.Cols = b.Col+d, b.Cols-d
	case term.PosRight:
		d := dockOf(n.Size, n.Pct, b.Cols)
		f.Cols = b.Cols - d
		a.Col, a.Cols = b.Col+f.Cols, d
	}
	n.A.places(a, out)
	n.B.places(f, out)
}

func (n *Node) build(leaves map[int]*leaf, draws map[int]bool, splits *[]*term.SplitView, nodes *[]*Node) term.Resizable {
	if n.Dock < 0 {
		if n.Draws {
			l := &drawnLeaf{leaf{id: n.ID}}
			leaves[n.ID], draws[n.ID] = &l.leaf, true
			return l
		}
		l := &leaf{id: n.ID}
		leaves[n.ID] = l
		return l
	}
	s := &term.SplitView{Dock: docks[n.Dock], DockSize: n.Size, DockMaxPercent: n.Pct}
	*splits, *nodes = append(*splits, s), append(*nodes, n)
	s.Docked = n.A.build(leaves, draws, splits, nodes)
	s.Flexed = n.B.build(leaves, draws, splits, nodes)
	return s
}

func (n *Node) copy() *Node {
	if n == nil {
		return nil
	}
	c := *n
	c.A, c.B = n.A.copy(), n.B.copy()
	return &c
}

// C22: panes divide the screen.
func TestC22(t *testing.T) {
	kit.Run(t, kit.Spec[Layout]{
		ID:   "C22",
		Rule: "trees of 1-15 splits up to 4 deep (all four sides, dock sizes -3-60 and 1000, shares 0-150%), taken through 1-4 boxes of 0-40 rows by 0-90 columns anywhere on a marked screen with a split's dock changed in between, leaves that draw and leaves that do not; non-trivial when at least two leaves have an area and a dock is held back by its share or by the space there is",
		Gen: func(t *rapid.T) Layout {
			ids := 0
			l := Layout{}
			for l.Root == nil || l.Root.Dock < 0 {
				ids = 0
				l.Root = genNode(t, 4, &ids)
			}
			n := rapid.IntRange(1, 4).Draw(t, "boxes")
			for i := 0; i < n; i++ {
				b := Box{rapid.IntRange(0, 5).Draw(t, "col"), rapid.IntRange(0, 5).Draw(t, "row"),
					rapid.OneOf(rapid.IntRange(0, 90), rapid.IntRange(0, 6), rapid.IntRange(60, 700)).Draw(t, "cols"), rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(0, 6), rapid.IntRange(40, 400)).Draw(t, "rows")}
				l.Sizes = append(l.Sizes, Resize{b, rapid.IntRange(-1, 3).Draw(t, "change"), genDock(t), genPct(t)})
			}
			return l
		},
		Check: func(r *kit.R, l Layout) {
			leaves, draws := map[int]*leaf{}, map[int]bool{}
			var splits []*term.SplitView
			var nodes []*Node
			root := l.Root.copy()
			view := root.build(leaves, draws, &splits, &nodes).(*term.SplitView)
			for i, z := range l.Sizes {
				if z.Change >= 0 && z.Change < len(splits) {
					splits[z.Change].DockSize, splits[z.Change].DockMaxPercent = z.Size, z.Pct
					nodes[z.Change].Size, nodes[z.Change].Pct = z.Size, z.Pct
				}
				scols, srows := z.Box.Col+z.Box.Cols+2, z.Box.Row+z.Box.Rows+2
				s := newScreen(scols, srows)
				r.Guard("panic", "SplitView", func() {
					view.SetBox(z.Box.pos())
					view.FlushTo(s)
				})
				want := map[int]Box{}
				root.places(z.Box, want)
				areas, held := 0, false
				for id := 0; id < len(want); id++ {
					w := want[id]
					if got := leaves[id].box; got != w.pos() {
						r.Failf("box", "size %d: pane %c has the box %+v, wanted %+v", i, 'A'+id, got, w.pos())
					}
					if leaves[id].boxed != i+1 {
						r.Failf("boxed", "size %d: pane %c was given its size %d times", i, 'A'+id, leaves[id].boxed)
					}
					if draws[id] && leaves[id].flushed != i+1 {
						r.Failf("flushed", "size %d: pane %c was drawn %d times after %d flushes", i, 'A'+id, leaves[id].flushed, i+1)
					}
					if w.Rows > 0 && w.Cols > 0 {
						areas++
					}
				}
				for _, n := range nodes {
					if n.Size > 0 && (dockOf(n.Size, n.Pct, z.Box.Rows) < n.Size || dockOf(n.Size, n.Pct, z.Box.Cols) < n.Size) {
						held = true
					}
				}
				if areas > 1 && held {
					r.NonTrivial()
				}
				for row := 0; row < srows; row++ {
					for col := 0; col < scols; col++ {
						owner := -1
						for id, w := range want {
							if w.has(col, row) {
								owner = id
							}
						}
						got := at(s, col, row)
						switch {
						case z.Box.has(col, row) && owner < 0:
							panic("model: the panes do not fill the box")
						case owner >= 0 && draws[owner]:
							if got.text != string(rune('A'+owner)) {
								r.Failf("screen", "size %d: row %d column %d belongs to pane %c and shows %s", i, row, col, 'A'+owner, got)
							}
						case got != untouched:
							r.Failf("outside", "size %d: row %d column %d belongs to no pane that draws and shows %s", i, row, col, got)
						}
					}
				}
				s.Fini()
				r.Tag(fmt.Sprintf("%d panes with an area", min(areas, 8)))
			}
		},
	})
}
