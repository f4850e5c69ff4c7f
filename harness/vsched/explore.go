package vsched

import "math/rand"

// A Chooser resolves scheduling choices: it returns the index of the goroutine
// to run among enabled (never empty).
type Chooser interface {
	Choose(enabled []*G, last *G) int
}

// Uniform random walk.
type Random struct{ R *rand.Rand }

func (c Random) Choose(en []*G, last *G) int { return c.R.Intn(len(en)) }

// Sticky continues the last goroutine with high probability (few preemptions).
type Sticky struct {
	R *rand.Rand
	P float64 // probability of a preemption
}

func (c Sticky) Choose(en []*G, last *G) int {
	if last != nil && c.R.Float64() >= c.P {
		for i, g := range en {
			if g.ID == last.ID {
				return i
			}
		}
	}
	return c.R.Intn(len(en))
}

// PCT: random priorities with a few priority change points.
type PCT struct {
	R      *rand.Rand
	prio   map[int]int
	change map[int]bool
	step   int
	low    int
}

func NewPCT(r *rand.Rand, depth, maxSteps int) *PCT {
	p := &PCT{R: r, prio: map[int]int{}, change: map[int]bool{}}
	for i := 0; i < depth; i++ {
		p.change[r.Intn(maxSteps)] = true
	}
	return p
}

func (p *PCT) Choose(en []*G, last *G) int {
	p.step++
	best := 0
	for i, g := range en {
		if _, ok := p.prio[g.ID]; !ok {
			p.prio[g.ID] = p.R.Intn(1 << 20)
		}
		if p.prio[g.ID] > p.prio[en[best].ID] {
			best = i
		}
	}
	if p.change[p.step] {
		p.low--
		p.prio[en[best].ID] = p.low
		best = 0
		for i, g := range en {
			if p.prio[g.ID] > p.prio[en[best].ID] {
				best = i
			}
		}
	}
	if p.step > 2000 { // fairness for spinning threads
		return p.R.Intn(len(en))
	}
	return best
}

// DFS enumerates schedules with at most Bound preemptions, statelessly.
// Usage: for d := NewDFS(b); d.Next(); { run one execution with d }
type DFS struct {
	Bound    int
	stack    []dfsNode
	pos      int
	pre      int
	first    bool
	done     bool
	MaxDepth int
}

type dfsNode struct {
	choice int // index into options
	n      int // number of options
}

func NewDFS(bound int) *DFS { return &DFS{Bound: bound, first: true, MaxDepth: 4000} }

func (d *DFS) Next() bool {
	if d.done {
		return false
	}
	if d.first {
		d.first = false
	} else {
		d.stack = d.stack[:min(d.pos, len(d.stack))]
		for len(d.stack) > 0 {
			t := &d.stack[len(d.stack)-1]
			if t.choice+1 < t.n {
				t.choice++
				break
			}
			d.stack = d.stack[:len(d.stack)-1]
		}
		if len(d.stack) == 0 {
			d.done = true
			return false
		}
	}
	d.pos, d.pre = 0, 0
	return true
}

func (d *DFS) Choose(en []*G, last *G) int {
	li := -1
	if last != nil {
		for i, g := range en {
			if g.ID == last.ID {
				li = i
			}
		}
	}
	// options: continue last first (if enabled), then the others (a preemption each if last enabled)
	opts := make([]int, 0, len(en))
	if li >= 0 {
		opts = append(opts, li)
		if d.pre < d.Bound {
			for i := range en {
				if i != li {
					opts = append(opts, i)
				}
			}
		}
	} else {
		for i := range en {
			opts = append(opts, i)
		}
	}
	c := 0
	if d.pos < len(d.stack) {
		c = d.stack[d.pos].choice
		if c >= len(opts) {
			c = len(opts) - 1
		}
	} else if len(d.stack) < d.MaxDepth {
		d.stack = append(d.stack, dfsNode{0, len(opts)})
	}
	d.pos++
	if li >= 0 && opts[c] != li {
		d.pre++
	}
	return opts[c]
}
