package main

import (
	"encoding/json"
	"math/rand"
	"slices"

	"github.com/google/codesearch/sparse"
)

func init() {
	props["C22"] = &Prop{N: func(c *Ctx) int { return len(c.GenCases()) + c.Pick(480, 8000) }, Run: runC22}
}

type setRes struct {
	Len   int      `json:"len"`
	Has   bool     `json:"has"`
	Read  bool     `json:"read"`
	Dense []uint32 `json:"dense"`
}

// runOps runs operations on a real set. s must be empty.
func runOps(s *sparse.Set, ops [][2]int, every int) []setRes {
	res := make([]setRes, len(ops))
	for k, o := range ops {
		x := uint32(o[1])
		switch o[0] {
		case 0:
			s.Reset()
		case 1:
			s.Add(x)
		}
		r := setRes{Len: s.Len(), Has: s.Has(x), Dense: []uint32{}}
		if every > 0 && k%every == 0 || k == len(ops)-1 {
			r.Read = true
			r.Dense = append(r.Dense, s.Dense()...)
		}
		res[k] = r
	}
	return res
}

// setSuspicious compares with a map.
func setSuspicious(ops [][2]int, res []setRes) bool {
	in := map[int]bool{}
	var seq []uint32
	for k, o := range ops {
		switch o[0] {
		case 0:
			in = map[int]bool{}
			seq = seq[:0]
		case 1:
			if !in[o[1]] {
				in[o[1]] = true
				seq = append(seq, uint32(o[1]))
			}
		}
		r := res[k]
		if r.Len != len(seq) || r.Has != in[o[1]] || r.Read && !slices.Equal(r.Dense, seq) {
			return true
		}
	}
	return false
}

func newSet(r *rand.Rand, max int) *sparse.Set {
	if r.Intn(2) == 0 {
		return sparse.NewSet(uint32(max))
	}
	s := new(sparse.Set)
	s.Init(uint32(max))
	return s
}

func runC22(c *Ctx, idx int) {
	r := c.Rng
	gen := c.GenCases()
	if idx < len(gen) {
		var g struct {
			Max int
			Ops [][2]int
		}
		must(json.Unmarshal(gen[idx], &g))
		res := runOps(newSet(r, g.Max), g.Ops, 1)
		c.Count("generated_histories", 1)
		c.Count("operations", len(g.Ops))
		c.Emit(Event{"kind": "history", "ops": g.Ops, "res": res})
		return
	}
	idx -= len(gen)
	if idx%8 == 5 {
		largeSet(c, r)
		return
	}
	// larger capacities and longer histories
	max := []int{1, 2, 3, 17, 256, 300, 4096, 65536, 65537, 1 << 17, 1 << 24}[idx%11]
	n := 50 + r.Intn(400)
	if idx%16 == 0 {
		n = 6000
		if max > 1<<17 {
			n = 150000
		}
	}
	// values: all over, a small pool, a range, the ends
	pool := make([]int, 1+r.Intn(40))
	for k := range pool {
		pool[k] = r.Intn(max)
		switch r.Intn(8) {
		case 0:
			pool[k] = max - 1
		case 1:
			pool[k] = 0
		case 2:
			pool[k] = min(max-1, 1<<(8*r.Intn(3))+r.Intn(3)-1)
		}
	}
	value := func() int {
		switch r.Intn(4) {
		case 0:
			return r.Intn(max)
		case 1:
			return (pool[0] + r.Intn(30)) % max
		}
		return pool[r.Intn(len(pool))]
	}
	resets := 1 + r.Intn(100)
	var ops [][2]int
	for len(ops) < n {
		switch k := r.Intn(resets * 4); {
		case k == 0:
			ops = append(ops, [2]int{0, value()})
			if r.Intn(2) == 0 {
				// the same values again in another order
				m := len(pool)
				for _, p := range r.Perm(m)[:r.Intn(m+1)] {
					ops = append(ops, [2]int{1, pool[p]})
				}
			}
		case k%3 == 0:
			ops = append(ops, [2]int{2, value()})
		default:
			ops = append(ops, [2]int{1, value()})
		}
	}
	every := 1 + r.Intn(20)
	if n > 1000 {
		every = n / 3
	}
	res := runOps(newSet(r, max), ops, every)
	c.Count("histories", 1)
	c.Count("operations", len(ops))
	sus := setSuspicious(ops, res)
	if sus && len(ops) > 1000 {
		// the shortest history that fails, if it is short enough to be judged
		lo := 0
		for hi := len(ops); lo < hi; {
			m := (lo + hi) / 2
			if setSuspicious(ops[:m+1], runOps(sparse.NewSet(uint32(max)), ops[:m+1], every)) {
				hi = m
			} else {
				lo = m + 1
			}
		}
		ops = ops[:min(lo+1, len(ops))]
		res = runOps(sparse.NewSet(uint32(max)), ops, every)
	}
	c.Screen(Event{"kind": "history", "ops": ops, "res": res}, sus, len(ops) <= 1000 && idx%2 == 0)
}

// An arith is the values a, a+d, ... (n of them), in this order.
type arith struct {
	A int `json:"a"`
	D int `json:"d"`
	N int `json:"n"`
}

// largeSet adds many values: runs that are disjoint, in several rounds with resets in between, some of them
// twice. It records what the last round leaves: the length, the members at some places, and some probes.
func largeSet(c *Ctx, r *rand.Rand) {
	max := []int{1 << 17, 200000, 1 << 20, 1 << 24}[r.Intn(4)]
	s := newSet(r, max)
	var runs []arith
	for rounds := 1 + r.Intn(3); rounds > 0; rounds-- {
		s.Reset()
		runs = nil
		// residues modulo m do not meet
		m := 1 + r.Intn(6)
		res := r.Perm(m)[:1+r.Intn(m)]
		for _, a := range res {
			n := (max - a + m - 1) / m
			switch r.Intn(4) {
			case 0:
				n = min(n, 1+r.Intn(300))
			case 1:
				n = min(n, 65530+r.Intn(12))
			case 2:
				n = min(n, 150000)
			default:
				n = min(n, 300000)
			}
			x := arith{a, m, n}
			if r.Intn(3) == 0 {
				x = arith{a + (n-1)*m, -m, n}
			}
			runs = append(runs, x)
		}
		for k, x := range runs {
			for i := 0; i < x.N; i++ {
				s.Add(uint32(x.A + i*x.D))
			}
			if r.Intn(3) == 0 {
				// once more
				y := runs[r.Intn(k+1)]
				for i := 0; i < y.N; i++ {
					s.Add(uint32(y.A + i*y.D))
				}
			}
		}
	}
	total := 0
	for _, x := range runs {
		total += x.N
	}
	in := func(v int) bool {
		for _, x := range runs {
			if i := (v - x.A) / x.D; (v-x.A)%x.D == 0 && i >= 0 && i < x.N {
				return true
			}
		}
		return false
	}
	at := func(i int) int {
		for _, x := range runs {
			if i < x.N {
				return x.A + i*x.D
			}
			i -= x.N
		}
		return -1
	}
	var probes [][2]int // value, has
	sus := s.Len() != total || len(s.Dense()) != total
	for v := 0; v < max; v++ {
		has := s.Has(uint32(v))
		bad := has != in(v)
		if bad && !sus || r.Intn(max/20) == 0 {
			probes = append(probes, [2]int{v, boolInt(has)})
		}
		sus = sus || bad
	}
	var dense [][2]int // place, value
	d := s.Dense()
	for i, v := range d {
		bad := int(v) != at(i)
		if bad && !sus || i == 0 || i == len(d)-1 || i == 65535 || i == 65536 || r.Intn(len(d)/20+1) == 0 && len(dense) < 60 {
			dense = append(dense, [2]int{i, int(v)})
		}
		sus = sus || bad
	}
	c.Count("large_sets", 1)
	if total > 65536 {
		c.Count("sets_over_65536", 1)
	}
	c.Screen(Event{"kind": "large", "runs": runs, "len": s.Len(), "ndense": len(d), "probes": nonNil(probes), "dense": nonNil(dense)}, sus, true)
}
