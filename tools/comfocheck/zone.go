package main

// A Zone is a conjunction of difference constraints a-b <= c over integer
// terms (nil is the constant 0) plus disequalities a-b != c: the zone abstract
// domain. It is append-only, so copies share storage safely.
type Zone struct {
	cons []dcon
	neqs []dcon
	bot  bool
}
type dcon struct {
	a, b *Term
	c    int64
}

func (z *Zone) clone() *Zone {
	return &Zone{cons: z.cons[:len(z.cons):len(z.cons)], neqs: z.neqs[:len(z.neqs):len(z.neqs)], bot: z.bot}
}

// upper returns the least proven bound of a-b (inf: none).
func (z *Zone) upper(a, b *Term) int64 {
	if a == b {
		return 0
	}
	dist := map[*Term]int64{a: 0}
	type node struct{ t *Term }
	queue := []*Term{a}
	inq := map[*Term]bool{a: true}
	// adjacency on demand
	adj := map[*Term][]dcon{}
	nodes := map[*Term]bool{a: true, b: true}
	for _, c := range z.cons {
		adj[c.a] = append(adj[c.a], c)
		nodes[c.a] = true
		nodes[c.b] = true
	}
	relax := func(t *Term, d int64) {
		if old, ok := dist[t]; !ok || d < old {
			dist[t] = d
			if !inq[t] {
				inq[t] = true
				queue = append(queue, t)
			}
		}
	}
	steps := 0
	for len(queue) > 0 {
		t := queue[0]
		queue = queue[1:]
		inq[t] = false
		steps++
		if steps > 20000 {
			break
		}
		d := dist[t]
		for _, c := range adj[t] {
			relax(c.b, satAdd(d, c.c))
		}
		if t != nil {
			_, hi := t.intRange()
			if hi < inf {
				relax(nil, satAdd(d, hi))
			}
		} else {
			for n := range nodes {
				if n == nil {
					continue
				}
				lo, _ := n.intRange()
				if lo > ninf {
					relax(n, satAdd(d, -lo))
				}
			}
		}
	}
	d, ok := dist[b]
	if !ok || d >= inf {
		return inf
	}
	for again := true; again; {
		again = false
		for _, n := range z.neqs {
			if n.a == a && n.b == b && n.c == d || n.a == b && n.b == a && -n.c == d {
				d--
				again = true
			}
		}
	}
	return d
}

// add records a-b <= c and reports whether the zone is still satisfiable.
func (z *Zone) add(a, b *Term, c int64) bool {
	if a == b {
		if c < 0 {
			z.bot = true
		}
		return !z.bot
	}
	u := z.upper(b, a)
	if u < inf && satAdd(u, c) < 0 {
		z.bot = true
		return false
	}
	if z.upper(a, b) <= c {
		return true
	}
	z.cons = append(z.cons[:len(z.cons):len(z.cons)], dcon{a, b, c})
	return z.tighten()
}

func (z *Zone) addNeq(a, b *Term, c int64) bool {
	if a == b {
		if c == 0 {
			z.bot = true
		}
		return !z.bot
	}
	z.neqs = append(z.neqs[:len(z.neqs):len(z.neqs)], dcon{a, b, c})
	return z.tighten()
}

func (z *Zone) tighten() bool {
	for again := true; again && !z.bot; {
		again = false
		for _, n := range z.neqs {
			u, l := z.upperRaw(n.a, n.b), z.upperRaw(n.b, n.a)
			if u == n.c && l == -n.c {
				z.bot = true
				return false
			}
			if u == n.c {
				z.cons = append(z.cons[:len(z.cons):len(z.cons)], dcon{n.a, n.b, n.c - 1})
				again = true
			} else if l == -n.c {
				z.cons = append(z.cons[:len(z.cons):len(z.cons)], dcon{n.b, n.a, -n.c - 1})
				again = true
			}
		}
	}
	return !z.bot
}

func (z *Zone) upperRaw(a, b *Term) int64 {
	n := z.neqs
	z.neqs = nil
	u := z.upper(a, b)
	z.neqs = n
	return u
}

// rng returns the proven interval of an integer term.
func (z *Zone) rng(t *Term) (int64, int64) {
	base, off := t.lin()
	if base == nil {
		return off, off
	}
	hi := z.upper(base, nil)
	lo := z.upper(nil, base)
	if lo >= inf {
		lo = ninf
	} else {
		lo = -lo
	}
	return satAdd(lo, off), satAdd(hi, off)
}

// leq reports whether x <= y + k is proven.
func (z *Zone) leq(x, y *Term, k int64) bool {
	bx, ox := x.lin()
	by, oy := y.lin()
	if bx == by {
		return ox <= oy+k
	}
	return satAdd(z.upper(bx, by), ox-oy) <= k
}

func (z *Zone) neq(x, y *Term) bool {
	bx, ox := x.lin()
	by, oy := y.lin()
	if bx == by {
		return ox != oy
	}
	d := oy - ox // bx-by == d is what equality would need
	for _, n := range z.neqs {
		if n.a == bx && n.b == by && n.c == d || n.a == by && n.b == bx && n.c == -d {
			return true
		}
	}
	return z.upper(bx, by) < d || z.upper(by, bx) < -d
}
