package checks

// Chooser resolves the nondeterministic choices of a generator. Enumerate
// drives it depth-first through every resolution: plain choices completely,
// deviations from the default up to a bound (as a preemption bound does for
// schedules).
type Chooser struct {
	tape   []int
	arity  []int
	pos    int
	devs   int
	MaxDev int
}

// Choose picks one of n alternatives, all of which are explored.
func (c *Chooser) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	if c.pos == len(c.tape) {
		c.tape = append(c.tape, 0)
		c.arity = append(c.arity, n)
	}
	c.arity[c.pos] = n
	v := c.tape[c.pos]
	c.pos++
	return v
}

// Dev picks one of n alternatives; alternatives other than 0 count against the
// deviation bound.
func (c *Chooser) Dev(n int) int {
	if n <= 1 || c.devs >= c.MaxDev {
		return 0
	}
	v := c.Choose(n)
	if v != 0 {
		c.devs++
	}
	return v
}

// Enumerate runs f for every resolution of its choices until f returns false.
func Enumerate(maxDev int, f func(*Chooser) bool) int {
	c := &Chooser{MaxDev: maxDev}
	n := 0
	for {
		c.pos, c.devs = 0, 0
		n++
		if !f(c) {
			return n
		}
		c.tape, c.arity = c.tape[:c.pos], c.arity[:c.pos]
		i := len(c.tape) - 1
		for i >= 0 && c.tape[i]+1 >= c.arity[i] {
			i--
		}
		if i < 0 {
			return n
		}
		c.tape = c.tape[:i+1]
		c.arity = c.arity[:i+1]
		c.tape[i]++
	}
}
