package checks

import (
	"fmt"
	"strings"

	"github.com/KSpaceer/yamly/engines/yayamls/pkg/cpaccessor"

	"verif/mc/fw"
)

// P01: the backtracking stream accessor behaves like a random-access list with
// a cursor and a stack of saved cursors, for every sequence of operations.

type countStream struct{ n, base int }

func (s *countStream) Next() int { s.n++; return s.base + s.n }

type cpOp struct {
	name string
	do   byte // n, s, r, c, x
	rep  int
}

// cpModel is the reference: element i of a stream with base b is b+i.
type cpModel struct {
	base  int
	pos   int // number of elements consumed (cursor)
	stack []int
}

func (m *cpModel) cur() int { return m.base + m.pos }

func (m *cpModel) key() string {
	return fmt.Sprint(m.pos, m.stack)
}

func runCpTrace(ops []cpOp, trace []int) string {
	acc := cpaccessor.NewCheckpointingAccessor[int]()
	src := &countStream{}
	acc.SetStream(src)
	m := cpModel{}
	for i, t := range trace {
		op := ops[t]
		for k := 0; k < op.rep; k++ {
			switch op.do {
			case 'n':
				got := acc.Next()
				m.pos++
				if got != m.cur() {
					return fmt.Sprintf("after %s: Next returned element %d, the list has %d", cpShow(ops, trace[:i+1]), got, m.cur())
				}
			case 's':
				acc.SetCheckpoint()
				m.stack = append(m.stack, m.pos)
			case 'r':
				got := acc.Rollback()
				m.pos = m.stack[len(m.stack)-1]
				m.stack = m.stack[:len(m.stack)-1]
				if m.pos == 0 {
					continue // nothing was read before the checkpoint
				}
				if got != m.cur() {
					return fmt.Sprintf("after %s: Rollback restored element %d, the checkpoint was at %d", cpShow(ops, trace[:i+1]), got, m.cur())
				}
			case 'c':
				acc.Commit()
				m.stack = m.stack[:len(m.stack)-1]
			case 'x':
				src = &countStream{base: src.base + 1000}
				acc.SetStream(src)
				m = cpModel{base: src.base}
			}
		}
	}
	return ""
}

func cpShow(ops []cpOp, trace []int) string {
	var sb strings.Builder
	for _, t := range trace {
		sb.WriteString(ops[t].name)
		sb.WriteByte(' ')
	}
	return strings.TrimSpace(sb.String())
}

// exploreCp enumerates every legal operation sequence of length depth: legal
// means rollback and commit only with a checkpoint outstanding.
func exploreCp(c *fw.Ctx, label string, ops []cpOp, depth, split int) {
	run := func(trace []int) {
		key := label + ":" + cpShow(ops, trace)
		if c.Filter != "" && c.Filter != key {
			return
		}
		c.AddTransitions(len(trace))
		c.AddTraces(1)
		if d := fw.Protect(func() string { return runCpTrace(ops, trace) }); d != "" {
			// shrink to the shortest failing prefix for a stable case name
			tr := append([]int(nil), trace...)
			for len(tr) > 1 {
				if fw.Protect(func() string { return runCpTrace(ops, tr[:len(tr)-1]) }) == "" {
					break
				}
				tr = tr[:len(tr)-1]
			}
			c.Violate(label+":"+cpShow(ops, tr), d)
		}
	}
	var walk func(trace []int, m cpModel, limit int, leaf func([]int, cpModel))
	walk = func(trace []int, m cpModel, limit int, leaf func([]int, cpModel)) {
		if len(trace) == limit {
			leaf(trace, m)
			return
		}
		for i, op := range ops {
			n := cpModel{base: m.base, pos: m.pos, stack: append([]int(nil), m.stack...)}
			switch op.do {
			case 'n':
				n.pos += op.rep
			case 's':
				for k := 0; k < op.rep; k++ {
					n.stack = append(n.stack, n.pos)
				}
			case 'r', 'c':
				if len(n.stack) < op.rep {
					continue
				}
				for k := 0; k < op.rep; k++ {
					if op.do == 'r' {
						n.pos = n.stack[len(n.stack)-1]
					}
					n.stack = n.stack[:len(n.stack)-1]
				}
			case 'x':
				if len(trace) == 0 {
					continue
				}
				n = cpModel{base: n.base + 1000}
			}
			walk(append(trace, i), n, limit, leaf)
		}
	}
	if c.Filter != "" {
		// a replayed case may be shorter than the bound
		for d := 1; d <= depth; d++ {
			walk(nil, cpModel{}, d, func(t []int, _ cpModel) {
				if label+":"+cpShow(ops, t) == c.Filter {
					run(t)
				}
			})
		}
		return
	}
	type pre struct {
		t []int
		m cpModel
	}
	fw.Parallel(c, func(emit func(pre) bool) {
		walk(nil, cpModel{}, split, func(t []int, m cpModel) {
			emit(pre{append([]int(nil), t...), m})
		})
	}, func(p pre) {
		buf := make([]int, len(p.t), depth)
		copy(buf, p.t)
		walk(buf, p.m, depth, func(t []int, m cpModel) {
			run(t)
			c.State(m.key())
			c.Sample(func() string { return label + ": " + cpShow(ops, t) })
		})
	})
	c.Bound("%s: every legal sequence of %d operations over %s", label, depth, cpShow(ops, seq(len(ops))))
}

func seq(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

func init() {
	fw.Register(fw.Check{
		Property:  "P01",
		Technique: "explicit enumeration of all operation sequences on the real accessor against a list-and-cursor model",
		Assumptions: []string{
			"rollback and commit are only used with a checkpoint outstanding, and the value a rollback to the very beginning returns is unspecified",
		},
		Run: func(c *fw.Ctx) {
			exploreCp(c, "single", []cpOp{{"next", 'n', 1}, {"checkpoint", 's', 1}, {"rollback", 'r', 1}, {"commit", 'c', 1}}, c.Pick(13, 15), 5)
			exploreCp(c, "reset", []cpOp{{"next", 'n', 1}, {"checkpoint", 's', 1}, {"rollback", 'r', 1}, {"commit", 'c', 1}, {"setstream", 'x', 1}}, c.Pick(10, 11), 4)
			exploreCp(c, "bulk", []cpOp{{"next", 'n', 1}, {"next*33", 'n', 33}, {"next*64", 'n', 64}, {"checkpoint", 's', 1}, {"checkpoint*17", 's', 17}, {"rollback", 'r', 1}, {"rollback*9", 'r', 9}, {"commit", 'c', 1}, {"commit*8", 'c', 8}}, c.Pick(7, 8), 3)
			exploreCp(c, "huge", []cpOp{{"next", 'n', 1}, {"next*257", 'n', 257}, {"next*1500", 'n', 1500}, {"next*9000", 'n', 9000}, {"checkpoint", 's', 1}, {"checkpoint*300", 's', 300}, {"rollback", 'r', 1}, {"rollback*150", 'r', 150}, {"commit", 'c', 1}, {"commit*150", 'c', 150}}, c.Pick(5, 6), 3)
		},
	})
}
