package main

import (
	"fmt"
	"math/rand"

	"rangedbverif/core"
)

// jobs is a shuffled list of named cases.
type jobs struct {
	t    *core.T
	list []func()
}

func (j *jobs) add(n int, label string, f func(*core.T, string, *rand.Rand)) {
	t := j.t
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("%s-%d", label, i)
		j.list = append(j.list, func() {
			if t.Skip(name) {
				return
			}
			t.Guard(name, func() { f(t, name, t.Rand(name)) })
			t.Eval()
		})
	}
}

func (j *jobs) run(workers int) {
	r := j.t.Rand("order")
	r.Shuffle(len(j.list), func(a, b int) { j.list[a], j.list[b] = j.list[b], j.list[a] })
	j.t.Parallel(len(j.list), workers, func(i int) { j.list[i]() })
}
