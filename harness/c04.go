package main

import (
	"fmt"

	"rangedbverif/core"
	"rangedbverif/env"
)

func init() { checks["C04"] = c04 }

func c04(t *core.T) {
	t.SetRule("seeded sequential histories of saves, conflicts, deletes, reopenings with awkward stream and type names; after every few operations all views and random queries (any start number, any type set) are compared field by field with a reference model; non-trivial: at least two events were stored; distinct by operation sequence; (2) the same for histories of thousands of events")
	per := t.N(70, 2500)
	kinds := env.AllKinds
	t.Parallel(per*len(kinds), 8, func(i int) {
		kind := kinds[i%len(kinds)]
		cfg := seqCfg{ops: 40, awkward: i/len(kinds)%4 != 0, rich: i/len(kinds)%3 == 0, deletes: true, queries: 12, every: 8, reopen: true}
		runSeq(t, fmt.Sprintf("%s-%d", kind, i), kind, cfg)
	})
	t.Parallel(t.N(15, 500)*len(env.PgKinds), 8, func(i int) {
		kind := env.PgKinds[i%len(env.PgKinds)]
		cfg := seqCfg{ops: 40, awkward: i/len(env.PgKinds)%4 != 0, rich: i/len(env.PgKinds)%3 == 0, deletes: true, queries: 12, every: 8, reopen: true}
		runSeq(t, fmt.Sprintf("%s-%d", kind, i), kind, cfg)
	})
	j := &jobs{t: t}
	for _, kind := range []string{"mem-json", "ldb-json", "mem-msgpack", "ldb-msgpack", "enc-ldb-json", "pg"} {
		j.add(t.N(1, 20), "large-"+kind, largeQueries(largeHistory(t.N(5000, 12000)), kind))
		j.add(t.N(1, 20), "wide-"+kind, largeQueries(wideHistory(t.N(600, 3000), t.N(70, 300)), kind))
	}
	j.run(8)
}
