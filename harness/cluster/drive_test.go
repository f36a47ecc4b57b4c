package cluster

import (
	"bufio"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
)

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// TestDrive runs the scenarios of a profile and writes their traces.
func TestDrive(t *testing.T) {
	path := os.Getenv("VERIF_OUT")
	if path == "" {
		t.Skip()
	}
	Verbose = os.Getenv("VERIF_VERBOSE") != ""
	seed, shard, shards := envInt("VERIF_SEED", 1), envInt("VERIF_SHARD", 0), envInt("VERIF_SHARDS", 1)
	f, err := os.Create(path)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	out := bufio.NewWriter(f)
	defer out.Flush()
	notes := os.Getenv("VERIF_NOTES") != ""
	run := func(f func() *Run) {
		synctest.Test(t, func(t *testing.T) {
			x := f()
			if len(x.Unknown) > 0 {
				t.Fatalf("unsupported SQL: %v", x.Unknown)
			}
			if notes {
				fmt.Println(x.Kinds, x.opt.ID, x.opt.N, x.opt.Ext, x.opt.Reckless, x.Notes, x.EvReasons)
			}
		})
	}
	id := 0
	for k := shard; k < envInt("VERIF_RANDOM", 0); k += shards {
		id++
		run(func() *Run { return Random(int64(seed*1000003+k), id, out, nil) })
	}
	for k := shard; k < envInt("VERIF_FROZEN", 0); k += shards {
		id++
		run(func() *Run { return Frozen(int64(seed*2000003+k), id, out) })
	}
	// directed scenarios, each without a fault and with faults at sampled requests
	var names []string
	if v := os.Getenv("VERIF_SCENARIOS"); v != "" {
		names = strings.Split(v, ",")
	}
	per := envInt("VERIF_FAULTS", 0)
	cnt := 0
	for _, n := range names {
		k := -1
		for j := range Scenarios {
			if Scenarios[j].Name == n {
				k = j
			}
		}
		if k < 0 {
			t.Fatalf("unknown scenario %s", n)
		}
		for _, f := range faults(Scenarios[k].All, Scenarios[k].Mut, per, int64(seed)) {
			cnt++
			if cnt%shards != shard {
				continue
			}
			id++
			run(func() *Run { return Scenario(k, f, int64(seed*3000017+cnt), id, out) })
		}
	}
}

// faults returns the faults to inject: none (eight times), and n of the possible ones (all if n < 0).
func faults(all, mut, n int, seed int64) []Fault {
	res := make([]Fault, 8)
	for i := range res {
		res[i].Index = -1
	}
	var c [3][]Fault
	for m := 0; m < 5; m++ {
		for i := 0; i < mut; i++ {
			c[0] = append(c[0], Fault{i, m, selMut})
		}
		for i := 0; i < all; i++ {
			if m != 3 {
				c[1] = append(c[1], Fault{i, m, selAll})
			}
		}
		for i := 0; i < kinds; i++ {
			c[2] = append(c[2], Fault{i, m, selKind})
		}
	}
	r := rand.New(rand.NewSource(seed*31 + int64(all)))
	if n < 0 || n > len(c[0])+len(c[1])+len(c[2]) {
		res = append(append(append(res, c[0]...), c[1]...), c[2]...)
		for i := 0; i < 200; i++ {
			res = append(res, Fault{i, 5, selAll})
		}
		return res
	}
	for _, d := range c {
		r.Shuffle(len(d), func(i, j int) { d[i], d[j] = d[j], d[i] })
	}
	// mostly at the requests that change something, or that are the first of their kind
	for _, q := range []struct{ d, n int }{{0, n / 4}, {1, n / 8}, {2, n / 4}} {
		res = append(res, c[q.d][:min(q.n, len(c[q.d]))]...)
	}
	for i := len(res) - 8; i < n; i++ {
		res = append(res, Fault{i, 5, selAll})
	}
	return res
}

// kinds is about the number of kinds of requests in a scenario.
const kinds = 80
