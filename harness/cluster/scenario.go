package cluster

import (
	"io"
	"math/rand"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/constants"
	mocometrics "github.com/cybozu-go/moco/pkg/metrics"
	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"
	"verif/harness/sim"
)

// Fault is a failure of one request of MOCO, or a crash of MOCO at it.
type Fault struct {
	Index int // number of the request, < 0: none
	Mode  int // see Arm
	Sel   int // which requests are counted
}

const (
	selAll  = iota
	selMut  // those that change something
	selKind // the first of each kind, given the last change before it
)

// Scenarios lists the directed scenarios with the number of requests worth interrupting.
var Scenarios = []struct {
	Name     string
	All, Mut int
	f        func(x *Run, arm func())
	opt      func(o *Options)
}{
	{"bootstrap", 130, 60, scBootstrap, nil},
	{"bootext", 140, 50, scBootstrap, func(o *Options) { o.Ext, o.ExtTxns = true, 4 }},
	{"failover", 110, 30, scFailover, nil},
	{"faillag", 110, 36, scFailLag, func(o *Options) { o.N = 3 + 2*int(o.Seed%3%2) }},
	{"switch", 90, 30, scSwitch, nil},
	{"switchpod", 90, 40, scSwitchPod, nil},
	{"reinit", 90, 30, scReinit, nil},
	{"detach", 80, 24, scDetach, func(o *Options) { o.Ext, o.ExtTxns = true, 5 }},
	{"partition", 110, 40, scPartition, nil},
	{"scale", 120, 40, scScale, func(o *Options) { o.MaxN = 5 }},
	{"errant", 80, 20, scErrant, nil},
	{"errantfail", 110, 30, scErrantFail, func(o *Options) { o.N = 5 }},
	{"delay", 60, 12, scDelay, func(o *Options) { o.MaxDelay = 5 }},
	{"offline", 40, 6, scOffline, nil},
	{"restore", 40, 6, scRestore, func(o *Options) { o.Restore = true }},
	{"lost", 60, 6, scLost, nil},
	{"extfail", 90, 24, scExtFail, func(o *Options) { o.Ext, o.ExtTxns = true, 4 }},
	{"gap", 80, 24, scGap, nil},
	{"rejoin", 110, 36, scRejoin, nil},
	{"hang", 110, 36, scHang, nil},
}

// Scenario runs one directed scenario.
func Scenario(k int, f Fault, seed int64, id int, out io.Writer) *Run {
	s := Scenarios[k]
	r := rand.New(rand.NewSource(seed))
	o := Options{ID: id, Seed: seed, N: 3, Out: out, Probe: r.Intn(2) == 0}
	if s.opt != nil {
		s.opt(&o)
	}
	x := NewRun(o)
	x.Lock()
	if o.Ext {
		for k := 0; k < 2; k++ {
			x.Inject(x.Insts[sim.Ext])
		}
		x.Purge(x.Insts[sim.Ext])
	}
	x.Unlock()
	x.note("%s %+v", s.Name, f)
	x.Start(s.Name)
	arm := func() {
		if r.Intn(3) > 0 {
			x.do(func() { x.Traffic(20) })
		}
		if f.Index >= 0 {
			x.faulty = true
			x.arm(f.Index, f.Mode, f.Sel)
		}
	}
	if s.Name != "bootstrap" && s.Name != "bootext" && s.Name != "restore" {
		x.await(func() bool { return x.state() == "Healthy" && x.settledLabels() }, 60)
		x.sleep(time.Duration(r.Intn(6000)) * time.Millisecond)
		x.do(func() { x.txns = 0 }) // let the clients go on
	}
	s.f(x, arm)
	x.Heal()
	x.Finish()
	return x
}

func (x *Run) settledLabels() bool {
	for i := 0; i < x.World.N; i++ {
		if p := x.Pod(i); p == nil || roleOf(p) == "" {
			return false
		}
	}
	return true
}

// await sleeps until f holds, at most n seconds; f is called with the world locked.
func (x *Run) await(f func() bool, n int) bool {
	for k := 0; k < n; k++ {
		x.Lock()
		ok := f()
		x.Unlock()
		if ok {
			return true
		}
		x.sleep(time.Second)
	}
	return false
}

func (x *Run) do(f func()) {
	x.Lock()
	f()
	x.Unlock()
}

// settled reports that MOCO has had the time to act on an event.
func (x *Run) settled(e string) {
	if x.flaky {
		x.do(func() { x.calm = true })
		x.sleep(15 * time.Second)
		defer x.do(func() { x.calm = false })
	}
	x.do(func() {
		if !x.struck {
			x.Emit(e)
		}
	})
}

func scBootstrap(x *Run, arm func()) {
	arm()
	x.sleep(50 * time.Second)
}

func scFailover(x *Run, arm func()) {
	var p int
	arm()
	x.do(func() {
		p = x.prim()
		x.Crash(x.Insts[p])
		x.SetReady(p, false)
	})
	x.sleep(60 * time.Second)
	x.failedOver(p)
}

// failedOver says that the primary has been down for long while the replicas were fine.
func (x *Run) failedOver(p int) {
	if x.flaky || x.faulty {
		x.do(func() { x.calm = true })
		x.sleep(30 * time.Second)
		defer x.do(func() { x.calm = false })
	}
	x.do(func() {
		if !x.struck {
			x.Emit("failedover", "from", p)
		}
	})
}

// replicas have received different transactions and executed few of them
func scFailLag(x *Run, arm func()) {
	var p int
	n := x.World.N
	var c int
	x.do(func() {
		p = x.prim()
		c = (p + 1 + x.r.Intn(n-1)) % n
	})
	if x.r.Intn(2) == 0 {
		// one of them was attached later than the others
		x.do(func() { x.Crash(x.Insts[c]); x.SetReady(c, false) })
		x.sleep(time.Duration(5+x.r.Intn(10)) * time.Second)
		x.do(func() { x.Restart(x.Insts[c]); x.SetReady(c, true) })
		x.await(func() bool { return x.state() == "Healthy" }, 60)
		x.sleep(time.Duration(5+x.r.Intn(10)) * time.Second)
	}
	x.do(func() {
		x.Traffic(3)
		a, b := (p+1+x.r.Intn(n-1))%n, (p+1+x.r.Intn(n-1))%n
		for i := 0; i < n; i++ {
			if i != p && (x.r.Intn(3) > 0 || i == a) {
				x.Insts[i].Slow = true
				x.Net(x.Insts[i])
			}
		}
		x.Insts[b].Cut = true
		x.Net(x.Insts[b])
		x.txns = 0
	})
	x.sleep(time.Duration(1+x.r.Intn(3)) * time.Second)
	arm()
	x.do(func() {
		x.Crash(x.Insts[p])
		x.SetReady(p, false)
	})
	x.sleep(time.Duration(x.r.Intn(80)) * time.Second)
	x.do(func() {
		for i := 0; i < n; i++ {
			if x.Insts[i].Slow {
				x.Insts[i].Slow = false
				x.Net(x.Insts[i])
			}
		}
	})
	x.sleep(50 * time.Second)
	x.failedOver(p)
}

// the primary is cut off from everyone but its clients, and comes back for the replicas as soon as it was replaced
func scRejoin(x *Run, arm func()) {
	var p int
	arm()
	x.do(func() {
		p = x.prim()
		in := x.Insts[p]
		in.Hidden, in.Cut = true, true
		x.Net(in)
	})
	for k := 0; k < 1200 && x.MC().Status.CurrentPrimaryIndex == p; k++ {
		x.sleep(50 * time.Millisecond)
	}
	x.do(func() {
		x.Traffic(4)
		x.Insts[p].Cut = false
		x.Net(x.Insts[p])
	})
	x.sleep(time.Duration(5+x.r.Intn(30)) * time.Second)
}

func (x *Run) switched(from int) {
	// the request must be served once no request fails anymore
	x.await(func() bool {
		return x.prim() != from && x.Insts[x.prim()].RO == x.opt.Ext && x.state() == "Healthy" && x.settledLabels()
	}, 150)
	x.sleep(6 * time.Second)
	x.do(func() {
		if !x.struck {
			x.Emit("switched", "from", from, "clean", !x.faulty)
		}
	})
}

func scSwitch(x *Run, arm func()) {
	var p int
	lag := func() {
		// transactions that are received but not executed, or not received yet
		in := x.Insts[0]
		if x.prim() == 0 {
			in = x.Insts[1]
		}
		in.Slow = true
		if x.r.Intn(3) == 0 {
			in.Cut = true
		}
		x.Net(in)
	}
	v := x.r.Intn(3)
	if v == 0 {
		x.do(lag)
		x.sleep(time.Second)
	}
	if x.r.Intn(3) == 0 {
		// a mark with another value is no request
		x.do(func() { x.Annotate(x.prim(), constants.AnnDemote, []string{"false", "True", "1"}[x.r.Intn(3)]) })
		x.sleep(8 * time.Second)
	}
	arm()
	x.do(func() {
		p = x.prim()
		if v == 1 {
			lag()
		}
		x.Annotate(p, constants.AnnDemote, "true")
	})
	if v < 2 && x.r.Intn(2) == 0 {
		x.sleep(time.Duration(54+x.r.Intn(20)) * time.Second) // longer than MOCO waits
	} else {
		x.sleep(time.Duration(3+x.r.Intn(8)) * time.Second)
	}
	x.do(func() {
		for i := 0; i < 3; i++ {
			if x.Insts[i].Slow {
				x.Insts[i].Slow, x.Insts[i].Cut = false, false
				x.Net(x.Insts[i])
			}
		}
	})
	x.switched(p)
}

func scSwitchPod(x *Run, arm func()) {
	var p int
	arm()
	x.do(func() {
		p = x.prim()
		x.DeletePod(p)
	})
	if x.r.Intn(2) == 0 {
		x.switched(p)
	} else {
		x.sleep(time.Duration(x.r.Intn(9000)) * time.Millisecond)
	}
	x.do(func() {
		x.Crash(x.Insts[p])
		x.PodGone(p)
	})
	x.sleep(time.Duration(x.r.Intn(12)) * time.Second)
	x.do(func() {
		x.PodNew(p)
		x.Restart(x.Insts[p])
		x.ProbePod(p)
	})
	x.sleep(20 * time.Second)
}

func scReinit(x *Run, arm func()) {
	arm()
	x.do(func() {
		k := (x.prim() + 1 + x.r.Intn(2)) % 3
		in := x.Insts[k]
		x.Wipe(in)
		x.SetReady(k, false)
		x.Restart(in)
		if x.r.Intn(3) == 0 {
			x.CloneFail = 1
		}
	})
	x.sleep(60 * time.Second)
}

func scDetach(x *Run, arm func()) {
	x.do(func() {
		in := x.Insts[x.prim()]
		in.Slow = true
		x.Net(in)
	})
	for k := x.r.Intn(4); k > 0; k-- {
		x.do(func() { x.Inject(x.Insts[sim.Ext]) })
		x.sleep(time.Duration(x.r.Intn(1500)) * time.Millisecond)
	}
	arm()
	if x.r.Intn(3) == 0 {
		x.do(func() { x.Inject(x.Insts[sim.Ext]) })
	}
	k := -1
	x.do(func() {
		x.EditMC(func(m *mocov1beta2.MySQLCluster) { m.Spec.ReplicationSourceSecretName = nil }, false)
		if x.r.Intn(3) == 0 {
			// a replica cannot be reached meanwhile
			k = (x.prim() + 1 + x.r.Intn(2)) % 3
			x.Insts[k].Hidden = true
			x.Net(x.Insts[k])
		}
	})
	x.sleep(time.Duration(x.r.Intn(20)) * time.Second)
	x.do(func() {
		in := x.Insts[x.prim()]
		in.Slow = false
		x.Net(in)
	})
	x.sleep(20 * time.Second)
	if k >= 0 {
		x.do(func() {
			x.Insts[k].Hidden = false
			x.Net(x.Insts[k])
		})
	}
	x.sleep(20 * time.Second)
}

// the primary is alive but MOCO cannot reach it
func scPartition(x *Run, arm func()) {
	var p int
	x.do(func() {
		p = x.prim()
		x.Insts[p].Hidden = true
		x.Net(x.Insts[p])
	})
	arm()
	x.sleep(time.Duration(20+x.r.Intn(40)) * time.Second)
	x.do(func() {
		x.Insts[p].Hidden = false
		x.Net(x.Insts[p])
	})
	x.sleep(30 * time.Second)
}

func scScale(x *Run, arm func()) {
	x.do(func() { x.Scale(5) })
	x.sleep(time.Duration(x.r.Intn(8)) * time.Second)
	arm()
	x.do(func() {
		x.PodNew(3)
		x.PodNew(4)
	})
	x.sleep(90 * time.Second)
}

func (x *Run) errantSettled() {
	x.await(func() bool { return len(x.MC().Status.ErrantReplicaList) > 0 }, 60)
	x.sleep(40 * time.Second)
	x.settled("errantsettled")
}

func scErrant(x *Run, arm func()) {
	arm()
	var k int
	busy := x.r.Intn(3)
	x.do(func() {
		k = (x.prim() + 1 + x.r.Intn(2)) % 3
		x.Inject(x.Insts[k])
		if busy == 0 {
			// while the primary is being replaced
			x.Annotate(x.prim(), constants.AnnDemote, "true")
		}
	})
	if busy == 1 {
		x.do(func() { x.Traffic(100) })
	}
	x.errantSettled()
	if x.r.Intn(2) == 0 {
		// the errant replica restarts, or is asked to take over
		x.do(func() {
			if x.r.Intn(2) == 0 {
				x.Crash(x.Insts[k])
				x.Restart(x.Insts[k])
			} else {
				x.Annotate(x.prim(), constants.AnnDemote, "true")
			}
		})
		x.sleep(40 * time.Second)
		x.settled("errantsettled")
	}
}

// a failover with an errant replica that has more transactions than the others
func scErrantFail(x *Run, arm func()) {
	var k, p int
	x.do(func() {
		p = x.prim()
		k = (p + 1 + x.r.Intn(4)) % 5
		x.Inject(x.Insts[k])
	})
	x.errantSettled()
	arm()
	x.do(func() {
		x.Crash(x.Insts[p])
		x.SetReady(p, false)
	})
	x.sleep(50 * time.Second)
	x.do(func() {
		if x.r.Intn(2) == 0 {
			x.Restart(x.Insts[p])
			x.ProbePod(p)
		}
	})
	x.sleep(30 * time.Second)
}

func scDelay(x *Run, arm func()) {
	vals := []int{-1, 0, 4, 5, 6, 7, 100}
	x.do(func() {
		k := (x.prim() + 1 + x.r.Intn(2)) % 3
		x.Insts[k].Behind = 6 + x.r.Intn(50)
		x.Net(x.Insts[k])
	})
	arm()
	x.sleep(12 * time.Second)
	x.settled("delaysettled")
	demoted := -1
	for k := 0; k < 5; k++ {
		x.do(func() {
			i := x.r.Intn(3)
			x.Insts[i].Behind = vals[x.r.Intn(len(vals))]
			x.Insts[i].Cut = i != x.prim() && x.r.Intn(3) == 0 // it still has transactions to execute
			x.Net(x.Insts[i])
			switch x.r.Intn(7) {
			case 2, 3:
				// a replica that is not ready, or the pod of the primary is deleted
				if k := (x.prim() + 1 + x.r.Intn(2)) % 3; x.r.Intn(2) == 0 {
					x.SetReady(k, x.r.Intn(2) == 0)
				} else if demoted < 0 {
					demoted = x.prim()
					x.DeletePod(demoted)
				}
			case 0:
				demoted = x.prim()
				x.Annotate(demoted, constants.AnnDemote, "true")
			case 1:
				x.EditMC(func(m *mocov1beta2.MySQLCluster) {
					m.Spec.MaxDelaySecondsForPodDeletion = []int64{0, 5, 50}[x.r.Intn(3)]
				}, false)
			}
		})
		x.sleep(25 * time.Second)
		x.settled("delaysettled")
	}
}

func scOffline(x *Run, arm func()) {
	x.do(func() {
		x.EditMC(func(m *mocov1beta2.MySQLCluster) { m.Spec.Offline = true }, false)
	})
	arm()
	x.sleep(time.Duration(x.r.Intn(8)) * time.Second)
	keep := x.r.Intn(3)
	for i := 2; i >= keep; i-- {
		x.do(func() {
			x.Crash(x.Insts[i])
			x.PodGone(i)
		})
		x.sleep(time.Duration(x.r.Intn(7)) * time.Second)
	}
	x.sleep(12 * time.Second)
	x.checkAlive()
	x.do(func() {
		if !x.struck {
			x.emitFrozen()
		}
	})
	x.do(func() {
		x.EditMC(func(m *mocov1beta2.MySQLCluster) { m.Spec.Offline = false }, false)
	})
	x.sleep(8 * time.Second)
	x.checkAlive()
}

func scRestore(x *Run, arm func()) {
	arm()
	x.sleep(12 * time.Second)
	x.checkAlive()
	x.do(func() {
		// the restore job loads data
		x.Insts[0].SRO, x.Insts[0].RO = true, true
		x.Inject(x.Insts[0])
		x.Inject(x.Insts[0])
	})
	x.sleep(12 * time.Second)
	x.do(func() {
		if !x.struck {
			x.emitFrozen()
		}
	})
	x.do(func() {
		x.EditMC(func(m *mocov1beta2.MySQLCluster) { t := now(); m.Status.RestoredTime = &t }, true)
	})
	x.sleep(40 * time.Second)
}

// half or more of the instances fail
func scLost(x *Run, arm func()) {
	arm()
	x.do(func() {
		p := x.prim()
		for _, i := range []int{p, (p + 1) % 3} {
			x.Crash(x.Insts[i])
			x.SetReady(i, false)
		}
	})
	x.sleep(45 * time.Second)
	x.checkAlive()
	x.do(func() {
		if !x.struck {
			x.emitFrozen()
		}
	})
	x.do(func() {
		i := (x.prim() + x.r.Intn(2)) % 3
		x.Restart(x.Insts[i])
	})
	x.sleep(40 * time.Second)
}

// the primary of a cluster with an external source fails
func scExtFail(x *Run, arm func()) {
	arm()
	x.do(func() {
		p := x.prim()
		if x.r.Intn(3) == 0 {
			x.Annotate(p, constants.AnnDemote, "true")
			return
		}
		if x.r.Intn(2) == 0 {
			x.Wipe(x.Insts[p])
			x.Restart(x.Insts[p])
		} else {
			x.Crash(x.Insts[p])
			x.SetReady(p, false)
		}
	})
	x.sleep(60 * time.Second)
}

// the primary has purged binary logs that a replica needs
func scGap(x *Run, arm func()) {
	var k int
	if x.r.Intn(3) == 0 {
		// a replica that is behind gets a new source which has purged what the replica lacks
		x.do(func() {
			k = (x.prim() + 1 + x.r.Intn(2)) % 3
			x.Insts[k].Slow = true
			x.Net(x.Insts[k])
			x.txns = 0
		})
		x.sleep(8 * time.Second)
		x.do(func() {
			for i := 0; i < 3; i++ {
				if i != k {
					x.Purge(x.Insts[i])
				}
			}
		})
		arm()
		x.do(func() {
			p := x.prim()
			if x.r.Intn(2) == 0 {
				x.Annotate(p, constants.AnnDemote, "true")
			} else {
				x.DeletePod(p)
			}
		})
		x.sleep(time.Duration(x.r.Intn(50)) * time.Second)
		x.do(func() {
			x.Insts[k].Slow = false
			x.Net(x.Insts[k])
		})
		x.sleep(40 * time.Second)
		return
	}
	x.do(func() {
		k = (x.prim() + 1 + x.r.Intn(2)) % 3
		x.Crash(x.Insts[k])
		x.SetReady(k, false)
		x.txns = 0
	})
	x.sleep(8 * time.Second)
	x.do(func() {
		for i := 0; i < 3; i++ {
			if i != k {
				x.Purge(x.Insts[i])
			}
		}
		switch x.r.Intn(3) {
		case 0:
			x.Annotate(x.prim(), constants.AnnDemote, "true")
		case 1:
			// the replica was restored from an old copy of its volume
			for t := range x.Insts[k].Exec {
				x.Wipe(x.Insts[k])
				x.Insts[k].Exec[t] = true
				x.EmitPost("oldcopy", x.Insts[k])
				break
			}
		}
	})
	x.sleep(time.Duration(x.r.Intn(15)) * time.Second)
	arm()
	x.do(func() {
		x.Restart(x.Insts[k])
		x.ProbePod(k)
	})
	x.sleep(40 * time.Second)
}

// writes of the primary hang as no replica acknowledges them, and then the primary is replaced
func scHang(x *Run, arm func()) {
	var p int
	x.do(func() {
		p = x.prim()
		x.Insts[p].Cut = true
		x.Net(x.Insts[p])
	})
	x.sleep(3 * time.Second)
	arm()
	x.do(func() {
		switch x.r.Intn(3) {
		case 0:
			x.Insts[p].Hidden = true
			x.Net(x.Insts[p])
		case 1:
			x.Annotate(p, constants.AnnDemote, "true")
		case 2:
			x.Crash(x.Insts[p])
			x.SetReady(p, false)
		}
	})
	x.sleep(time.Duration(25+x.r.Intn(40)) * time.Second)
	x.do(func() {
		x.Insts[p].Hidden, x.Insts[p].Cut = false, false
		x.Net(x.Insts[p])
		x.Restart(x.Insts[p])
	})
	x.sleep(30 * time.Second)
}

// checkAlive verifies that MOCO still performs rounds.
func (x *Run) checkAlive() {
	var a, b int
	x.do(func() { a = x.Counts["cycle"] })
	x.sleep(25 * time.Second)
	x.do(func() {
		b = x.Counts["cycle"]
		if b == a {
			x.Emit("stalled", "what", "no round for 25 seconds")
		}
	})
}

func value(v *prometheus.GaugeVec, c *Cluster) float64 {
	m := &dto.Metric{}
	g, err := v.GetMetricWithLabelValues(c.Name, namespace)
	must(err)
	must(g.Write(m))
	return m.GetGauge().GetValue()
}

func b2f(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

// emitFrozen reports the recorded status and whether the metrics agree with it.
func (c *Cluster) emitFrozen() {
	m := c.MC()
	av, _ := cond(m, mocov1beta2.ConditionAvailable)
	he, _ := cond(m, mocov1beta2.ConditionHealthy)
	ok := value(mocometrics.AvailableVec, c) == b2f(av == "True") &&
		value(mocometrics.HealthyVec, c) == b2f(he == "True") &&
		value(mocometrics.TotalReplicasVec, c) == float64(c.World.N) &&
		value(mocometrics.ReadyReplicasVec, c) == float64(m.Status.SyncedReplicas) &&
		value(mocometrics.ErrantReplicasVec, c) == float64(len(m.Status.ErrantReplicaList))
	if b := m.Status.Backup; !b.Time.IsZero() {
		ok = ok && value(mocometrics.BackupTimestamp, c) == float64(b.Time.Unix()) &&
			value(mocometrics.BackupElapsed, c) == b.Elapsed.Seconds() &&
			value(mocometrics.BackupDumpSize, c) == float64(b.DumpSize) &&
			value(mocometrics.BackupBinlogSize, c) == float64(b.BinlogSize) &&
			value(mocometrics.BackupWorkDirUsage, c) == float64(b.WorkDirUsage) &&
			value(mocometrics.BackupWarnings, c) == float64(len(b.Warnings))
	}
	c.emitStatusAs("frozen", m, "metrics", ok)
}

// Frozen runs MOCO on a world in which nothing happens by itself.
func Frozen(seed int64, id int, out io.Writer) *Run {
	r := rand.New(rand.NewSource(seed))
	o := Options{ID: id, Seed: seed, N: []int{3, 3, 3, 5, 5, 1}[r.Intn(6)], Out: out, Reckless: true}
	o.Ext = r.Intn(4) == 0
	o.Offline = r.Intn(12) == 0
	o.Restore = r.Intn(12) == 0
	if r.Intn(3) == 0 {
		o.MaxDelay = 5
	}
	x := NewRun(o)
	x.Lock()
	n := o.N
	prim := r.Intn(n)
	m := x.MC()
	m.Status.CurrentPrimaryIndex = prim
	m.Status.Cloned = o.Ext && r.Intn(3) > 0
	if o.Restore && r.Intn(2) == 0 {
		t := now()
		m.Status.RestoredTime = &t
	}
	if r.Intn(2) == 0 {
		m.Status.Backup = mocov1beta2.BackupStatus{Time: now(), DumpSize: int64(r.Intn(1000)), BinlogSize: int64(r.Intn(1000)),
			WorkDirUsage: int64(r.Intn(1000)), Warnings: make([]string, r.Intn(3))}
		m.Status.Backup.Elapsed.Duration = time.Duration(r.Intn(100)) * time.Second
	}
	for i := 0; i < n; i++ {
		if i != prim && r.Intn(8) == 0 {
			m.Status.ErrantReplicaList = append(m.Status.ErrantReplicaList, i)
		}
	}
	m.Status.ErrantReplicas = len(m.Status.ErrantReplicaList)
	must(x.base.Status().Update(bg, m))

	// a healthy cluster
	src := x.Insts[prim]
	if o.Ext {
		src = x.Insts[sim.Ext]
	}
	for k := 0; k < 4; k++ {
		x.Inject(src)
	}
	common := src.Exec.Union(sim.TxnSet{})
	for i := 0; i < n; i++ {
		in := x.Insts[i]
		in.Exec = common.Union(sim.TxnSet{})
		if i == prim {
			if o.Ext {
				in.Src, in.SrcHost, in.IO, in.SQL = sim.Ext, extHost, true, true
				in.Clone = "Completed"
			} else {
				in.RO, in.SRO, in.SemiM, in.Wait = false, false, n > 1, n/2
			}
		} else {
			in.Src, in.SrcHost, in.IO, in.SQL = prim, x.cluster.PodHostname(prim), true, true
			in.SemiS, in.IOSemi = !o.Ext, !o.Ext
			in.Behind = 0
		}
		x.setRole(i, map[bool]string{true: "primary", false: "replica"}[i == prim])
	}
	if r.Intn(4) == 0 {
		// other clusters replicate from this one
		x.Foreign = map[int][]int{prim: []int{serverIDB + n, serverIDB - 1, 77}[:1+r.Intn(3)]}
	}
	// disturbed a little, or much
	muts := r.Intn(4)
	switch r.Intn(6) {
	case 0:
		muts = 4 + r.Intn(10)
	case 1:
		// nothing is configured yet
		for i := 0; i < n; i++ {
			x.Wipe(x.Insts[i])
			x.Insts[i].RO, x.Insts[i].SRO = true, true
			x.Insts[i].SemiM = false
			x.setRole(i, "")
			x.Restart(x.Insts[i])
		}
	}
	for k := 0; k < muts; k++ {
		i := r.Intn(n)
		if r.Intn(3) == 0 {
			i = prim
		}
		in := x.Insts[i]
		switch r.Intn(20) {
		case 0, 1:
			in.Up = false
			in.IO, in.SQL = false, false
		case 2, 3:
			in.Hidden = true
		case 4, 5:
			x.SetReady(i, false)
		case 6:
			in.Exec, in.Ret, in.Pend, in.Purged = sim.TxnSet{}, sim.TxnSet{}, sim.TxnSet{}, sim.TxnSet{}
			if r.Intn(2) == 0 {
				in.Src, in.SrcHost, in.IO, in.SQL = sim.NoSrc, "", false, false
				in.Clone = ""
			}
		case 7:
			x.Inject(in)
		case 8:
			if in.Src != sim.NoSrc {
				in.IO = false
			}
		case 9:
			if i != prim {
				in.Src, in.SrcHost, in.IO, in.SQL = sim.NoSrc, "", false, false
			}
		case 10:
			if s := r.Intn(n); i != prim && s != i {
				in.Src, in.SrcHost = s, x.cluster.PodHostname(s)
			}
		case 11:
			in.RO = r.Intn(2) == 0
			in.SRO = in.RO && r.Intn(2) == 0
		case 12:
			if i != prim && !o.Ext && n > 1 {
				// an old primary with writes waiting for acknowledgements
				in.SemiM, in.Wait = true, 1
				in.RO, in.SRO = false, false
				in.IO, in.IOSemi = false, false
				x.Hang(in)
			}
		case 13:
			in.Behind = []int{-1, 4, 5, 6, 100}[r.Intn(5)]
		case 14:
			switch r.Intn(5) {
			case 0, 1:
				x.Annotate(i, constants.AnnDemote, "true")
			case 2:
				x.Annotate(i, constants.AnnDemote, []string{"false", "True", "1"}[r.Intn(3)])
			default:
				x.DeletePod(i)
			}
		case 15:
			x.setRole(i, []string{"", "primary", "replica"}[r.Intn(3)])
		case 16:
			in.Cut = true
		case 17:
			if o.Ext && i == prim {
				in.Clone = []string{"", "Failed", "In Progress", "Not Started", "Completed"}[r.Intn(5)]
			}
		case 18:
			x.Annotate(i, constants.AnnPreventDelete, "true")
		case 19:
			for t := range in.Exec {
				if r.Intn(2) == 0 {
					delete(in.Exec, t)
				}
			}
		}
	}
	if p := x.Insts[prim]; p.Clone != "" && p.Clone != "Completed" {
		// the data is not there before the clone has completed
		p.Exec, p.Ret, p.Pend, p.Purged = sim.TxnSet{}, sim.TxnSet{}, sim.TxnSet{}, sim.TxnSet{}
	}
	if o.Offline {
		for i := n - 1; i >= r.Intn(n+1); i-- {
			x.PodGone(i)
		}
	} else if r.Intn(12) == 0 {
		x.PodGone(r.Intn(n))
	}
	for i := 0; i < n; i++ {
		if !x.Insts[i].Up {
			x.Crash(x.Insts[i])
			x.Insts[i].Up = false
		}
	}
	missing := false
	for i := 0; i < n; i++ {
		missing = missing || x.Pod(i) == nil
	}
	frozen := false
	x.Muted = false
	x.Begin("scenario", "frozen")
	updates := 0
	x.Hook = func(op sim.Op) sim.Action {
		if !op.Mut || frozen {
			return sim.Proceed
		}
		if op.What == "UPDATE/status MySQLCluster" || op.What == "PATCH/status MySQLCluster" {
			updates++
			if updates == 1 {
				return sim.Proceed
			}
		}
		// MOCO begins to act: the status must be there
		frozen = true
		x.Lock()
		x.emitFrozen()
		x.Unlock()
		return sim.Proceed
	}
	x.Unlock()
	x.StartMOCO()
	x.sleep(14 * time.Second)
	x.do(func() {
		if !frozen && (o.Offline || !missing) {
			frozen = true
			x.emitFrozen()
		}
	})
	st := ""
	x.do(func() { st = x.state() })
	if r.Intn(3) == 0 && (st == "Lost" || st == "Restoring" || st == "Offline") {
		x.checkAlive()
	}
	x.Finish()
	return x
}
