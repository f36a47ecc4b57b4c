package cluster

import (
	"fmt"
	"io"
	"math/rand"
	"regexp"
	"sync"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/constants"
	"verif/harness/sim"
)

// Run is the execution of one scenario.
type Run struct {
	*Cluster
	r       *rand.Rand
	crashed chan struct{}
	dead    bool // MOCO does not run
	struck  bool // something unexpected happened in the cluster
	calm    bool // no request fails for now
	flaky   bool // several requests may fail
	Kinds   int  // kinds of requests seen since the hook was set
	faulty  bool // requests of MOCO may have failed
	Notes   []string
}

// NewRun creates a run; must be called in a synctest bubble.
func NewRun(o Options) *Run {
	c := New(o)
	c.Muted = true
	for _, e := range []string{"observe", "waited", "k8sevent", "mocostart", "mocostop", "mococrash", "clonebegin"} {
		c.Mute[e] = true
	}
	return &Run{Cluster: c, r: rand.New(rand.NewSource(o.Seed*104729 + 7)), crashed: make(chan struct{}, 8)}
}

// Start begins the trace and starts MOCO and the background activity.
func (x *Run) Start(scenario string) {
	x.Lock()
	x.Muted = false
	x.Begin("scenario", scenario)
	x.Unlock()
	x.StartPump()
	x.StartMOCO()
}

func (x *Run) note(f string, a ...any) { x.Notes = append(x.Notes, fmt.Sprintf(f, a...)) }

func (x *Run) sleep(d time.Duration) {
	t := time.NewTimer(d)
	select {
	case <-t.C:
	case <-x.crashed:
		t.Stop()
		x.StopMOCO()
		time.Sleep(time.Duration(x.r.Intn(4000)) * time.Millisecond)
		x.StartMOCO()
		time.Sleep(d)
	}
}

// Arm makes the operation number idx (counted from now) fail or MOCO crash at it.
// mode: 0 fail before, 1 fail after, 2 crash before, 3 crash after, 4 something else happens before,
// 5 several requests fail.
func (x *Run) Arm(idx, mode int) { x.arm(idx, mode, 0) }

func (x *Run) arm(idx, mode, sel int) {
	x.Lock()
	defer x.Unlock()
	base := 0
	fired := false
	last := ""
	seen := map[string]bool{}
	var mu sync.Mutex
	if mode == 5 {
		// requests fail now and then
		x.flaky = true
		reads := 0
		var at time.Time
		r := rand.New(rand.NewSource(x.opt.Seed*19 + int64(idx)))
		x.Hook = func(op sim.Op) sim.Action {
			mu.Lock()
			defer mu.Unlock()
			k := op.Kind + "|" + generic(op.What) + "|" + last
			// mostly the changes, and what is read in the course of making them
			odds := 30
			if op.Mut {
				last, at = generic(op.What), time.Now()
				odds = 5
			} else if time.Since(at) < 300*time.Millisecond {
				odds = 6
			}
			if x.calm || seen[k] || base >= 7 || !op.Mut && reads >= 2 || r.Intn(odds) > 0 {
				return sim.Proceed
			}
			seen[k] = true
			base++
			if !op.Mut {
				reads++ // an instance whose status cannot be read repeatedly is not available
			}
			if op.Mut && r.Intn(4) == 0 {
				return sim.FailAfter
			}
			return sim.FailBefore
		}
		return
	}
	// counts reports whether this is the request to interrupt
	counts := func(op sim.Op) bool {
		mu.Lock()
		defer mu.Unlock()
		switch sel {
		case selMut:
			if !op.Mut {
				return false
			}
		case selKind:
			k := op.Kind + "|" + generic(op.What) + "|" + last
			if op.Mut {
				last = generic(op.What)
			}
			if seen[k] {
				return false
			}
			seen[k] = true
			x.Kinds = len(seen)
		}
		base++
		if fired || base <= idx {
			return false
		}
		fired = true
		return true
	}
	x.Hook = func(op sim.Op) sim.Action {
		if !counts(op) {
			return sim.Proceed
		}
		switch mode {
		case 4:
			// something happens in the cluster right before the operation
			x.do(func() { x.struck = true })
			x.strike(rand.New(rand.NewSource(x.opt.Seed*17+int64(idx))), 90)
			return sim.Proceed
		case 0:
			return sim.FailBefore
		case 1:
			return sim.FailAfter
		case 2, 3:
			x.Lock()
			if mode == 2 {
				x.Invalidate()
			}
			x.Unlock()
			if mode == 3 {
				// the operation takes effect, and nothing after it
				go func() {
					time.Sleep(time.Microsecond)
					x.Lock()
					x.Invalidate()
					x.Unlock()
				}()
			}
			select {
			case x.crashed <- struct{}{}:
			default:
			}
			if mode == 2 {
				return sim.FailBefore
			}
			return sim.FailAfter
		}
		return sim.Proceed
	}
}

var varying = regexp.MustCompile(`[0-9]+|'[^']*'`)

// generic is the kind of a request.
func generic(what string) string { return varying.ReplaceAllString(what, "") }

// Disarm removes the hook.
func (x *Run) Disarm() {
	x.Lock()
	x.Hook = nil
	x.Unlock()
}

func (x *Run) prim() int { return x.MC().Status.CurrentPrimaryIndex }

func (x *Run) state() string {
	_, s := cond(x.MC(), mocov1beta2.ConditionAvailable)
	return s
}

func (x *Run) have(i *sim.Inst) sim.TxnSet { return i.Exec.Union(i.Ret) }

// sound reports whether an instance is not impaired: reachable, attached to
// the primary (or the primary itself) and holding everything acknowledged.
func (x *Run) sound(i *sim.Inst) bool {
	if !i.Up || i.Hidden || i.Cut || x.errant(i.Idx) {
		return false
	}
	p := x.prim()
	if len(x.Acked()) == 0 {
		data := false
		for k := 0; k < x.World.N; k++ {
			data = data || len(x.Insts[k].Exec) > 0
		}
		return !data || len(i.Exec) > 0 && (i.Idx == p || i.IO && i.Src == p)
	}
	if i.Idx == p {
		return x.Acked().SubsetOf(i.Exec)
	}
	if i.Dirty && x.Acked().SubsetOf(x.have(i)) {
		i.Dirty = false
	}
	return !i.Dirty && i.IO && i.Src == p && x.Pod(i.Idx) != nil
}

// mayHurt reports whether instance k may be impaired too.
func (x *Run) mayHurt(k int) bool {
	if x.World.N == 1 || x.opt.Reckless {
		return true
	}
	n := 0
	for i := 0; i < x.World.N; i++ {
		if i == k || !x.sound(x.Insts[i]) {
			n++
		}
	}
	return n <= x.World.N/2
}

// errant reports whether i has transactions that the primary never had.
func (x *Run) errant(i int) bool {
	p := x.Insts[x.prim()]
	if i == p.Idx || len(p.Exec) == 0 {
		return false
	}
	for t := range x.Insts[i].Exec {
		if !p.Exec[t] && t.UUID != p.UUID {
			return true
		}
	}
	return false
}

func (x *Run) pick(r *rand.Rand) int {
	if r.Intn(2) == 0 {
		return x.prim()
	}
	return r.Intn(x.World.N)
}

// fault performs one random action.
func (x *Run) fault() { x.strike(x.r, 100) }

// strike performs one random action, chosen by r, out of the first n percent.
func (x *Run) strike(r *rand.Rand, n int) {
	x.Lock()
	defer x.Unlock()
	k := x.pick(r)
	in := x.Insts[k]
	switch a := r.Intn(n); {
	case a < 14:
		if in.Up && x.mayHurt(k) {
			x.note("crash %d", k)
			x.Crash(in)
			if r.Intn(2) == 0 {
				x.SetReady(k, false)
			}
		}
	case a < 30:
		for i := 0; i < x.World.N; i++ {
			in := x.Insts[i]
			if !in.Up && x.Pod(i) != nil {
				x.note("restart %d", i)
				x.Restart(in)
				x.SetReady(i, true)
				break
			}
		}
	case a < 34:
		if x.World.N > 1 && !x.opt.Reckless && x.mayHurt(k) {
			x.note("wipe %d", k)
			x.Wipe(in)
			x.SetReady(k, false)
			if r.Intn(3) > 0 {
				x.Restart(in)
				x.SetReady(k, true)
			}
		}
	case a < 40:
		if in.Hidden {
			in.Hidden = false
			x.Net(in)
		} else if x.mayHurt(k) {
			x.note("hide %d", k)
			in.Hidden = true
			x.Net(in)
		}
	case a < 46:
		if in.Cut {
			in.Cut = false
			x.Net(in)
		} else if x.mayHurt(k) {
			x.note("cut %d", k)
			in.Cut = true
			x.Net(in)
		}
	case a < 52:
		in.Slow = !in.Slow
		x.note("slow %d %v", k, in.Slow)
		x.Net(in)
	case a < 62:
		if p := x.prim(); x.World.N > 1 {
			x.note("demote %d", p)
			x.Annotate(p, constants.AnnDemote, "true")
		}
	case a < 68:
		if x.Pod(k) != nil && x.mayHurt(k) {
			x.note("delete pod %d", k)
			x.DeletePod(k)
		}
	case a < 74:
		// the kubelet stops the container of a terminating pod, and the pod is replaced
		for i := 0; i < x.World.N; i++ {
			p := x.Pod(i)
			if p == nil || p.DeletionTimestamp == nil || !x.mayHurt(i) {
				continue
			}
			x.note("replace pod %d", i)
			x.Crash(x.Insts[i])
			x.PodGone(i)
			if r.Intn(2) == 0 {
				x.PodNew(i)
				x.Restart(x.Insts[i])
			}
			break
		}
	case a < 77:
		if k != x.prim() && in.Up && x.txns < x.maxTxn && x.mayHurt(k) && len(x.Insts[x.prim()].Exec) > 0 {
			x.note("errant %d", k)
			x.txns++
			x.Inject(in)
		}
	case a < 81:
		x.note("purge %d", k)
		x.Purge(in)
	case a < 85:
		in.Behind = []int{-1, 0, 4, 5, 6, 100}[r.Intn(6)]
		x.Net(in)
	case a < 88:
		if x.opt.Ext && r.Intn(3) == 0 {
			x.note("detach source")
			x.EditMC(func(m *mocov1beta2.MySQLCluster) { m.Spec.ReplicationSourceSecretName = nil }, false)
		}
		x.CloneFail = r.Intn(2)
	case a < 90:
		ready := r.Intn(2) == 0
		x.SetReady(k, ready && in.Up)
	default:
		idx, mode := r.Intn(60), r.Intn(5)
		x.note("arm %d mode %d", idx, mode)
		x.Unlock()
		x.Arm(idx, mode)
		x.Lock()
	}
}

// Heal repairs the environment, and waits until the cluster is healthy.
func (x *Run) Heal() {
	x.Disarm()
	select {
	case <-x.crashed:
		x.StopMOCO()
		x.StartMOCO()
	default:
	}
	x.Lock()
	x.CloneFail = 0
	x.opt.Probe = true
	for i := 0; i < x.World.N; i++ {
		in := x.Insts[i]
		if in.Hidden || in.Cut || in.Slow || in.Behind >= 0 {
			in.Hidden, in.Cut, in.Slow, in.Behind = false, false, false, -1
			x.Net(in)
		}
		p := x.Pod(i)
		if p != nil && p.DeletionTimestamp != nil {
			x.Crash(in)
			x.PodGone(i)
			p = nil
		}
		if p == nil {
			x.PodNew(i)
		}
		x.Restart(in)
		x.ProbePod(i)
	}
	if m := x.MC(); m.Spec.Offline {
		x.EditMC(func(m *mocov1beta2.MySQLCluster) { m.Spec.Offline = false }, false)
	}
	x.Unlock()
	ok := 0
	for k := 0; k < 90 && ok < 3; k++ {
		x.sleep(6 * time.Second)
		x.Lock()
		p := x.Insts[x.prim()]
		for i := 0; i < x.World.N; i++ {
			in := x.Insts[i]
			switch {
			case i == p.Idx:
			case k%5 == 4 && (x.errant(i) || !p.Purged.SubsetOf(x.have(in)) || !in.SQL && !p.Purged.SubsetOf(in.Exec) || in.IOErr != 0):
				x.note("re-initialise %d", i)
				x.Wipe(in)
				x.Restart(in)
			case k%5 == 4 && in.SemiM && len(in.Pend) > 0:
				x.note("restart hung %d", i)
				x.Crash(in)
				x.Restart(in)
			}
		}
		if x.state() == "Healthy" && x.Pod(p.Idx).Annotations[constants.AnnDemote] != "true" {
			ok++
		} else {
			ok = 0
		}
		if k == 60 {
			x.NoWrite = true
		}
		x.Unlock()
	}
	x.Lock()
	x.NoWrite = true
	if x.opt.Ext {
		x.opt.ExtTxns = 0
	}
	x.Unlock()
	x.sleep(20 * time.Second)
	x.Lock()
	x.Emit("quiesce")
	x.Unlock()
}

// Random runs a random fault scenario.
func Random(seed int64, id int, out io.Writer, mod func(*Options)) *Run {
	r := rand.New(rand.NewSource(seed))
	o := Options{ID: id, Seed: seed, N: []int{3, 3, 3, 3, 3, 3, 5, 5, 1}[r.Intn(9)], Out: out}
	o.Ext = r.Intn(6) == 0
	o.Probe = r.Intn(2) == 0
	o.Reckless = r.Intn(4) == 0
	if r.Intn(4) == 0 {
		o.MaxDelay = 5
	}
	if o.Ext {
		o.ExtTxns = 6
	}
	if mod != nil {
		mod(&o)
	}
	x := NewRun(o)
	if o.Ext {
		for k := 0; k < 2; k++ {
			x.Inject(x.Insts[sim.Ext])
		}
		x.Purge(x.Insts[sim.Ext])
	}
	x.Start("random")
	if r.Intn(2) == 0 {
		x.Lock()
		x.Traffic(0)
		x.Unlock()
	}
	x.sleep(time.Duration(r.Intn(40000)) * time.Millisecond)
	steps := 4 + r.Intn(14)
	for k := 0; k < steps; k++ {
		x.fault()
		switch r.Intn(4) {
		case 0:
			x.sleep(time.Duration(r.Intn(300)) * time.Millisecond)
		case 1:
			x.sleep(time.Duration(r.Intn(3000)) * time.Millisecond)
		default:
			x.sleep(time.Duration(r.Intn(20000)) * time.Millisecond)
		}
	}
	x.Heal()
	x.Finish()
	return x
}
