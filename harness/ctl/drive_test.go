package ctl

import (
	"bufio"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"slices"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func base() spec {
	return spec{Replicas: 3, Data: 1, Class: "grow", Img: "8.0", Mem: 1024, SyncL: "l1", SyncA: "a1"}
}

// users puts what users have in their namespaces.
func (w *world) users() {
	for _, ns := range []string{"x", "y"} {
		w.userConf(ns, "conf1", 100)
		w.userConf(ns, "conf2", 200)
		w.policy(ns, "daily", "0 0 * * *", "backer", 2, 9)
		w.policy(ns, "hourly", "0 * * * *", "backer2", 3, 22)
	}
}

// foreign puts objects that look like those of MOCO.
func (w *world) foreign(ns, name string) {
	for _, n := range []string{"moco-" + name + ".0000", "moco-slow-log-agent-config-" + name + ".0000", "moco-" + name} {
		cm := &corev1.ConfigMap{Data: map[string]string{"k": "v"}}
		cm.Namespace, cm.Name = ns, n
		w.stored(cm)
	}
	for _, n := range []string{"mysql-" + ns + "." + name + "z", "moco-agent-" + ns + "." + name + "z"} {
		s := &corev1.Secret{Data: map[string][]byte{"k": []byte("v")}}
		s.Namespace, s.Name = sys, n
		w.stored(s)
	}
	lbl := map[string]string{"app.kubernetes.io/name": "mysql", "app.kubernetes.io/instance": name, "app.kubernetes.io/created-by": "moco"}
	for i, l := range []map[string]string{nil, lbl} {
		p := &corev1.PersistentVolumeClaim{}
		p.Namespace, p.Name, p.Labels = ns, fmt.Sprintf("mysql-data-moco-%s-%d", name, 7+i), l
		p.Spec.Resources.Requests = corev1.ResourceList{corev1.ResourceStorage: gib(1)}
		c := "grow"
		p.Spec.StorageClassName = &c
		w.stored(p)
	}
}

// scenario is a situation with something MOCO has to do next.
type scenario struct {
	name string
	prep func(w *world)
	do   func(w *world)
}

func started(s spec) func(w *world) {
	return func(w *world) {
		w.users()
		w.put("x", "a", s)
		w.settleQuick()
	}
}

func change(f func(*spec)) func(w *world) {
	return func(w *world) {
		s := w.want["x/a"]
		f(&s)
		w.put("x", "a", s)
	}
}

func (w *world) settleQuick() {
	for i := 0; i < 12; i++ {
		w.busy = false
		w.advance()
		for k := range w.want {
			ns, n, _ := splitKey(k)
			w.reconcile(ns, n, nil, nil)
		}
		for _, s := range w.allSTS() {
			w.roll(s.Namespace, s.Name, nil, nil)
		}
		if !w.busy && i > 1 {
			break
		}
	}
	w.advance()
}

func with(s spec, f func(*spec)) spec { f(&s); return s }

var scenarios = []scenario{
	{"create", func(w *world) { w.users() }, func(w *world) {
		w.put("x", "a", with(base(), func(s *spec) {
			s.Policy, s.Conf, s.Exporter, s.Evil, s.PType, s.RType, s.Rich = "hourly", "conf1", true, true, "LoadBalancer", "NodePort", 15
		}))
	}},
	{"createCert", func(w *world) {
		w.users()
		w.put("x", "a", base())
		w.reconcile("x", "a", nil, nil)
	}, func(w *world) { w.certManager(false) }},
	{"restore", func(w *world) { w.users() }, func(w *world) { w.put("x", "a", with(base(), func(s *spec) { s.Restore, s.RestoreKind = true, 7 })) }},
	{"rich", started(with(base(), func(s *spec) { s.PType, s.Exporter, s.Conf = "LoadBalancer", true, "conf2" })), change(func(s *spec) { s.Rich = 15 })},
	{"poor", started(with(base(), func(s *spec) { s.PType, s.Exporter, s.Rich = "NodePort", true, 15 })), change(func(s *spec) { s.Rich = 0 })},
	{"restored", started(with(base(), func(s *spec) { s.Restore = true })), func(w *world) {
		w.restored("x/a")
		w.tamper(w.srv.current("Job", "x", "moco-restore-a"), true)
	}},
	{"image", started(base()), change(func(s *spec) { s.Img, s.SlowCPU = "8.4", "77m" })},
	{"slowcpu", started(with(base(), func(s *spec) { s.SlowCPU = "50m" })), change(func(s *spec) { s.SlowCPU = "60m"; s.Conf = "conf2" })},
	{"scale", started(with(base(), func(s *spec) { s.Replicas = 1 })), change(func(s *spec) { s.Replicas = 3 })},
	{"offline", started(base()), change(func(s *spec) { s.Offline = true })},
	{"online", started(with(base(), func(s *spec) { s.Offline = true })), change(func(s *spec) { s.Offline = false })},
	{"expand", started(with(base(), func(s *spec) { s.Logs = 2 })), change(func(s *spec) { s.Data = 4 })},
	{"expandBoth", started(with(base(), func(s *spec) { s.Logs = 2 })), change(func(s *spec) { s.Data, s.Logs = 4, 5; s.Img = "9" })},
	{"expandBusy", started(base()), func(w *world) {
		change(func(s *spec) { s.Data = 4 })(w)
		w.pods(func(p *corev1.Pod) { w.ready(p, ordOf(p.Name) != 1) })
		for _, s := range w.allSTS() {
			w.stsStatus(s)
		}
	}},
	{"expandMixed", func(w *world) { // claims of several storage classes
		started(with(base(), func(s *spec) { s.Class, s.Replicas, s.Logs = "fixed", 1, 2 }))(w)
		change(func(s *spec) { s.Class, s.Replicas = "grow", 3 })(w)
		for range 8 {
			w.settleQuick()
			w.roll("x", "moco-a", nil, nil)
			w.advance()
		}
	}, change(func(s *spec) { s.Data, s.Logs = 4, 5 })},
	{"expandOffline", started(with(base(), func(s *spec) { s.Offline = true })), change(func(s *spec) { s.Data = 4 })},
	{"expandOnline", func(w *world) {
		started(base())(w)
		change(func(s *spec) { s.Offline = true })(w)
		w.settleQuick()
		change(func(s *spec) { s.Data = 4 })(w)
		w.settleQuick()
	}, change(func(s *spec) { s.Offline = false })},
	{"shrink", started(with(base(), func(s *spec) { s.Data = 4 })), change(func(s *spec) { s.Data = 2 })},
	{"addVolume", started(base()), change(func(s *spec) { s.Logs = 2 })},
	{"sync", started(base()), change(func(s *spec) { s.SyncL, s.SyncA = "l2", "a2" })},
	{"conf", started(with(base(), func(s *spec) { s.Conf = "conf1" })), func(w *world) { w.userConf("x", "conf1", 150) }},
	{"slowOff", started(base()), change(func(s *spec) { s.NoSlow, s.Evil = true, true })},
	{"slowTmpl", started(base()), change(func(s *spec) { s.Tmpl = "T1" })},
	{"backupOn", started(base()), change(func(s *spec) { s.Policy = "daily" })},
	{"backupOff", started(with(base(), func(s *spec) { s.Policy = "daily" })), change(func(s *spec) { s.Policy = "" })},
	{"backupSwap", started(with(base(), func(s *spec) { s.Policy = "daily" })), change(func(s *spec) { s.Policy = "hourly" })},
	{"backupEdit", started(with(base(), func(s *spec) { s.Policy = "daily" })), func(w *world) { w.policy("x", "daily", "5 5 * * *", "other", 4, 30) }},
	{"backupRun", started(with(base(), func(s *spec) { s.Policy = "daily" })), func(w *world) { w.backupActive("x", "moco-backup-a", true, false) }},
	{"backupHeld", started(with(base(), func(s *spec) { s.Policy = "daily" })), func(w *world) { w.backupActive("x", "moco-backup-a", true, true) }},
	{"backupFailed", func(w *world) {
		started(with(base(), func(s *spec) { s.Policy = "daily" }))(w)
		w.backupActive("x", "moco-backup-a", true, true)
		w.settleQuick()
	}, func(w *world) { w.backupActive("x", "moco-backup-a", false, true) }},
	{"backupDone", func(w *world) {
		started(with(base(), func(s *spec) { s.Policy = "daily" }))(w)
		w.backupActive("x", "moco-backup-a", true, false)
		w.settleQuick()
	}, func(w *world) { w.backupActive("x", "moco-backup-a", false, false) }},
	{"renew", started(base()), func(w *world) { w.certManager(true) }},
	{"delete", started(with(base(), func(s *spec) { s.Policy = "daily" })), func(w *world) { w.drop("x/a") }},
	{"cluStop", started(base()), change(func(s *spec) { s.CluStop = "true" })},
	{"cluResume", func(w *world) {
		started(with(base(), func(s *spec) { s.CluStop = "true" }))(w)
	}, change(func(s *spec) { s.CluStop = "false" })},
	{"recStop", started(base()), change(func(s *spec) { s.RecStop = "true"; s.Img, s.Replicas, s.Policy, s.Data = "9", 5, "daily", 3 })},
	{"bothStop", started(base()), change(func(s *spec) { s.RecStop, s.CluStop = "true", "true"; s.Img = "9" })},
	{"recResume", func(w *world) {
		started(base())(w)
		change(func(s *spec) { s.RecStop = "true"; s.Img, s.Replicas = "9", 5 })(w)
		w.settleQuick()
	}, change(func(s *spec) { s.RecStop = "" })},
	{"force", started(base()), change(func(s *spec) { s.Force = "true"; s.Img = "9" })},
	{"confs", func(w *world) {
		started(with(base(), func(s *spec) { s.Conf = "conf1" }))(w)
		for i := 1; i < 4; i++ {
			w.userConf("x", "conf1", 100+i)
			time.Sleep(time.Minute)
			w.reconcile("x", "a", nil, nil)
		}
	}, func(w *world) { w.userConf("x", "conf1", 99) }},
	{"forceNot", started(base()), change(func(s *spec) { s.Force = "false"; s.Img = "9" })},
	{"unforce", started(with(base(), func(s *spec) { s.Force = "true" })), change(func(s *spec) { s.Force = ""; s.Img = "9" })},
	{"drift", started(with(base(), func(s *spec) { s.Policy = "daily" })), func(w *world) {
		for i, o := range w.managed(w.cluster("x/a")) {
			w.tamper(o, i%2 == 0)
		}
	}},
	{"drift2", started(with(base(), func(s *spec) { s.Policy = "daily" })), func(w *world) {
		for i, o := range w.managed(w.cluster("x/a")) {
			w.tamper(o, i%2 == 1)
		}
	}},
}

// drop deletes a MySQLCluster.
func (w *world) drop(k string) {
	if c := w.cluster(k); c != nil {
		must(w.srv.delete(c, "user", false))
	}
}

// faults is the number of ways a request can fail.
const faults = 5

func faultOf(n, m int) *fault {
	switch m {
	case 0:
		return &fault{n: n}
	case 1:
		return &fault{n: n, after: true}
	case 2:
		return &fault{n: n, crash: true}
	case 3:
		return &fault{n: n, after: true, crash: true}
	}
	if m == faults {
		return &fault{n: n, kind: raced}
	}
	return &fault{n: n, kind: 1}
}

// sweep runs a scenario once for every request that can fail.
func sweep(t *testing.T, out *bufio.Writer, sc scenario, seed int64, max int) int {
	runs := 0
	n := 1
	var keys []string
	try := func(f *fault, label string) int {
		total := 0
		synctest.Test(t, func(t *testing.T) {
			w := newWorld(out, rand.New(rand.NewSource(seed)), sc.name, label)
			w.foreign("x", "a")
			sc.prep(w)
			if seed%2 == 0 {
				w.srv.linger = time.Second
			}
			sc.do(w)
			w.reconcile("x", "a", f, nil)
			total = w.api.n
			if f == nil {
				keys = append([]string(nil), w.api.keys...)
			}
			w.settle(20)
		})
		runs++
		return total
	}
	n = try(nil, "")
	rnd := rand.New(rand.NewSource(seed + int64(len(sc.name))))
	var all, reads, creates [][2]int
	for i := 1; i <= n; i++ {
		for m := range faults {
			if i <= len(keys) && keys[i-1] == "" {
				reads = append(reads, [2]int{i, m})
			} else {
				all = append(all, [2]int{i, m})
			}
		}
		if i <= len(keys) && strings.HasPrefix(keys[i-1], "create ") {
			creates = append(creates, [2]int{i, faults})
		}
	}
	rnd.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	rnd.Shuffle(len(reads), func(i, j int) { reads[i], reads[j] = reads[j], reads[i] })
	if max >= 0 && len(all)+len(reads) > max {
		// more of those around a change than of those around a look-up
		k := min(len(all), max-max/3)
		reads = reads[:min(len(reads), max-k)]
		all = all[:k]
	}
	all = append(append(creates, all...), reads...)
	for _, x := range all {
		try(faultOf(x[0], x[1]), fmt.Sprintf("/%d.%d", x[0], x[1]))
	}
	return runs
}

// rollSweep interrupts the partition controller at each of its requests, by faults and by changes of the cluster.
func rollSweep(t *testing.T, out *bufio.Writer, seed int64, replicas int, max int) {
	start := func(label string) *world {
		w := newWorld(out, rand.New(rand.NewSource(seed)), "roll", label)
		started(with(base(), func(s *spec) { s.Replicas = replicas }))(w)
		change(func(s *spec) { s.Img = "8.4" })(w)
		w.reconcile("x", "a", nil, nil)
		w.advance()
		return w
	}
	again := func(w *world) func() {
		return func() {
			change(func(s *spec) { s.Img = "9" })(w)
			w.reconcile("x", "a", nil, nil)
			for _, s := range w.allSTS() {
				w.stsController(s)
			}
		}
	}
	sick := func(w *world) func() {
		return func() {
			w.pods(func(p *corev1.Pod) { w.ready(p, ordOf(p.Name) != 0) })
			w.clusteringLoop()
			for _, s := range w.allSTS() {
				w.stsStatus(s)
			}
		}
	}
	type variant struct {
		skip, at, what int
	}
	var all, odd []variant
	for skip := range 4 {
		for at := 0; at <= 6; at++ {
			for what := range faults + 2 {
				all = append(all, variant{skip, at, what})
			}
		}
		for pod := range replicas {
			for what := range oddities {
				odd = append(odd, variant{skip, pod, faults + 2 + what})
			}
		}
	}
	rnd := rand.New(rand.NewSource(seed))
	rnd.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	rnd.Shuffle(len(odd), func(i, j int) { odd[i], odd[j] = odd[j], odd[i] })
	if max >= 0 && len(all) > max {
		all, odd = all[:max], odd[:min(len(odd), 2*max)]
	}
	for _, v := range append(all, odd...) {
		synctest.Test(t, func(t *testing.T) {
			w := start(fmt.Sprintf("%d/%d.%d.%d", replicas, v.skip, v.at, v.what))
			for range v.skip {
				w.roll("x", "moco-a", nil, nil)
				w.advance()
			}
			hooks := map[int]func(){}
			var f *fault
			switch {
			case v.what < faults && v.at > 0:
				f = faultOf(v.at, v.what)
			case v.what == faults:
				hooks[v.at] = again(w)
			case v.what > faults+1:
				w.pods(func(p *corev1.Pod) {
					if ordOf(p.Name) == v.at {
						w.odd(p, v.what-faults-2)
					}
				})
				for _, s := range w.allSTS() {
					w.stsStatus(s)
				}
				if rnd.Intn(2) == 0 {
					w.clusteringLoop()
				}
			default:
				hooks[v.at] = sick(w)
			}
			w.roll("x", "moco-a", f, hooks)
			if v.what < faults+2 {
				w.settle(20 + 2*replicas)
			}
		})
	}
}

var nameSets = [][]string{{"x/a", "x/a-b", "y/a"}, {"x/a", "x/ab"}, {"x/b", "x/b-0"}, {"x/a"}, {"x/a", "x/backup-a"}}

func randomSpec(r *rand.Rand, s spec, focus string) spec {
	pick := func(xs ...string) string { return xs[r.Intn(len(xs))] }
	for range 1 + r.Intn(3) {
		k := r.Intn(22)
		switch focus {
		case "C14":
			k = []int{0, 1, 17, 16, 17, 16, 13}[r.Intn(7)]
		case "C15", "C16":
			k = []int{0, 1, 11, 13, 18, 5, 19, 11}[r.Intn(8)]
		case "C19":
			k = []int{0, 1, 6, 7, 6, 7, 9, 11, 10, 6}[r.Intn(10)]
		case "C21":
			k = []int{0, 1, 2, 13, 1, 2}[r.Intn(6)]
		case "C26":
			k = []int{2, 2, 0, 13, 16, 20}[r.Intn(6)]
		}
		switch k {
		case 0:
			s.Replicas = []int{1, 3, 5}[r.Intn(3)]
		case 1:
			s.Offline = !s.Offline
		case 2:
			s.Policy = pick("", "daily", "hourly")
		case 3:
			s.Conf = pick("", "conf1", "conf2")
		case 4:
			s.NoSlow = !s.NoSlow
		case 5:
			s.Tmpl = pick("", "T1", "T2")
		case 6:
			s.Data += r.Intn(3)
			if focus == "C19" && r.Intn(4) == 0 {
				s.Class = pick("grow", "fixed", "grow")
			}
		case 7:
			s.Logs = r.Intn(4)
		case 8:
			s.Exporter = !s.Exporter
		case 9:
			s.SyncL = pick("", "l1", "l2")
		case 10:
			s.SyncA = pick("", "a1", "a2")
		case 11:
			s.Img = pick("8.0", "8.4", "9")
		case 12:
			s.Mem = []int{0, 1024, 2000, 4096}[r.Intn(4)]
		case 13:
			s.Extra++
		case 14:
			s.SlowCPU = pick("", "50m", "60m")
		case 15:
			s.PType, s.RType, s.Evil = pick("", "ClusterIP", "LoadBalancer"), pick("", "NodePort"), r.Intn(2) == 0
		case 16:
			s.CluStop = pick("", "true", "false")
		case 17:
			s.RecStop = pick("", "true", "false", "")
		case 18:
			s.Force = pick("", "true", "false", "")
		case 19:
			if r.Intn(2) == 0 && s.Data > 1 {
				s.Data--
			}
		case 20, 21:
			s.Rich = r.Intn(16)
		}
	}
	return s
}

func history(t *testing.T, out *bufio.Writer, seed int64, steps int, focus string) {
	synctest.Test(t, func(t *testing.T) {
		r := rand.New(rand.NewSource(seed))
		w := newWorld(out, r, "random", fmt.Sprint(seed))
		cs := nameSets[r.Intn(len(nameSets))]
		w.users()
		if r.Intn(3) == 0 {
			w.srv.linger = time.Duration(r.Intn(7)) * time.Second
		}
		for _, k := range cs {
			ns, n, _ := splitKey(k)
			w.foreign(ns, n)
			s := base()
			s.Restore, s.RestoreKind = r.Intn(4) == 0, r.Intn(8)
			s.Class = []string{"grow", "grow", "fixed"}[r.Intn(3)]
			s.Replicas = []int{1, 3, 3}[r.Intn(3)]
			if r.Intn(2) == 0 {
				s = randomSpec(r, s, focus)
			}
			if r.Intn(4) > 0 {
				w.put(ns, n, s)
			} else {
				w.want[k] = s
			}
		}
		one := func() (string, string, string) {
			k := cs[r.Intn(len(cs))]
			ns, n, _ := splitKey(k)
			return k, ns, n
		}
		var env func()
		env = func() {
			k, ns, n := one()
			switch x := r.Intn(20); x {
			case 0, 1, 2, 3, 4:
				s := w.want[k]
				if w.cluster(k) != nil {
					s = randomSpec(r, s, focus)
				}
				w.put(ns, n, s)
				if w.papi.busy && !w.api.busy && r.Intn(2) == 0 {
					w.reconcile(ns, n, nil, nil)
					if r.Intn(2) == 0 {
						for _, s := range w.allSTS() {
							w.stsController(s)
						}
					}
				}
			case 5:
				w.certManager(r.Intn(2) == 0)
			case 6, 7:
				for _, s := range w.allSTS() {
					w.stsController(s)
				}
			case 8, 9:
				w.pods(func(p *corev1.Pod) {
					if p.DeletionTimestamp != nil {
						must(w.srv.leave(p))
					} else if r.Intn(4) == 0 {
						w.odd(p, r.Intn(oddities))
					} else {
						w.ready(p, r.Intn(4) > 0)
					}
				})
				for _, s := range w.allSTS() {
					if s.DeletionTimestamp == nil {
						w.stsStatus(s)
					}
				}
			case 10:
				w.backupActive(ns, "moco-backup-"+n, r.Intn(2) == 0, r.Intn(3) == 0)
			case 11, 12:
				if c := w.cluster(k); c != nil {
					os := w.managed(c)
					if len(os) > 0 {
						w.tamper(os[r.Intn(len(os))], r.Intn(2) == 0)
					}
				}
			case 13:
				w.restored(k)
			case 14:
				w.userConf(ns, []string{"conf1", "conf2"}[r.Intn(2)], 100*(1+r.Intn(5)))
			case 15:
				w.policy(ns, []string{"daily", "hourly"}[r.Intn(2)], fmt.Sprintf("%d 0 * * *", r.Intn(60)), []string{"backer", "backer2"}[r.Intn(2)], 1+r.Intn(4), r.Intn(32))
			case 16:
				w.clusteringLoop()
				for _, s := range w.allSTS() { // the other controller is at work
					if w.api.busy && !w.papi.busy {
						w.roll(s.Namespace, s.Name, nil, nil)
					}
				}
				if w.papi.busy && !w.api.busy {
					w.reconcile(ns, n, nil, nil)
				}
			case 17:
				w.deletePolicy(ns, []string{"daily", "hourly"}[r.Intn(2)])
			case 18:
				if r.Intn(3) == 0 {
					w.drop(k)
				} else {
					w.srv.collect()
				}
			case 19:
				for _, j := range w.srv.all("Job") {
					if r.Intn(2) == 0 {
						w.tamper(j, true)
					}
				}
				for _, j := range w.srv.all("Certificate") {
					if r.Intn(4) == 0 {
						w.tamper(j, true)
					}
				}
			}
		}
		for range steps {
			switch r.Intn(10) {
			case 0, 1, 2:
				env()
			case 3:
				w.advance()
			case 4:
				if r.Intn(4) == 0 {
					w.restart()
				} else {
					time.Sleep(time.Duration(r.Intn(8)) * time.Second)
				}
			default:
				var f *fault
				if r.Intn(3) == 0 {
					f = faultOf(1+r.Intn(70), r.Intn(faults))
				}
				hooks := map[int]func(){}
				if r.Intn(3) == 0 {
					for range 1 + r.Intn(2) {
						hooks[1+r.Intn(60)] = env
					}
				}
				if r.Intn(4) == 0 || focus == "C15" && r.Intn(2) == 0 {
					if l := w.allSTS(); len(l) > 0 {
						s := l[r.Intn(len(l))]
						for i := range hooks {
							if i > 4 {
								delete(hooks, i)
								hooks[1+r.Intn(4)] = env
							}
						}
						if f != nil {
							f.n = 1 + f.n%5
						}
						w.roll(s.Namespace, s.Name, f, hooks)
					}
				} else {
					_, ns, n := one()
					w.reconcile(ns, n, f, hooks)
				}
			}
		}
		w.srv.linger = min(w.srv.linger, 4*time.Second)
		w.users()
		w.settle(25)
		// resume whatever was stopped
		for _, k := range cs {
			if c := w.cluster(k); c != nil && c.DeletionTimestamp == nil {
				s := w.want[k]
				s.RecStop, s.CluStop = "", ""
				ns, n, _ := splitKey(k)
				w.put(ns, n, s)
			}
		}
		w.settle(25)
		if r.Intn(3) == 0 {
			w.drop(cs[0])
			w.settle(8)
		}
	})
}

func TestDrive(t *testing.T) {
	debug.SetGCPercent(400)
	f, err := os.Create(os.Getenv("VERIF_OUT"))
	must(err)
	defer f.Close()
	out := bufio.NewWriterSize(f, 1<<20)
	defer out.Flush()
	seed := int64(envInt("VERIF_SEED", 1))
	shard, shards := envInt("VERIF_SHARD", 0), envInt("VERIF_SHARDS", 1)
	focus := os.Getenv("VERIF_FOCUS")
	only := os.Getenv("VERIF_SCENARIOS")
	i := -1
	for _, sc := range scenarios {
		if only == "none" || only != "" && !slices.Contains(strings.Split(only, ","), sc.name) {
			continue
		}
		if i++; i%shards != shard {
			continue
		}
		sweep(t, out, sc, seed*1000, envInt("VERIF_FAULTS", 3))
	}
	if n := envInt("VERIF_ROLLS", 0); n != 0 {
		rollSweep(t, out, seed*1000+int64(shard), 3, n)
		if shard == 0 {
			rollSweep(t, out, seed*1000, 11, 1)
		}
	}
	for i := range envInt("VERIF_RANDOM", 10) {
		if i%shards == shard {
			history(t, out, seed*100000+int64(i), envInt("VERIF_STEPS", 40), focus)
		}
	}
}

var _ client.Object = &mocov1beta2.MySQLCluster{}
var _ = metav1.Now
