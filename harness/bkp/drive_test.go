package bkp

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
)

func TestMain(m *testing.M) {
	role()
	os.Exit(m.Run())
}

func num(k string, d int) int {
	if n, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return n
	}
	return d
}

func real() int { return int(time.Now().Unix() - epoch) }

const ns, name = "src-ns", "test"

func (w *world) addInst(nsp, cluster string, idx int) *inst {
	w.lastUUID++
	i := &inst{ns: nsp, cluster: cluster, idx: idx, ip: fmt.Sprintf("10.%d.0.%d", len(w.clusters), idx+1), uuid: w.lastUUID, up: true, ready: true, pod: true,
		version: []string{"8.0", "8.4"}[w.r.Intn(2)], exec: map[int]bool{}, files: []file{{num: []int{1, 9, 99999, 999998}[w.r.Intn(4)]}}, ro: true, sro: true}
	w.insts = append(w.insts, i)
	return i
}

func (w *world) addCluster(nsp, cluster string, n int) *mocov1beta2.MySQLCluster {
	c := &mocov1beta2.MySQLCluster{}
	c.TypeMeta = metav1.TypeMeta{Kind: "MySQLCluster", APIVersion: "moco.cybozu.com/v1beta2"}
	c.Namespace, c.Name, c.UID = nsp, cluster, "u-1"
	c.Spec.Replicas = int32(n)
	c.Status.SyncedReplicas = n
	w.clusters[nsp+"/"+cluster] = c
	w.touch(c)
	for i := 0; i < n; i++ {
		w.addInst(nsp, cluster, i)
	}
	return c
}

func (w *world) src() *mocov1beta2.MySQLCluster { return w.clusters[ns+"/"+name] }
func (w *world) mine(nsp, c string) (r []*inst) {
	for _, i := range w.insts {
		if i.ns == nsp && i.cluster == c {
			r = append(r, i)
		}
	}
	return
}

// commit makes k transactions on the primary; those that follow get them.
func (w *world) commit(k int) {
	for ; k > 0; k-- {
		w.now += w.r.Intn(3)
		t := txn{ID: len(w.txns) + 1, TS: w.now, DB: []string{"db1", "db2"}[w.r.Intn(2)]}
		w.txns = append(w.txns, t)
		p := w.mine(ns, name)[w.src().Status.CurrentPrimaryIndex]
		w.put(p, t)
	}
	w.replicate()
}

func (w *world) put(i *inst, t txn) {
	i.exec[t.ID] = true
	f := &i.files[len(i.files)-1]
	f.txns = append(f.txns, t)
	if w.r.Intn(4) == 0 {
		w.flush(i)
	}
}

func (w *world) flush(i *inst) { i.files = append(i.files, file{num: i.files[len(i.files)-1].num + 1}) }

func (w *world) replicate() {
	p := w.mine(ns, name)[w.src().Status.CurrentPrimaryIndex]
	for _, i := range w.mine(ns, name) {
		if i == p || i.lag || !i.up || !p.up {
			continue
		}
		for _, t := range w.txns {
			if p.exec[t.ID] && !i.exec[t.ID] {
				w.put(i, t)
			}
		}
	}
}

func (w *world) purge(i *inst) {
	if len(i.files) > 1 {
		i.files = append([]file{}, i.files[1+w.r.Intn(len(i.files)-1):]...)
	}
}

func (w *world) reinit(i *inst) {
	p := w.mine(ns, name)[w.src().Status.CurrentPrimaryIndex]
	if p == i {
		return
	}
	w.lastUUID++
	i.uuid = w.lastUUID
	i.files = []file{{num: 1 + w.r.Intn(3)}}
	i.exec = map[int]bool{}
	for k := range p.exec {
		i.exec[k] = true
	}
	i.ip = fmt.Sprintf("10.9.%d.%d", i.uuid, i.idx+1)
}

func (w *world) promote(k int) {
	// the new primary has everything
	i := w.mine(ns, name)[k]
	i.lag = false
	w.replicate()
	w.src().Status.CurrentPrimaryIndex = k
	w.touch(w.src())
}

func (w *world) instsJSON() []any {
	r := []any{}
	for _, i := range w.insts {
		fs := []any{}
		for _, f := range i.files {
			ids := []int{}
			for _, t := range f.txns {
				ids = append(ids, t.ID)
			}
			fs = append(fs, map[string]any{"n": f.num, "t": ids})
		}
		r = append(r, map[string]any{"at": w.ref(i), "uuid": i.uuid, "up": i.up, "ready": i.ready, "pod": i.pod, "exec": ints(i.exec), "files": fs,
			"ro": i.ro, "sro": i.sro, "infile": i.infile})
	}
	return r
}

func (w *world) show(ev string) {
	m := map[string]any{"e": ev, "ns": ns, "c": name, "insts": w.instsJSON(), "prim": w.src().Status.CurrentPrimaryIndex, "offline": w.src().Spec.Offline,
		"n": int(w.src().Spec.Replicas)}
	if ev == "reset" {
		m["rec"] = record(&w.src().Status)
		objs := []any{}
		for k, b := range w.objects {
			o := w.describe(k, b)
			objs = append(objs, o)
		}
		m["objs"] = objs
	}
	w.emit(m)
}

// prior pretends that a backup was taken from instance s some time ago.
func (w *world) prior(s int, legacy bool) {
	i := w.mine(ns, name)[s]
	w.dumps++
	b, _ := json.Marshal(map[string]any{"txns": w.list(i.exec), "n": w.dumps, "end": true})
	t := time.Unix(epoch+int64(w.now), 0).UTC()
	w.now += 2
	key := "moco/" + ns + "/" + name + "/" + t.Format("20060102-150405") + "/dump.tar"
	w.objects[key] = mktar(map[string]string{"dump/data.json": string(b), "dump/@.json": `{"gtidExecuted":"` + gtids(i.exec) + `"}`, "dump/@.done.json": strings.Repeat("x", 20000)})
	sb := &w.src().Status.Backup
	sb.Time = metav1.NewTime(t)
	sb.SourceIndex, sb.SourceUUID = s, uuidStr(i.uuid)
	sb.BinlogFilename = logName(i.files[len(i.files)-1].num)
	sb.GTIDSet = gtids(i.exec)
	if !legacy {
		sb.UUIDSet = map[string]string{}
		for _, j := range w.mine(ns, name) {
			if j.up && j.ready {
				sb.UUIDSet[strconv.Itoa(j.idx)] = uuidStr(j.uuid)
			}
		}
	}
	w.touch(w.src())
}

func (w *world) backup(f fault, hooks map[int]func()) int {
	w.mu.Lock()
	w.f, w.hooks = f, hooks
	w.show("world")
	w.emit(map[string]any{"e": "run", "kind": "backup", "now": real()})
	w.mu.Unlock()
	rc := w.run("backup", "bkt", ns, name)
	w.mu.Lock()
	defer w.mu.Unlock()
	w.end(rc, len(hooks) > 0)
	if n := real(); n > w.now {
		w.now = n
	}
	w.now++
	return w.ops
}

func (w *world) end(rc int, env bool) {
	what := "-"
	if w.hit && w.f.at <= len(w.log) {
		what = w.f.mode + " of " + w.log[w.f.at-1]
		if len(what) > 120 {
			what = what[:120]
		}
	}
	w.emit(map[string]any{"e": "end", "rc": rc, "fault": w.hit, "killed": w.gone, "env": env, "what": what, "now": real()})
	w.f, w.hooks = fault{}, nil
}

func (w *world) restore(tns, tname string, point int, schema, users string, f fault, calm bool) int {
	w.mu.Lock()
	w.f = f
	w.show("world")
	w.emit(map[string]any{"e": "run", "kind": "restore", "tns": tns, "tc": tname, "point": point, "schema": schema, "users": users, "now": real()})
	w.mu.Unlock()
	rc := w.run("restore", "bkt", ns, name, tns, tname, time.Unix(epoch+int64(point), 0).UTC().Format("20060102-150405"), schema, users)
	w.mu.Lock()
	defer w.mu.Unlock()
	w.end(rc, !calm)
	return w.ops
}

func nextSecond() {
	time.Sleep(time.Until(time.Now().Truncate(time.Second).Add(1010 * time.Millisecond)))
}

// setup makes a cluster of n instances with some history.
func (w *world) setup(n int) {
	w.now = real() - 7200
	c := w.addCluster(ns, name, n)
	c.Status.CurrentPrimaryIndex = w.r.Intn(n)
	w.commit(1 + w.r.Intn(4))
}

// a scenario prepares the state before the backup under test
var scenarios = map[string]func(w *world){
	"first":      func(w *world) { w.setup(2) },
	"firstAlone": func(w *world) { w.setup(1) },
	"second": func(w *world) {
		w.setup(3)
		w.prior((w.src().Status.CurrentPrimaryIndex+1)%3, false)
		w.commit(5)
	},
	"promoted": func(w *world) {
		w.setup(3)
		s := (w.src().Status.CurrentPrimaryIndex + 1) % 3
		w.prior(s, false)
		w.commit(3)
		w.promote(s)
		w.commit(3)
	},
	"reinit": func(w *world) {
		w.setup(2)
		s := 1 - w.src().Status.CurrentPrimaryIndex
		w.prior(s, false)
		w.commit(3)
		w.reinit(w.mine(ns, name)[s])
		w.mine(ns, name)[1-s].ready = w.r.Intn(2) == 0
		w.commit(2)
	},
	"legacy": func(w *world) {
		w.setup(3)
		w.prior((w.src().Status.CurrentPrimaryIndex+1)%3, true)
		w.commit(4)
	},
	"purged": func(w *world) {
		w.setup(2)
		s := 1 - w.src().Status.CurrentPrimaryIndex
		w.prior(s, false)
		w.commit(6)
		i := w.mine(ns, name)[s]
		w.flush(i)
		i.files = i.files[len(i.files)-1:]
	},
	// the dump was of a lagging instance; another one was cloned before it
	"cloned": func(w *world) {
		w.setup(3)
		p := w.src().Status.CurrentPrimaryIndex
		a, b := w.mine(ns, name)[(p+1)%3], w.mine(ns, name)[(p+2)%3]
		a.lag = true
		w.commit(4)
		w.reinit(b)
		w.prior(a.idx, false)
		w.commit(2)
		a.ready = false
	},
	"unready": func(w *world) {
		w.setup(3)
		s := (w.src().Status.CurrentPrimaryIndex + 1) % 3
		w.prior(s, false)
		w.commit(5)
		w.mine(ns, name)[s].ready = false
		if w.r.Intn(2) == 0 {
			w.mine(ns, name)[s].up = false
		}
	},
	"alone": func(w *world) {
		w.setup(1)
		w.prior(0, false)
		w.commit(4)
		w.flush(w.mine(ns, name)[0])
		w.commit(2)
	},
}

// randEnv changes the world a little.
func (w *world) randEnv() {
	is := w.mine(ns, name)
	i := is[w.r.Intn(len(is))]
	switch w.r.Intn(13) {
	case 0, 1, 2, 3:
		w.commit(1 + w.r.Intn(4))
	case 4:
		w.flush(i)
	case 5:
		w.purge(i)
	case 6:
		w.reinit(i)
	case 7:
		i.ready = !i.ready
	case 8:
		i.up = !i.up
		if !i.up {
			i.ready = false
		} else {
			w.flush(i)
			i.ready = true
		}
		w.replicate()
	case 9:
		if i.up {
			w.promote(i.idx)
		}
	case 10:
		i.lag = !i.lag
		w.replicate()
	case 11:
		w.src().Status.SyncedReplicas = w.r.Intn(3)
		w.touch(w.src())
	case 12:
		for _, j := range is {
			j.up, j.ready, j.lag = true, true, false
		}
		w.replicate()
	}
}

// hooks that change the world while moco-backup runs
func (w *world) randHooks() map[int]func() {
	h := map[int]func(){}
	for k := w.r.Intn(3); k > 0; k-- {
		h[4+w.r.Intn(36)] = func() {
			switch w.r.Intn(4) {
			case 0, 1:
				w.commit(1 + w.r.Intn(2))
			case 2:
				w.src().Status.ErrantReplicas = w.r.Intn(5)
				w.touch(w.src())
			case 3:
				is := w.mine(ns, name)
				w.flush(is[w.r.Intn(len(is))])
			}
			w.show("world")
		}
	}
	return h
}

func (w *world) target() *inst {
	w.addCluster("dst-ns", "copy", 1)
	i := w.mine("dst-ns", "copy")[0]
	return i
}

// chain runs several backups with random changes and restores at the end.
func chain(w *world, runs int) {
	w.setup(1 + w.r.Intn(3))
	if w.r.Intn(2) == 0 {
		w.prior(w.r.Intn(int(w.src().Spec.Replicas)), w.r.Intn(4) == 0)
	}
	w.target()
	w.show("reset")
	for ; runs > 0; runs-- {
		w.mu.Lock()
		for k := w.r.Intn(5); k > 0; k-- {
			w.randEnv()
		}
		w.mu.Unlock()
		f := fault{}
		var h map[int]func()
		switch w.r.Intn(4) {
		case 0:
			f = fault{at: 1 + w.r.Intn(45), mode: modes[w.r.Intn(len(modes))]}
		case 1:
			h = w.randHooks()
		}
		nextSecond()
		w.backup(f, h)
	}
	w.mu.Lock()
	w.commit(2)
	w.mu.Unlock()
	w.f = fault{}
	w.restore("dst-ns", "copy", w.point(), "", "", fault{}, true)
}

var modes = []string{"fail", "lost", "kill", "killed"}

// point chooses a time to restore.
func (w *world) point() int {
	var ts []int
	for k := range w.objects {
		p := strings.Split(k, "/")
		if len(p) == 5 {
			if t, err := time.Parse("20060102-150405", p[3]); err == nil {
				ts = append(ts, int(t.Unix()-epoch))
			}
		}
	}
	if len(ts) == 0 {
		return w.now
	}
	// the map has no order
	lo, hi := ts[0], ts[0]
	for _, t := range ts {
		lo, hi = min(lo, t), max(hi, t)
	}
	switch w.r.Intn(5) {
	case 0:
		return hi
	case 1:
		return hi + 1 + w.r.Intn(3)
	case 2:
		return w.now + 100
	case 3:
		return lo + w.r.Intn(hi-lo+2)
	}
	if len(w.txns) > 0 {
		return w.txns[w.r.Intn(len(w.txns))].TS
	}
	return lo - 1
}

// stored fills the object storage for restorations.
func (w *world) stored() {
	w.now = real() - 72000
	c := w.addCluster(ns, name, 1)
	c.Status.CurrentPrimaryIndex = 0
	i := w.mine(ns, name)[0]
	names := []string{name}
	k := 1 + w.r.Intn(4)
	var at []int
	for j := 0; j < k; j++ {
		at = append(at, w.now)
		ex := map[int]bool{}
		for x := range i.exec {
			ex[x] = true
		}
		w.now += 1 + w.r.Intn(5)
		start := len(w.txns)
		for x := w.r.Intn(6); x > 0; x-- {
			w.now += w.r.Intn(3)
			t := txn{ID: len(w.txns) + 1, TS: w.now, DB: []string{"db1", "db2"}[w.r.Intn(2)]}
			w.txns = append(w.txns, t)
			i.exec[t.ID] = true
		}
		w.now += 1 + w.r.Intn(5)
		dir := func(n string, t int) string {
			return "moco/" + ns + "/" + n + "/" + time.Unix(epoch+int64(t), 0).UTC().Format("20060102-150405")
		}
		for _, n := range names {
			w.dumps++
			b, _ := json.Marshal(map[string]any{"txns": w.list(ex), "n": w.dumps, "end": true})
			dump := mktar(map[string]string{"dump/data.json": string(b), "dump/@.json": "{}", "dump/@.done.json": strings.Repeat("x", 20000)})
			fs := map[string]string{}
			num := []int{1, 98, 999998}[w.r.Intn(3)]
			var cur []txn
			for x, t := range w.txns[start:] {
				cur = append(cur, t)
				if w.r.Intn(2) == 0 || x == len(w.txns)-start-1 {
					b, _ := json.Marshal(map[string]any{"f": num, "txns": cur, "end": true})
					fs["binlog/"+logName(num)] = string(b)
					num, cur = num+1, nil
				}
			}
			if len(fs) == 0 {
				b, _ := json.Marshal(map[string]any{"f": num, "txns": []txn{}, "end": true})
				fs["binlog/"+logName(num)] = string(b)
			}
			if w.r.Intn(6) != 0 {
				w.objects[dir(n, at[j])+"/dump.tar"] = dump
			}
			if j < k-1 && w.r.Intn(4) != 0 || w.r.Intn(6) == 0 {
				w.objects[dir(n, at[j])+"/binlog.tar.zst"] = zstd(mktar(fs))
			}
			// others with similar names
			if w.r.Intn(3) == 0 {
				for _, o := range []string{name + "-2", "tes", name + "s"} {
					w.objects[dir(o, at[j]+w.r.Intn(3))+"/dump.tar"] = dump
					w.objects[dir(o, at[j]+w.r.Intn(3))+"/binlog.tar.zst"] = zstd(mktar(fs))
				}
			}
		}
		if w.r.Intn(3) == 0 {
			w.objects["moco/"+ns+"/"+name+"/garbage"] = []byte("x")
			w.objects["moco/"+ns+"/"+name+"/"+strings.ReplaceAll(filepath.Base(dir(name, at[j])), "-", "")+"/dump.tar"] = []byte("x")
			w.objects[dir(name, at[j])+"/dump.tar.part"] = []byte("x")
			w.objects["moco/"+ns+"/"+name+"/latest/dump.tar"] = []byte("x")
		}
	}
}

func TestDrive(t *testing.T) {
	f, err := os.Create(os.Getenv("VERIF_OUT"))
	must(err)
	defer f.Close()
	var mu sync.Mutex
	seed := num("VERIF_SEED", 1)
	shard, shards := num("VERIF_SHARD", 0), num("VERIF_SHARDS", 1)
	type job struct {
		seed int64
		f    func(w *world)
	}
	var jobs []job
	add := func(s int64, f func(w *world)) { jobs = append(jobs, job{s, f}) }

	// each scenario of backups without faults and with one at chosen points
	faults := num("VERIF_FAULTS", 8)
	var names []string
	for _, n := range strings.Split(os.Getenv("VERIF_SCENARIOS"), ",") {
		if scenarios[n] != nil {
			names = append(names, n)
		}
	}
	for x, n := range names {
		sc := scenarios[n]
		one := func(fl fault) func(w *world) {
			return func(w *world) {
				sc(w)
				w.show("reset")
				w.backup(fl, nil)
				nextSecond()
				w.mu.Lock()
				w.commit(1)
				w.mu.Unlock()
				w.backup(fault{}, nil)
			}
		}
		for k := 0; k < 2; k++ {
			add(int64(seed*1000+x*10+k), one(fault{}))
		}
		r := rand.New(rand.NewSource(int64(seed*77 + x)))
		if faults < 0 {
			for at := 1; at <= 48; at++ {
				for _, m := range modes {
					add(int64(seed*1000+x*10), one(fault{at, m}))
				}
			}
		} else {
			for k := 0; k < faults; k++ {
				add(int64(seed*1000+x*10+k%2), one(fault{1 + r.Intn(42), modes[k%4]}))
			}
		}
	}
	for k := 0; k < num("VERIF_CHAINS", 0); k++ {
		add(int64(seed*100000+k), func(w *world) { chain(w, 2+w.r.Intn(3)) })
	}
	// restorations
	for k := 0; k < num("VERIF_RESTORES", 0); k++ {
		kind := k % 8
		add(int64(seed*200000+k), func(w *world) {
			w.stored()
			w.page = 1 + w.r.Intn(5)
			i := w.target()
			fl := fault{}
			calm := true
			switch kind {
			case 0, 1, 2:
				fl = fault{1 + w.r.Intn(24), modes[w.r.Intn(4)]}
			case 3:
				i.noip, calm = w.r.Intn(3), false
				i.unpinged = w.r.Intn(3)
				i.denied = w.r.Intn(5)
			}
			schema, users := "", ""
			if w.r.Intn(4) == 0 {
				schema = "db1"
			}
			if w.r.Intn(4) == 0 {
				users = "'a'@'%'"
			}
			w.show("reset")
			w.restore("dst-ns", "copy", w.point(), schema, users, fl, calm)
		})
	}
	if num("VERIF_RESTORES", 0) < 0 {
		for s := 0; s < 6; s++ {
			for at := 0; at <= 26; at++ {
				for _, m := range modes {
					add(int64(seed*300000+s), func(w *world) {
						w.stored()
						w.target()
						w.show("reset")
						w.restore("dst-ns", "copy", w.point(), "", "", fault{at, m}, true)
					})
				}
			}
		}
	}
	var mine []job
	for x, j := range jobs {
		if x%shards == shard {
			mine = append(mine, j)
		}
	}
	base := filepath.Join(os.TempDir(), fmt.Sprintf("bkp-%d", os.Getpid()))
	must(os.MkdirAll(base, 0o755))
	defer os.RemoveAll(base)
	sem := make(chan struct{}, num("VERIF_PAR", 6))
	var wg sync.WaitGroup
	for x, j := range mine {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			dir := filepath.Join(base, strconv.Itoa(x))
			must(os.MkdirAll(dir, 0o755))
			w := newWorld(j.seed, dir)
			j.f(w)
			w.close()
			mu.Lock()
			_, err := f.Write(w.out.Bytes())
			mu.Unlock()
			must(err)
		}()
	}
	wg.Wait()
}
