// Package life drives the real cluster manager and pod watcher of MOCO through
// starts, notifications, pauses, stops and shutdowns of several clusters.
package life

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"slices"
	"strconv"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/clustering"
	"github.com/cybozu-go/moco/controllers"
	"github.com/cybozu-go/moco/pkg/constants"
	"github.com/cybozu-go/moco/pkg/dbop"
	"github.com/cybozu-go/moco/pkg/metrics"
	"github.com/cybozu-go/moco/pkg/password"
	"github.com/go-logr/logr"
	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"
	appsv1 "k8s.io/api/apps/v1"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/labels"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/types"
	clientgoscheme "k8s.io/client-go/kubernetes/scheme"
	"k8s.io/client-go/tools/events"
	"k8s.io/client-go/tools/record"
	ctrl "sigs.k8s.io/controller-runtime"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/client/fake"
	"sigs.k8s.io/controller-runtime/pkg/client/interceptor"
	"sigs.k8s.io/controller-runtime/pkg/manager"
)

var registry = prometheus.NewRegistry()

func init() { metrics.Register(registry) }

var scheme = func() *runtime.Scheme {
	s := runtime.NewScheme()
	_ = clientgoscheme.AddToScheme(s)
	_ = mocov1beta2.AddToScheme(s)
	return s
}()

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var bg = context.Background()

type world struct {
	mu    sync.Mutex
	out   io.Writer
	base  client.WithWatch
	mgr   clustering.ClusterManager
	pw    *controllers.PodWatcher
	cs    []string // "ns/name"
	mcs   map[string]*mocov1beta2.MySQLCluster
	ops   map[string]int
	inDB  map[string][]*context.Context // contexts of the database operations in flight
	ro    map[string]bool
	gates map[string]*gate
	ids   int
	rng   *rand.Rand
}

// A gate holds the n-th operation of a cluster until it is opened.
type gate struct {
	n    int
	here bool
	ch   chan struct{}
}

func (w *world) emit(e string, kv ...any) {
	m := map[string]any{"e": e}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	b, err := json.Marshal(m)
	must(err)
	_, _ = w.out.Write(append(b, '\n'))
}

// op is called for every request of MOCO for cluster c.
func (w *world) op(ctx context.Context, c, what string, db bool) error {
	w.mu.Lock()
	if err := ctx.Err(); err != nil {
		w.mu.Unlock()
		return err
	}
	if _, ok := w.mcs[c]; !ok {
		w.mu.Unlock()
		return nil
	}
	w.ops[c]++
	busy := false
	for _, x := range w.inDB[c] {
		busy = busy || (*x).Err() == nil
	}
	w.emit("op", "c", c, "what", what, "busy", busy && what == "get MySQLCluster")
	g := w.gates[c]
	if g != nil && !g.here {
		g.n--
		if g.n > 0 {
			g = nil
		} else {
			g.here = true
		}
	} else {
		g = nil
	}
	if db {
		w.inDB[c] = append(w.inDB[c], &ctx)
	}
	w.mu.Unlock()
	if g != nil {
		<-g.ch
	}
	if db {
		w.mu.Lock()
		w.inDB[c] = slices.DeleteFunc(w.inDB[c], func(x *context.Context) bool { return x == &ctx })
		w.mu.Unlock()
	}
	return ctx.Err()
}

func (w *world) owner(o client.Object, key client.ObjectKey) string {
	for c, mc := range w.mcs {
		if mc.Namespace != key.Namespace {
			continue
		}
		switch o.(type) {
		case *mocov1beta2.MySQLCluster:
			if key.Name == mc.Name {
				return c
			}
		case *corev1.Secret:
			if key.Name == mc.UserSecretName() {
				return c
			}
		case *corev1.Pod:
			if key.Name == mc.PodName(0) {
				return c
			}
		}
	}
	return ""
}

func (w *world) req(ctx context.Context, verb string, o client.Object, key client.ObjectKey) error {
	return w.op(ctx, w.owner(o, key), verb+" "+fmt.Sprintf("%T", o)[1:][lastDot(fmt.Sprintf("%T", o)[1:])+1:], false)
}

func lastDot(s string) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '.' {
			return i
		}
	}
	return -1
}

func newWorld(kind string, id int, seed int64, out io.Writer, interval time.Duration) *world {
	w := &world{out: out, mcs: map[string]*mocov1beta2.MySQLCluster{}, ops: map[string]int{}, inDB: map[string][]*context.Context{}, ro: map[string]bool{},
		gates: map[string]*gate{}, rng: rand.New(rand.NewSource(seed*104729 + 7))}
	w.base = fake.NewClientBuilder().WithScheme(scheme).WithStatusSubresource(&mocov1beta2.MySQLCluster{}, &corev1.Pod{}).Build()
	for k, n := range [][2]string{{"n%d", "a"}, {"m%d", "a"}, {"n%d", "a-0"}} {
		ns := fmt.Sprintf(n[0], id)
		mc := &mocov1beta2.MySQLCluster{}
		mc.Namespace, mc.Name, mc.UID = ns, n[1], types.UID(fmt.Sprint(k))
		mc.Spec.Replicas = 1
		mc.Spec.ServerIDBase = 10
		c := ns + "/" + n[1]
		w.cs = append(w.cs, c)
		w.mcs[c] = mc
		must(w.base.Create(bg, mc.DeepCopy()))
		pw, err := password.NewMySQLPassword()
		must(err)
		s := pw.ToSecret()
		s.Namespace, s.Name = ns, mc.UserSecretName()
		must(w.base.Create(bg, s))
		p := &corev1.Pod{}
		p.Namespace, p.Name = ns, mc.PodName(0)
		p.Labels = map[string]string{constants.LabelAppName: constants.AppNameMySQL, constants.LabelAppInstance: n[1], constants.LabelAppCreatedBy: constants.AppCreator}
		must(w.base.Create(bg, p))
		p.Status.Conditions = []corev1.PodCondition{{Type: corev1.PodReady, Status: corev1.ConditionTrue}}
		must(w.base.Status().Update(bg, p))
	}
	key := func(o client.Object) client.ObjectKey { return client.ObjectKeyFromObject(o) }
	cl := interceptor.NewClient(w.base, interceptor.Funcs{
		Get: func(ctx context.Context, c client.WithWatch, k client.ObjectKey, o client.Object, opts ...client.GetOption) error {
			if err := w.req(ctx, "get", o, k); err != nil {
				return err
			}
			return c.Get(ctx, k, o, opts...)
		},
		List: func(ctx context.Context, c client.WithWatch, l client.ObjectList, opts ...client.ListOption) error {
			lo := client.ListOptions{}
			lo.ApplyOptions(opts)
			inst := ""
			if lo.LabelSelector != nil {
				rs, _ := lo.LabelSelector.Requirements()
				for _, r := range rs {
					if r.Key() == constants.LabelAppInstance && r.Values().Len() == 1 {
						inst = r.Values().List()[0]
					}
				}
			}
			_ = labels.Everything
			if err := w.op(ctx, lo.Namespace+"/"+inst, "list", false); err != nil {
				return err
			}
			return c.List(ctx, l, opts...)
		},
		Create: func(ctx context.Context, c client.WithWatch, o client.Object, opts ...client.CreateOption) error {
			if err := w.req(ctx, "create", o, key(o)); err != nil {
				return err
			}
			return c.Create(ctx, o, opts...)
		},
		Delete: func(ctx context.Context, c client.WithWatch, o client.Object, opts ...client.DeleteOption) error {
			if err := w.req(ctx, "delete", o, key(o)); err != nil {
				return err
			}
			return c.Delete(ctx, o, opts...)
		},
		Update: func(ctx context.Context, c client.WithWatch, o client.Object, opts ...client.UpdateOption) error {
			if err := w.req(ctx, "update", o, key(o)); err != nil {
				return err
			}
			return c.Update(ctx, o, opts...)
		},
		Patch: func(ctx context.Context, c client.WithWatch, o client.Object, p client.Patch, opts ...client.PatchOption) error {
			if err := w.req(ctx, "patch", o, key(o)); err != nil {
				return err
			}
			return c.Patch(ctx, o, p, opts...)
		},
		SubResourceUpdate: func(ctx context.Context, c client.Client, sub string, o client.Object, opts ...client.SubResourceUpdateOption) error {
			if err := w.req(ctx, "update status", o, key(o)); err != nil {
				return err
			}
			return c.SubResource(sub).Update(ctx, o, opts...)
		},
		SubResourcePatch: func(ctx context.Context, c client.Client, sub string, o client.Object, p client.Patch, opts ...client.SubResourcePatchOption) error {
			if err := w.req(ctx, "patch status", o, key(o)); err != nil {
				return err
			}
			return c.SubResource(sub).Patch(ctx, o, p, opts...)
		},
	})
	w.mgr = clustering.NewClusterManager(interval, mgrStub{c: cl}, factory{w}, agents{}, logr.Discard())
	w.pw = &controllers.PodWatcher{Client: w.base, ClusterManager: w.mgr}
	w.emit("reset", "clusters", w.cs, "seed", seed, "scenario", kind)
	return w
}

type mgrStub struct {
	manager.Manager
	c client.Client
}

func (m mgrStub) GetClient() client.Client                        { return m.c }
func (m mgrStub) GetAPIReader() client.Reader                     { return m.c }
func (m mgrStub) GetEventRecorderFor(string) record.EventRecorder { return &record.FakeRecorder{} }
func (m mgrStub) GetScheme() *runtime.Scheme                      { return scheme }
func (m mgrStub) GetEventRecorder(string) events.EventRecorder    { return nil }

type agents struct{}

func (agents) New(context.Context, *mocov1beta2.MySQLCluster, int) (clustering.AgentConn, error) {
	return nil, errors.New("no agent")
}

type factory struct{ w *world }

func (f factory) New(ctx context.Context, mc *mocov1beta2.MySQLCluster, _ *password.MySQLPassword, i int) (dbop.Operator, error) {
	return &operator{w: f.w, c: mc.Namespace + "/" + mc.Name}, nil
}
func (f factory) Cleanup() {}

type operator struct {
	w *world
	c string
}

func (o *operator) Name() string { return o.c }
func (o *operator) Close() error { return nil }
func (o *operator) GetStatus(ctx context.Context) (*dbop.MySQLInstanceStatus, error) {
	if err := o.w.op(ctx, o.c, "GetStatus", true); err != nil {
		return nil, err
	}
	o.w.mu.Lock()
	defer o.w.mu.Unlock()
	st := &dbop.MySQLInstanceStatus{}
	st.GlobalVariables.UUID = "u"
	st.GlobalVariables.ReadOnly, st.GlobalVariables.SuperReadOnly = o.w.ro[o.c], o.w.ro[o.c]
	return st, nil
}
func (o *operator) SubtractGTID(ctx context.Context, a, b string) (string, error) {
	return "", o.w.op(ctx, o.c, "SubtractGTID", true)
}
func (o *operator) IsSubsetGTID(ctx context.Context, a, b string) (bool, error) {
	return true, o.w.op(ctx, o.c, "IsSubsetGTID", true)
}
func (o *operator) ConfigureReplica(ctx context.Context, s dbop.AccessInfo, semisync bool) error {
	return o.w.op(ctx, o.c, "ConfigureReplica", true)
}
func (o *operator) ConfigurePrimary(ctx context.Context, n int) error {
	return o.w.op(ctx, o.c, "ConfigurePrimary", true)
}
func (o *operator) StopReplicaIOThread(ctx context.Context) error {
	return o.w.op(ctx, o.c, "StopReplicaIOThread", true)
}
func (o *operator) WaitForGTID(ctx context.Context, s string, n int) error {
	return o.w.op(ctx, o.c, "WaitForGTID", true)
}
func (o *operator) SetReadOnly(ctx context.Context, b bool) error {
	if err := o.w.op(ctx, o.c, "SetReadOnly", true); err != nil {
		return err
	}
	o.w.mu.Lock()
	o.w.ro[o.c] = b
	o.w.mu.Unlock()
	return nil
}
func (o *operator) KillConnections(ctx context.Context) error {
	return o.w.op(ctx, o.c, "KillConnections", true)
}

// ---- actions of the environment ----

func (w *world) name(c string) types.NamespacedName {
	return types.NamespacedName{Namespace: w.mcs[c].Namespace, Name: w.mcs[c].Name}
}

func (w *world) call(m, c string) {
	w.mu.Lock()
	w.ids++
	id := w.ids
	w.emit("call", "id", id, "m", m, "c", c)
	w.mu.Unlock()
	switch m {
	case "update":
		w.mgr.Update(w.name(c), "x")
	case "nostart":
		w.mgr.UpdateNoStart(w.name(c), "x")
	case "stop":
		w.mgr.Stop(w.name(c))
	case "pause":
		w.mgr.Pause(w.name(c))
	case "stopall":
		w.mgr.StopAll()
	}
	w.mu.Lock()
	w.emit("ret", "id", id)
	w.mu.Unlock()
}

// shake gives MOCO something to do.
func (w *world) shake(c string) {
	w.mu.Lock()
	w.ro[c] = true
	w.mu.Unlock()
	p := &corev1.Pod{}
	must(w.base.Get(bg, client.ObjectKey{Namespace: w.mcs[c].Namespace, Name: w.mcs[c].PodName(0)}, p))
	delete(p.Labels, constants.LabelMocoRole)
	_ = w.base.Update(bg, p) // may conflict with MOCO
}

func (w *world) total(c string) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	if c != "" {
		return w.ops[c]
	}
	n := 0
	for _, v := range w.ops {
		n += v
	}
	return n
}

func (w *world) gate(c string, n int) *gate {
	w.mu.Lock()
	defer w.mu.Unlock()
	g := &gate{n: n, ch: make(chan struct{})}
	w.gates[c] = g
	return g
}

func (w *world) open(c string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if g := w.gates[c]; g != nil {
		close(g.ch)
		delete(w.gates, c)
	}
}

var gauges = []string{"moco_cluster_checks_total", "moco_cluster_errors_total", "moco_cluster_available", "moco_cluster_healthy", "moco_cluster_switchover_total",
	"moco_cluster_failover_total", "moco_cluster_replicas", "moco_cluster_ready_replicas", "moco_cluster_errant_replicas", "moco_cluster_processing_time_seconds",
	"moco_backup_timestamp", "moco_backup_elapsed_seconds", "moco_backup_dump_bytes", "moco_backup_binlog_bytes",
	"moco_backup_workdir_usage_bytes", "moco_backup_warnings"}

func (w *world) metrics(c string) string {
	mfs, err := registry.Gather()
	must(err)
	there := map[string]*dto.Metric{}
	for _, mf := range mfs {
		for _, m := range mf.Metric {
			ns, name := "", ""
			for _, l := range m.Label {
				if l.GetName() == "namespace" {
					ns = l.GetValue()
				}
				if l.GetName() == "name" {
					name = l.GetValue()
				}
			}
			if ns+"/"+name == c {
				there[mf.GetName()] = m
			}
		}
	}
	n, nan := 0, 0
	for _, g := range gauges {
		m := there[g]
		if m == nil {
			continue
		}
		n++
		if (g == "moco_cluster_available" || g == "moco_cluster_healthy") && math.IsNaN(m.GetGauge().GetValue()) {
			nan++
		}
	}
	switch {
	case n == 0:
		return "absent"
	case n == len(gauges) && nan == 0:
		return "present"
	case n == len(gauges) && nan == 2:
		return "unknown"
	default:
		return fmt.Sprintf("partial (%d of %d)", n, len(gauges))
	}
}

const interval = 10 * time.Second

// align waits until no round is running and no tick is near.
func align() {
	time.Sleep(2 * time.Second)
	now := time.Now()
	time.Sleep(now.Truncate(time.Second).Add(1500 * time.Millisecond).Sub(now))
	synctest.Wait()
}
func alignCall() {
	now := time.Now()
	if f := now.Sub(now.Truncate(time.Second)); f != 0 {
		time.Sleep(time.Second - f)
	}
}

func (w *world) settled() {
	align()
	before := map[string]int{}
	for _, c := range w.cs {
		before[c] = w.total(c)
	}
	time.Sleep(2 * interval)
	for _, c := range w.cs {
		w.mu.Lock()
		w.emit("settled", "c", c, "rounds", w.ops[c]-before[c], "metrics", w.metrics(c))
		w.mu.Unlock()
	}
}

func (w *world) notify(c string) {
	align()
	mc := w.mcs[c]
	k := w.rng.Intn(16)
	t := true
	f := false
	sts := &appsv1.StatefulSet{}
	sts.Namespace, sts.Name = mc.Namespace, fmt.Sprintf("sts%d", w.ids)
	pod := &corev1.Pod{}
	pod.Namespace, pod.Name = mc.Namespace, fmt.Sprintf("pod%d", w.ids)
	w.ids++
	good := true
	pod.OwnerReferences = []metav1.OwnerReference{{APIVersion: "apps/v1", Kind: "StatefulSet", Name: sts.Name, UID: "s", Controller: &t}}
	sts.OwnerReferences = []metav1.OwnerReference{{APIVersion: mocov1beta2.GroupVersion.String(), Kind: "MySQLCluster", Name: mc.Name, UID: mc.UID, Controller: &t}}
	del := w.rng.Intn(2) == 0
	if !del {
		pod.Annotations = map[string]string{constants.AnnDemote: "true"}
	}
	mk := true
	switch k {
	case 0:
		del, good = false, false
		pod.Annotations = nil
	case 1:
		del, good = false, false
		pod.Annotations = map[string]string{constants.AnnDemote: []string{"false", "", "True", "1"}[w.rng.Intn(4)]}
	case 2:
		good, pod.OwnerReferences = false, nil
	case 3:
		good = false
		pod.OwnerReferences[0].Kind, pod.OwnerReferences[0].APIVersion = []string{"ReplicaSet", "StatefulSet", "DaemonSet"}[w.rng.Intn(3)], "example.com/v1"
	case 4:
		good = false
		pod.OwnerReferences[0].Kind = "ReplicaSet"
	case 5:
		good = false
		pod.OwnerReferences[0].Controller = &f
	case 6:
		good, sts.OwnerReferences = false, nil
	case 7:
		good = false
		sts.OwnerReferences[0].Kind = "Other"
	case 8:
		good = false
		sts.OwnerReferences[0].APIVersion = "example.com/v1"
	case 9:
		good = false
		sts.OwnerReferences[0].Controller = nil
	case 10:
		good, mk = false, false
	}
	if mk {
		must(w.base.Create(bg, sts))
	}
	if del {
		pod.Finalizers = []string{"x/y"}
	}
	must(w.base.Create(bg, pod))
	if del {
		must(w.base.Delete(bg, pod))
	}
	ids := w.ids
	w.mu.Lock()
	w.ids++
	id := w.ids
	w.emit("call", "id", id, "m", "nostart", "c", c)
	w.mu.Unlock()
	n, nc := w.total(""), w.total(c)
	_, err := w.pw.Reconcile(bg, ctrl.Request{NamespacedName: client.ObjectKeyFromObject(pod)})
	if err != nil && good {
		panic(err)
	}
	synctest.Wait()
	w.mu.Lock()
	w.emit("ret", "id", id)
	w.mu.Unlock()
	d, dc := w.total("")-n, w.total(c)-nc
	w.mu.Lock()
	if good {
		w.emit("kick", "c", c, "due", true, "rounds", dc)
		if d != dc {
			w.emit("nokick", "rounds", d-dc)
		}
	} else {
		w.emit("nokick", "rounds", d)
	}
	w.mu.Unlock()
	_ = ids
}

// sequential makes one call after another, with operations held in flight.
func sequential(t *testing.T, id int, seed int64, out io.Writer) {
	synctest.Test(t, func(t *testing.T) {
		w := newWorld("sequential", id, seed, out, interval)
		down := false
		steps := 14 + w.rng.Intn(10)
		for k := 0; k < steps && !down; k++ {
			c := w.cs[w.rng.Intn(len(w.cs))]
			alignCall()
			switch r := w.rng.Intn(21); {
			case r < 6:
				w.call("update", c)
			case r < 7:
				w.call("nostart", c)
			case r < 9:
				w.call("stop", c)
			case r < 11:
				w.call("pause", c)
			case r < 12:
				w.notify(c)
			case r < 13:
				w.settled()
			case r < 14:
				w.shake(c)
			case r < 19:
				// calls while a round is held somewhere
				w.shake(c)
				g := w.gate(c, 1+w.rng.Intn(8))
				w.call([]string{"update", "update", "nostart"}[w.rng.Intn(3)], c)
				synctest.Wait()
				time.Sleep(500 * time.Millisecond)
				synctest.Wait()
				w.mu.Lock()
				held := g.here
				w.mu.Unlock()
				alignCall()
				if held {
					for range 1 + w.rng.Intn(4) {
						w.call([]string{"update", "update", "nostart", "stop", "pause"}[w.rng.Intn(5)], w.cs[w.rng.Intn(len(w.cs))])
						w.call([]string{"update", "stop", "pause"}[w.rng.Intn(3)], c)
						if w.rng.Intn(2) == 0 {
							time.Sleep(time.Duration(1+w.rng.Intn(15)) * time.Second)
							w.shake(c)
						}
						synctest.Wait()
					}
				}
				w.open(c)
			case r < 20 && k > steps-4:
				// shut down, perhaps while a round is held
				if w.rng.Intn(2) == 0 {
					w.shake(c)
					w.gate(c, 1+w.rng.Intn(8))
					w.call("update", c)
					synctest.Wait()
					time.Sleep(500 * time.Millisecond)
				}
				done := make(chan struct{})
				go func() {
					w.call("stopall", c)
					close(done)
				}()
				synctest.Wait()
				time.Sleep(time.Duration(w.rng.Intn(30)) * time.Second)
				w.open(c)
				<-done
				down = true
				for range w.rng.Intn(6) {
					w.call([]string{"update", "update", "nostart", "stop", "pause"}[w.rng.Intn(5)], w.cs[w.rng.Intn(len(w.cs))])
				}
			default:
				time.Sleep(time.Duration(1+w.rng.Intn(12)) * time.Second)
			}
		}
		for _, c := range w.cs {
			w.open(c)
		}
		for range 1 + w.rng.Intn(3) {
			w.notify(w.cs[w.rng.Intn(len(w.cs))])
		}
		w.settled()
		if !down {
			w.call("stopall", w.cs[0])
			w.settled()
		}
	})
}

// concurrent makes overlapping calls in real time.
func concurrent(id int, seed int64, out io.Writer) {
	w := newWorld("concurrent", id, seed, out, 3*time.Millisecond)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for k := range 5 {
		rng := rand.New(rand.NewSource(seed*31 + int64(k)))
		wg.Go(func() {
			for {
				select {
				case <-stop:
					return
				default:
				}
				c := w.cs[rng.Intn(len(w.cs))]
				switch r := rng.Intn(10); {
				case r < 5:
					w.call([]string{"update", "update", "update", "stop", "pause", "nostart"}[rng.Intn(6)], c)
				case r < 7:
					w.shake(c)
				default:
					time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
				}
				time.Sleep(time.Duration(rng.Intn(25)) * time.Millisecond)
			}
		})
	}
	time.Sleep(700 * time.Millisecond)
	w.call("stopall", w.cs[0])
	time.Sleep(50 * time.Millisecond)
	close(stop)
	wg.Wait()
	time.Sleep(50 * time.Millisecond)
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// TestDrive writes the traces of the profile.
func TestDrive(t *testing.T) {
	path := os.Getenv("VERIF_OUT")
	if path == "" {
		t.Skip()
	}
	seed, shard, shards := envInt("VERIF_SEED", 1), envInt("VERIF_SHARD", 0), envInt("VERIF_SHARDS", 1)
	f, err := os.Create(path)
	must(err)
	defer f.Close()
	out := bufio.NewWriter(f)
	defer out.Flush()
	id := 0
	for k := shard; k < envInt("VERIF_SEQ", 0); k += shards {
		id++
		sequential(t, id, int64(seed*1000003+k), out)
	}
	for k := shard; k < envInt("VERIF_CONC", 0); k += shards {
		id++
		concurrent(id, int64(seed*2000003+k), out)
	}
}
