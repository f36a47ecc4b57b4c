// Package cluster runs the real clustering code of MOCO (cluster manager,
// database operator) against the simulated world of package sim.
package cluster

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	agent "github.com/cybozu-go/moco-agent/proto"
	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/clustering"
	"github.com/cybozu-go/moco/pkg/constants"
	"github.com/cybozu-go/moco/pkg/dbop"
	"github.com/cybozu-go/moco/pkg/metrics"
	"github.com/cybozu-go/moco/pkg/password"
	"github.com/go-logr/logr"
	"github.com/prometheus/client_golang/prometheus"
	"google.golang.org/grpc"
	corev1 "k8s.io/api/core/v1"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"k8s.io/apimachinery/pkg/api/meta"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	clientgoscheme "k8s.io/client-go/kubernetes/scheme"
	"k8s.io/client-go/tools/events"
	"k8s.io/client-go/tools/record"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/client/fake"
	"sigs.k8s.io/controller-runtime/pkg/client/interceptor"
	"sigs.k8s.io/controller-runtime/pkg/manager"
	"verif/harness/sim"
)

const (
	namespace = "ns"
	finalizer = "sim.example.com/hold"
	extHost   = "ext.example.com"
	extSecret = "ext-source"
	interval  = 5 * time.Second
	serverIDB = 1000
)

// Registry holds MOCO's metrics.
var Registry = prometheus.NewRegistry()

func init() { metrics.Register(Registry) }

var scheme = func() *runtime.Scheme {
	s := runtime.NewScheme()
	_ = clientgoscheme.AddToScheme(s)
	_ = mocov1beta2.AddToScheme(s)
	return s
}()

// Options configures a cluster.
type Options struct {
	ID       int
	Seed     int64
	N        int
	MaxN     int   // instances that exist, if more than N
	Ext      bool  // with a replication source
	Restore  bool  // spec.restore is set
	Offline  bool  // spec.offline
	MaxDelay int64 // spec.maxDelaySecondsForPodDeletion
	Out      io.Writer
	NoPump   bool
	ExtTxns  int
	Probe    bool // pods become ready and unready as the readiness probe of the agent says
	Reckless bool // more instances may fail than the durability guarantee covers
}

// Cluster is a simulated cluster.
type Cluster struct {
	*sim.World
	opt        Options
	Name       string
	base       client.WithWatch
	mgr        clustering.ClusterManager
	mgrWG      sync.WaitGroup
	rng        *rand.Rand
	clients    []*cl
	maxTxn     int
	txns       int
	NoWrite    bool
	ticks      int
	crashMe    chan struct{}
	Events     []string
	cluster    *mocov1beta2.MySQLCluster
	pumpWG     sync.WaitGroup
	CloneFail  int
	Blackhole  bool
	EvReasons  map[string]int
	lastWriter int
	cloneCred  func(src int, r *agent.CloneRequest) bool
	// K8sFail decides whether a mutating Kubernetes request conflicts.
}

type cl struct {
	id     int
	writer bool
	s      *sim.Sess
}

func (c *Cluster) key() types.NamespacedName {
	return types.NamespacedName{Namespace: namespace, Name: c.Name}
}

// New creates a cluster without starting MOCO.
func New(o Options) *Cluster {
	if o.Out == nil {
		o.Out = &bytes.Buffer{}
	}
	c := &Cluster{opt: o, Name: fmt.Sprintf("c%d", o.ID), rng: rand.New(rand.NewSource(o.Seed*7919 + 13)), maxTxn: 14, crashMe: make(chan struct{}, 1)}
	c.World = sim.NewWorld(o.ID, o.Seed, o.Out)
	c.EvReasons = map[string]int{}
	for i := 0; i < max(o.N, o.MaxN); i++ {
		c.AddInst(i, serverIDB+i)
	}
	c.World.N = o.N
	if o.Ext {
		e := c.AddInst(sim.Ext, 1)
		e.RO, e.SRO = false, false
	}
	mc := &mocov1beta2.MySQLCluster{}
	mc.Namespace, mc.Name = namespace, c.Name
	mc.Finalizers = []string{finalizer}
	mc.Spec.Replicas = int32(o.N)
	mc.Spec.ServerIDBase = serverIDB
	mc.Spec.MaxDelaySecondsForPodDeletion = o.MaxDelay
	mc.Spec.Offline = o.Offline
	mc.Spec.StartupWaitSeconds = 10
	if o.Ext {
		s := extSecret
		mc.Spec.ReplicationSourceSecretName = &s
	}
	if o.Restore {
		mc.Spec.Restore = &mocov1beta2.RestoreSpec{SourceName: "s", SourceNamespace: "ns"}
	}
	c.cluster = mc
	c.Resolve = func(h string) int {
		if h == extHost {
			return sim.Ext
		}
		for i := 0; i < 7; i++ {
			if h == mc.PodHostname(i) || h == podIP(o.ID, i) {
				return i
			}
		}
		return sim.NoSrc
	}
	c.base = fake.NewClientBuilder().WithScheme(scheme).WithStatusSubresource(&mocov1beta2.MySQLCluster{}, &corev1.Pod{}).Build()
	pw, err := password.NewMySQLPassword()
	must(err)
	sec := pw.ToSecret()
	sec.Namespace, sec.Name = namespace, mc.UserSecretName()
	ctx := context.Background()
	must(c.base.Create(ctx, sec))
	c.Cred = func(src int, user, p, port string) bool {
		if src == sim.Ext {
			return user == "u" && p == "p" && port == "3306"
		}
		return user == constants.ReplicationUser && p == pw.Replicator() && port == strconv.Itoa(constants.MySQLPort)
	}
	c.cloneCred = func(src int, r *agent.CloneRequest) bool {
		if src == sim.Ext {
			return r.User == "u" && r.Password == "p" && r.InitUser == "iu" && r.InitPassword == "ip" && r.Port == 3306
		}
		return r.User == constants.CloneDonorUser && r.Password == pw.Donor() && r.InitUser == constants.AdminUser &&
			r.InitPassword == pw.Admin() && r.Port == constants.MySQLAdminPort
	}
	if o.Ext {
		es := &corev1.Secret{}
		es.Namespace, es.Name = namespace, extSecret
		es.Data = map[string][]byte{
			constants.CloneSourceHostKey:         []byte(extHost),
			constants.CloneSourcePortKey:         []byte("3306"),
			constants.CloneSourceUserKey:         []byte("u"),
			constants.CloneSourcePasswordKey:     []byte("p"),
			constants.CloneSourceInitUserKey:     []byte("iu"),
			constants.CloneSourceInitPasswordKey: []byte("ip"),
		}
		must(c.base.Create(ctx, es))
	}
	must(c.base.Create(ctx, mc.DeepCopy()))
	for i := 0; i < o.N; i++ {
		c.createPod(i)
	}
	c.clients = []*cl{{id: 1, writer: true}, {id: 2, writer: true}, {id: 3}, {id: 4, writer: true}, {id: 5}}
	return c
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func podIP(w, i int) string { return fmt.Sprintf("10.%d.%d.%d", w/250%250, w%250, i+1) }

func (c *Cluster) createPod(i int) {
	p := &corev1.Pod{}
	p.Namespace, p.Name = namespace, c.cluster.PodName(i)
	p.Labels = map[string]string{
		constants.LabelAppName:      constants.AppNameMySQL,
		constants.LabelAppInstance:  c.Name,
		constants.LabelAppCreatedBy: constants.AppCreator,
	}
	p.Finalizers = []string{finalizer}
	must(c.base.Create(context.Background(), p))
	p.Status.PodIP = podIP(c.opt.ID, i)
	p.Status.Conditions = []corev1.PodCondition{{Type: corev1.PodReady, Status: corev1.ConditionTrue}}
	must(c.base.Status().Update(context.Background(), p))
}

// Pod returns the current pod.
func (c *Cluster) Pod(i int) *corev1.Pod {
	p := &corev1.Pod{}
	if err := c.base.Get(context.Background(), client.ObjectKey{Namespace: namespace, Name: c.cluster.PodName(i)}, p); err != nil {
		return nil
	}
	return p
}

// MC returns the current MySQLCluster.
func (c *Cluster) MC() *mocov1beta2.MySQLCluster {
	m := &mocov1beta2.MySQLCluster{}
	must(c.base.Get(context.Background(), c.key(), m))
	return m
}

func podReady(p *corev1.Pod) bool {
	for _, cd := range p.Status.Conditions {
		if cd.Type == corev1.PodReady && cd.Status == corev1.ConditionTrue {
			return true
		}
	}
	return false
}

// SetReady sets the readiness of a pod.  World locked.
func (c *Cluster) SetReady(i int, ready bool) {
	p := c.Pod(i)
	if p == nil || podReady(p) == ready {
		return
	}
	st := corev1.ConditionFalse
	if ready {
		st = corev1.ConditionTrue
	}
	p.Status.Conditions = []corev1.PodCondition{{Type: corev1.PodReady, Status: st}}
	must(c.base.Status().Update(context.Background(), p))
	c.Emit("ready", "i", i, "v", ready)
}

// ProbePod sets the readiness of a pod as the agent's readiness probe would.
func (c *Cluster) ProbePod(i int) {
	in := c.Insts[i]
	c.SetReady(i, in.Up && (in.Clone == "" || in.Clone == "Completed") && (!in.RO || in.IO && in.SQL && in.IOErr == 0))
}

// Annotate sets (or removes) an annotation on a pod.  World locked.
func (c *Cluster) Annotate(i int, k, v string) {
	p := c.Pod(i)
	if p == nil {
		return
	}
	if p.Annotations == nil {
		p.Annotations = map[string]string{}
	}
	if v == "" {
		delete(p.Annotations, k)
	} else {
		p.Annotations[k] = v
	}
	must(c.base.Update(context.Background(), p))
	if k == constants.AnnDemote {
		c.Emit("demote", "i", i, "v", v == "true", "by", "env")
	}
	if k == constants.AnnPreventDelete {
		c.Emit("prevent", "i", i, "v", v != "", "by", "env")
	}
}

// DeletePod sets the deletion timestamp.  World locked.
func (c *Cluster) DeletePod(i int) {
	p := c.Pod(i)
	if p == nil || p.DeletionTimestamp != nil {
		return
	}
	must(c.base.Delete(context.Background(), p))
	c.Emit("poddel", "i", i)
}

// Begin writes the first event of a trace.  World locked.
func (c *Cluster) Begin(kv ...any) {
	m := c.MC()
	pods := []map[string]any{}
	for i := 0; i < c.World.N; i++ {
		p := c.Pod(i)
		d := map[string]any{"there": p != nil, "ready": false, "term": false, "demote": false, "prevent": false, "role": ""}
		if p != nil {
			_, pd := p.Annotations[constants.AnnPreventDelete]
			d["ready"], d["term"], d["demote"], d["prevent"], d["role"] = podReady(p), p.DeletionTimestamp != nil,
				p.Annotations[constants.AnnDemote] == "true", pd, roleOf(p)
		}
		pods = append(pods, d)
	}
	el := append([]int{}, m.Status.ErrantReplicaList...)
	c.EmitReset(append(kv, "n", c.World.N, "ext", m.Spec.ReplicationSourceSecretName != nil, "offline", m.Spec.Offline,
		"restoring", m.Spec.Restore != nil && m.Status.RestoredTime == nil, "maxdelay", m.Spec.MaxDelaySecondsForPodDeletion,
		"prim", m.Status.CurrentPrimaryIndex, "pods", pods, "elist", el, "cloned", m.Status.Cloned, "seed", c.opt.Seed, "noc01", c.opt.Reckless)...)
}

// PodGone finishes the deletion of a pod.  World locked.
func (c *Cluster) PodGone(i int) {
	p := c.Pod(i)
	if p == nil {
		return
	}
	if p.DeletionTimestamp == nil {
		must(c.base.Delete(context.Background(), p))
		p = c.Pod(i)
	}
	p.Finalizers = nil
	must(c.base.Update(context.Background(), p))
	c.Emit("podgone", "i", i)
}

// PodNew creates a missing pod.  World locked.
func (c *Cluster) PodNew(i int) {
	c.createPod(i)
	c.Emit("podnew", "i", i)
}

// Scale changes the number of replicas; the pods are created later.  World locked.
func (c *Cluster) Scale(n int) {
	m := c.MC()
	m.Spec.Replicas = int32(n)
	must(c.base.Update(context.Background(), m))
	c.World.N = n
	c.Emit("scale", "n", n)
}

var bg = context.Background()

func now() metav1.Time { return metav1.NewTime(time.Now().Truncate(time.Second)) }

// setRole sets the role label of a pod while a world is set up.  World locked.
func (c *Cluster) setRole(i int, role string) {
	p := c.Pod(i)
	if p == nil {
		return
	}
	delete(p.Labels, constants.LabelMocoRole)
	if role != "" {
		p.Labels[constants.LabelMocoRole] = role
	}
	must(c.base.Update(bg, p))
}

// ReplacePod finishes the deletion of a pod and creates its successor.  World locked.
func (c *Cluster) ReplacePod(i int) {
	p := c.Pod(i)
	if p != nil {
		if p.DeletionTimestamp == nil {
			must(c.base.Delete(context.Background(), p))
			p = c.Pod(i)
		}
		p.Finalizers = nil
		must(c.base.Update(context.Background(), p))
	}
	c.Emit("podgone", "i", i)
	c.createPod(i)
	c.Emit("podnew", "i", i)
}

// EditMC changes the MySQLCluster as a user (or another controller) would.  World locked.
func (c *Cluster) EditMC(f func(*mocov1beta2.MySQLCluster), status bool) {
	m := c.MC()
	f(m)
	defer func() {
		m := c.MC()
		c.Emit("spec", "ext", m.Spec.ReplicationSourceSecretName != nil, "offline", m.Spec.Offline,
			"restoring", m.Spec.Restore != nil && m.Status.RestoredTime == nil, "maxdelay", m.Spec.MaxDelaySecondsForPodDeletion)
	}()
	if status {
		must(c.base.Status().Update(context.Background(), m))
	} else {
		must(c.base.Update(context.Background(), m))
	}
}

// ---- MOCO's view ----

type mgrStub struct {
	manager.Manager
	c client.Client
	r record.EventRecorder
}

func (m mgrStub) GetClient() client.Client                        { return m.c }
func (m mgrStub) GetAPIReader() client.Reader                     { return m.c }
func (m mgrStub) GetEventRecorderFor(string) record.EventRecorder { return m.r }
func (m mgrStub) GetScheme() *runtime.Scheme                      { return scheme }
func (m mgrStub) GetEventRecorder(string) events.EventRecorder    { return nil }

type recorder struct{ c *Cluster }

func (r recorder) Event(o runtime.Object, t, reason, msg string) {
	r.c.Lock()
	r.c.EvReasons[reason]++
	r.c.Emit("k8sevent", "reason", reason)
	r.c.Unlock()
}
func (r recorder) Eventf(o runtime.Object, t, reason, f string, a ...any) { r.Event(o, t, reason, "") }
func (r recorder) AnnotatedEventf(o runtime.Object, _ map[string]string, t, reason, f string, a ...any) {
	r.Event(o, t, reason, "")
}

type resolver struct {
	c   *Cluster
	gen int
}

func epHost(world, gen, i int) string { return fmt.Sprintf("w%d-g%d-i%d", world, gen, i) }

func (r resolver) Resolve(ctx context.Context, mc *mocov1beta2.MySQLCluster, i int) (string, error) {
	p := r.c.Pod(i)
	if p == nil {
		return "", errors.New("no such pod")
	}
	return epHost(r.c.opt.ID, r.gen, i), nil
}

var errSim = errors.New("sim: injected failure")

type agentFactory struct {
	c   *Cluster
	gen int
}

type agentConn struct {
	agent.AgentClient
	c   *Cluster
	gen int
	i   int
}

func (f agentFactory) New(ctx context.Context, _ *mocov1beta2.MySQLCluster, i int) (clustering.AgentConn, error) {
	f.c.Lock()
	defer f.c.Unlock()
	in := f.c.Insts[i]
	if f.gen != f.c.Gen || in == nil || !in.Up || in.Hidden {
		return nil, errSim
	}
	return &agentConn{c: f.c, gen: f.gen, i: i}, nil
}

func (a *agentConn) Close() error { return nil }

func (a *agentConn) Clone(ctx context.Context, req *agent.CloneRequest, _ ...grpc.CallOption) (*agent.CloneResponse, error) {
	c := a.c
	act, _ := c.Enter(a.gen, "agent", a.i, "CLONE", true)
	if act == sim.FailBefore {
		return nil, errSim
	}
	c.Lock()
	src := c.Resolve(req.Host)
	s, i := c.Insts[src], c.Insts[a.i]
	c.Emit("clonereq", "i", a.i, "s", src, "cred", c.cloneCred(src, req))
	if i == nil || !i.Up || s == nil || !s.Up {
		c.Unlock()
		return nil, errSim
	}
	if c.CloneFail > 0 {
		c.CloneFail--
		i.Clone = "Failed"
		c.EmitPost("clonefail", i)
		c.Unlock()
		return nil, errSim
	}
	c.Unlock()
	time.Sleep(50 * time.Millisecond)
	c.Lock()
	defer c.Unlock()
	if a.gen != c.Gen || !i.Up || !s.Up {
		// the clone goes on in mysqld even if the requester has gone
		if !i.Up || !s.Up {
			return nil, errSim
		}
	}
	c.DoClone(i, s)
	if act == sim.FailAfter {
		return nil, errSim
	}
	return &agent.CloneResponse{}, nil
}

// StartMOCO starts a MOCO process (a new generation).
func (c *Cluster) StartMOCO() {
	c.Lock()
	c.Gen++
	gen := c.Gen
	c.Emit("mocostart", "gen", gen)
	c.Unlock()
	for i := 0; i < 7; i++ {
		sim.RegisterEndpoint(epHost(c.opt.ID, gen, i), c.Endpoint(i, gen))
	}
	kc := c.mocoClient(gen)
	res := resolver{c, gen}
	c.mgr = clustering.NewClusterManager(interval, mgrStub{c: kc, r: recorder{c}}, dbop.NewFactory(res), agentFactory{c, gen}, c.logger())
	c.mgr.Update(c.key(), "sim")
}

var Verbose bool

func (c *Cluster) logger() logr.Logger {
	if Verbose {
		return logr.New(sink{})
	}
	return logr.Discard()
}

type sink struct{ kv []any }

func (sink) Init(logr.RuntimeInfo) {}
func (sink) Enabled(int) bool      { return true }
func (s sink) Info(_ int, m string, kv ...any) {
	fmt.Println(time.Now().Format("05.000"), "INFO", m, kv)
}
func (s sink) Error(e error, m string, kv ...any) {
	fmt.Println(time.Now().Format("05.000"), "ERR", e, m, kv)
}
func (s sink) WithValues(kv ...any) logr.LogSink { return s }
func (s sink) WithName(string) logr.LogSink      { return s }

// Invalidate makes every further operation of the running MOCO process fail,
// as if it had crashed.  World locked.
func (c *Cluster) Invalidate() {
	c.Gen++
	c.Emit("mococrash")
}

// StopMOCO stops the current MOCO process gracefully.
func (c *Cluster) StopMOCO() {
	if c.mgr == nil {
		return
	}
	m := c.mgr
	c.mgr = nil
	m.StopAll()
	c.Lock()
	c.Emit("mocostop")
	c.Unlock()
}

func (c *Cluster) mocoClient(gen int) client.Client {
	pre := func(what string, obj client.Object, mut bool) (sim.Action, error) {
		act, _ := c.Enter(gen, "k8s", podIndex(obj), what, mut)
		if act == sim.FailBefore {
			if mut && c.rngBool() {
				return act, apierrors.NewConflict(schema.GroupResource{Resource: "sim"}, obj.GetName(), errSim)
			}
			return act, errSim
		}
		return act, nil
	}
	around := func(what string, cl client.Client, obj client.Object, f func() error) error {
		act, err := pre(what, obj, true)
		if err != nil {
			return err
		}
		c.Lock()
		before := c.snapshot(cl, obj)
		err = f()
		if err == nil {
			after := c.snapshot(cl, obj)
			c.diff(what, before, after, obj)
		}
		c.Unlock()
		if err == nil && act == sim.FailAfter {
			return errSim
		}
		return err
	}
	funcs := interceptor.Funcs{
		Get: func(ctx context.Context, cl client.WithWatch, key client.ObjectKey, obj client.Object, opts ...client.GetOption) error {
			if err := ctx.Err(); err != nil {
				return err
			}
			if act, err := pre("GET "+kindOf(obj), obj, false); err != nil || act == sim.FailAfter {
				return errSim
			}
			c.Lock()
			defer c.Unlock()
			return cl.Get(ctx, key, obj, opts...)
		},
		List: func(ctx context.Context, cl client.WithWatch, list client.ObjectList, opts ...client.ListOption) error {
			if err := ctx.Err(); err != nil {
				return err
			}
			if act, _ := c.Enter(gen, "k8s", -1, fmt.Sprintf("LIST %T", list), false); act != sim.Proceed {
				return errSim
			}
			c.Lock()
			defer c.Unlock()
			if _, ok := list.(*corev1.PodList); ok {
				c.Emit("cycle")
			}
			return cl.List(ctx, list, opts...)
		},
		Create: func(ctx context.Context, cl client.WithWatch, obj client.Object, opts ...client.CreateOption) error {
			return around("CREATE "+kindOf(obj), cl, obj, func() error { return cl.Create(ctx, obj, opts...) })
		},
		Delete: func(ctx context.Context, cl client.WithWatch, obj client.Object, opts ...client.DeleteOption) error {
			return around("DELETE "+kindOf(obj), cl, obj, func() error { return cl.Delete(ctx, obj, opts...) })
		},
		Update: func(ctx context.Context, cl client.WithWatch, obj client.Object, opts ...client.UpdateOption) error {
			return around("UPDATE "+kindOf(obj), cl, obj, func() error { return cl.Update(ctx, obj, opts...) })
		},
		Patch: func(ctx context.Context, cl client.WithWatch, obj client.Object, patch client.Patch, opts ...client.PatchOption) error {
			return around("PATCH "+kindOf(obj), cl, obj, func() error { return cl.Patch(ctx, obj, patch, opts...) })
		},
		SubResourceUpdate: func(ctx context.Context, cl client.Client, sub string, obj client.Object, opts ...client.SubResourceUpdateOption) error {
			return around("UPDATE/"+sub+" "+kindOf(obj), cl, obj, func() error { return cl.SubResource(sub).Update(ctx, obj, opts...) })
		},
		SubResourcePatch: func(ctx context.Context, cl client.Client, sub string, obj client.Object, patch client.Patch, opts ...client.SubResourcePatchOption) error {
			return around("PATCH/"+sub+" "+kindOf(obj), cl, obj, func() error { return cl.SubResource(sub).Patch(ctx, obj, patch, opts...) })
		},
	}
	return interceptor.NewClient(c.base, funcs)
}

func (c *Cluster) rngBool() bool {
	c.Lock()
	defer c.Unlock()
	return c.Rng.Intn(2) == 0
}

func kindOf(o client.Object) string {
	t := reflect.TypeOf(o).String()
	return t[strings.LastIndex(t, ".")+1:]
}

func podIndex(o client.Object) int {
	if _, ok := o.(*corev1.Pod); !ok {
		return -1
	}
	n := o.GetName()
	i, err := strconv.Atoi(n[strings.LastIndex(n, "-")+1:])
	if err != nil {
		return -1
	}
	return i
}

func (c *Cluster) snapshot(cl client.Client, obj client.Object) client.Object {
	o := reflect.New(reflect.TypeOf(obj).Elem()).Interface().(client.Object)
	if err := c.base.Get(context.Background(), client.ObjectKeyFromObject(obj), o); err != nil {
		return nil
	}
	return o
}

func roleOf(p *corev1.Pod) string { return p.Labels[constants.LabelMocoRole] }

func cond(m *mocov1beta2.MySQLCluster, t string) (string, string) {
	cd := meta.FindStatusCondition(m.Status.Conditions, t)
	if cd == nil {
		return "", ""
	}
	return string(cd.Status), cd.Reason
}

// diff emits events for what a request of MOCO changed.
func (c *Cluster) diff(what string, b, a client.Object, req client.Object) {
	switch req.(type) {
	case *corev1.Pod:
		i := podIndex(req)
		if a == nil || b == nil {
			c.Emit("podother", "i", i, "what", what)
			return
		}
		bp, ap := b.(*corev1.Pod), a.(*corev1.Pod)
		if ap.DeletionTimestamp != nil && bp.DeletionTimestamp == nil {
			c.Emit("podother", "i", i, "what", what)
		}
		if roleOf(bp) != roleOf(ap) {
			c.Emit("label", "i", i, "v", roleOf(ap))
		}
		if (bp.Annotations[constants.AnnDemote] == "true") != (ap.Annotations[constants.AnnDemote] == "true") {
			c.Emit("demote", "i", i, "v", ap.Annotations[constants.AnnDemote] == "true", "by", "moco")
		}
		_, x := bp.Annotations[constants.AnnPreventDelete]
		_, y := ap.Annotations[constants.AnnPreventDelete]
		if x != y {
			c.Emit("prevent", "i", i, "v", y, "by", "moco")
		}
	case *mocov1beta2.MySQLCluster:
		if a == nil || b == nil {
			c.Emit("mcother", "what", what)
			return
		}
		bm, am := b.(*mocov1beta2.MySQLCluster), a.(*mocov1beta2.MySQLCluster)
		if !reflect.DeepEqual(bm.Spec, am.Spec) {
			c.Emit("mcother", "what", "spec")
		}
		if bm.Status.CurrentPrimaryIndex != am.Status.CurrentPrimaryIndex {
			c.Emit("primary", "v", am.Status.CurrentPrimaryIndex)
		}
		if !strings.HasPrefix(what, "UPDATE/") && !strings.HasPrefix(what, "PATCH/") {
			return
		}
		bs, as := bm.Status.DeepCopy(), am.Status.DeepCopy()
		bs.CurrentPrimaryIndex, as.CurrentPrimaryIndex = 0, 0
		if reflect.DeepEqual(bs, as) {
			return
		}
		c.emitStatus(am)
	default:
		c.Emit("k8sother", "what", what)
	}
}

func (c *Cluster) emitStatus(m *mocov1beta2.MySQLCluster) { c.emitStatusAs("status", m) }

func (c *Cluster) emitStatusAs(ev string, m *mocov1beta2.MySQLCluster, kv ...any) {
	av, reason := cond(m, mocov1beta2.ConditionAvailable)
	he, r2 := cond(m, mocov1beta2.ConditionHealthy)
	in, r3 := cond(m, mocov1beta2.ConditionInitialized)
	act, _ := cond(m, mocov1beta2.ConditionClusteringActive)
	el := append([]int{}, m.Status.ErrantReplicaList...)
	sort.Ints(el)
	c.Emit(ev, append(kv, "state", reason, "same", reason == r2 && r2 == r3, "available", av == "True", "healthy", he == "True",
		"initialized", in == "True", "active", act == "True", "errant", m.Status.ErrantReplicas, "elist", el,
		"synced", m.Status.SyncedReplicas, "cloned", m.Status.Cloned)...)
}

// ---- clients and background activity ----

// serviceTarget returns an instance that the service for the role routes to.
func (c *Cluster) serviceTarget(role string) int {
	var t []int
	for i := 0; i < c.World.N; i++ {
		p := c.Pod(i)
		if p != nil && roleOf(p) == role && podReady(p) && p.DeletionTimestamp == nil {
			t = append(t, i)
		}
	}
	if len(t) == 0 {
		return -1
	}
	return t[c.rng.Intn(len(t))]
}

func (c *Cluster) clientTick() {
	for _, k := range c.clients {
		if k.s != nil && !c.Alive(k.s) {
			k.s = nil
		}
		if k.s == nil {
			if c.rng.Intn(3) != 0 {
				continue
			}
			role := constants.RolePrimary
			if !k.writer {
				role = constants.RoleReplica
			}
			if i := c.serviceTarget(role); i >= 0 {
				k.s = c.Open(k.id, i, k.writer, "user"+strconv.Itoa(k.id))
			}
			continue
		}
		if k.writer && !c.NoWrite && c.txns < c.maxTxn && c.rng.Intn(12) == 0 {
			if c.Write(k.s) {
				c.txns++
			}
		}
	}
}

// Traffic lets clients commit and replication progress between any two requests of MOCO.
// World locked.
func (c *Cluster) Traffic(txns int) {
	c.maxTxn = max(c.maxTxn, c.txns+txns)
	r := rand.New(rand.NewSource(c.opt.Seed*31 + 5))
	c.Between = func(op sim.Op) {
		// a client leaves while connections are being killed
		if strings.HasPrefix(op.What, "KILL") && r.Intn(3) == 0 {
			for _, k := range c.clients {
				if k.s != nil && k.s.Inst == op.Inst && r.Intn(2) == 0 {
					c.CloseSess(k.s)
					break
				}
			}
		}
		if r.Intn(5) == 0 && !c.NoWrite {
			k := c.clients[r.Intn(2)]
			if k.s != nil && c.Alive(k.s) && c.txns < c.maxTxn && c.Write(k.s) {
				c.txns++
			}
		}
		if in := c.Insts[r.Intn(c.World.N)]; in != nil && r.Intn(3) == 0 {
			c.Retrieve(in)
			if r.Intn(3) == 0 {
				c.Apply(in)
			}
		}
	}
}

// StartPump starts the background goroutine.
func (c *Cluster) StartPump() {
	c.pumpWG.Add(1)
	go func() {
		defer c.pumpWG.Done()
		for {
			time.Sleep(20 * time.Millisecond)
			if c.Closed() {
				return
			}
			c.Lock()
			c.Tick()
			c.Unlock()
		}
	}()
}

// Tick is one step of background activity.  World locked.
func (c *Cluster) Tick() {
	if c.opt.Ext {
		if e := c.Insts[sim.Ext]; e != nil && c.opt.ExtTxns > 0 && c.rng.Intn(30) == 0 {
			c.opt.ExtTxns--
			c.Inject(e)
		}
	}
	c.clientTick()
	c.ticks++
	if c.opt.Probe && c.ticks%250 == 0 {
		for i := 0; i < c.World.N; i++ {
			c.ProbePod(i)
		}
	}
	for i := 0; i < c.World.N; i++ {
		in := c.Insts[i]
		if in == nil {
			continue
		}
		if c.rng.Intn(2) == 0 {
			c.Retrieve(in)
		}
		if c.rng.Intn(2) == 0 {
			c.Apply(in)
		}
	}
}

// Finish stops everything.
func (c *Cluster) Finish() {
	c.StopMOCO()
	c.Close()
	c.pumpWG.Wait()
	time.Sleep(time.Second)
	for g := 0; g <= c.Gen; g++ {
		for i := 0; i < 7; i++ {
			sim.UnregisterEndpoint(epHost(c.opt.ID, g, i))
		}
	}
}
