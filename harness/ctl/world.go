package ctl

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"maps"
	"math/rand"
	"slices"
	"strings"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/controllers"
	"github.com/cybozu-go/moco/pkg/constants"
	"github.com/cybozu-go/moco/pkg/metrics"
	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"
	"golang.org/x/time/rate"
	admissionv1 "k8s.io/api/admission/v1"
	appsv1 "k8s.io/api/apps/v1"
	batchv1 "k8s.io/api/batch/v1"
	corev1 "k8s.io/api/core/v1"
	policyv1 "k8s.io/api/policy/v1"
	rbacv1 "k8s.io/api/rbac/v1"
	storagev1 "k8s.io/api/storage/v1"
	"k8s.io/apimachinery/pkg/api/meta"
	"k8s.io/apimachinery/pkg/api/resource"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/apimachinery/pkg/util/intstr"
	"k8s.io/client-go/tools/record"
	ctrl "sigs.k8s.io/controller-runtime"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

const (
	epoch = 946684800 // when a test bubble begins
	sys   = "sys"
	limit = 3 // old ConfigMaps kept
)

func init() { metrics.Register(prometheus.NewRegistry()) }

// world is one emulated Kubernetes cluster with MOCO.
type world struct {
	srv   *server
	out   *bufio.Writer
	tok   *tokens
	api   *api // of the MySQLCluster controller
	papi  *api // of the partition controller
	rec   *controllers.MySQLClusterReconciler
	part  *controllers.StatefulSetPartitionReconciler
	rnd   *rand.Rand
	act   string // who is acting now: a cluster, "part ns/name" or ""
	run   map[string]string
	want  map[string]spec // what users asked for, by "ns/name"
	revs  map[string]string
	last  map[string]string
	mute  bool
	prims []int // the primaries to come
	busy  bool  // MOCO or anything else has changed something since this was cleared
}

func (w *world) log(r rec) {
	if w.mute || w.out == nil {
		return
	}
	b, err := json.Marshal(r)
	must(err)
	_, _ = w.out.Write(append(b, '\n'))
}

func nowSec() int64 { return time.Now().Unix() - epoch }

func newWorld(out io.Writer, rnd *rand.Rand, scenario, label string) *world {
	w := &world{tok: newTokens(), rnd: rnd, run: map[string]string{}, want: map[string]spec{}, revs: map[string]string{}, last: map[string]string{}, prims: []int{0, 0, 1, 2, 2, 0, 4}}
	if out != nil {
		w.out = out.(*bufio.Writer)
	}
	w.srv = newServer()
	w.log(rec{"e": "reset", "scenario": scenario, "label": label, "sys": sys, "limit": limit})
	w.srv.changed = w.changed
	for n, ok := range map[string]bool{"grow": true, "fixed": false} {
		sc := &storagev1.StorageClass{Provisioner: "p", AllowVolumeExpansion: &ok}
		sc.Name = n
		if n == "grow" {
			sc.Annotations = map[string]string{"storageclass.kubernetes.io/is-default-class": "true"}
		}
		must(w.srv.create(sc, "user"))
	}
	w.restart()
	return w
}

// restart gives a fresh moco-controller.
func (w *world) restart() {
	metrics.ClusteringStoppedVec.Reset()
	metrics.ReconciliationStoppedVec.Reset()
	w.run = map[string]string{}
	w.api = &api{Client: w.srv.inner, w: w, hooks: map[int]func(){}}
	w.papi = &api{Client: w.srv.inner, w: w, hooks: map[int]func(){}}
	w.rec = &controllers.MySQLClusterReconciler{
		Client: w.api, Scheme: scheme, Recorder: record.NewFakeRecorder(0), AgentImage: "agent:1", BackupImage: "backup:1", FluentBitImage: "fluent:1",
		ExporterImage: "exporter:1", SystemNamespace: sys, PVCSyncAnnotationKeys: []string{"sync"}, PVCSyncLabelKeys: []string{"sync"},
		ClusterManager: &stubMgr{w}, MaxConcurrentReconciles: 1, MySQLConfigMapHistoryLimit: limit,
	}
	w.rec.Recorder = nullRecorder{}
	w.part = &controllers.StatefulSetPartitionReconciler{Client: w.papi, Recorder: nullRecorder{}, MaxConcurrentReconciles: 1,
		UpdateInterval: time.Second, RateLimiter: rate.NewLimiter(rate.Inf, 1)}
	w.log(rec{"e": "restart"})
}

type nullRecorder struct{}

func (nullRecorder) Event(runtime.Object, string, string, string)          {}
func (nullRecorder) Eventf(runtime.Object, string, string, string, ...any) {}
func (nullRecorder) AnnotatedEventf(runtime.Object, map[string]string, string, string, string, ...any) {
}

// stubMgr stands for the cluster manager.
type stubMgr struct{ w *world }

func (m *stubMgr) op(op string, k types.NamespacedName) {
	if m.w.api.dead {
		return
	}
	c := "MySQLCluster/" + k.String()
	switch op {
	case "update", "pause", "stop":
		m.w.run[c] = op
	}
	m.w.log(rec{"e": "mgr", "c": c, "op": op, "act": m.w.act})
}
func (m *stubMgr) Update(k types.NamespacedName, _ string)        { m.op("update", k) }
func (m *stubMgr) UpdateNoStart(k types.NamespacedName, _ string) { m.op("notify", k) }
func (m *stubMgr) Stop(k types.NamespacedName)                    { m.op("stop", k) }
func (m *stubMgr) StopAll()                                       { m.op("stopall", types.NamespacedName{}) }
func (m *stubMgr) Pause(k types.NamespacedName)                   { m.op("pause", k) }

var moco = []string{"create", "update", "patch", "apply", "status", "delete", "orphan"}

func (w *world) changed(kind, ns, name, by string) {
	if w.mute {
		return
	}
	key := kind + "/" + ns + "/" + name
	o := rec{"gone": true}
	if cur := w.srv.current(kind, ns, name); cur != nil {
		o = w.tok.project(cur)
		o["kind"], o["ns"], o["name"] = kind, ns, name
		o["pre"] = name
		if i := strings.LastIndex(name, "."); i >= 0 {
			o["pre"] = name[:i]
		}
	}
	if slices.Contains(moco, by) {
		if h := hash(o); w.last[key] != h {
			w.last[key], w.busy = h, true
		}
		w.log(rec{"e": "write", "op": by, "act": w.act, "key": key, "o": o, "t": nowSec()})
		return
	}
	h := hash(o)
	if w.last[key] == h && w.act == "" {
		return
	}
	w.last[key], w.busy = h, true
	w.log(rec{"e": "ext", "key": key, "o": o, "by": by})
}

func gauge(v *prometheus.GaugeVec, ns, name string) float64 {
	ch := make(chan prometheus.Metric, 100)
	v.Collect(ch)
	close(ch)
	for m := range ch {
		var d dto.Metric
		must(m.Write(&d))
		l := map[string]string{}
		for _, p := range d.Label {
			l[p.GetName()] = p.GetValue()
		}
		if l["namespace"] == ns && l["name"] == name {
			return d.Gauge.GetValue()
		}
	}
	return -1
}

// reconcile runs one reconciliation of a cluster.
func (w *world) reconcile(ns, name string, f *fault, hooks map[int]func()) {
	c := "MySQLCluster/" + ns + "/" + name
	defer func(act string) { w.act = act }(w.act)
	w.act = c
	a := w.api
	a.prepare(f, hooks)
	w.log(rec{"e": "begin", "c": c, "t": nowSec()})
	ctx, cancel := context.WithTimeout(bg, 10*time.Minute)
	res, err, dead := protect(func() (ctrl.Result, error) {
		return w.rec.Reconcile(ctx, ctrl.Request{NamespacedName: types.NamespacedName{Namespace: ns, Name: name}})
	})
	cancel()
	w.log(rec{"e": "end", "c": c, "panic": dead, "err": err != nil || a.dead, "again": res.RequeueAfter > 0 || res.Requeue, "msg": fmt.Sprint(err), //nolint:staticcheck
		"cs": int(gauge(metrics.ClusteringStoppedVec, ns, name)), "rs": int(gauge(metrics.ReconciliationStoppedVec, ns, name))})
	a.busy = false
	if a.dead {
		w.restart()
	}
}

// protect turns panics into errors like controller-runtime does.
func protect(f func() (ctrl.Result, error)) (res ctrl.Result, err error, panicked bool) {
	defer func() {
		if p := recover(); p != nil {
			err, panicked = fmt.Errorf("panic: %v", p), true
		}
	}()
	res, err = f()
	return res, err, false
}

// roll runs one reconciliation of the partition controller.
func (w *world) roll(ns, name string, f *fault, hooks map[int]func()) {
	defer func(act string) { w.act = act }(w.act)
	w.act = "part"
	a := w.papi
	a.prepare(f, hooks)
	key := "StatefulSet/" + ns + "/" + name
	w.log(rec{"e": "pbegin", "c": key, "t": nowSec()})
	res, err, dead := protect(func() (ctrl.Result, error) {
		return w.part.Reconcile(bg, ctrl.Request{NamespacedName: types.NamespacedName{Namespace: ns, Name: name}})
	})
	w.log(rec{"e": "pend", "c": key, "panic": dead, "t": nowSec(), "err": err != nil || a.dead, "again": res.RequeueAfter > 0 || res.Requeue, "msg": fmt.Sprint(err)}) //nolint:staticcheck
	a.busy = false
	if a.dead {
		w.restart()
	}
}

// spec is what a user asks for.
type spec struct {
	Replicas         int
	Offline          bool
	Policy, Conf     string
	NoSlow           bool
	Tmpl             string
	Exporter         bool
	Data, Logs       int
	Class            string
	SyncL, SyncA     string
	PType, RType     string
	Evil             bool
	Img              string
	Mem              int
	SlowCPU          string
	Restore          bool
	RestoreKind      int
	Rich             int // more settings, one per bit
	RecStop, CluStop string
	Force            string
	Extra            int // any other change of the specification
	Annotations      map[string]string
}

func (s spec) object(ns, name string) *mocov1beta2.MySQLCluster {
	type m = map[string]any
	type l = []any
	mysqld := m{"name": "mysqld", "image": "mysql:" + s.Img}
	over := l{}
	if s.Rich&1 != 0 {
		mysqld["env"] = l{m{"name": "TZ", "value": "UTC"}, m{"name": "WHO", "valueFrom": m{"fieldRef": m{"fieldPath": "metadata.name"}}}}
		mysqld["envFrom"] = l{m{"configMapRef": m{"name": "more"}}}
		mysqld["ports"] = l{m{"name": "mine", "containerPort": 7777, "protocol": "TCP"}}
		mysqld["volumeMounts"] = l{m{"name": "extra", "mountPath": "/extra"}}
		mysqld["securityContext"] = m{"runAsUser": 5}
	}
	if s.Rich&2 != 0 {
		mysqld["startupProbe"] = m{"failureThreshold": 7, "httpGet": m{"path": "/evil", "port": 1}}
		mysqld["livenessProbe"] = m{"periodSeconds": 33, "httpGet": m{"path": "/evil", "port": 1}}
		mysqld["readinessProbe"] = m{"timeoutSeconds": 44}
		mysqld["args"] = l{"--mine=1"}
		mysqld["lifecycle"] = m{"preStop": m{"exec": m{"command": l{"true"}}}}
	}
	if s.Mem > 0 {
		q := fmt.Sprintf("%dMi", s.Mem)
		switch s.Mem {
		case 2000:
			mysqld["resources"] = m{"requests": m{"memory": q}, "limits": m{"cpu": "3"}}
		case 4096:
			mysqld["resources"] = m{"requests": m{"memory": "2Gi", "cpu": "1"}, "limits": m{"memory": q}}
		default:
			mysqld["resources"] = m{"limits": m{"memory": q}}
		}
	}
	ctrs := l{mysqld}
	pt := m{}
	ps := m{}
	if s.Evil {
		ctrs = l{m{"name": "sidecar", "image": "side:1"}, mysqld}
		if s.NoSlow {
			ctrs = append(ctrs, m{"name": "slow-log", "image": "mine:1"})
		}
		ps["initContainers"] = l{m{"name": "prep", "image": "prep:1"}}
		ps["serviceAccountName"] = "other"
		ps["volumes"] = l{m{"name": "mine", "emptyDir": m{}}}
		pt["metadata"] = m{"labels": m{constants.LabelAppInstance: "other", constants.LabelAppName: "other", constants.LabelAppCreatedBy: "me", "mine": "1"}}
	}
	if s.Rich&1 != 0 {
		vs, _ := ps["volumes"].(l)
		ps["volumes"] = append(vs, m{"name": "extra", "emptyDir": m{"medium": "Memory"}})
	}
	if s.Rich&4 != 0 {
		ps["terminationGracePeriodSeconds"] = 60
		ps["nodeSelector"] = m{"disk": "ssd"}
		ps["tolerations"] = l{m{"key": "db", "operator": "Exists"}}
		ps["affinity"] = m{"nodeAffinity": m{"requiredDuringSchedulingIgnoredDuringExecution": m{"nodeSelectorTerms": l{m{"matchExpressions": l{m{"key": "x", "operator": "Exists"}}}}}}}
		ps["securityContext"] = m{"fsGroup": 77}
		md, _ := pt["metadata"].(m)
		if md == nil {
			md = m{}
		}
		md["annotations"] = m{"prometheus.io/scrape": "true"}
		pt["metadata"] = md
		over = append(over, m{"name": "agent", "resources": m{"requests": m{"cpu": "1"}}}, m{"name": "moco-init", "resources": m{"limits": m{"memory": "1Gi"}}})
		if s.Exporter {
			over = append(over, m{"name": "mysqld-exporter", "resources": m{"requests": m{"cpu": "2"}}})
		}
	}
	ps["containers"] = ctrs
	if s.Extra > 0 {
		ps["priorityClassName"] = fmt.Sprintf("prio%d", s.Extra)
	}
	pt["spec"] = ps
	if s.SlowCPU != "" {
		over = append(over, m{"name": "slow-log", "resources": m{"requests": m{"cpu": s.SlowCPU}}})
	}
	if len(over) > 0 {
		pt["overwriteContainers"] = over
	}
	vct := func(n string, gi int) m {
		md := m{"name": n}
		if s.SyncL != "" {
			md["labels"] = m{"sync": s.SyncL, "other": "l" + s.SyncL}
		}
		if s.SyncA != "" {
			md["annotations"] = m{"sync": s.SyncA, "other": "a" + s.SyncA}
		}
		return m{"metadata": md, "spec": m{"accessModes": l{"ReadWriteOnce"}, "storageClassName": s.Class,
			"resources": m{"requests": m{"storage": fmt.Sprintf("%dGi", gi)}}}}
	}
	vs := l{vct("mysql-data", s.Data)}
	if s.Logs > 0 {
		vs = append(vs, vct("logs", s.Logs))
	}
	sp := m{"replicas": s.Replicas, "offline": s.Offline, "podTemplate": pt, "volumeClaimTemplates": vs, "serverIDBase": 100,
		"disableSlowQueryLogContainer": s.NoSlow, "maxDelaySeconds": 60, "startupWaitSeconds": 3600}
	if s.Rich&8 != 0 {
		sp["logRotationSchedule"], sp["logRotationSize"], sp["agentUseLocalhost"], sp["initializeTimezoneData"] = "@every 1h", 1000, true, true
		delete(sp, "maxDelaySeconds")
	}
	svc := func(t string) m {
		x := m{"metadata": m{"annotations": m{"note": t}, "labels": m{"mine": t}}, "spec": m{"type": t}}
		if s.Rich&4 != 0 {
			x["spec"].(m)["sessionAffinity"] = "ClientIP"
			x["spec"].(m)["ports"] = l{m{"name": "mysqlx", "port": 1, "targetPort": "mysql"}, m{"name": "more", "port": 98, "protocol": "TCP"}}
		}
		if s.Evil {
			x["metadata"].(m)["labels"] = m{constants.LabelAppInstance: "other", "mine": t}
			x["spec"].(m)["selector"] = m{constants.LabelMocoRole: "nobody", constants.LabelAppInstance: "other", "mine": t}
			if ip := map[string]string{"ClusterIP": "None", "LoadBalancer": "10.1.2.3"}[t]; ip != "" {
				x["spec"].(m)["clusterIP"] = ip
			}
			x["spec"].(m)["ports"] = l{m{"name": "mysql", "port": 13306, "targetPort": 7, "protocol": "UDP"}, m{"name": "mine", "port": 99}}
		}
		return x
	}
	if s.PType != "" {
		sp["primaryServiceTemplate"] = svc(s.PType)
	}
	if s.RType != "" {
		sp["replicaServiceTemplate"] = svc(s.RType)
	}
	if s.Policy != "" {
		sp["backupPolicyName"] = s.Policy
	}
	if s.Conf != "" {
		sp["mysqlConfigMapName"] = s.Conf
	}
	if s.Tmpl != "" {
		sp["slowQueryLogConfigTmpl"] = "[" + s.Tmpl + "] {{ .Path }}\n"
	}
	if s.Exporter {
		sp["collectors"] = l{"engine_innodb_status"}
		if s.Rich&8 != 0 {
			sp["collectors"] = l{"engine_innodb_status", "info_schema.tables"}
		}
	}
	if s.Restore {
		sp["restore"] = m{"sourceName": "src", "sourceNamespace": "old", "restorePoint": "2000-01-01T00:00:00Z",
			"jobConfig": jobConfig("restorer", "rb", 2, s.RestoreKind)}
		if s.RestoreKind&1 != 0 {
			sp["restore"].(m)["schema"] = "db1"
		}
		if s.RestoreKind&2 != 0 {
			sp["restore"].(m)["users"] = "u1,u2"
		}
	}
	an := map[string]string{}
	for k, v := range map[string]string{constants.AnnReconciliationStopped: s.RecStop, constants.AnnClusteringStopped: s.CluStop, constants.AnnForceRollingUpdate: s.Force} {
		if v != "" {
			an[k] = v
		}
	}
	b, err := json.Marshal(m{"metadata": m{"namespace": ns, "name": name, "annotations": an}, "spec": sp})
	must(err)
	c := &mocov1beta2.MySQLCluster{}
	must(json.Unmarshal(b, c))
	return c
}

const (
	hookMutate   = "/mutate-moco-cybozu-com-v1beta2-mysqlcluster"
	hookValidate = "/validate-moco-cybozu-com-v1beta2-mysqlcluster"
	hookPolicy   = "/validate-moco-cybozu-com-v1beta2-backuppolicy"
)

// put creates or updates a MySQLCluster like a user does.
func (w *world) put(ns, name string, s spec) bool {
	o := client.Object(s.object(ns, name))
	cur := w.srv.current("MySQLCluster", ns, name)
	op := admissionv1.Create
	var old client.Object
	if cur != nil {
		op = admissionv1.Update
		old = cur
		n := cur.DeepCopyObject().(*mocov1beta2.MySQLCluster)
		x := o.(*mocov1beta2.MySQLCluster)
		n.Spec, n.Annotations = x.Spec, x.Annotations
		o = n
	}
	for _, h := range []string{hookMutate, hookValidate} {
		res, err := w.srv.hooks.review(h, op, o, old)
		must(err)
		if !res.Allowed {
			return false
		}
		o = mutate(o, res)
	}
	if cur == nil {
		must(w.srv.create(o, "user"))
	} else {
		must(w.srv.update(o, "user"))
	}
	w.want[ns+"/"+name] = s
	return true
}

func (w *world) cluster(k string) *mocov1beta2.MySQLCluster {
	ns, name, _ := splitKey(k)
	o := w.srv.current("MySQLCluster", ns, name)
	if o == nil {
		return nil
	}
	return o.(*mocov1beta2.MySQLCluster)
}

// stored puts any other object of a user.
func (w *world) stored(o client.Object) {
	if cur := w.srv.current(kindOf(o), o.GetNamespace(), o.GetName()); cur != nil {
		o.SetResourceVersion(cur.GetResourceVersion())
		o.SetUID(cur.GetUID())
		must(w.srv.update(o, "user"))
		return
	}
	must(w.srv.create(o, "user"))
}

func (w *world) userConf(ns, name string, max int) {
	cm := &corev1.ConfigMap{Data: map[string]string{"max_connections": fmt.Sprint(max)}}
	if max%200 == 0 {
		cm.Data["lower_case_table_names"] = "1"
	}
	cm.Namespace, cm.Name = ns, name
	w.stored(cm)
}

// jobConfig makes the settings of a job, more of them for each bit of kind.
func jobConfig(sa, bucket string, threads, kind int) map[string]any {
	type m = map[string]any
	type l = []any
	b := m{"bucketName": bucket}
	j := m{"serviceAccountName": sa, "bucketConfig": b, "threads": threads, "workVolume": m{"emptyDir": m{}}}
	if kind&1 != 0 {
		b["region"], b["endpointURL"], b["usePathStyle"] = "neco", "https://minio:9000", true
		j["cpu"], j["memory"] = "2", "3Gi"
		j["env"] = l{m{"name": "AWS_A", "value": "1"}, m{"name": "AWS_B", "value": "2"}}
	}
	if kind&2 != 0 {
		b["backendType"], b["caCert"] = "gcs", "/ca/x.pem"
		j["maxCpu"], j["maxMemory"] = "4", "5Gi"
		j["envFrom"] = l{m{"secretRef": m{"name": "cred"}}, m{"configMapRef": m{"name": "cred2"}}}
		j["volumes"] = l{m{"name": "ca", "secret": m{"secretName": "ca"}}, m{"name": "cb", "emptyDir": m{}}}
		j["volumeMounts"] = l{m{"name": "ca", "mountPath": "/ca"}, m{"name": "cb", "mountPath": "/cb"}}
		j["workVolume"] = m{"ephemeral": m{"volumeClaimTemplate": m{"spec": m{"accessModes": l{"ReadWriteOnce"}, "resources": m{"requests": m{"storage": "9Gi"}}}}}}
	}
	if kind&4 != 0 {
		j["affinity"] = m{"nodeAffinity": m{"requiredDuringSchedulingIgnoredDuringExecution": m{"nodeSelectorTerms": l{m{"matchExpressions": l{m{"key": "y", "operator": "Exists"}}}}}}}
	}
	return j
}

func (w *world) policy(ns, name, schedule, sa string, threads, kind int) {
	type m = map[string]any
	sp := m{"schedule": schedule, "concurrencyPolicy": "Allow", "jobConfig": jobConfig(sa, "b-"+sa, threads, kind)}
	if threads%2 == 0 {
		sp["concurrencyPolicy"] = "Forbid"
	}
	if kind&8 != 0 {
		sp["startingDeadlineSeconds"], sp["activeDeadlineSeconds"], sp["backoffLimit"] = 11, 12, 0
	}
	if kind&16 != 0 {
		sp["successfulJobsHistoryLimit"], sp["failedJobsHistoryLimit"], sp["timeZone"] = 0, 13, "Asia/Tokyo"
	}
	b, err := json.Marshal(m{"metadata": m{"namespace": ns, "name": name}, "spec": sp})
	must(err)
	p := &mocov1beta2.BackupPolicy{}
	must(json.Unmarshal(b, p))
	w.stored(p)
}

// deletePolicy asks the webhook first.
func (w *world) deletePolicy(ns, name string) {
	p := w.srv.current("BackupPolicy", ns, name)
	if p == nil {
		return
	}
	res, err := w.srv.hooks.review(hookPolicy, admissionv1.Delete, nil, p)
	must(err)
	w.log(rec{"e": "polDel", "key": "BackupPolicy/" + ns + "/" + name, "policy": name, "ns": ns, "ok": res.Allowed})
	if res.Allowed {
		must(w.srv.delete(p, "user", false))
	}
}

// certManager issues (or renews) certificates.
func (w *world) certManager(renew bool) {
	for _, o := range w.srv.all("Certificate") {
		u := o.(*unstructured.Unstructured)
		sn, _, _ := unstructured.NestedString(u.Object, "spec", "secretName")
		cur := w.srv.current("Secret", sys, sn)
		if cur != nil && !renew {
			continue
		}
		w.srv.seq++
		s := &corev1.Secret{Data: map[string][]byte{"tls.crt": []byte(fmt.Sprint("crt", w.srv.seq)), "tls.key": []byte(fmt.Sprint("key", w.srv.seq)), "ca.crt": []byte("ca")}}
		s.Namespace, s.Name = sys, sn
		w.stored(s)
	}
}

func revision(s *appsv1.StatefulSet) string { return "r" + hash(s.Spec.Template)[:6] }

// kubelet makes a pod ready or not.
func (w *world) ready(p *corev1.Pod, ready bool) {
	st := corev1.ConditionFalse
	if ready {
		st = corev1.ConditionTrue
	}
	odd := false
	for _, c := range slices.Concat(p.Status.ContainerStatuses[:], p.Status.InitContainerStatuses) {
		odd = odd || ready && !c.Ready
	}
	for _, c := range p.Status.Conditions {
		if c.Type == corev1.PodReady && c.Status == st && !odd {
			return
		}
	}
	p.Status.Conditions = []corev1.PodCondition{{Type: corev1.PodReady, Status: st, LastTransitionTime: metav1.Now()}}
	p.Status.Phase = corev1.PodRunning
	p.Status.ContainerStatuses = []corev1.ContainerStatus{{Name: "mysqld", Ready: ready}, {Name: "agent", Ready: true}}
	p.Status.InitContainerStatuses = []corev1.ContainerStatus{{Name: "moco-init", Ready: true}}
	must(w.srv.updateStatus(p, "kubelet"))
}

const oddities = 6

// odd puts a pod in one of the states pods may be in for a while.
func (w *world) odd(p *corev1.Pod, what int) {
	w.ready(p, what != 1)
	p = w.srv.current("Pod", p.Namespace, p.Name).(*corev1.Pod)
	switch what {
	case 0: // on its way down, but still serving
		must(w.srv.evict(p))
		return
	case 1: // not ready
		return
	case 2: // of its containers, one is not ready
		p.Status.ContainerStatuses[1].Ready = false
	case 3:
		p.Status.InitContainerStatuses[0].Ready = false
	case 4: // has just become ready
		p.Status.Conditions[0].LastTransitionTime = metav1.Now()
	case 5: // is gone
		must(w.srv.delete(p, "user", false))
		return
	}
	must(w.srv.updateStatus(p, "kubelet"))
}

func ordOf(n string) int {
	i := -1
	_, _ = fmt.Sscanf(n[strings.LastIndex(n, "-")+1:], "%d", &i)
	return i
}

func (w *world) podsOf(s *appsv1.StatefulSet) map[int]*corev1.Pod {
	res := map[int]*corev1.Pod{}
	for _, o := range w.srv.all("Pod") {
		if o.GetNamespace() == s.Namespace && owner(o) == string(s.UID) {
			res[ordOf(o.GetName())] = o.(*corev1.Pod)
		}
	}
	return res
}

// stsController does one pass of the StatefulSet controller.
func (w *world) stsController(s *appsv1.StatefulSet) {
	if s.DeletionTimestamp != nil {
		return
	}
	n := int(*s.Spec.Replicas)
	for _, o := range w.srv.all("Pod") { // adoption
		if o.GetNamespace() != s.Namespace || owner(o) != "" || !strings.HasPrefix(o.GetName(), s.Name+"-") || ordOf(o.GetName()) < 0 {
			continue
		}
		if s.Name+"-"+fmt.Sprint(ordOf(o.GetName())) != o.GetName() {
			continue
		}
		t := true
		o.SetOwnerReferences([]metav1.OwnerReference{{APIVersion: "apps/v1", Kind: "StatefulSet", Name: s.Name, UID: s.UID, Controller: &t}})
		must(w.srv.update(o, "sts"))
	}
	rev := revision(s)
	k := s.Namespace + "/" + s.Name
	if w.revs[k] == "" {
		w.revs[k] = rev
	}
	pods := w.podsOf(s)
	part := 0
	if ru := s.Spec.UpdateStrategy.RollingUpdate; ru != nil && ru.Partition != nil {
		part = int(*ru.Partition)
	}
	t := true
	for i := 0; i < n; i++ {
		for _, v := range s.Spec.VolumeClaimTemplates {
			nm := fmt.Sprintf("%s-%s-%d", v.Name, s.Name, i)
			if w.srv.current("PersistentVolumeClaim", s.Namespace, nm) == nil {
				c := v.DeepCopy()
				c.Namespace, c.Name, c.ResourceVersion = s.Namespace, nm, ""
				if c.Labels == nil {
					c.Labels = map[string]string{}
				}
				maps.Copy(c.Labels, s.Spec.Selector.MatchLabels)
				must(w.srv.create(c, "sts"))
			}
		}
		if pods[i] != nil {
			continue
		}
		p := &corev1.Pod{Spec: *s.Spec.Template.Spec.DeepCopy()}
		p.Namespace, p.Name = s.Namespace, fmt.Sprintf("%s-%d", s.Name, i)
		p.Labels = maps.Clone(s.Spec.Template.Labels)
		r := w.revs[k]
		if i >= part {
			r = rev
		}
		p.Labels[appsv1.ControllerRevisionHashLabelKey] = r
		p.OwnerReferences = []metav1.OwnerReference{{APIVersion: "apps/v1", Kind: "StatefulSet", Name: s.Name, UID: s.UID, Controller: &t}}
		if w.srv.current("Pod", s.Namespace, p.Name) == nil {
			must(w.srv.create(p, "sts"))
		}
	}
	for i, p := range pods {
		if i >= n {
			must(w.srv.delete(p, "sts", false))
		}
	}
	// rolling update
	pods = w.podsOf(s)
	for i := n - 1; i >= part; i-- {
		p := pods[i]
		if p == nil {
			break
		}
		if p.Labels[appsv1.ControllerRevisionHashLabelKey] != rev {
			must(w.srv.delete(p, "sts", false))
			break
		}
		if !isReady(p) {
			break
		}
	}
	w.stsStatus(s)
}

func isReady(p *corev1.Pod) bool {
	for _, c := range p.Status.Conditions {
		if c.Type == corev1.PodReady {
			return c.Status == corev1.ConditionTrue
		}
	}
	return false
}

func (w *world) stsStatus(s *appsv1.StatefulSet) {
	rev := revision(s)
	k := s.Namespace + "/" + s.Name
	var ready, updated, cur int32
	pods := w.podsOf(s)
	for _, p := range pods {
		if isReady(p) {
			ready++
		}
		if p.Labels[appsv1.ControllerRevisionHashLabelKey] == rev {
			updated++
		}
	}
	if updated == *s.Spec.Replicas && ready == updated && int(updated) == len(pods) {
		ru := s.Spec.UpdateStrategy.RollingUpdate
		if ru == nil || ru.Partition == nil || *ru.Partition == 0 || w.revs[k] == rev {
			w.revs[k] = rev
		}
	}
	for _, p := range pods {
		if p.Labels[appsv1.ControllerRevisionHashLabelKey] == w.revs[k] {
			cur++
		}
	}
	o := w.srv.current("StatefulSet", s.Namespace, s.Name)
	if o == nil {
		return
	}
	x := o.(*appsv1.StatefulSet)
	x.Status = appsv1.StatefulSetStatus{ObservedGeneration: x.Generation, Replicas: int32(len(pods)), ReadyReplicas: ready, AvailableReplicas: ready,
		CurrentReplicas: cur, UpdatedReplicas: updated, CurrentRevision: w.revs[k], UpdateRevision: rev}
	must(w.srv.updateStatus(x, "sts"))
}

func (w *world) allSTS() []*appsv1.StatefulSet {
	var r []*appsv1.StatefulSet
	for _, o := range w.srv.all("StatefulSet") {
		r = append(r, o.(*appsv1.StatefulSet))
	}
	return r
}

// clusteringLoop stands for what the maintenance of running clusters writes to the status.
func (w *world) clusteringLoop() {
	for k := range w.want {
		c := w.cluster(k)
		if c == nil || c.DeletionTimestamp != nil || w.run["MySQLCluster/"+k] != "update" {
			continue
		}
		n := 0
		for _, s := range w.allSTS() {
			if s.Namespace+"/"+s.Name == c.Namespace+"/moco-"+c.Name {
				for _, p := range w.podsOf(s) {
					n += b2i(isReady(p))
				}
			}
		}
		h := metav1.ConditionFalse
		if n == int(c.Spec.Replicas) && !c.Spec.Offline {
			h = metav1.ConditionTrue
		}
		meta.SetStatusCondition(&c.Status.Conditions, metav1.Condition{Type: mocov1beta2.ConditionAvailable, Status: h, Reason: "x"})
		meta.SetStatusCondition(&c.Status.Conditions, metav1.Condition{Type: mocov1beta2.ConditionHealthy, Status: h, Reason: "x"})
		meta.SetStatusCondition(&c.Status.Conditions, metav1.Condition{Type: mocov1beta2.ConditionClusteringActive, Status: metav1.ConditionTrue, Reason: "x"})
		if len(w.prims) > 0 && c.Spec.Replicas > 0 {
			i := w.prims[0] % int(c.Spec.Replicas)
			w.prims = append(w.prims[1:], w.prims[0])
			c.Status.CurrentPrimaryIndex, c.Status.SyncedReplicas, c.Status.Cloned = i, n, true
		}
		must(w.srv.updateStatus(c, "clustering"))
	}
}

func (w *world) restored(k string) {
	if c := w.cluster(k); c != nil && c.Spec.Restore != nil && c.Status.RestoredTime == nil {
		t := metav1.Now()
		c.Status.RestoredTime = &t
		must(w.srv.updateStatus(c, "restore"))
	}
}

// backupActive starts or ends a backup; held: the schedule is suspended by the user.
func (w *world) backupActive(ns, name string, active, held bool) {
	o := w.srv.current("CronJob", ns, name)
	if o == nil {
		return
	}
	cj := o.(*batchv1.CronJob)
	if held != (cj.Spec.Suspend != nil && *cj.Spec.Suspend) {
		cj.Spec.Suspend = &held
		must(w.srv.update(cj, "user"))
		cj = w.srv.current("CronJob", ns, name).(*batchv1.CronJob)
	}
	now := metav1.Now()
	cj.Status.Active = nil
	if active {
		cj.Status.Active, cj.Status.LastScheduleTime = []corev1.ObjectReference{{Name: "job"}}, &now
	} else if !held {
		cj.Status.LastSuccessfulTime = &now
	}
	must(w.srv.updateStatus(cj, "cron"))
}

// tamper alters or deletes an object MOCO manages.
func (w *world) tamper(o client.Object, del bool) {
	kind := kindOf(o)
	if del {
		if kind == "StatefulSet" {
			must(w.srv.delete(o, "user", w.rnd.Intn(2) == 0))
			return
		}
		must(w.srv.delete(o, "user", false))
		return
	}
	switch x := o.(type) {
	case *corev1.Service:
		switch w.rnd.Intn(3) {
		case 0:
			x.Spec.Selector = map[string]string{"app": "other"}
		case 1:
			x.Spec.Selector[constants.LabelAppInstance] = "zz"
		case 2:
			for i := range x.Spec.Ports {
				x.Spec.Ports[i].TargetPort = intstr.FromInt(7)
			}
		}
	case *corev1.Secret:
		for k := range x.Data {
			x.Data[k] = append(slices.Clone(x.Data[k]), 'x')
		}
	case *corev1.ConfigMap:
		for k := range x.Data {
			x.Data[k] += "\nmax_connections = 1\n"
		}
	case *corev1.ServiceAccount:
		x.Labels = nil
	case *policyv1.PodDisruptionBudget:
		if w.rnd.Intn(2) == 0 {
			v := intstr.FromInt(9)
			x.Spec.MaxUnavailable = &v
		} else {
			x.Spec.Selector = &metav1.LabelSelector{MatchLabels: map[string]string{"app": "other"}}
		}
	case *batchv1.CronJob:
		switch w.rnd.Intn(3) {
		case 0:
			x.Spec.Schedule = "1 2 3 4 5"
			x.Spec.JobTemplate.Spec.Template.Spec.Containers[0].Args = []string{"backup", "x"}
		case 1:
			x.Spec.JobTemplate.Spec.Template.Spec.ServiceAccountName = "zz"
			x.Spec.ConcurrencyPolicy = "Replace"
			x.Spec.JobTemplate.Spec.Template.Spec.Containers[0].Image = "evil:1"
		case 2:
			x.Labels = nil
			x.Spec.JobTemplate.Spec.Template.Spec.Containers[0].VolumeMounts = nil
			x.Spec.JobTemplate.Spec.Template.Spec.Containers[0].Env = nil
		}
	case *rbacv1.Role:
		x.Rules = x.Rules[:1]
		x.Rules[0].ResourceNames = []string{"zz"}
	case *rbacv1.RoleBinding:
		x.Subjects[0].Name = "zz"
	case *appsv1.StatefulSet:
		switch w.rnd.Intn(5) {
		case 0:
			for i, c := range x.Spec.Template.Spec.Containers {
				if c.Name == "mysqld" {
					x.Spec.Template.Spec.Containers[i].Image = "evil:1"
				}
			}
		case 1:
			n := *x.Spec.Replicas + 1
			x.Spec.Replicas = &n
		case 2:
			x.Spec.Template.Spec.ServiceAccountName = "zz"
			x.Labels = nil
		case 3:
			for i := range x.Spec.Template.Spec.Containers {
				c := &x.Spec.Template.Spec.Containers[i]
				if c.Name == "mysqld" || c.Name == "agent" {
					c.Args = []string{"--evil"}
				}
			}
		case 4:
			for i := range x.Spec.Template.Spec.Volumes {
				if v := &x.Spec.Template.Spec.Volumes[i]; v.ConfigMap != nil {
					v.ConfigMap.Name = "evil"
				}
			}
			x.Spec.Template.Spec.InitContainers[0].Command = []string{"true"}
			delete(x.Spec.Template.Labels, constants.LabelAppCreatedBy)
		}
	default:
		return
	}
	_ = w.srv.update(o, "user")
}

// managed lists the objects MOCO manages for a cluster.
func (w *world) managed(c *mocov1beta2.MySQLCluster) []client.Object {
	var res []client.Object
	for _, k := range []string{"StatefulSet", "Service", "Secret", "ConfigMap", "ServiceAccount", "PodDisruptionBudget", "CronJob", "Role", "RoleBinding"} {
		for _, o := range w.srv.all(k) {
			if owner(o) == string(c.UID) {
				res = append(res, o)
			}
		}
	}
	return res
}

func (w *world) pods(f func(*corev1.Pod)) {
	for _, o := range w.srv.all("Pod") {
		f(o.(*corev1.Pod))
	}
}

// advance lets everything but MOCO make progress.
func (w *world) advance() {
	w.srv.finish()
	w.srv.collect()
	w.certManager(false)
	for range 2 {
		for _, s := range w.allSTS() {
			w.stsController(s)
		}
		w.pods(func(p *corev1.Pod) {
			if p.DeletionTimestamp != nil {
				must(w.srv.leave(p))
			} else {
				w.ready(p, true)
			}
		})
		for _, s := range w.allSTS() {
			if s.DeletionTimestamp == nil {
				w.stsStatus(s)
			}
		}
	}
	w.clusteringLoop()
	time.Sleep(15 * time.Second)
}

// settle lets MOCO and everything else run undisturbed until nothing should change any more.
func (w *world) settle(rounds int) {
	w.log(rec{"e": "calm"})
	pass := func() {
		for _, k := range slices.Sorted(maps.Keys(w.want)) {
			ns, n, _ := splitKey(k)
			w.reconcile(ns, n, nil, nil)
		}
	}
	for i := 0; i < rounds; i++ {
		w.busy = false
		w.advance()
		pass()
		for _, s := range w.allSTS() {
			w.roll(s.Namespace, s.Name, nil, nil)
		}
		if !w.busy && i > 1 {
			break
		}
	}
	w.advance()
	w.log(rec{"e": "quiet"})
	pass()
	for _, k := range slices.Sorted(maps.Keys(w.want)) {
		c := w.cluster(k)
		ns, n, _ := splitKey(k)
		ev := rec{"e": "settled", "c": "MySQLCluster/" + k, "ns": ns, "name": n, "want": []rec{}}
		if c != nil && c.DeletionTimestamp == nil && c.Annotations[constants.AnnReconciliationStopped] != "true" {
			ev["want"] = w.reference(c)
		}
		w.log(ev)
	}
	w.log(rec{"e": "rest"})
}

// reference returns what MOCO makes for a cluster in an otherwise empty Kubernetes cluster.
func (w *world) reference(c *mocov1beta2.MySQLCluster) []rec {
	r := &world{tok: w.tok, rnd: w.rnd, mute: true, run: map[string]string{}, want: map[string]spec{}, revs: map[string]string{}, last: map[string]string{}}
	r.srv = newServer()
	for _, k := range []string{"StorageClass", "ConfigMap", "Secret", "BackupPolicy"} {
		for _, o := range w.srv.all(k) {
			if owner(o) != "" {
				continue
			}
			o.SetResourceVersion("")
			o.SetManagedFields(nil)
			must(r.srv.inner.Create(bg, o))
		}
	}
	x := &mocov1beta2.MySQLCluster{Spec: *c.Spec.DeepCopy()}
	x.Namespace, x.Name, x.UID, x.Annotations, x.Finalizers, x.Generation = c.Namespace, c.Name, c.UID, maps.Clone(c.Annotations), slices.Clone(c.Finalizers), 1
	x.CreationTimestamp = c.CreationTimestamp
	must(r.srv.inner.Create(bg, x))
	x.Status.RestoredTime = c.Status.RestoredTime
	must(r.srv.inner.Status().Update(bg, x))
	cs, rs := *metrics.ClusteringStoppedVec, *metrics.ReconciliationStoppedVec
	_, _ = cs, rs
	r.api = &api{Client: r.srv.inner, w: r, hooks: map[int]func(){}}
	rr := *w.rec
	rr.Client, rr.ClusterManager = r.api, &stubMgr{r}
	r.rec = &rr
	for range 2 {
		_, _, _ = protect(func() (ctrl.Result, error) {
			return r.rec.Reconcile(bg, ctrl.Request{NamespacedName: client.ObjectKeyFromObject(c)})
		})
	}
	res := []rec{}
	for _, k := range slices.Sorted(maps.Keys(kinds)) {
		for _, o := range r.srv.all(k) {
			if owner(o) == string(c.UID) || k == "Certificate" && o.GetName() == c.CertificateName() {
				res = append(res, rec{"k": k + "/" + o.GetNamespace() + "/" + o.GetName(), "fp": fingerprint(o)})
			}
		}
	}
	return res
}

func gib(n int) resource.Quantity { return resource.MustParse(fmt.Sprintf("%dGi", n)) }
