package ctl

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"slices"
	"strings"
	"testing"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/constants"
	admissionv1 "k8s.io/api/admission/v1"
	appsv1 "k8s.io/api/apps/v1"
	storagev1 "k8s.io/api/storage/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/client/fake"
)

// failingReader is an API server that may be down.
type failingReader struct {
	client.Reader
	down bool
}

func (r *failingReader) Get(ctx context.Context, k client.ObjectKey, o client.Object, opts ...client.GetOption) error {
	if r.down {
		return errors.New("down")
	}
	return r.Reader.Get(ctx, k, o, opts...)
}

func (r *failingReader) List(ctx context.Context, l client.ObjectList, opts ...client.ListOption) error {
	if r.down {
		return errors.New("down")
	}
	return r.Reader.List(ctx, l, opts...)
}

func admissionServer(classes rec, r *failingReader) hooks {
	b := fake.NewClientBuilder().WithScheme(scheme)
	for n, c := range classes {
		sc := &storagev1.StorageClass{}
		sc.Name = n
		x := c.(rec)
		if x["expand"].(bool) {
			sc.AllowVolumeExpansion = new(true)
		} else if len(n)%2 == 0 {
			sc.AllowVolumeExpansion = new(false)
		}
		if x["default"].(bool) {
			k := "storageclass.kubernetes.io/is-default-class"
			if len(n)%2 == 0 {
				k = "storageclass.beta.kubernetes.io/is-default-class"
			}
			sc.Annotations = map[string]string{k: "true"}
		} else if len(n)%3 == 0 {
			sc.Annotations = map[string]string{"storageclass.kubernetes.io/is-default-class": "false"}
		}
		b = b.WithObjects(sc)
	}
	c := b.Build()
	r.Reader = c
	h := hooks{}
	m := stubManager(c, r, h, nil)
	must((&mocov1beta2.MySQLCluster{}).SetupWebhookWithManager(m))
	must((&mocov1beta2.BackupPolicy{}).SetupWebhookWithManager(m))
	must(mocov1beta2.SetupStatefulSetWebhookWithManager(m))
	return h
}

// ---- StatefulSets

type stsReq struct {
	owners [][2]string
	force  string
	ru     int // 0: no rolling update parameters, 1: without partition, 2: with
	part   int
	typ    string
	f      [8]int // the rest of the specification
}

func (s stsReq) object() *appsv1.StatefulSet {
	o := &appsv1.StatefulSet{}
	o.Namespace, o.Name = "x", "moco-a"
	o.Labels = map[string]string{"l": "1"}
	for i, w := range s.owners {
		o.OwnerReferences = append(o.OwnerReferences, metav1.OwnerReference{APIVersion: w[1], Kind: w[0], Name: "a", UID: "u"})
		if i > 0 {
			o.OwnerReferences[i].Name, o.OwnerReferences[i].UID = "b", "v"
		}
	}
	if s.force != "" {
		o.Annotations = map[string]string{constants.AnnForceRollingUpdate: s.force}
	}
	rep := s.f[0]
	sp := map[string]any{"replicas": rep, "serviceName": fmt.Sprint("s", s.f[1]), "podManagementPolicy": []string{"Parallel", "OrderedReady"}[s.f[2]],
		"minReadySeconds": s.f[3], "selector": map[string]any{"matchLabels": map[string]any{"a": "b"}},
		"template": map[string]any{"metadata": map[string]any{"labels": map[string]any{"a": "b", "v": fmt.Sprint(s.f[4])}},
			"spec": map[string]any{"containers": []any{map[string]any{"name": "mysqld", "image": fmt.Sprint("mysql:", s.f[5]),
				"resources": map[string]any{"requests": map[string]any{"cpu": []string{"1", "1000m", "2"}[s.f[6]]}}}}}},
		"volumeClaimTemplates": []any{map[string]any{"metadata": map[string]any{"name": "mysql-data"},
			"spec": map[string]any{"resources": map[string]any{"requests": map[string]any{"storage": fmt.Sprintf("%dGi", 1+s.f[7])}}}}}}
	us := map[string]any{}
	if s.typ != "" {
		us["type"] = s.typ
	}
	switch s.ru {
	case 1:
		us["rollingUpdate"] = map[string]any{}
	case 2:
		us["rollingUpdate"] = map[string]any{"partition": s.part}
	}
	sp["updateStrategy"] = us
	b, err := json.Marshal(sp)
	must(err)
	must(json.Unmarshal(b, &o.Spec))
	return o
}

func (s stsReq) req() int {
	if s.ru == 2 {
		return s.part
	}
	return -1
}

func (s stsReq) rest() string {
	f := s.f
	if f[6] == 1 {
		f[6] = 0 // the same amount
	}
	return fmt.Sprint(f)
}

func partOf(o *appsv1.StatefulSet) int {
	if u := o.Spec.UpdateStrategy.RollingUpdate; u != nil && u.Partition != nil {
		return int(*u.Partition)
	}
	return -1
}

func randSts(r *rand.Rand) stsReq {
	s := stsReq{typ: "RollingUpdate", ru: r.Intn(3), part: r.Intn(6)}
	const g = "moco.cybozu.com/v1beta2"
	s.owners = [][][2]string{{{"MySQLCluster", g}}, {{"MySQLCluster", g}}, {{"MySQLCluster", g}}, {{"MySQLCluster", g}}, {{"MySQLCluster", g}},
		{}, {{"MySQLCluster", "example.com/v1"}}, {{"BackupPolicy", g}}, {{"Other", "apps/v1"}}, {{"MySQLCluster", g}, {"Other", "v1"}}}[r.Intn(10)]
	s.force = []string{"", "", "", "true", "false", "TRUE", "1"}[r.Intn(7)]
	s.f = [8]int{[]int{1, 3, 5, 0}[r.Intn(4)], r.Intn(2), r.Intn(2), r.Intn(2), r.Intn(2), r.Intn(2), r.Intn(3), r.Intn(2)}
	if r.Intn(8) == 0 {
		s.typ = "OnDelete"
		s.ru = 0
	}
	return s
}

func (d *admitter) sts(r *rand.Rand) {
	old, n := randSts(r), stsReq{}
	create := r.Intn(4) == 0
	n = old
	if old.typ == "OnDelete" { // always stored with a partition by MOCO
		old.typ = "RollingUpdate"
	}
	for range []int{0, 0, 1, 1, 1, 2, 3}[r.Intn(7)] {
		x := randSts(r)
		i := r.Intn(8)
		n.f[i] = x.f[i]
	}
	if r.Intn(2) == 0 {
		x := randSts(r)
		n.ru, n.part = x.ru, x.part
		if n.typ == "OnDelete" {
			n.ru = 0
		}
	}
	if r.Intn(4) == 0 {
		n.force = randSts(r).force
	}
	if r.Intn(6) == 0 {
		n.owners = randSts(r).owners
	}
	var oo client.Object
	op := admissionv1.Create
	if !create {
		op = admissionv1.Update
		oo = old.object()
	}
	in := n.object()
	res, err := d.h.review("/mutate-apps-v1-statefulset", op, in, oo)
	must(err)
	ow := []rec{}
	for _, w := range n.owners {
		ow = append(ow, rec{"kind": w[0], "api": w[1]})
	}
	e := rec{"e": "sts", "ok": res.Allowed, "msg": message(res), "part": -1, "rest": true,
		"r": rec{"create": create, "owners": ow, "force": n.force, "req": n.req(), "old": old.req(), "spec": n.rest() + n.typ, "oldSpec": old.rest() + old.typ, "replicas": n.f[0]}}
	if n.typ != old.typ { // the strategy itself is not compared
		e["r"].(rec)["oldSpec"] = old.rest() + n.typ
	}
	e["d"] = fmt.Sprintf("create=%v %+v -> %+v", create, old, n)
	if res.Allowed {
		out := mutate(in, res).(*appsv1.StatefulSet)
		e["part"] = partOf(out)
		a, b := in.DeepCopy(), out.DeepCopy()
		a.Spec.UpdateStrategy.RollingUpdate, b.Spec.UpdateStrategy.RollingUpdate = nil, nil
		a.TypeMeta, b.TypeMeta = metav1.TypeMeta{}, metav1.TypeMeta{}
		e["rest"] = same(a, b)
	}
	d.log(e)
}

func same(a, b any) bool {
	x, err := json.Marshal(a)
	must(err)
	y, err := json.Marshal(b)
	must(err)
	return string(x) == string(y)
}

func message(r *admissionv1.AdmissionResponse) string {
	if r.Result == nil {
		return ""
	}
	m := strings.ReplaceAll(r.Result.Message, "\"", "'")
	return m[:min(len(m), 200)]
}

// ---- MySQLClusters

type claim struct {
	Name  string
	Size  int // in Mi; 0: none
	Class string
	how   int
}
type port struct {
	Num  int
	Name string
}
type container struct {
	Name  string
	Ports []port
}
type cluSpec struct {
	Replicas, Base, Rotate int
	Cron, Src              string
	Restore                [10]int // all zero: none
	Vcts                   []claim
	Ctrs                   []container
	Inits, Vols            []string
	NoSlow, Collectors     bool
	Other                  int
}

func (s cluSpec) clone() cluSpec {
	s.Vcts, s.Ctrs, s.Inits, s.Vols = slices.Clone(s.Vcts), slices.Clone(s.Ctrs), slices.Clone(s.Inits), slices.Clone(s.Vols)
	for i := range s.Ctrs {
		s.Ctrs[i].Ports = slices.Clone(s.Ctrs[i].Ports)
	}
	return s
}

func (s cluSpec) rec() rec {
	vs, cs := []rec{}, []rec{}
	for _, v := range s.Vcts {
		vs = append(vs, rec{"name": v.Name, "size": max(0, v.Size), "class": v.Class})
	}
	for _, c := range s.Ctrs {
		ps := []rec{}
		for _, p := range c.Ports {
			ps = append(ps, rec{"num": p.Num, "name": p.Name})
		}
		cs = append(cs, rec{"name": c.Name, "ports": ps})
	}
	str := func(x []string) []string { return append([]string{}, x...) }
	return rec{"replicas": s.Replicas, "base": s.Base, "cron": s.Cron, "rotate": s.Rotate, "src": s.Src, "restore": fmt.Sprint(s.Restore), "vcts": vs, "ctrs": cs,
		"inits": str(s.Inits), "vols": str(s.Vols), "noslow": s.NoSlow, "collectors": s.Collectors}
}

func (s cluSpec) object(name string) *mocov1beta2.MySQLCluster {
	type m = map[string]any
	var vs, cs, is, ws []any
	for _, v := range s.Vcts {
		sp := m{"accessModes": []any{"ReadWriteOnce"}}
		if v.Class != "" {
			sp["storageClassName"] = v.Class
		}
		switch {
		case v.Size > 0 && v.Size%1024 == 0 && v.how%2 == 0:
			sp["resources"] = m{"requests": m{"storage": fmt.Sprintf("%dGi", v.Size/1024)}}
		case v.Size > 0:
			sp["resources"] = m{"requests": m{"storage": fmt.Sprintf("%dMi", v.Size)}}
		case v.how == 1:
			sp["resources"] = m{}
		case v.how == 2:
			sp["resources"] = m{"requests": m{"cpu": "1"}}
		case v.how == 3:
			sp["resources"] = m{"limits": m{"storage": "1Gi"}}
		}
		vs = append(vs, m{"metadata": m{"name": v.Name}, "spec": sp})
	}
	for _, c := range s.Ctrs {
		var ps []any
		for _, p := range c.Ports {
			x := m{}
			if p.Num != 0 {
				x["containerPort"] = p.Num
			}
			if p.Name != "" {
				x["name"] = p.Name
			}
			ps = append(ps, x)
		}
		x := m{"image": "i", "ports": ps}
		if c.Name != "" {
			x["name"] = c.Name
		}
		cs = append(cs, x)
	}
	for _, n := range s.Inits {
		x := m{"image": "i"}
		if n != "" {
			x["name"] = n
		}
		is = append(is, x)
	}
	for _, n := range s.Vols {
		x := m{"emptyDir": m{}}
		if n != "" {
			x["name"] = n
		}
		ws = append(ws, x)
	}
	sp := m{"replicas": s.Replicas, "serverIDBase": s.Base, "logRotationSchedule": s.Cron, "logRotationSize": s.Rotate, "volumeClaimTemplates": vs,
		"disableSlowQueryLogContainer": s.NoSlow,
		"podTemplate":                  m{"spec": m{"containers": cs, "initContainers": is, "volumes": ws, "priorityClassName": fmt.Sprint("p", s.Other)}}}
	if s.Src != "" {
		sp["replicationSourceSecretName"] = s.Src
	}
	if s.Collectors {
		sp["collectors"] = []any{"engine_innodb_status"}
	}
	if r := s.Restore; r != [10]int{} {
		x := m{"sourceName": fmt.Sprint("n", r[0]), "sourceNamespace": fmt.Sprint("s", r[1]), "restorePoint": fmt.Sprintf("20%02d-01-01T00:00:00Z", 10+r[2]),
			"jobConfig": m{"serviceAccountName": fmt.Sprint("sa", r[3]), "bucketConfig": m{"bucketName": fmt.Sprint("b", r[4])}, "threads": 1 + r[5],
				"workVolume": []m{{"emptyDir": m{}}, {"hostPath": m{"path": "/"}}}[r[6]%2], "memory": fmt.Sprintf("%dGi", 1+r[7])}}
		if r[8] > 0 {
			x["schema"] = fmt.Sprint("db", r[8])
		}
		if r[9] > 1 {
			x["users"] = fmt.Sprint("u", r[9])
		}
		sp["restore"] = x
	}
	b, err := json.Marshal(m{"metadata": m{"namespace": "x", "name": name}, "spec": sp})
	must(err)
	c := &mocov1beta2.MySQLCluster{}
	must(json.Unmarshal(b, c))
	return c
}

var crons = []string{"", "0 * * * *", "*/5 * * * *", "@daily", "@every 1h", "1,2 3-4 * 5 6", "* * * *", "61 * * * *", "foo", "@every 1x", "0 0 * * * *"}

func change1(r *rand.Rand, s *cluSpec) {
	pick := func(xs ...string) string { return xs[r.Intn(len(xs))] }
	vol := func() claim {
		return claim{pick("mysql-data", "logs", "more"), []int{1024, 2048, 512, 1536, 1024, 0}[r.Intn(6)], pick("", "grow", "fixed", "gone", "grow"), r.Intn(4)}
	}
	switch r.Intn(14) {
	case 0, 1:
		s.Replicas = []int{1, 3, 5, 7, 2, 4, 0, -1, -3, 6}[r.Intn(10)]
	case 2:
		s.Base = []int{1, 100, 0, -1, 2147483647}[r.Intn(5)]
	case 3:
		s.Rotate = []int{0, 1, -1, 100}[r.Intn(4)]
	case 4:
		s.Cron = crons[r.Intn(len(crons))]
	case 5:
		s.Src = pick("", "s1", "s2")
	case 6:
		i := r.Intn(10)
		if s.Restore == [10]int{} || r.Intn(4) == 0 {
			s.Restore[9] = 1 - min(1, s.Restore[9])
			if s.Restore[9] == 0 {
				s.Restore = [10]int{}
			}
		} else if i == 9 {
			s.Restore[9] = 1 + r.Intn(3)
		} else {
			s.Restore[i] = 1 - s.Restore[i]
		}
	case 7, 8: // volume claims
		v := vol()
		i := slices.IndexFunc(s.Vcts, func(c claim) bool { return c.Name == v.Name })
		switch {
		case i >= 0 && r.Intn(5) == 0:
			s.Vcts = slices.Delete(s.Vcts, i, i+1)
		case i >= 0:
			if r.Intn(2) == 0 {
				v.Class = s.Vcts[i].Class
			}
			s.Vcts[i] = v
		default:
			s.Vcts = slices.Insert(s.Vcts, r.Intn(len(s.Vcts)+1), v)
		}
	case 9:
		n := pick("agent", "slow-log", "mysqld-exporter", "mine", "", "moco-init", "mysqld")
		i := slices.IndexFunc(s.Ctrs, func(c container) bool { return c.Name == n })
		if i >= 0 {
			s.Ctrs = slices.Delete(s.Ctrs, i, i+1)
		} else {
			s.Ctrs = slices.Insert(s.Ctrs, r.Intn(len(s.Ctrs)+1), container{Name: n})
		}
	case 10:
		if len(s.Ctrs) > 0 {
			c := &s.Ctrs[r.Intn(len(s.Ctrs))]
			p := port{[]int{3306, 33060, 33062, 9081, 9080, 80, 0, 33061}[r.Intn(8)], pick("mysql", "mysqlx", "mysql-admin", "health", "mine", "", "", "agent", "")}
			c.Ports = append(c.Ports, p)
		}
	case 11:
		s.Inits = append(s.Inits, pick("moco-init", "copy-moco-init", "mine", "", "tmp"))
	case 12:
		s.Vols = append(s.Vols, pick("tmp", "run", "var-log", "mysql-conf", "mysql-conf-d", "my-cnf-secret", "slow-fluent-bit-config", "grpc-cert", "shared", "mine", "", "moco-init"))
	case 13:
		switch r.Intn(3) {
		case 0:
			s.NoSlow = !s.NoSlow
		case 1:
			s.Collectors = !s.Collectors
		case 2:
			s.Other++
		}
	}
}

func (d *admitter) clu(r *rand.Rand) {
	old := cluSpec{Replicas: []int{1, 3, 5}[r.Intn(3)], Base: 100, Vcts: []claim{{"mysql-data", 1024, []string{"", "grow", "fixed"}[r.Intn(3)], 0}}, Ctrs: []container{{Name: "mysqld"}}}
	if r.Intn(3) == 0 {
		old.Src = "s1"
	}
	if r.Intn(3) == 0 {
		old.Restore[9] = 1
	}
	if r.Intn(2) == 0 {
		change1(r, &old)
	}
	volumes := r.Intn(4) == 0
	if volumes { // of several volumes, some are enlarged
		for _, c := range []string{"logs", "more"}[:1+r.Intn(2)] {
			if slices.ContainsFunc(old.Vcts, func(v claim) bool { return v.Name == c }) {
				continue
			}
			old.Vcts = slices.Insert(old.Vcts, r.Intn(len(old.Vcts)+1), claim{c, 1024, []string{"", "grow", "fixed", "others"}[r.Intn(4)], 0})
		}
	}
	n := old.clone()
	if volumes {
		for i := range n.Vcts {
			n.Vcts[i].Size = max(0, n.Vcts[i].Size+[]int{0, 0, 1, 1024, -1}[r.Intn(5)])
		}
	}
	for range []int{0, 1, 1, 1, 1, 2, 2, 3}[r.Intn(8)] {
		change1(r, &n)
	}
	create := r.Intn(3) == 0
	name := "a"
	if r.Intn(5) == 0 {
		name = strings.Repeat("a", 39+r.Intn(4))
	}
	d.reader.down = !create && r.Intn(12) == 0
	op, e := admissionv1.Create, rec{"e": "clu", "create": create, "len": len(name), "new": n.rec(), "classes": d.classes, "down": d.reader.down}
	var oo client.Object
	if !create {
		op = admissionv1.Update
		oo = old.object(name)
		e["old"] = old.rec()
	}
	res, err := d.h.review(hookValidate, op, n.object(name), oo)
	must(err)
	e["ok"], e["msg"] = res.Allowed, message(res)
	e["d"] = strings.ReplaceAll(fmt.Sprintf("create=%v name=%d %+v -> %+v", create, len(name), old, n), "\"", "")
	d.log(e)
	if create && !d.reader.down {
		in := n.object(name)
		res, err := d.h.review(hookMutate, op, in, nil)
		must(err)
		e := rec{"e": "default", "ok": res.Allowed, "msg": message(res), "base": n.Base, "out": 0, "fin": false, "rest": true}
		if res.Allowed {
			o := mutate(in, res).(*mocov1beta2.MySQLCluster)
			e["out"], e["fin"] = int(o.Spec.ServerIDBase), slices.Contains(o.Finalizers, constants.MySQLClusterFinalizer)
			o.Spec.ServerIDBase, o.Finalizers = in.Spec.ServerIDBase, in.Finalizers
			o.TypeMeta = in.TypeMeta
			e["rest"] = same(o, in)
		}
		d.log(e)
	}
}

func (d *admitter) pol(r *rand.Rand) {
	p := &mocov1beta2.BackupPolicy{}
	p.Namespace, p.Name = "x", "p"
	p.Spec.Schedule = crons[r.Intn(len(crons))]
	p.Spec.JobConfig.ServiceAccountName = "sa"
	var oo client.Object
	op := admissionv1.Create
	if r.Intn(2) == 0 {
		op = admissionv1.Update
		q := p.DeepCopy()
		q.Spec.Schedule = crons[r.Intn(len(crons))]
		oo = q
	}
	res, err := d.h.review(hookPolicy, op, p, oo)
	must(err)
	d.log(rec{"e": "pol", "ok": res.Allowed, "cron": p.Spec.Schedule})
}

type admitter struct {
	h       hooks
	reader  *failingReader
	classes rec
	out     *bufio.Writer
}

func (d *admitter) log(r rec) {
	b, err := json.Marshal(r)
	must(err)
	d.out.Write(b)
	d.out.WriteByte('\n')
}

func TestAdmit(t *testing.T) {
	f, err := os.Create(os.Getenv("VERIF_OUT"))
	must(err)
	defer f.Close()
	out := bufio.NewWriterSize(f, 1<<20)
	defer out.Flush()
	r := rand.New(rand.NewSource(int64(envInt("VERIF_SEED", 1))*1000 + int64(envInt("VERIF_SHARD", 0))))
	shards := envInt("VERIF_SHARDS", 1)
	for range 8 {
		d := &admitter{reader: &failingReader{}, out: out}
		def := r.Intn(4)
		d.classes = rec{"grow": rec{"expand": true, "default": def == 0}, "fixed": rec{"expand": false, "default": def == 1}, "others": rec{"expand": true, "default": def == 2}}
		d.h = admissionServer(d.classes, d.reader)
		d.log(rec{"e": "reset"})
		for range envInt("VERIF_STS", 1000) / 8 / shards {
			d.sts(r)
		}
		for range envInt("VERIF_CLU", 1000) / 8 / shards {
			d.clu(r)
		}
		for range min(50, envInt("VERIF_CLU", 1000)/8/shards) {
			d.pol(r)
		}
	}
}

var _ = reflect.DeepEqual
