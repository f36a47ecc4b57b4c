package ctl

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"path/filepath"
	"regexp"
	"slices"
	"strconv"
	"strings"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/constants"
	appsv1 "k8s.io/api/apps/v1"
	batchv1 "k8s.io/api/batch/v1"
	corev1 "k8s.io/api/core/v1"
	policyv1 "k8s.io/api/policy/v1"
	rbacv1 "k8s.io/api/rbac/v1"
	storagev1 "k8s.io/api/storage/v1"
	"k8s.io/apimachinery/pkg/api/resource"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

func splitKey(k string) (a, b string, ok bool) { return strings.Cut(k, "/") }

type rec map[string]any

func hash(v any) string {
	b, err := json.Marshal(v)
	must(err)
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:6])
}

// owner returns the UID of the controller of an object.
func owner(o client.Object) string {
	for _, r := range o.GetOwnerReferences() {
		if r.Controller != nil && *r.Controller {
			return string(r.UID)
		}
	}
	return ""
}

// fingerprint identifies everything about an object but its identity, its status
// and what other components fill in.
func fingerprint(o client.Object) string {
	m, err := runtime.DefaultUnstructuredConverter.ToUnstructured(o.DeepCopyObject())
	must(err)
	delete(m, "status")
	delete(m, "apiVersion")
	delete(m, "kind")
	md := m["metadata"].(map[string]any)
	keep := map[string]any{}
	for _, k := range []string{"labels", "annotations", "ownerReferences"} {
		if v, ok := md[k]; ok {
			keep[k] = v
		}
	}
	m["metadata"] = keep
	switch t := o.(type) {
	case *corev1.Secret:
		if _, ok := t.Annotations[constants.AnnSecretVersion]; ok {
			delete(m, "data") // random
		}
	case *appsv1.StatefulSet:
		sp := m["spec"].(map[string]any)
		delete(sp, "updateStrategy")
	case *batchv1.CronJob:
		delete(m["spec"].(map[string]any), "suspend") // up to the user
	case *corev1.PersistentVolumeClaim:
		sp := m["spec"].(map[string]any)
		delete(sp, "resources")
		for _, f := range []string{"labels", "annotations"} {
			if l, ok := keep[f].(map[string]any); ok {
				delete(l, "sync")
				if len(l) == 0 {
					delete(keep, f)
				}
			}
		}
	case *mocov1beta2.MySQLCluster:
		return hash(m["spec"])
	}
	return hash(m)
}

func gi(q interface{ Value() int64 }) int64 { return q.Value() >> 30 }

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func or(p *string) string {
	if p == nil {
		return ""
	}
	return *p
}

var reMyCnf = regexp.MustCompile(`(?s)user="([^"]*)"\s*password="([^"]*)"`)

// passwords known so far: token per content of a controller secret
type tokens struct {
	pw   map[string]string            // hash -> token
	data map[string]map[string][]byte // token -> data
	crt  map[string]string
}

func newTokens() *tokens {
	return &tokens{pw: map[string]string{}, data: map[string]map[string][]byte{}, crt: map[string]string{}}
}

func (t *tokens) password(d map[string][]byte) string {
	ok := 0
	for _, k := range []string{"ADMIN", "AGENT", "REPLICATION", "CLONE_DONOR", "EXPORTER", "BACKUP", "READONLY", "WRITABLE"} {
		if len(d[k+"_PASSWORD"]) > 0 {
			ok++
		}
	}
	if ok < 8 {
		return "broken"
	}
	h := hash(d)
	if _, found := t.pw[h]; !found {
		t.pw[h] = "p" + strconv.Itoa(len(t.pw)+1)
		t.data[t.pw[h]] = d
	}
	return t.pw[h]
}

// mycnf returns the token of the passwords given in a my.cnf secret.
func (t *tokens) mycnf(d map[string][]byte) string {
	want := map[string][2]string{
		constants.AdminMyCnf:    {constants.AdminUser, "ADMIN_PASSWORD"},
		constants.ExporterMyCnf: {constants.ExporterUser, "EXPORTER_PASSWORD"},
		constants.BackupMyCnf:   {constants.BackupUser, "BACKUP_PASSWORD"},
		constants.ReadOnlyMyCnf: {constants.ReadOnlyUser, "READONLY_PASSWORD"},
		constants.WritableMyCnf: {constants.WritableUser, "WRITABLE_PASSWORD"},
	}
	for tok, pw := range t.data {
		ok := len(d) == len(want)
		for f, w := range want {
			m := reMyCnf.FindSubmatch(d[f])
			ok = ok && m != nil && string(m[1]) == w[0] && string(m[2]) == string(pw[w[1]])
		}
		if ok {
			return tok
		}
	}
	return "broken"
}

func (t *tokens) cert(d map[string][]byte) string {
	h := hash(d)
	if _, found := t.crt[h]; !found {
		t.crt[h] = "t" + strconv.Itoa(len(t.crt)+1)
	}
	return t.crt[h]
}

func confOption(conf, key string) string {
	v := ""
	for _, l := range strings.Split(conf, "\n") {
		k, x, ok := strings.Cut(l, "=")
		if ok && strings.TrimSpace(k) == key {
			v = strings.TrimSpace(x)
		}
	}
	return v
}

func condition(c *mocov1beta2.MySQLCluster, typ string) string {
	for _, x := range c.Status.Conditions {
		if x.Type == typ {
			return string(x.Status)
		}
	}
	return "none"
}

func argsOf(p corev1.PodSpec) []string {
	if len(p.Containers) != 1 {
		return []string{}
	}
	return p.Containers[0].Args
}

func names(cs []corev1.Container) []string {
	r := []string{}
	for _, c := range cs {
		r = append(r, c.Name)
	}
	slices.Sort(r)
	return r
}

// project gives the view of an object that the specification talks about.
func (t *tokens) project(o client.Object) rec {
	r := rec{"owner": owner(o), "owners": len(o.GetOwnerReferences()), "fp": fingerprint(o), "gone": false}
	switch x := o.(type) {
	case *mocov1beta2.MySQLCluster:
		r["uid"] = string(x.UID)
		r["ns"], r["name"] = x.Namespace, x.Name
		r["deleting"] = x.DeletionTimestamp != nil
		r["fin"] = slices.Contains(x.Finalizers, constants.MySQLClusterFinalizer)
		r["gen"], r["recGen"] = x.Generation, x.Status.ReconcileInfo.Generation
		r["replicas"], r["offline"] = x.Spec.Replicas, x.Spec.Offline
		r["backup"] = or(x.Spec.BackupPolicyName)
		r["conf"] = or(x.Spec.MySQLConfigMapName)
		r["restore"], r["restored"] = x.Spec.Restore != nil, x.Status.RestoredTime != nil
		rs := rec{"src": []string{}, "sa": "", "bucket": "", "point": "", "flags": []string{}, "set": "", "schema": "", "users": ""}
		if s := x.Spec.Restore; s != nil {
			rs = rec{"src": []string{s.SourceNamespace, s.SourceName}, "sa": s.JobConfig.ServiceAccountName,
				"bucket": s.JobConfig.BucketConfig.BucketName, "point": s.RestorePoint.UTC().Format(constants.BackupTimeFormat),
				"flags": bucketFlags(&s.JobConfig), "set": wantedJob(&s.JobConfig, nil), "schema": s.Schema, "users": s.Users}
		}
		r["rspec"] = rs
		r["recStop"] = x.Annotations[constants.AnnReconciliationStopped] == "true"
		r["cluStop"] = x.Annotations[constants.AnnClusteringStopped] == "true"
		r["force"] = x.Annotations[constants.AnnForceRollingUpdate] == "true"
		r["slow"] = !x.Spec.DisableSlowQueryLogContainer
		r["slowTmpl"] = strings.ReplaceAll(or(x.Spec.SlowQueryLogConfigTmpl), "{{ .Path }}", filepath.Join(constants.LogDirPath, constants.MySQLSlowLogName))
		r["exporter"] = len(x.Spec.Collectors) > 0
		size, vl, va, vc := rec{}, rec{}, rec{}, rec{}
		for _, v := range x.Spec.VolumeClaimTemplates {
			q := v.StorageSize()
			size[v.Name], vl[v.Name], va[v.Name] = gi(&q), v.Labels["sync"], v.Annotations["sync"]
			vc[v.Name] = fmt.Sprint(or(v.Spec.StorageClassName), v.Spec.AccessModes)
		}
		r["vols"], r["vl"], r["va"], r["vc"] = size, vl, va, vc
		var extra, inits []string
		img, mem, srl := "", int64(0), ""
		for _, c := range x.Spec.PodTemplate.Spec.Containers {
			if or(c.Name) == "mysqld" {
				img = or(c.Image)
				if c.Resources != nil && c.Resources.Limits != nil {
					mem = c.Resources.Limits.Memory().Value()
				}
				if c.Resources != nil && c.Resources.Requests != nil && !c.Resources.Requests.Memory().IsZero() {
					mem = c.Resources.Requests.Memory().Value()
				}
			} else {
				extra = append(extra, or(c.Name))
			}
		}
		for _, c := range x.Spec.PodTemplate.Spec.InitContainers {
			inits = append(inits, or(c.Name))
		}
		for _, oc := range x.Spec.PodTemplate.OverwriteContainers {
			if oc.Name == mocov1beta2.SlowQueryLogAgentContainerName && oc.Resources != nil && oc.Resources.Requests != nil {
				srl = oc.Resources.Requests.Cpu().String()
			}
		}
		r["img"], r["mem"], r["slowCPU"] = img, mem>>20, srl
		r["extra"], r["inits"] = append([]string{}, extra...), append([]string{}, inits...)
		svc := func(s *mocov1beta2.ServiceTemplate) string {
			if s == nil || s.Spec == nil || s.Spec.Type == nil {
				return ""
			}
			return string(*s.Spec.Type)
		}
		r["psvc"], r["rsvc"] = wantedService(x.Spec.PrimaryServiceTemplate), wantedService(x.Spec.ReplicaServiceTemplate)
		r["pod"], r["meta"] = wantedPod(x), userMeta(x.Spec.PodTemplate.Labels, x.Spec.PodTemplate.Annotations)
		r["idBase"], r["tz"], r["local"] = fmt.Sprint(x.Spec.ServerIDBase), fmt.Sprint(x.Spec.InitializeTimezoneData), x.Spec.AgentUseLocalhost
		r["delay"], r["rot"], r["rotSize"] = "", x.Spec.LogRotationSchedule, ""
		if x.Spec.MaxDelaySeconds != nil {
			r["delay"] = fmt.Sprintf("%ds", *x.Spec.MaxDelaySeconds)
		}
		if x.Spec.LogRotationSize > 0 {
			r["rotSize"] = fmt.Sprint(x.Spec.LogRotationSize)
		}
		r["coll"] = append([]string{}, x.Spec.Collectors...)
		over := rec{}
		for _, oc := range x.Spec.PodTemplate.OverwriteContainers {
			if oc.Resources != nil && oc.Name != mocov1beta2.SlowQueryLogAgentContainerName {
				over[string(oc.Name)] = resStr(as[corev1.ResourceRequirements](oc.Resources))
			}
		}
		r["over"] = over
		r["ptype"], r["rtype"] = svc(x.Spec.PrimaryServiceTemplate), svc(x.Spec.ReplicaServiceTemplate)
		cond := rec{}
		for _, k := range []string{"Available", "Healthy", "ClusteringActive", "ReconciliationActive", "ReconcileSuccess", "StatefulSetReady"} {
			cond[k] = condition(x, k)
		}
		r["cond"] = cond
	case *mocov1beta2.BackupPolicy:
		r["schedule"], r["sa"] = x.Spec.Schedule, x.Spec.JobConfig.ServiceAccountName
		r["bucket"], r["threads"] = x.Spec.JobConfig.BucketConfig.BucketName, fmt.Sprint(x.Spec.JobConfig.Threads)
		r["conc"] = string(x.Spec.ConcurrencyPolicy)
		r["flags"], r["set"], r["aff"] = bucketFlags(&x.Spec.JobConfig), wantedJob(&x.Spec.JobConfig, &x.Spec), ""
		if x.Spec.JobConfig.Affinity != nil {
			r["aff"] = hash(as[corev1.Affinity](x.Spec.JobConfig.Affinity))
		}
	case *corev1.Secret:
		r["pw"], r["cnf"], r["crt"] = "", "", ""
		if strings.HasPrefix(x.Name, "moco-my-cnf-") {
			r["cnf"] = t.mycnf(x.Data)
		} else if strings.HasPrefix(x.Name, "mysql-") || x.Annotations[constants.AnnSecretVersion] != "" || x.Data["ADMIN_PASSWORD"] != nil {
			r["pw"] = t.password(x.Data)
		} else {
			r["crt"] = t.cert(x.Data)
		}
	case *corev1.ConfigMap:
		conf := x.Data[constants.MySQLConfName]
		r["maxconn"], r["opt"] = confOption(conf, "max_connections"), x.Data["max_connections"]
		pool, _ := resource.ParseQuantity(confOption(conf, "innodb_buffer_pool_size"))
		r["pool"] = pool.Value() >> 20
		r["slow"] = x.Data[constants.FluentBitConfigName]
		r["lower"] = x.Data[constants.LowerCaseTableNamesConfKey]
		r["at"] = x.CreationTimestamp.Unix() % 1000000
	case *corev1.Service:
		r["role"], r["inst"] = x.Spec.Selector[constants.LabelMocoRole], x.Spec.Selector[constants.LabelAppInstance]
		r["nsel"] = len(x.Spec.Selector)
		r["app"] = x.Spec.Selector[constants.LabelAppName] + "," + x.Spec.Selector[constants.LabelAppCreatedBy]
		r["headless"], r["type"], r["notReady"] = x.Spec.ClusterIP == corev1.ClusterIPNone, string(x.Spec.Type), x.Spec.PublishNotReadyAddresses
		r["user"] = serviceUser(x.Labels, x.Annotations, x.Spec)
		ports := rec{"mysql": 0, "mysqlx": 0, "mysql-admin": 0}
		for _, p := range x.Spec.Ports {
			if p.TargetPort.StrVal == p.Name && p.Protocol == corev1.ProtocolTCP {
				ports[p.Name] = p.Port
			}
		}
		r["ports"] = rec{"mysql": ports["mysql"], "mysqlx": ports["mysqlx"], "admin": ports["mysql-admin"]}
		r["lbl"] = x.Labels[constants.LabelAppInstance] + "," + x.Labels[constants.LabelAppName] + "," + x.Labels[constants.LabelAppCreatedBy]
	case *appsv1.StatefulSet:
		r["uid"] = string(x.UID)
		r["deleting"] = x.DeletionTimestamp != nil
		r["replicas"] = *x.Spec.Replicas
		r["force"] = x.Annotations[constants.AnnForceRollingUpdate] == "true"
		r["part"] = -1
		if ru := x.Spec.UpdateStrategy.RollingUpdate; ru != nil && ru.Partition != nil {
			r["part"] = *ru.Partition
		}
		size, vl, va, vc := rec{}, rec{}, rec{}, rec{}
		for _, v := range x.Spec.VolumeClaimTemplates {
			size[v.Name], vl[v.Name], va[v.Name] = gi(v.Spec.Resources.Requests.Storage()), v.Labels["sync"], v.Annotations["sync"]
			vc[v.Name] = fmt.Sprint(or(v.Spec.StorageClassName), v.Spec.AccessModes)
		}
		r["vols"], r["vl"], r["va"], r["vc"] = size, vl, va, vc
		p := x.Spec.Template.Spec
		vols := rec{"mysql-conf": "", "slow-fluent-bit-config": "", "my-cnf-secret": "", "grpc-cert": ""}
		for _, v := range p.Volumes {
			if v.ConfigMap != nil {
				vols[v.Name] = v.ConfigMap.Name
			}
			if v.Secret != nil {
				vols[v.Name] = v.Secret.SecretName
			}
		}
		r["cm"], r["slowcm"] = vols[constants.MySQLConfVolumeName], vols[constants.SlowQueryLogAgentConfigVolumeName]
		r["cnf"], r["grpc"] = vols[constants.MySQLConfSecretVolumeName], vols[constants.GRPCSecretVolumeName]
		for _, k := range []string{"slowcm", "cm", "cnf", "grpc"} {
			if r[k] == nil {
				r[k] = ""
			}
		}
		img, scpu := "", ""
		for _, c := range p.Containers {
			if c.Name == "mysqld" {
				img = c.Image
			}
			if c.Name == "slow-log" {
				scpu = c.Resources.Requests.Cpu().String()
			}
		}
		r["img"], r["slowCPU"] = img, scpu
		r["ctrs"], r["inits"] = names(p.Containers), names(p.InitContainers)
		r["pod"] = userPart(p, func(n string) bool {
			for _, c := range p.Containers { // the containers of MOCO have its images
				if c.Name == n {
					return c.Image == ourImages[n]
				}
			}
			return false
		})
		r["meta"] = userMeta(x.Spec.Template.Labels, x.Spec.Template.Annotations)
		r["facts"], r["res"] = facts(p), resourcesOf(p)
		r["args"] = rec{"agent": containerArgs(p, "agent"), "init": containerArgs(p, "moco-init"), "exporter": containerArgs(p, "mysqld-exporter")}
		r["sa"], r["svc"] = p.ServiceAccountName, x.Spec.ServiceName
		r["inst"] = x.Spec.Selector.MatchLabels[constants.LabelAppInstance]
		l := x.Spec.Template.Labels
		r["lbl"] = l[constants.LabelAppInstance] + "," + l[constants.LabelAppName] + "," + l[constants.LabelAppCreatedBy]
		r["parallel"] = x.Spec.PodManagementPolicy == appsv1.ParallelPodManagement
		r["gen"], r["obs"] = x.Generation, x.Status.ObservedGeneration
		r["ready"], r["updated"], r["avail"] = x.Status.ReadyReplicas, x.Status.UpdatedReplicas, x.Status.AvailableReplicas
		r["rev"], r["cur"] = x.Status.UpdateRevision, x.Status.CurrentRevision
		r["cluster"] = ""
		for _, w := range x.OwnerReferences {
			if w.Kind == "MySQLCluster" {
				r["cluster"] = "MySQLCluster/" + x.Namespace + "/" + w.Name
			}
		}
	case *corev1.Pod:
		r["inst"] = x.Labels[constants.LabelAppInstance]
		r["lbl"] = x.Labels[constants.LabelAppInstance] + "," + x.Labels[constants.LabelAppName] + "," + x.Labels[constants.LabelAppCreatedBy]
		r["ord"] = -1
		if i := strings.LastIndex(x.Name, "-"); i >= 0 {
			if n, err := strconv.Atoi(x.Name[i+1:]); err == nil {
				r["ord"] = n
			}
		}
		r["rev"] = x.Labels[appsv1.ControllerRevisionHashLabelKey]
		r["deleting"] = x.DeletionTimestamp != nil
		r["ready"], r["readyAt"] = false, 0
		for _, c := range x.Status.Conditions {
			if c.Type == corev1.PodReady && c.Status == corev1.ConditionTrue {
				r["ready"], r["readyAt"] = true, c.LastTransitionTime.Unix()-epoch
			}
		}
		cr := true
		for _, c := range x.Status.ContainerStatuses {
			cr = cr && c.Ready
		}
		for _, c := range x.Status.InitContainerStatuses {
			cr = cr && c.Ready
		}
		r["ctrs"] = cr
	case *corev1.PersistentVolumeClaim:
		r["size"] = gi(x.Spec.Resources.Requests.Storage())
		r["l"], r["a"] = x.Labels["sync"], x.Annotations["sync"]
		r["class"] = or(x.Spec.StorageClassName)
		r["lbl"] = x.Labels[constants.LabelAppInstance] + "," + x.Labels[constants.LabelAppName] + "," + x.Labels[constants.LabelAppCreatedBy]
	case *storagev1.StorageClass:
		r["expand"] = x.AllowVolumeExpansion != nil && *x.AllowVolumeExpansion
	case *policyv1.PodDisruptionBudget:
		r["max"] = -1
		if x.Spec.MaxUnavailable != nil {
			r["max"] = x.Spec.MaxUnavailable.IntVal
		}
		r["lbl"] = ""
		if s := x.Spec.Selector; s != nil && len(s.MatchLabels) == 3 && len(s.MatchExpressions) == 0 {
			r["lbl"] = s.MatchLabels[constants.LabelAppInstance] + "," + s.MatchLabels[constants.LabelAppName] + "," + s.MatchLabels[constants.LabelAppCreatedBy]
		}
	case *batchv1.CronJob:
		r["active"] = len(x.Status.Active) > 0
		r["schedule"], r["conc"] = x.Spec.Schedule, string(x.Spec.ConcurrencyPolicy)
		p := x.Spec.JobTemplate.Spec.Template.Spec
		r["sa"], r["secret"] = p.ServiceAccountName, envSecret(p)
		r["flags"], r["args"] = jobArgs(argsOf(p))
		r["set"], r["aff"], r["restart"] = jobOf(p, &x.Spec), hash(p.Affinity), string(p.RestartPolicy)
	case *batchv1.Job:
		p := x.Spec.Template.Spec
		r["sa"], r["secret"] = p.ServiceAccountName, envSecret(p)
		r["flags"], r["args"] = jobArgs(argsOf(p))
		r["set"], r["restart"], r["backoff"] = jobOf(p, nil), string(p.RestartPolicy), num(x.Spec.BackoffLimit)
	case *rbacv1.Role:
		c := ""
		for _, u := range x.Rules {
			if slices.Contains(u.Resources, "mysqlclusters") && slices.Contains(u.Resources, "mysqlclusters/status") && slices.Contains(u.Verbs, "update") {
				c = strings.Join(u.ResourceNames, ",")
			}
		}
		r["cluster"] = c
		may := []string{}
		for _, u := range x.Rules {
			may = append(may, ruleStrings(u.Verbs, u.APIGroups, u.Resources, u.ResourceNames)...)
		}
		r["may"] = may
	case *rbacv1.RoleBinding:
		r["role"] = x.RoleRef.Name
		r["sa"] = ""
		if len(x.Subjects) == 1 && x.Subjects[0].Kind == "ServiceAccount" {
			r["sa"] = x.Subjects[0].Namespace + "/" + x.Subjects[0].Name
		}
	case *unstructured.Unstructured:
		d, _, _ := unstructured.NestedStringSlice(x.Object, "spec", "dnsNames")
		sn, _, _ := unstructured.NestedString(x.Object, "spec", "secretName")
		r["dns"], r["secret"] = strings.Join(d, ","), sn
	}
	return r
}

func envSecret(p corev1.PodSpec) string {
	for _, c := range p.Containers {
		for _, e := range c.Env {
			if e.Name == "MYSQL_PASSWORD" && e.ValueFrom != nil && e.ValueFrom.SecretKeyRef != nil {
				return e.ValueFrom.SecretKeyRef.Name + "/" + e.ValueFrom.SecretKeyRef.Key
			}
		}
	}
	return ""
}

// images of the containers that MOCO adds
var ourImages = map[string]string{"agent": "agent:1", "slow-log": "fluent:1", "mysqld-exporter": "exporter:1"}
