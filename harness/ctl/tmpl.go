package ctl

import (
	"encoding/json"
	"fmt"
	"slices"
	"strings"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/constants"
	batchv1 "k8s.io/api/batch/v1"
	corev1 "k8s.io/api/core/v1"
)

func as[T any](v any) T {
	var t T
	b, err := json.Marshal(v)
	must(err)
	must(json.Unmarshal(b, &t))
	return t
}

func ptr[T any](v T) *T { return &v }

// ours tells the parts of a pod that belong to MOCO.
var ourVolumes = []string{"tmp", "run", "var-log", "mysql-conf-d", "shared", "mysql-conf", "my-cnf-secret", "grpc-cert", "slow-fluent-bit-config", "mysql-data"}
var ourPorts = []string{"mysql", "mysqlx", "mysql-admin", "health"}

const defaultsFile = "--defaults-file=/etc/mysql/my.cnf"

// userPart keeps what a pod has from the template of the user.
func userPart(ps corev1.PodSpec, ours func(string) bool) string {
	var p corev1.PodSpec = *ps.DeepCopy()
	p.ServiceAccountName, p.DeprecatedServiceAccount = "", ""
	mounts := func(l []corev1.VolumeMount) []corev1.VolumeMount {
		return slices.DeleteFunc(l, func(m corev1.VolumeMount) bool { return slices.Contains(ourVolumes, m.Name) })
	}
	var cs []corev1.Container
	for _, c := range p.Containers {
		if c.Name == "mysqld" {
			c.VolumeMounts = mounts(c.VolumeMounts)
			c.Args = slices.DeleteFunc(c.Args, func(a string) bool { return a == defaultsFile })
			c.Ports = slices.DeleteFunc(c.Ports, func(x corev1.ContainerPort) bool { return slices.Contains(ourPorts, x.Name) })
			c.Lifecycle = nil
			for _, pr := range []**corev1.Probe{&c.StartupProbe, &c.LivenessProbe, &c.ReadinessProbe} {
				if *pr == nil {
					*pr = &corev1.Probe{}
				}
				(*pr).ProbeHandler = corev1.ProbeHandler{}
			}
		} else if ours(c.Name) {
			continue
		}
		cs = append(cs, c)
	}
	p.Containers = cs
	p.InitContainers = slices.DeleteFunc(p.InitContainers, func(c corev1.Container) bool { return c.Name == "moco-init" || c.Name == "copy-moco-init" })
	p.Volumes = slices.DeleteFunc(p.Volumes, func(v corev1.Volume) bool { return slices.Contains(ourVolumes, v.Name) })
	for _, l := range [][]corev1.Container{p.Containers, p.InitContainers} {
		for i := range l {
			slices.SortFunc(l[i].VolumeMounts, func(a, b corev1.VolumeMount) int { return strings.Compare(a.MountPath, b.MountPath) })
		}
	}
	slices.SortFunc(p.Containers, func(a, b corev1.Container) int { return strings.Compare(a.Name, b.Name) })
	slices.SortFunc(p.Volumes, func(a, b corev1.Volume) int { return strings.Compare(a.Name, b.Name) })
	return hash(p)
}

func oursIn(c *mocov1beta2.MySQLCluster) func(string) bool {
	return func(n string) bool {
		return n == "agent" || n == "slow-log" && !c.Spec.DisableSlowQueryLogContainer || n == "mysqld-exporter" && len(c.Spec.Collectors) > 0
	}
}

func spread(name string) *corev1.Affinity {
	return as[*corev1.Affinity](json.RawMessage(fmt.Sprintf(`{"podAntiAffinity":{"preferredDuringSchedulingIgnoredDuringExecution":[{"weight":100,"podAffinityTerm":{
"labelSelector":{"matchExpressions":[{"key":"app.kubernetes.io/name","operator":"In","values":["mysql"]},{"key":"app.kubernetes.io/instance","operator":"In","values":[%q]},
{"key":"app.kubernetes.io/created-by","operator":"In","values":["moco"]}]},"topologyKey":"kubernetes.io/hostname"}}]}}`, name)))
}

// wantedPod is the part of the pods that the user asks for, with the documented defaults.
func wantedPod(c *mocov1beta2.MySQLCluster) string {
	p := as[corev1.PodSpec](&c.Spec.PodTemplate.Spec)
	if p.TerminationGracePeriodSeconds == nil {
		p.TerminationGracePeriodSeconds = ptr(int64(300))
	}
	if p.SecurityContext == nil {
		p.SecurityContext = &corev1.PodSecurityContext{}
	}
	if p.SecurityContext.FSGroup == nil {
		p.SecurityContext.FSGroup = ptr(int64(10000))
	}
	if p.SecurityContext.FSGroupChangePolicy == nil {
		p.SecurityContext.FSGroupChangePolicy = ptr(corev1.FSGroupChangeOnRootMismatch)
	}
	if p.Affinity == nil {
		p.Affinity = spread(c.Name)
	}
	for _, l := range [][]corev1.Container{p.Containers, p.InitContainers} {
		for i := range l {
			x := &l[i]
			if x.SecurityContext == nil {
				x.SecurityContext = &corev1.SecurityContext{}
			}
			if x.SecurityContext.RunAsUser == nil {
				x.SecurityContext.RunAsUser = ptr(int64(10000))
			}
			if x.SecurityContext.RunAsGroup == nil {
				x.SecurityContext.RunAsGroup = ptr(int64(10000))
			}
			if x.Name == "mysqld" {
				if x.StartupProbe == nil {
					x.StartupProbe = &corev1.Probe{}
				}
				if x.StartupProbe.PeriodSeconds == 0 {
					x.StartupProbe.PeriodSeconds = 10
				}
				if x.StartupProbe.FailureThreshold == 0 {
					x.StartupProbe.FailureThreshold = max(c.Spec.StartupWaitSeconds/10, 1)
				}
			}
		}
	}
	// a container of the user that MOCO provides itself is not used
	return userPart(p, oursIn(c))
}

func without(m map[string]string, keys ...string) map[string]string {
	r := map[string]string{}
	for k, v := range m {
		if !slices.Contains(keys, k) {
			r[k] = v
		}
	}
	return r
}

func userMeta(labels, annotations map[string]string) string {
	return hash([]any{without(labels, constants.LabelAppInstance, constants.LabelAppName, constants.LabelAppCreatedBy), without(annotations)})
}

// facts lists what the containers made by MOCO are like.
func facts(p corev1.PodSpec) []string {
	r := []string{}
	add := func(f string, a ...any) { r = append(r, fmt.Sprintf(f, a...)) }
	for _, v := range p.Volumes {
		if v.ConfigMap == nil && v.Secret == nil {
			add("volume %s", v.Name)
		}
	}
	for _, c := range append(slices.Clone(p.InitContainers), p.Containers...) {
		for _, x := range c.Ports {
			add("%s port %s:%d", c.Name, x.Name, x.ContainerPort)
		}
		for _, x := range c.VolumeMounts {
			add("%s mount %s:%s", c.Name, x.Name, x.MountPath)
		}
		for _, x := range c.EnvFrom {
			if x.SecretRef != nil {
				add("%s secret %s", c.Name, x.SecretRef.Name)
			}
		}
		for _, x := range c.Env {
			if x.ValueFrom != nil && x.ValueFrom.FieldRef != nil {
				add("%s env %s<%s", c.Name, x.Name, x.ValueFrom.FieldRef.FieldPath)
			} else {
				add("%s env %s=%s", c.Name, x.Name, x.Value)
			}
		}
		for n, x := range map[string]*corev1.Probe{"startup": c.StartupProbe, "liveness": c.LivenessProbe, "readiness": c.ReadinessProbe} {
			if x != nil && x.HTTPGet != nil {
				add("%s %s %s:%s", c.Name, n, x.HTTPGet.Port.String(), x.HTTPGet.Path)
			}
		}
		if c.Lifecycle != nil && c.Lifecycle.PreStop != nil && c.Lifecycle.PreStop.Exec != nil {
			add("%s stop %s", c.Name, strings.Join(c.Lifecycle.PreStop.Exec.Command, " "))
		}
		add("%s image %s", c.Name, c.Image)
		if c.Name == "mysqld" && slices.Contains(c.Args, defaultsFile) {
			add("mysqld arg %s", defaultsFile)
		}
	}
	slices.Sort(r)
	return r
}

// options gives arguments as a list of flag=value, and others as they are.
func options(args []string) []string {
	r := []string{}
	for i := 0; i < len(args); i++ {
		a := args[i]
		if strings.HasPrefix(a, "--") && !strings.Contains(a, "=") && i+1 < len(args) && !strings.HasPrefix(args[i+1], "--") && a != "--use-path-style" {
			a += "=" + args[i+1]
			i++
		}
		r = append(r, a)
	}
	return r
}

func containerArgs(p corev1.PodSpec, name string) []string {
	for _, c := range append(slices.Clone(p.InitContainers), p.Containers...) {
		if c.Name == name {
			return options(append(slices.Clone(c.Command), c.Args...))
		}
	}
	return []string{}
}

func resourcesOf(p corev1.PodSpec) rec {
	r := rec{}
	for _, c := range append(slices.Clone(p.InitContainers), p.Containers...) {
		r[c.Name] = resStr(c.Resources)
	}
	return r
}

func resStr(q corev1.ResourceRequirements) string {
	s := []string{}
	for k, l := range map[string]corev1.ResourceList{"request": q.Requests, "limit": q.Limits} {
		for n, v := range l {
			s = append(s, fmt.Sprintf("%s %s %s", k, n, v.String()))
		}
	}
	slices.Sort(s)
	return strings.Join(s, ",")
}

// jobArgs splits arguments of moco-backup into flags and the others.
func jobArgs(args []string) (flags, others []string) {
	flags, others = []string{}, []string{}
	for _, a := range options(args) {
		if strings.HasPrefix(a, "--") {
			flags = append(flags, a)
		} else {
			others = append(others, a)
		}
	}
	return
}

func bucketFlags(jc *mocov1beta2.JobConfig) []string {
	b := jc.BucketConfig
	r := []string{fmt.Sprintf("--threads=%d", jc.Threads)}
	for k, v := range map[string]string{"region": b.Region, "endpoint": b.EndpointURL, "backend-type": b.BackendType, "ca-cert": b.CaCert} {
		if v != "" {
			r = append(r, "--"+k+"="+v)
		}
	}
	if b.UsePathStyle {
		r = append(r, "--use-path-style")
	}
	return r
}

type jobSettings struct {
	Resources string
	Env       []corev1.EnvVar
	EnvFrom   []corev1.EnvFromSource
	Volumes   []corev1.Volume
	Mounts    []corev1.VolumeMount
	Schedule  string
}

func (s jobSettings) hash() string {
	slices.SortFunc(s.Env, func(a, b corev1.EnvVar) int { return strings.Compare(a.Name, b.Name) })
	slices.SortFunc(s.Volumes, func(a, b corev1.Volume) int { return strings.Compare(a.Name, b.Name) })
	slices.SortFunc(s.Mounts, func(a, b corev1.VolumeMount) int { return strings.Compare(a.MountPath, b.MountPath) })
	for _, x := range []any{&s.Env, &s.EnvFrom, &s.Volumes, &s.Mounts} {
		b, _ := json.Marshal(x)
		if string(b) == "null" {
			must(json.Unmarshal([]byte("[]"), x))
		}
	}
	return hash(s)
}

func num[T int32 | int64](p *T) string {
	if p == nil {
		return "-"
	}
	return fmt.Sprint(*p)
}

// wantedJob is what a job is to be like.
func wantedJob(jc *mocov1beta2.JobConfig, bp *mocov1beta2.BackupPolicySpec) string {
	q := corev1.ResourceRequirements{Requests: corev1.ResourceList{}, Limits: corev1.ResourceList{}}
	if jc.CPU != nil {
		q.Requests["cpu"] = *jc.CPU
	}
	if jc.Memory != nil {
		q.Requests["memory"] = *jc.Memory
	}
	if jc.MaxCPU != nil {
		q.Limits["cpu"] = *jc.MaxCPU
	}
	if jc.MaxMemory != nil {
		q.Limits["memory"] = *jc.MaxMemory
	}
	s := jobSettings{Resources: resStr(q), Env: as[[]corev1.EnvVar](jc.Env), EnvFrom: as[[]corev1.EnvFromSource](jc.EnvFrom),
		Volumes: as[[]corev1.Volume](jc.Volumes), Mounts: as[[]corev1.VolumeMount](jc.VolumeMounts)}
	s.Volumes = append(s.Volumes, corev1.Volume{Name: "work", VolumeSource: as[corev1.VolumeSource](&jc.WorkVolume)})
	s.Mounts = append(s.Mounts, corev1.VolumeMount{Name: "work", MountPath: "/work"})
	if bp != nil {
		s.Schedule = strings.Join([]string{num(bp.StartingDeadlineSeconds), num(bp.SuccessfulJobsHistoryLimit), num(bp.FailedJobsHistoryLimit),
			num(bp.ActiveDeadlineSeconds), num(bp.BackoffLimit), or(bp.TimeZone)}, " ")
	}
	return s.hash()
}

func jobOf(p corev1.PodSpec, cj *batchv1.CronJobSpec) string {
	if len(p.Containers) != 1 {
		return "-"
	}
	c := p.Containers[0].DeepCopy()
	s := jobSettings{Resources: resStr(c.Resources), EnvFrom: c.EnvFrom, Volumes: slices.Clone(p.Volumes), Mounts: c.VolumeMounts}
	for _, e := range c.Env {
		if e.Name != "MYSQL_PASSWORD" {
			s.Env = append(s.Env, e)
		}
	}
	if cj != nil {
		s.Schedule = strings.Join([]string{num(cj.StartingDeadlineSeconds), num(cj.SuccessfulJobsHistoryLimit), num(cj.FailedJobsHistoryLimit),
			num(cj.JobTemplate.Spec.ActiveDeadlineSeconds), num(cj.JobTemplate.Spec.BackoffLimit), or(cj.TimeZone)}, " ")
	}
	return s.hash()
}

// serviceUser is what a Service has from the template of the user.
func serviceUser(labels, annotations map[string]string, s corev1.ServiceSpec) string {
	x := *s.DeepCopy()
	x.Selector = nil
	x.Ports = slices.DeleteFunc(x.Ports, func(p corev1.ServicePort) bool { return slices.Contains(ourPorts, p.Name) })
	x.ClusterIP, x.ClusterIPs, x.IPFamilies, x.IPFamilyPolicy = "", nil, nil, nil
	return hash([]any{userMeta(labels, annotations), x})
}

func wantedService(t *mocov1beta2.ServiceTemplate) string {
	if t == nil {
		t = &mocov1beta2.ServiceTemplate{}
	}
	var s corev1.ServiceSpec
	if t.Spec != nil {
		s = as[corev1.ServiceSpec](t.Spec)
	}
	return serviceUser(t.Labels, t.Annotations, s)
}

func ruleStrings(verbs, groups, resources, names []string) []string {
	r := []string{}
	for _, g := range groups {
		for _, x := range resources {
			for _, v := range verbs {
				r = append(r, strings.Trim(g+"/"+x+" "+v+" "+strings.Join(names, ","), " "))
			}
		}
	}
	return r
}
