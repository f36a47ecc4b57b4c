// Package ctl drives the real controllers and admission webhooks of MOCO
// against an emulated Kubernetes API server and records what they do.
package ctl

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	admissionv1 "k8s.io/api/admission/v1"
	appsv1 "k8s.io/api/apps/v1"
	batchv1 "k8s.io/api/batch/v1"
	corev1 "k8s.io/api/core/v1"
	policyv1 "k8s.io/api/policy/v1"
	rbacv1 "k8s.io/api/rbac/v1"
	storagev1 "k8s.io/api/storage/v1"
	"k8s.io/apimachinery/pkg/api/equality"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/client-go/rest"
	ctrl "sigs.k8s.io/controller-runtime"
	"sigs.k8s.io/controller-runtime/pkg/cache"
	"sigs.k8s.io/controller-runtime/pkg/cache/informertest"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/client/apiutil"
	"sigs.k8s.io/controller-runtime/pkg/client/fake"
	"sigs.k8s.io/controller-runtime/pkg/healthz"
	"sigs.k8s.io/controller-runtime/pkg/manager"
	metricsserver "sigs.k8s.io/controller-runtime/pkg/metrics/server"
	"sigs.k8s.io/controller-runtime/pkg/webhook"

	jsonpatch "gopkg.in/evanphx/json-patch.v4"
	meta "k8s.io/apimachinery/pkg/api/meta"
)

var bg = context.Background()

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var certGVK = schema.GroupVersionKind{Group: "cert-manager.io", Version: "v1", Kind: "Certificate"}

var scheme = func() *runtime.Scheme {
	s := runtime.NewScheme()
	for _, f := range []func(*runtime.Scheme) error{corev1.AddToScheme, appsv1.AddToScheme, batchv1.AddToScheme, policyv1.AddToScheme,
		rbacv1.AddToScheme, storagev1.AddToScheme} {
		must(f(s))
	}
	must(mocov1beta2.AddToScheme(s))
	s.AddKnownTypeWithName(certGVK, &unstructured.Unstructured{})
	s.AddKnownTypeWithName(certGVK.GroupVersion().WithKind("CertificateList"), &unstructured.UnstructuredList{})
	return s
}()

// kinds lists the kinds of objects in the emulated cluster.
var kinds = map[string]func() (client.Object, client.ObjectList){
	"MySQLCluster": func() (client.Object, client.ObjectList) {
		return &mocov1beta2.MySQLCluster{}, &mocov1beta2.MySQLClusterList{}
	},
	"BackupPolicy": func() (client.Object, client.ObjectList) {
		return &mocov1beta2.BackupPolicy{}, &mocov1beta2.BackupPolicyList{}
	},
	"Secret":    func() (client.Object, client.ObjectList) { return &corev1.Secret{}, &corev1.SecretList{} },
	"ConfigMap": func() (client.Object, client.ObjectList) { return &corev1.ConfigMap{}, &corev1.ConfigMapList{} },
	"ServiceAccount": func() (client.Object, client.ObjectList) {
		return &corev1.ServiceAccount{}, &corev1.ServiceAccountList{}
	},
	"Service":     func() (client.Object, client.ObjectList) { return &corev1.Service{}, &corev1.ServiceList{} },
	"StatefulSet": func() (client.Object, client.ObjectList) { return &appsv1.StatefulSet{}, &appsv1.StatefulSetList{} },
	"Pod":         func() (client.Object, client.ObjectList) { return &corev1.Pod{}, &corev1.PodList{} },
	"PersistentVolumeClaim": func() (client.Object, client.ObjectList) {
		return &corev1.PersistentVolumeClaim{}, &corev1.PersistentVolumeClaimList{}
	},
	"StorageClass": func() (client.Object, client.ObjectList) {
		return &storagev1.StorageClass{}, &storagev1.StorageClassList{}
	},
	"PodDisruptionBudget": func() (client.Object, client.ObjectList) {
		return &policyv1.PodDisruptionBudget{}, &policyv1.PodDisruptionBudgetList{}
	},
	"CronJob":     func() (client.Object, client.ObjectList) { return &batchv1.CronJob{}, &batchv1.CronJobList{} },
	"Job":         func() (client.Object, client.ObjectList) { return &batchv1.Job{}, &batchv1.JobList{} },
	"Role":        func() (client.Object, client.ObjectList) { return &rbacv1.Role{}, &rbacv1.RoleList{} },
	"RoleBinding": func() (client.Object, client.ObjectList) { return &rbacv1.RoleBinding{}, &rbacv1.RoleBindingList{} },
	"Certificate": func() (client.Object, client.ObjectList) {
		o, l := &unstructured.Unstructured{}, &unstructured.UnstructuredList{}
		o.SetGroupVersionKind(certGVK)
		l.SetGroupVersionKind(certGVK.GroupVersion().WithKind("CertificateList"))
		return o, l
	},
}

func kindOf(obj runtime.Object) string {
	gvk, err := apiutil.GVKForObject(obj, scheme)
	must(err)
	return gvk.Kind
}

func newObj(kind, ns, name string) client.Object {
	o, _ := kinds[kind]()
	o.SetNamespace(ns)
	o.SetName(name)
	return o
}

// hooks is the webhook server handed to MOCO; it only remembers the handlers.
type hooks map[string]http.Handler

func (h hooks) NeedLeaderElection() bool                   { return false }
func (h hooks) Register(path string, handler http.Handler) { h[path] = handler }
func (h hooks) Start(ctx context.Context) error            { <-ctx.Done(); return nil }
func (h hooks) StartedChecker() healthz.Checker {
	return func(*http.Request) error { return nil }
}
func (h hooks) WebhookMux() *http.ServeMux { return http.NewServeMux() }

var _ webhook.Server = hooks{}

// review sends an admission request to a webhook of MOCO.
func (h hooks) review(path string, op admissionv1.Operation, obj, old client.Object) (*admissionv1.AdmissionResponse, error) {
	handler, ok := h[path]
	if !ok {
		return nil, fmt.Errorf("no webhook at %s", path)
	}
	some := obj
	if some == nil {
		some = old
	}
	gvk, err := apiutil.GVKForObject(some, scheme)
	must(err)
	raw := func(o client.Object) runtime.RawExtension {
		if o == nil || reflect.ValueOf(o).IsNil() {
			return runtime.RawExtension{}
		}
		o = o.DeepCopyObject().(client.Object)
		o.GetObjectKind().SetGroupVersionKind(gvk)
		b, err := json.Marshal(o)
		must(err)
		return runtime.RawExtension{Raw: b}
	}
	req := admissionv1.AdmissionReview{
		TypeMeta: metav1.TypeMeta{APIVersion: "admission.k8s.io/v1", Kind: "AdmissionReview"},
		Request: &admissionv1.AdmissionRequest{UID: "1", Operation: op, Kind: metav1.GroupVersionKind(gvk),
			Name: some.GetName(), Namespace: some.GetNamespace(), Object: raw(obj), OldObject: raw(old)},
	}
	body, err := json.Marshal(req)
	must(err)
	hr := httptest.NewRequest(http.MethodPost, path, bytes.NewReader(body))
	hr.Header.Set("Content-Type", "application/json")
	rec := httptest.NewRecorder()
	handler.ServeHTTP(rec, hr)
	var res admissionv1.AdmissionReview
	if err := json.Unmarshal(rec.Body.Bytes(), &res); err != nil || res.Response == nil {
		return nil, fmt.Errorf("bad answer from %s: %s", path, rec.Body.String())
	}
	return res.Response, nil
}

// mutate applies the patch of an admission response.
func mutate(obj client.Object, res *admissionv1.AdmissionResponse) client.Object {
	if len(res.Patch) == 0 {
		return obj
	}
	p, err := jsonpatch.DecodePatch(res.Patch)
	must(err)
	gvk, err := apiutil.GVKForObject(obj, scheme)
	must(err)
	o := obj.DeepCopyObject().(client.Object)
	o.GetObjectKind().SetGroupVersionKind(gvk)
	b, err := json.Marshal(o)
	must(err)
	b, err = p.Apply(b)
	must(err)
	n := reflect.New(reflect.TypeOf(obj).Elem()).Interface().(client.Object)
	must(json.Unmarshal(b, n))
	return n
}

// server emulates the API server.
type server struct {
	applied map[string]map[string]any // the last applied configuration by key
	inner   client.WithWatch
	hooks   hooks
	seq     int
	linger  time.Duration // how long an orphaning deletion takes
	gone    map[string]time.Time
	changed func(kind, ns, name string, by string)
}

func newServer() *server {
	s := &server{hooks: hooks{}, gone: map[string]time.Time{}, applied: map[string]map[string]any{}}
	s.inner = fake.NewClientBuilder().WithScheme(scheme).WithReturnManagedFields().
		WithStatusSubresource(&mocov1beta2.MySQLCluster{}, &appsv1.StatefulSet{}, &batchv1.CronJob{}, &corev1.Pod{}).Build()
	m := stubManager(s.inner, s.inner, s.hooks, nil)
	must((&mocov1beta2.MySQLCluster{}).SetupWebhookWithManager(m))
	must((&mocov1beta2.BackupPolicy{}).SetupWebhookWithManager(m))
	must(mocov1beta2.SetupStatefulSetWebhookWithManager(m))
	return s
}

func stubManager(c client.Client, r client.Reader, h hooks, informers *informertest.FakeInformers) manager.Manager {
	if informers == nil {
		informers = &informertest.FakeInformers{Scheme: scheme}
	}
	mapper := meta.NewDefaultRESTMapper(nil)
	for gvk := range scheme.AllKnownTypes() {
		if gvk.Kind == "StorageClass" || gvk.Kind == "Namespace" {
			mapper.Add(gvk, meta.RESTScopeRoot)
		} else {
			mapper.Add(gvk, meta.RESTScopeNamespace)
		}
	}
	m, err := manager.New(&rest.Config{}, manager.Options{
		Scheme:         scheme,
		MapperProvider: func(*rest.Config, *http.Client) (meta.RESTMapper, error) { return mapper, nil },
		NewCache:       func(*rest.Config, cache.Options) (cache.Cache, error) { return informers, nil },
		NewClient:      func(*rest.Config, client.Options) (client.Client, error) { return c, nil },
		Metrics:        metricsserver.Options{BindAddress: "0"},
		WebhookServer:  h,
	})
	must(err)
	return readerManager{m, r}
}

type readerManager struct {
	manager.Manager
	r client.Reader
}

func (m readerManager) GetAPIReader() client.Reader { return m.r }

func (s *server) current(kind, ns, name string) client.Object {
	o := newObj(kind, ns, name)
	if err := s.inner.Get(bg, client.ObjectKeyFromObject(o), o); err != nil {
		if apierrors.IsNotFound(err) {
			return nil
		}
		panic(err)
	}
	return o
}

func (s *server) all(kind string) []client.Object {
	_, l := kinds[kind]()
	must(s.inner.List(bg, l))
	items, err := meta.ExtractList(l)
	must(err)
	var res []client.Object
	for _, it := range items {
		res = append(res, it.(client.Object))
	}
	return res
}

// finish removes StatefulSets whose orphaning deletion is over.
func (s *server) finish() {
	for k, t := range s.gone {
		if time.Now().Before(t) {
			continue
		}
		delete(s.gone, k)
		ns, name, _ := splitKey(k)
		if o := s.current("StatefulSet", ns, name); o != nil && o.GetDeletionTimestamp() != nil {
			o.SetFinalizers(nil)
			must(s.inner.Update(bg, o))
			s.note("StatefulSet", ns, name, "gc")
		}
	}
}

func (s *server) note(kind, ns, name, by string) {
	if s.changed != nil {
		s.changed(kind, ns, name, by)
	}
}

func specOf(o client.Object) any {
	switch t := o.(type) {
	case *appsv1.StatefulSet:
		return t.Spec
	case *mocov1beta2.MySQLCluster:
		return t.Spec
	case *corev1.PersistentVolumeClaim:
		return t.Spec
	}
	return nil
}

// admit does what follows the merge of a request into an object: admission,
// validation and bookkeeping.  If the request is rejected, the object is restored.
func (s *server) admit(kind, ns, name string, old client.Object) error {
	cur := s.current(kind, ns, name)
	if cur == nil {
		return nil
	}
	reject := func(err error) error {
		if old == nil {
			cur.SetFinalizers(nil)
			_ = s.inner.Update(bg, cur)
			_ = s.inner.Delete(bg, cur)
		} else {
			old.SetResourceVersion(cur.GetResourceVersion())
			must(s.inner.Update(bg, old))
		}
		return err
	}
	next := cur
	dirty := false
	if cur.GetUID() == "" {
		s.seq++
		next.SetUID(types.UID(fmt.Sprintf("%s-uid-%d", kind, s.seq)))
		dirty = true
	}
	if cur.GetCreationTimestamp().Time.IsZero() {
		next.SetCreationTimestamp(metav1.NewTime(time.Now().Truncate(time.Second)))
		dirty = true
	}
	ctrls := 0
	for _, r := range cur.GetOwnerReferences() {
		if r.Controller != nil && *r.Controller {
			ctrls++
		}
	}
	if ctrls > 1 {
		return reject(apierrors.NewInvalid(schema.GroupKind{Kind: kind}, name, nil))
	}
	switch t := next.(type) {
	case *appsv1.StatefulSet:
		op := admissionv1.Create
		if old != nil {
			op = admissionv1.Update
			o := old.(*appsv1.StatefulSet)
			if !equality.Semantic.DeepEqual(vct(o), vct(t)) || o.Spec.ServiceName != t.Spec.ServiceName || !equality.Semantic.DeepEqual(o.Spec.Selector, t.Spec.Selector) {
				return reject(apierrors.NewInvalid(schema.GroupKind{Kind: kind}, name, nil))
			}
		}
		res, err := s.hooks.review("/mutate-apps-v1-statefulset", op, t, old)
		if err != nil || !res.Allowed {
			return reject(apierrors.NewForbidden(schema.GroupResource{Resource: kind}, name, fmt.Errorf("%v %v", err, res)))
		}
		next = mutate(t, res)
		dirty = dirty || len(res.Patch) > 0
	case *corev1.PersistentVolumeClaim:
		if old != nil && old.(*corev1.PersistentVolumeClaim).Spec.Resources.Requests.Storage().Cmp(*t.Spec.Resources.Requests.Storage()) > 0 {
			return reject(apierrors.NewInvalid(schema.GroupKind{Kind: kind}, name, nil))
		}
	}
	if sp := specOf(next); sp != nil {
		gen := int64(1)
		if old != nil {
			gen = old.GetGeneration()
			if !equality.Semantic.DeepEqual(specOf(old), sp) || (old.GetDeletionTimestamp() == nil) != (next.GetDeletionTimestamp() == nil) {
				gen++
			}
		}
		if next.GetGeneration() != gen {
			next.SetGeneration(gen)
			dirty = true
		}
	}
	if dirty {
		must(s.inner.Update(bg, next, client.FieldOwner("apiserver")))
	}
	return nil
}

// disown removes what has not been in the last applied configuration from the fields
// owned by its manager.  (The fake client completes configurations with empty structs
// and the status before it applies them; API servers do not.)
func (s *server) disown(kind string, o client.Object) {
	conf, ok := s.applied[kind+"/"+o.GetNamespace()+"/"+o.GetName()]
	if !ok {
		return
	}
	fs := o.GetManagedFields()
	for i := range fs {
		if fs[i].Operation != metav1.ManagedFieldsOperationApply || fs[i].FieldsV1 == nil {
			continue
		}
		m := map[string]any{}
		must(json.Unmarshal(fs[i].FieldsV1.Raw, &m))
		prune(m, conf)
		b, err := json.Marshal(m)
		must(err)
		fs[i].FieldsV1 = &metav1.FieldsV1{Raw: b}
	}
	o.SetManagedFields(fs)
}

func prune(set map[string]any, conf any) {
	for k, v := range set {
		sub, _ := v.(map[string]any)
		typ, arg, _ := strings.Cut(k, ":")
		switch typ {
		case "f":
			m, ok := conf.(map[string]any)
			x, found := m[arg]
			if ok && !found {
				delete(set, k)
			} else if ok && len(sub) > 0 {
				prune(sub, x)
			}
		case "k":
			want := map[string]any{}
			must(json.Unmarshal([]byte(arg), &want))
			l, _ := conf.([]any)
			for _, e := range l {
				m, _ := e.(map[string]any)
				same := true
				for n, w := range want {
					if x, ok := m[n]; ok {
						same = same && reflect.DeepEqual(x, w)
					}
				}
				if same && len(sub) > 0 {
					prune(sub, e)
				}
			}
		}
	}
}

// vct returns the immutable part of the volume claim templates.
func vct(s *appsv1.StatefulSet) any { return s.Spec.VolumeClaimTemplates }

func (s *server) refresh(obj client.Object) {
	if err := s.inner.Get(bg, client.ObjectKeyFromObject(obj), obj); err != nil && !apierrors.IsNotFound(err) {
		panic(err)
	}
}

func (s *server) create(obj client.Object, by string, opts ...client.CreateOption) error {
	kind := kindOf(obj)
	if err := s.inner.Create(bg, obj, opts...); err != nil {
		return err
	}
	if err := s.admit(kind, obj.GetNamespace(), obj.GetName(), nil); err != nil {
		return err
	}
	s.note(kind, obj.GetNamespace(), obj.GetName(), by)
	s.refresh(obj)
	return nil
}

func (s *server) update(obj client.Object, by string, opts ...client.UpdateOption) error {
	kind := kindOf(obj)
	old := s.current(kind, obj.GetNamespace(), obj.GetName())
	if err := s.inner.Update(bg, obj, opts...); err != nil {
		return err
	}
	return s.after(kind, obj, old, by)
}

func (s *server) after(kind string, obj client.Object, old client.Object, by string) error {
	ns, name := obj.GetNamespace(), obj.GetName()
	if err := s.admit(kind, ns, name, old); err != nil {
		return err
	}
	s.note(kind, ns, name, by)
	s.refresh(obj)
	return nil
}

func (s *server) patch(obj client.Object, p client.Patch, by string, opts ...client.PatchOption) error {
	kind := kindOf(obj)
	old := s.current(kind, obj.GetNamespace(), obj.GetName())
	if err := s.inner.Patch(bg, obj, p, opts...); err != nil {
		return err
	}
	return s.after(kind, obj, old, by)
}

func acKey(ac runtime.ApplyConfiguration) (kind, ns, name string) {
	b, err := json.Marshal(ac)
	must(err)
	var x struct {
		Kind     string
		Metadata struct{ Namespace, Name string }
	}
	must(json.Unmarshal(b, &x))
	return x.Kind, x.Metadata.Namespace, x.Metadata.Name
}

func (s *server) apply(ac runtime.ApplyConfiguration, by string, opts ...client.ApplyOption) error {
	kind, ns, name := acKey(ac)
	old := s.current(kind, ns, name)
	b, err := json.Marshal(ac)
	must(err)
	conf := map[string]any{}
	must(json.Unmarshal(b, &conf))
	if old != nil && old.GetDeletionTimestamp() != nil {
		return nil // whatever is applied will be gone
	}
	if err := s.inner.Apply(bg, ac, opts...); err != nil {
		return err
	}
	if err := s.admit(kind, ns, name, old); err != nil {
		return err
	}
	s.applied[kind+"/"+ns+"/"+name] = conf
	s.note(kind, ns, name, by)
	return nil
}

func (s *server) delete(obj client.Object, by string, orphan bool) error {
	kind, ns, name := kindOf(obj), obj.GetNamespace(), obj.GetName()
	old := s.current(kind, ns, name)
	if old == nil {
		return apierrors.NewNotFound(schema.GroupResource{Resource: kind}, name)
	}
	if old.GetDeletionTimestamp() != nil {
		return nil
	}
	if kind == "StatefulSet" && orphan && s.linger > 0 {
		old.SetFinalizers([]string{"orphan"})
		must(s.inner.Update(bg, old))
		s.gone[ns+"/"+name] = time.Now().Add(s.linger)
	}
	if err := s.inner.Delete(bg, newObj(kind, ns, name)); err != nil {
		return err
	}
	if kind == "MySQLCluster" {
		must(s.admit(kind, ns, name, old))
	}
	s.note(kind, ns, name, by)
	if kind == "StatefulSet" {
		for _, p := range s.all("Pod") {
			for _, r := range p.GetOwnerReferences() {
				if r.UID != old.GetUID() {
					continue
				}
				if orphan {
					p.SetOwnerReferences(nil)
					must(s.inner.Update(bg, p))
				} else {
					must(s.inner.Delete(bg, p))
				}
				s.note("Pod", ns, p.GetName(), "gc")
			}
		}
	}
	return nil
}

// evict makes a pod terminate, and leave makes it go away.
func (s *server) evict(p *corev1.Pod) error {
	p.SetFinalizers([]string{"verif/kubelet"})
	if err := s.inner.Update(bg, p); err != nil {
		return err
	}
	return s.delete(p, "user", false)
}

func (s *server) leave(p *corev1.Pod) error {
	p.SetFinalizers(nil)
	if err := s.inner.Update(bg, p); err != nil {
		return err
	}
	s.note("Pod", p.Namespace, p.Name, "kubelet")
	return nil
}

func (s *server) updateStatus(obj client.Object, by string) error {
	if err := s.inner.Status().Update(bg, obj); err != nil {
		return err
	}
	s.note(kindOf(obj), obj.GetNamespace(), obj.GetName(), by)
	return nil
}

// collect emulates the garbage collector: objects whose owner is gone disappear.
func (s *server) collect() {
	uids := map[types.UID]bool{}
	for k := range kinds {
		for _, o := range s.all(k) {
			uids[o.GetUID()] = true
		}
	}
	for again := true; again; {
		again = false
		for k := range kinds {
			for _, o := range s.all(k) {
				rs := o.GetOwnerReferences()
				dead := len(rs) > 0
				for _, r := range rs {
					dead = dead && !uids[r.UID]
				}
				if dead {
					o.SetFinalizers(nil)
					_ = s.inner.Update(bg, o)
					if o.GetDeletionTimestamp() == nil {
						_ = s.inner.Delete(bg, o)
					}
					delete(uids, o.GetUID())
					s.note(k, o.GetNamespace(), o.GetName(), "gc")
					again = true
				}
			}
		}
	}
}

var _ = ctrl.Request{}
