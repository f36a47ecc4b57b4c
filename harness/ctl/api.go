package ctl

import (
	"context"
	"errors"
	"strings"

	"github.com/cybozu-go/moco/pkg/password"
	corev1 "k8s.io/api/core/v1"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

// fault makes the n-th request of a reconciliation fail.
type fault struct {
	n     int
	after bool // the request is carried out, but the answer is lost
	crash bool // MOCO dies with it
	kind  int
}

// raced: another controller process is faster in creating the object.
const raced = 3

// api is the client MOCO gets.
type api struct {
	client.Client
	w     *world
	n     int
	fault *fault
	dead  bool
	busy  bool
	hooks map[int]func() // what happens right before the n-th request
	keys  []string       // the requests of this reconciliation
}

func (a *api) prepare(f *fault, hooks map[int]func()) {
	a.n, a.fault, a.hooks, a.busy, a.keys = 0, f, hooks, true, nil
	if hooks == nil {
		a.hooks = map[int]func(){}
	}
}

var errCrashed = errors.New("crashed")

func (a *api) request(ctx context.Context, write bool, key string, do func() error) error {
	if a.dead {
		return errCrashed
	}
	if ctx.Err() != nil {
		return ctx.Err()
	}
	a.n++
	if write {
		a.keys = append(a.keys, key)
	} else {
		a.keys = append(a.keys, "")
	}
	a.w.srv.finish()
	if h := a.hooks[a.n]; h != nil {
		delete(a.hooks, a.n)
		h()
	}
	f := a.fault
	if f == nil || f.n != a.n || f.kind == raced {
		return do()
	}
	if f.after {
		_ = do()
	}
	a.dead = f.crash
	a.w.log(rec{"e": "fault", "after": f.after, "crash": f.crash, "write": write, "key": key, "obj": key[strings.LastIndex(key, " ")+1:]})
	switch {
	case f.kind == 1 && write:
		return apierrors.NewConflict(schema.GroupResource{Resource: "x"}, key, errors.New("injected"))
	case f.kind == 2:
		return apierrors.NewServerTimeout(schema.GroupResource{Resource: "x"}, "op", 1)
	}
	return apierrors.NewInternalError(errors.New("injected"))
}

func name(o client.Object) string { return kindOf(o) + "/" + o.GetNamespace() + "/" + o.GetName() }

func (a *api) Get(ctx context.Context, key types.NamespacedName, obj client.Object, opts ...client.GetOption) error {
	return a.request(ctx, false, "get "+kindOf(obj)+"/"+key.String(), func() error {
		err := a.w.srv.inner.Get(ctx, key, obj, opts...)
		a.w.srv.disown(kindOf(obj), obj)
		return err
	})
}

func (a *api) List(ctx context.Context, l client.ObjectList, opts ...client.ListOption) error {
	return a.request(ctx, false, "list", func() error { return a.w.srv.inner.List(ctx, l, opts...) })
}

func (a *api) Create(ctx context.Context, obj client.Object, opts ...client.CreateOption) error {
	return a.request(ctx, true, "create "+name(obj), func() error {
		if f := a.fault; f != nil && f.n == a.n && f.kind == raced {
			other := obj.DeepCopyObject().(client.Object)
			if s, ok := other.(*corev1.Secret); ok && len(s.Data) > 0 {
				pw, err := password.NewMySQLPassword()
				must(err)
				if n := pw.ToSecret(); len(n.Data) == len(s.Data) {
					s.Data = n.Data
				}
			}
			must(a.w.srv.create(other, "create"))
		}
		return a.w.srv.create(obj, "create", opts...)
	})
}

func (a *api) Update(ctx context.Context, obj client.Object, opts ...client.UpdateOption) error {
	return a.request(ctx, true, "update "+name(obj), func() error { return a.w.srv.update(obj, "update", opts...) })
}

func (a *api) Patch(ctx context.Context, obj client.Object, p client.Patch, opts ...client.PatchOption) error {
	return a.request(ctx, true, "patch "+name(obj), func() error { return a.w.srv.patch(obj, p, "patch", opts...) })
}

func (a *api) Apply(ctx context.Context, ac runtime.ApplyConfiguration, opts ...client.ApplyOption) error {
	k, ns, n := acKey(ac)
	return a.request(ctx, true, "apply "+k+"/"+ns+"/"+n, func() error { return a.w.srv.apply(ac, "apply", opts...) })
}

func (a *api) Delete(ctx context.Context, obj client.Object, opts ...client.DeleteOption) error {
	var o client.DeleteOptions
	o.ApplyOptions(opts)
	orphan := o.PropagationPolicy != nil && *o.PropagationPolicy == metav1.DeletePropagationOrphan
	by := "delete"
	if orphan {
		by = "orphan"
	}
	return a.request(ctx, true, by+" "+name(obj), func() error {
		if p := o.Preconditions; p != nil {
			cur := a.w.srv.current(kindOf(obj), obj.GetNamespace(), obj.GetName())
			if cur != nil && (p.UID != nil && *p.UID != cur.GetUID() || p.ResourceVersion != nil && *p.ResourceVersion != cur.GetResourceVersion()) {
				return apierrors.NewConflict(schema.GroupResource{Resource: "x"}, obj.GetName(), errors.New("precondition"))
			}
		}
		return a.w.srv.delete(obj, by, orphan)
	})
}

func (a *api) DeleteAllOf(ctx context.Context, obj client.Object, opts ...client.DeleteAllOfOption) error {
	var o client.DeleteAllOfOptions
	o.ApplyOptions(opts)
	return a.request(ctx, true, "deleteall", func() error {
		kind := kindOf(obj)
		for _, x := range a.w.srv.all(kind) {
			if x.GetNamespace() == o.Namespace && (o.LabelSelector == nil || o.LabelSelector.Matches(lset(x.GetLabels()))) {
				if err := a.w.srv.delete(x, "delete", false); err != nil {
					return err
				}
			}
		}
		return nil
	})
}

type lset map[string]string

func (l lset) Has(k string) bool              { _, ok := l[k]; return ok }
func (l lset) Get(k string) string            { return l[k] }
func (l lset) Lookup(k string) (string, bool) { v, ok := l[k]; return v, ok }

func (a *api) Status() client.SubResourceWriter { return statusWriter{a.Client.Status(), a} }

func (a *api) SubResource(s string) client.SubResourceClient {
	if s == "status" {
		return subClient{a.Client.SubResource(s), statusWriter{a.Client.Status(), a}}
	}
	return a.Client.SubResource(s)
}

type subClient struct {
	client.SubResourceReader
	client.SubResourceWriter
}

type statusWriter struct {
	client.SubResourceWriter
	a *api
}

func (s statusWriter) Update(ctx context.Context, obj client.Object, opts ...client.SubResourceUpdateOption) error {
	return s.a.request(ctx, true, "status "+name(obj), func() error { return s.a.w.srv.updateStatus(obj, "status") })
}

func (s statusWriter) Patch(ctx context.Context, obj client.Object, p client.Patch, opts ...client.SubResourcePatchOption) error {
	return s.a.request(ctx, true, "status "+name(obj), func() error {
		if err := s.a.w.srv.inner.Status().Patch(ctx, obj, p, opts...); err != nil {
			return err
		}
		s.a.w.srv.note(kindOf(obj), obj.GetNamespace(), obj.GetName(), "status")
		return nil
	})
}
