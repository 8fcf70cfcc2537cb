package main

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"time"

	appsv1 "k8s.io/api/apps/v1"
	corev1 "k8s.io/api/core/v1"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/labels"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/apimachinery/pkg/util/httpstream"
	"k8s.io/client-go/kubernetes"
	appsclient "k8s.io/client-go/kubernetes/typed/apps/v1"
	coreclient "k8s.io/client-go/kubernetes/typed/core/v1"

	"vmc/vs"
)

const (
	ms  = time.Millisecond
	sec = time.Second
)

type key struct{ ns, name string }

// cluster is what the run captures from.
type cluster struct {
	kubernetes.Interface // any call not provided for crashes

	ns      string
	deps    map[key]*appsv1.Deployment
	uids    int
	created *appsv1.Deployment // by the run
	deleted bool               // what the run created is gone
	readyAt time.Duration      // after the creation
	// the pod may run without ever being ready
	runningAt time.Duration
	at        time.Duration // of the creation
	seen      time.Duration // first told to be ready
	told      bool
	pods      func(c *cluster) []corev1.Pod
	touched   []string
	requests  int

	interrupt     func()
	interruptedAt time.Duration
	interrupted   bool

	faults []string // what went wrong so far
	fatal  bool     // the capture cannot succeed
	maybe  bool     // it may or may not
	delErr bool
	budget int // of faults
	clock  bool
}

// choose 0 or, if more faults may happen, one of them.
func (c *cluster) choose(n int) int {
	if c.budget == 0 {
		return 0
	}
	i := vs.Choose(n)
	if i > 0 {
		c.budget--
	}
	return i
}

func (c *cluster) stop() {
	if !c.interrupted {
		c.interrupted, c.interruptedAt = true, vs.Elapsed()
		c.interrupt()
	}
}

var errFault = errors.New("injected failure")

// fault decides the outcome of a call: it may fail, or be interrupted while
// it runs or just before it returns.
func (c *cluster) fault(ctx context.Context, call string) error {
	c.requests++
	if err := ctx.Err(); err != nil {
		return err
	}
	switch c.choose(4) {
	case 1:
		c.faults = append(c.faults, call+" fails")
		return errFault
	case 2:
		c.faults = append(c.faults, "interrupted during "+call)
		c.stop()
		if ctx.Done() != nil {
			<-ctx.Done()
			return ctx.Err()
		}
	case 3:
		c.faults = append(c.faults, "interrupted as "+call+" returns")
		c.stop()
	}
	return nil
}

func (c *cluster) AppsV1() appsclient.AppsV1Interface { return apps{c: c} }
func (c *cluster) CoreV1() coreclient.CoreV1Interface { return core{c: c} }

type apps struct {
	appsclient.AppsV1Interface
	c *cluster
}

type core struct {
	coreclient.CoreV1Interface
	c *cluster
}

func (a apps) Deployments(ns string) appsclient.DeploymentInterface {
	return deployments{c: a.c, ns: ns}
}
func (a core) Pods(ns string) coreclient.PodInterface { return podsIn{c: a.c, ns: ns} }

type deployments struct {
	appsclient.DeploymentInterface
	c  *cluster
	ns string
}

var depRes = schema.GroupResource{Group: "apps", Resource: "deployments"}

func (d deployments) status(x *appsv1.Deployment) *appsv1.Deployment {
	c := d.c
	out := x.DeepCopy()
	if x == c.created {
		out.Status.Replicas, out.Status.UpdatedReplicas, out.Status.ObservedGeneration = 1, 1, 1
		if vs.Elapsed() >= c.at+c.readyAt {
			out.Status.ReadyReplicas, out.Status.AvailableReplicas = 1, 1
			out.Status.Conditions = []appsv1.DeploymentCondition{{Type: appsv1.DeploymentAvailable, Status: corev1.ConditionTrue}}
			if !c.told {
				c.told, c.seen = true, vs.Elapsed()
			}
		}
	}
	return out
}

func (d deployments) Get(ctx context.Context, name string, _ metav1.GetOptions) (*appsv1.Deployment, error) {
	c := d.c
	x := c.deps[key{d.ns, name}]
	if err := c.fault(ctx, "get deployment "+name); err != nil {
		if c.created == nil {
			c.fatal = true
		}
		return nil, err
	}
	if x == nil {
		if c.created == nil {
			c.fatal = true
		}
		return nil, apierrors.NewNotFound(depRes, name)
	}
	return d.status(x), nil
}

func (d deployments) List(ctx context.Context, o metav1.ListOptions) (*appsv1.DeploymentList, error) {
	c := d.c
	if err := c.fault(ctx, "list deployments"); err != nil {
		return nil, err
	}
	sel, err := labels.Parse(o.LabelSelector)
	if err != nil {
		return nil, apierrors.NewBadRequest(err.Error())
	}
	out := &appsv1.DeploymentList{}
	for k, x := range c.deps {
		if k.ns == d.ns && sel.Matches(labels.Set(x.Labels)) {
			out.Items = append(out.Items, *d.status(x))
		}
	}
	return out, nil
}

func (d deployments) Create(ctx context.Context, x *appsv1.Deployment, _ metav1.CreateOptions) (*appsv1.Deployment, error) {
	c := d.c
	if err := c.fault(ctx, "create deployment"); err != nil {
		c.fatal = true
		return nil, err
	}
	k := key{d.ns, x.Name}
	if x.Namespace != "" && x.Namespace != d.ns {
		return nil, apierrors.NewBadRequest("the namespace of the provided object does not match the namespace sent on the request")
	}
	if c.deps[k] != nil {
		c.fatal = true
		return nil, apierrors.NewAlreadyExists(depRes, x.Name)
	}
	sel, err := metav1.LabelSelectorAsSelector(x.Spec.Selector)
	if err != nil || sel.Empty() || !sel.Matches(labels.Set(x.Spec.Template.Labels)) {
		c.fatal = true
		return nil, apierrors.NewBadRequest("`selector` does not match template `labels`")
	}
	x = x.DeepCopy()
	c.uids++
	x.Namespace, x.UID = d.ns, types.UID(fmt.Sprint("uid-", c.uids))
	c.deps[k] = x
	if c.created != nil {
		vs.Fail("violation", "the run deploys twice")
	}
	c.created, c.at = x, vs.Elapsed()
	return x.DeepCopy(), nil
}

func (d deployments) Delete(ctx context.Context, name string, o metav1.DeleteOptions) error {
	c := d.c
	k := key{d.ns, name}
	x := c.deps[k]
	c.touched = append(c.touched, fmt.Sprint("delete ", d.ns, "/", name))
	if err := ctx.Err(); err != nil {
		c.delErr = c.clock // out of time
		return err
	}
	switch c.choose(4) {
	case 1:
		c.faults = append(c.faults, "delete fails")
		c.delErr = true
		return errFault
	case 2:
		c.faults = append(c.faults, "delete hangs")
		if ctx.Done() == nil {
			vs.Fail("violation", "the deletion may hang forever")
		}
		<-ctx.Done()
		c.delErr = true
		return ctx.Err()
	case 3:
		c.faults = append(c.faults, "interrupted during delete")
		c.maybe = true
		c.stop()
		if err := ctx.Err(); err != nil {
			c.delErr = c.clock
			return err
		}
	}
	if x == nil {
		c.delErr = true
		return apierrors.NewNotFound(depRes, name)
	}
	if p := o.Preconditions; p != nil && p.UID != nil && *p.UID != x.UID {
		return apierrors.NewConflict(depRes, name, errors.New("the UID does not match"))
	}
	if x == c.created {
		c.deleted = true
	} else {
		vs.Fail("violation", "the run deletes the deployment %s/%s, which it did not create", d.ns, name)
	}
	delete(c.deps, k)
	return nil
}

type podsIn struct {
	coreclient.PodInterface
	c  *cluster
	ns string
}

func (p podsIn) List(ctx context.Context, o metav1.ListOptions) (*corev1.PodList, error) {
	c := p.c
	if err := c.fault(ctx, "list pods"); err != nil {
		c.fatal = true
		return nil, err
	}
	sel, err := labels.Parse(o.LabelSelector)
	if err != nil {
		return nil, apierrors.NewBadRequest(err.Error())
	}
	out := &corev1.PodList{}
	for _, x := range c.pods(c) {
		if x.Namespace == p.ns && sel.Matches(labels.Set(x.Labels)) {
			out.Items = append(out.Items, x)
		}
	}
	out.Items, out.Continue = page(out.Items, o)
	return out, nil
}

// page of a list of items as asked for.
func page[T any](l []T, o metav1.ListOptions) ([]T, string) {
	at := 0
	if o.Continue != "" {
		fmt.Sscanf(o.Continue, "at%d", &at)
	}
	l = l[min(at, len(l)):]
	if o.Limit > 0 && int64(len(l)) > o.Limit {
		return l[:o.Limit], fmt.Sprintf("at%d", at+int(o.Limit))
	}
	return l, ""
}

func (p podsIn) Get(ctx context.Context, name string, _ metav1.GetOptions) (*corev1.Pod, error) {
	c := p.c
	if err := c.fault(ctx, "get pod"); err != nil {
		c.fatal = true
		return nil, err
	}
	for _, x := range c.pods(c) {
		if x.Namespace == p.ns && x.Name == name {
			return &x, nil
		}
	}
	return nil, apierrors.NewNotFound(schema.GroupResource{Resource: "pods"}, name)
}

// stream is a connection to a pod.
type stream struct {
	pod    string
	closed chan bool
	open   bool
}

func (s *stream) CreateStream(http.Header) (httpstream.Stream, error) {
	return nil, errors.New("not used")
}
func (s *stream) Close() error {
	if s.open {
		s.open = false
		close(s.closed)
	}
	return nil
}
func (s *stream) CloseChan() <-chan bool             { return s.closed }
func (s *stream) SetIdleTimeout(time.Duration)       {}
func (s *stream) RemoveStreams(...httpstream.Stream) {}

// mine reports whether the pod belongs to what the run created.
func (c *cluster) mine(name string) bool { return c.created != nil && name == c.podName() }

func (c *cluster) podName() string { return c.created.Name + "-7d9c5b6f4-m" + string(c.created.UID) }

func newPod(ns, name string, lab map[string]string) corev1.Pod {
	return corev1.Pod{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: name, Labels: lab, UID: types.UID("pod-" + name)}}
}

// pod as it is now
func (c *cluster) pod() []corev1.Pod {
	if c.created == nil || c.deleted {
		return nil
	}
	lab := map[string]string{"pod-template-hash": "7d9c5b6f4"}
	for k, v := range c.created.Spec.Template.Labels {
		lab[k] = v
	}
	p := newPod(c.ns, c.podName(), lab)
	p.Spec = *c.created.Spec.Template.Spec.DeepCopy()
	setPhase(&p, vs.Elapsed() >= c.at+c.runningAt)
	if vs.Elapsed() < c.at+c.readyAt {
		for i := range p.Status.Conditions[1:] {
			p.Status.Conditions[1+i].Status = corev1.ConditionFalse
		}
		p.Status.ContainerStatuses[0].Ready = false
	}
	yes := true
	p.OwnerReferences = []metav1.OwnerReference{{APIVersion: "apps/v1", Kind: "ReplicaSet", Name: c.created.Name + "-7d9c5b6f4", Controller: &yes}}
	return []corev1.Pod{p}
}

func setPhase(p *corev1.Pod, ready bool) {
	st := corev1.ConditionFalse
	p.Status.Phase = corev1.PodPending
	if ready {
		st, p.Status.Phase = corev1.ConditionTrue, corev1.PodRunning
		now := metav1.NewTime(time.Unix(0, 0))
		p.Status.StartTime, p.Status.PodIP = &now, "10.1.2.3"
	}
	p.Status.Conditions = []corev1.PodCondition{{Type: corev1.PodScheduled, Status: corev1.ConditionTrue}, {Type: corev1.PodReady, Status: st}, {Type: corev1.ContainersReady, Status: st}}
	p.Status.ContainerStatuses = []corev1.ContainerStatus{{Name: "vanflow-server", Ready: ready}}
	if ready {
		p.Status.ContainerStatuses[0].State.Running = &corev1.ContainerStateRunning{}
	}
}
