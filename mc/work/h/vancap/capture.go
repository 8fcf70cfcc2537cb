package main

import (
	"context"
	"errors"
	"io"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/c-kruse/vanflow/vancap"
	appsv1 "k8s.io/api/apps/v1"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/util/httpstream"
	"k8s.io/client-go/rest"

	"vmc/vhttp"
	"vmc/vs"
	"vmc/vsignal"
	"vmcwork/fakek8s/kubernetes"
	"vmcwork/fakek8s/portforward"
	"vmcwork/fakek8s/spdy"
)

type setup struct {
	foreign   bool // the cluster may have other deployments
	interrupt bool // at any time
	never     bool // the deployment does not become ready
	files     bool // destinations that cannot be written
	hosts     bool
	pods      bool
	durations bool
	main      bool // the whole command
	faults    int  // at most so many
	clock     bool // timers may fire early: no timing is checked
}

// hosts by what their port forward requests go to
var hosts = [][2]string{
	{"https://10.0.0.1:6443", "https://10.0.0.1:6443"},
	{"https://staging.example.com:6443", "https://staging.example.com:6443"},
	{"https://prod.example.com", "https://prod.example.com"},
	{"https://htps.example.com/", "https://htps.example.com"},
	{"http://127.0.0.1:8001", "http://127.0.0.1:8001"},
	{"https://rancher.example.com/k8s/clusters/c-m-1", "https://rancher.example.com/k8s/clusters/c-m-1"},
	{"https://[2001:db8::1]:6443", "https://[2001:db8::1]:6443"},
	{"api.example.com:6443", "https://api.example.com:6443"},
}

const document = `{"refs":["/","/sources/"],"data":[{"Meta":{"UpdatedAt":"2024-01-01T00:00:00Z","Source":{"APIVersion":"1","Type":"ROUTER","Name":"r"}},"TypeMeta":{"APIVersion":"flow/v1","Type":"SiteRecord"},"Record":{"ID":"x"}}]}` + "\n"

const wrong = "something else entirely\n"

// capture runs one capture and checks what it left.
func capture(o setup) func() {
	return func() {
		ctx, interrupt := context.WithCancel(context.Background())
		defer interrupt()
		c := &cluster{ns: "ns1", deps: map[key]*appsv1.Deployment{}, interrupt: interrupt, budget: o.faults, clock: o.clock}
		add := func(ns, name string) {
			c.uids++
			c.deps[key{ns, name}] = &appsv1.Deployment{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: name, Labels: map[string]string{"app": name}, UID: "other"}}
		}
		add("ns1", "skupper-router")
		add("ns1", "other")
		add("ns2", "vanflow-server")
		if o.foreign {
			switch vs.Choose(3) {
			case 0:
				add("ns1", "vanflow-server") // somebody else's
			case 1:
				delete(c.deps, key{"ns1", "skupper-router"}) // not installed
			case 2:
				delete(c.deps, key{"ns1", "skupper-router"})
				add("ns1", "vanflow-server")
			}
		}
		c.pods = (*cluster).pod
		if o.pods {
			// the pods of an earlier run are still ending, or others match
			n := vs.Choose(5)
			first := vs.Choose(2) == 0
			c.pods = func(c *cluster) []corev1.Pod {
				out := c.pod()
				if n == 0 || c.created == nil {
					return out
				}
				p := newPod("ns1", "vanflow-server-aaaa", map[string]string{"pod-template-hash": "aaaa"})
				for k, v := range c.created.Spec.Template.Labels {
					p.Labels[k] = v
				}
				setPhase(&p, true)
				switch n {
				case 1: // being deleted
					t := metav1.NewTime(time.Unix(1, 0))
					p.DeletionTimestamp = &t
				case 2: // failed
					setPhase(&p, false)
					p.Status.Phase = corev1.PodFailed
				case 3: // of another namespace
					p.Namespace = "ns2"
				case 4: // other labels
					p.Labels = map[string]string{"app": "other"}
				}
				if first {
					return append([]corev1.Pod{p}, out...)
				}
				return append(out, p)
			}
		}
		c.readyAt = time.Duration(vs.Choose(2)) * 7 * sec
		c.runningAt = c.readyAt
		if o.never {
			c.readyAt = time.Hour
			c.fatal = true
			if vs.Choose(2) == 0 {
				c.runningAt = time.Hour
			}
		}
		host := hosts[0]
		if o.hosts {
			host = hosts[vs.Choose(len(hosts))]
		}
		duration := 20 * sec
		if o.durations {
			duration = []time.Duration{0, ms, 3 * sec, 5 * time.Minute}[vs.Choose(4)]
		}
		dir, err := os.MkdirTemp("", "vancap")
		if err != nil {
			panic(err)
		}
		defer func() { os.RemoveAll(dir) }()
		dest := filepath.Join(dir, "out.json")
		if o.main {
			dest = "out.json" // as on the command line
			os.Remove(dest)
			duration = 5 * sec
		}
		if o.files {
			switch vs.Choose(4) {
			case 0:
				dest = filepath.Join(dir, "missing", "out.json")
				c.fatal = true
			case 1:
				dest = dir
				c.fatal = true
			case 2:
				dest = "/dev/full"
				c.fatal = true
			case 3: // replaces what is there
				os.WriteFile(dest, []byte(strings.Repeat("old ", 1000)), 0o644)
			}
		}

		// the API server
		restcfg := &rest.Config{Host: host[0], TLSClientConfig: rest.TLSClientConfig{Insecure: true}}
		spdy.Vmc().RoundTripper = func(cfg *rest.Config) error {
			if cfg != restcfg && cfg.Host != restcfg.Host {
				vs.Fail("violation", "the round tripper is not made from the configuration given")
			}
			if c.choose(2) == 1 {
				c.faults = append(c.faults, "no round tripper")
				c.fatal = true
				return errFault
			}
			return nil
		}
		dialing := 0
		spdy.Vmc().OnDial = func(d spdy.Dial) (httpstream.Connection, error) {
			dialing++
			defer func() { dialing-- }()
			if c.created == nil || c.deleted {
				return nil, errors.New("pods not found")
			}
			u, err := url.Parse(d.URL)
			if err != nil {
				vs.Fail("violation", "dials %q: %v", d.URL, err)
				return nil, err
			}
			base := strings.TrimSuffix(host[1], "/") + "/api/v1/namespaces/ns1/pods/"
			pod, ok := strings.CutSuffix(strings.TrimPrefix(u.String(), base), "/portforward")
			if !ok || !strings.HasPrefix(u.String(), base) || strings.Contains(pod, "/") {
				vs.Fail("violation", "with the API server %s, namespace ns1 the port forward is requested from %s", host[0], d.URL)
			}
			if d.Method != http.MethodPost && d.Method != http.MethodGet {
				vs.Fail("violation", "the port forward is requested by %s", d.Method)
			}
			if d.Config == nil {
				vs.Fail("violation", "the port forward does not use the transport of the cluster configuration")
			}
			if !c.mine(pod) {
				vs.Fail("violation", "the port forward goes to pod %q, not that of the deployment made (%q)", pod, c.podName())
			}
			switch c.choose(5) {
			case 1:
				c.faults = append(c.faults, "dial fails")
				c.fatal = true
				return nil, errFault
			case 2:
				c.faults = append(c.faults, "dial is slow, then fails")
				c.fatal = true
				time.Sleep(30 * sec)
				return nil, errFault
			case 3:
				c.faults = append(c.faults, "interrupted during dial")
				c.stop()
				time.Sleep(2 * sec)
			case 4:
				c.maybe = true
				busy := portforward.Vmc().Busy
				switch vs.Choose(3) {
				case 0:
					c.faults = append(c.faults, "port taken on 127.0.0.1")
					busy["127.0.0.1:9090"] = true
				case 1:
					c.faults = append(c.faults, "port taken")
					busy["127.0.0.1:9090"], busy["::1:9090"] = true, true
				case 2:
					c.faults = append(c.faults, "port taken on ::1")
					busy["::1:9090"] = true
				}
			}
			return &stream{pod: pod, closed: make(chan bool), open: true}, nil
		}

		// the collector
		served := false // the whole document, with success
		vhttp.VmcTransport(func(r *http.Request) (*http.Response, error) {
			if err := r.Context().Err(); err != nil {
				return nil, err
			}
			// localhost may be either
			host := strings.NewReplacer("[", "", "]", "").Replace(r.URL.Host)
			if b := portforward.Vmc().Busy; b[host] || strings.HasPrefix(host, "localhost:") && b["::1:9090"] {
				c.faults = append(c.faults, "somebody else answers")
				return answer(r, 200, strings.NewReader(wrong)), nil
			}
			l := portforward.Vmc().At(strings.Replace(host, "localhost", "127.0.0.1", 1))
			if l == nil {
				return nil, errors.New("connection refused")
			}
			st := l.Conn.(*stream)
			if !st.open || l.Remote != 9090 || r.URL.Scheme != "http" {
				return nil, io.EOF
			}
			if r.URL.Path != "" && r.URL.Path != "/" || r.Method != http.MethodGet {
				return answer(r, 404, strings.NewReader(wrong)), nil
			}
			if c.deleted {
				vs.Fail("violation", "the collector is asked after it was deleted")
			}
			if d := vs.Elapsed() - c.seen; !c.told || d < duration {
				vs.Fail("violation", "the capture is taken %v after the collector was ready, not %v", d, duration)
			}
			switch c.choose(8) {
			case 1:
				c.faults = append(c.faults, "request fails")
				c.fatal = true
				return nil, errFault
			case 2:
				code := []int{500, 404, 204}[vs.Choose(3)]
				c.faults = append(c.faults, "collector answers "+strconv.Itoa(code))
				c.fatal = true
				return answer(r, code, strings.NewReader(`{"error":"no"}`)), nil
			case 3:
				c.faults = append(c.faults, "answer ends early")
				c.fatal = true
				return answer(r, 200, io.MultiReader(strings.NewReader(document[:100]), errReader{io.ErrUnexpectedEOF})), nil
			case 4:
				c.faults = append(c.faults, "interrupted while waiting for the answer")
				c.stop()
				<-r.Context().Done()
				return nil, r.Context().Err()
			case 5:
				c.faults = append(c.faults, "interrupted during the answer")
				return answer(r, 200, io.MultiReader(strings.NewReader(document[:100]), onRead(func() error {
					c.stop()
					<-r.Context().Done()
					return r.Context().Err()
				}))), nil
			case 6:
				c.faults = append(c.faults, "connection to the pod lost")
				c.fatal = true
				st.Close()
				return nil, io.EOF
			case 7:
				c.faults = append(c.faults, "interrupted as the answer ends")
				served = true
				return answer(r, 200, io.MultiReader(strings.NewReader(document), onRead(func() error {
					c.stop()
					return io.EOF
				}))), nil
			}
			served = true
			return answer(r, 200, io.MultiReader(strings.NewReader(document[:50]), strings.NewReader(document[50:]))), nil
		})

		var before []string
		for k := range c.deps {
			before = append(before, k.ns+"/"+k.name)
		}
		if o.interrupt {
			wait := []time.Duration{0, sec, 7 * sec, duration, 7*sec + duration, time.Hour}[vs.Choose(6)]
			vs.GoHarness("interrupt", func() {
				time.Sleep(wait)
				if wait < time.Hour {
					c.faults = append(c.faults, "interrupted")
					c.maybe = true
					c.stop()
				}
			})
		}

		if o.main {
			err = command(c, host[0])
		} else {
			err = vancap.Vancap{Destination: dest, Duration: duration, Restcfg: restcfg, Client: c, Namespace: "ns1"}.Run(ctx)
		}
		done := vs.Elapsed()

		if c.created != nil && !c.deleted && !c.delErr {
			vs.Fail("violation", "%v: the run ended (%v) without deleting its deployment", c.faults, err)
		}
		if c.delErr && err == nil {
			vs.Fail("violation", "%v: the deletion of the deployment failed and the run does not say so", c.faults)
		}
		for _, k := range before {
			ns, name, _ := strings.Cut(k, "/")
			if c.deps[key{ns, name}] == nil {
				vs.Fail("violation", "the deployment %s is gone", k)
			}
		}
		if c.created != nil {
			checkDeployment(c, o.main)
		}
		var content []byte
		if strings.HasPrefix(dest, dir+"/") || o.main {
			content, _ = os.ReadFile(dest)
		}
		if err == nil && (string(content) != document || !served) {
			vs.Fail("violation", "%v: the run succeeded but the file has %d bytes (%.40q), not the capture of %d", c.faults, len(content), content, len(document))
		}
		if err != nil && len(c.faults) == 0 && !c.fatal && !c.delErr {
			vs.Fail("violation", "the run fails although nothing went wrong: %v", err)
		}
		if err == nil && c.fatal {
			vs.Fail("violation", "%v: the run succeeded", c.faults)
		}
		if err != nil && !c.fatal && !c.maybe && !c.interrupted && !c.delErr {
			vs.Fail("violation", "%v: the run fails: %v", c.faults, err)
		}
		if !o.clock && c.interrupted && done > c.interruptedAt+5*sec {
			vs.Fail("violation", "%v: the run ends %v after it was interrupted", c.faults, done-c.interruptedAt)
		}
		if !o.clock && done > 16*time.Minute+duration {
			vs.Fail("violation", "%v: the run takes %v", c.faults, done)
		}
		time.Sleep(time.Minute)
		vs.Quiesce()
		if n := portforward.Vmc().Listening(); n > 0 {
			vs.Fail("violation", "%v: the port forward still runs", c.faults)
		}
		vs.Outcome("%v %v", c.faults, err == nil)
	}
}

// checkDeployment checks that the deployment runs the collector with the
// cluster's messaging configuration.
func checkDeployment(c *cluster, main bool) {
	t := c.created.Spec.Template.Spec
	if len(t.Containers) != 1 || c.created.Namespace != "ns1" {
		vs.Fail("violation", "deployment %+v", c.created)
		return
	}
	if r := c.created.Spec.Replicas; r != nil && *r != 1 {
		vs.Fail("violation", "%d replicas", *r)
	}
	k := t.Containers[0]
	secret := map[string]string{}
	for _, v := range t.Volumes {
		if v.Secret != nil {
			secret[v.Name] = v.Secret.SecretName
		}
	}
	args := append(append([]string{}, k.Command...), k.Args...)
	file, cmd := "", ""
	for i, a := range args {
		a = strings.TrimPrefix(a, "-")
		if f, ok := strings.CutPrefix(strings.TrimPrefix(a, "-"), "messaging-config="); ok {
			file = f
		} else if strings.TrimPrefix(a, "-") == "messaging-config" && i+1 < len(args) {
			file = args[i+1]
		}
		cmd = a
	}
	if cmd != "serve" {
		vs.Fail("violation", "the collector is started as %q", args)
	}
	ok := false
	for _, m := range k.VolumeMounts {
		if filepath.Dir(file) == filepath.Clean(m.MountPath) && secret[m.Name] == "skupper-local-client" {
			ok = true
		}
	}
	if !ok || filepath.Base(file) != "connect.json" {
		vs.Fail("violation", "the collector's messaging configuration %q is not that of the cluster: %+v %+v", file, k.VolumeMounts, secret)
	}
	if want := map[bool]string{true: "t1", false: vancap.Tag}[main]; !strings.HasSuffix(k.Image, ":"+want) {
		vs.Fail("violation", "the collector's image is %q, not of tag %q", k.Image, want)
	}
}

func answer(r *http.Request, code int, body io.Reader) *http.Response {
	return &http.Response{Status: http.StatusText(code), StatusCode: code, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: io.NopCloser(body), ContentLength: -1, Request: r}
}

type errReader struct{ err error }

func (e errReader) Read([]byte) (int, error) { return 0, e.err }

type onRead func() error

func (f onRead) Read([]byte) (int, error) { return 0, f() }

const kubeconfig = `apiVersion: v1
kind: Config
clusters:
- name: a
  cluster: {server: "https://elsewhere.example.com"}
- name: b
  cluster: {server: "HOST", insecure-skip-tls-verify: true}
contexts:
- name: a
  context: {cluster: a, user: u, namespace: ns9}
- name: b
  context: {cluster: b, user: u, namespace: ns1}
current-context: b
users:
- name: u
  user: {token: t}
`

func putConfig(host string) {
	if err := os.WriteFile("kubeconfig", []byte(strings.Replace(kubeconfig, "HOST", host, 1)), 0o600); err != nil {
		panic(err)
	}
	os.Setenv("KUBECONFIG", "kubeconfig")
}

// start the command; the event is set when main returns.
func start() *vs.Event {
	vancap.VmcReset()
	ended := vs.ExitEvent()
	vs.GoHarness("main", func() {
		vancap.VmcMain()
		ended.Set()
	})
	return ended
}

// command runs the whole command on the cluster.
func command(c *cluster, host string) error {
	putConfig(host)
	kubernetes.Vmc().Client = func(cfg *rest.Config) (kubernetes.Interface, error) {
		if cfg.Host != host || cfg.BearerToken != "t" {
			vs.Fail("violation", "the client is made for %q", cfg.Host)
		}
		return c, nil
	}
	c.interrupt = func() { vsignal.VmcSend(os.Interrupt) }
	ended := start()
	ended.Wait()
	if code, ok := vs.Exited(); ok && code != 0 {
		return errors.New("exit code")
	}
	return nil
}

// unusable: nothing is done with a command line that makes no sense or
// without a usable configuration.
func unusable() {
	switch vs.Choose(3) {
	case 0:
		putConfig("https://10.0.0.1:6443")
		kubernetes.Vmc().Client = func(cfg *rest.Config) (kubernetes.Interface, error) {
			return nil, errors.New("no client")
		}
	case 1:
		os.Remove("kubeconfig")
		os.Setenv("KUBECONFIG", "kubeconfig")
	case 2:
		os.WriteFile("kubeconfig", []byte("{"), 0o600)
		os.Setenv("KUBECONFIG", "kubeconfig")
	}
	nothingDone()
}

func badArgs() {
	putConfig("https://10.0.0.1:6443")
	kubernetes.Vmc().Client = func(cfg *rest.Config) (kubernetes.Interface, error) {
		vs.Fail("violation", "the cluster is contacted")
		return nil, nil
	}
	nothingDone()
}

func nothingDone() {
	os.Remove("out.json")
	ended := start()
	ended.Wait()
	if code, ok := vs.Exited(); !ok || code == 0 {
		vs.Fail("violation", "no error exit: %v %v", code, ok)
	}
	if _, err := os.Stat("out.json"); err == nil {
		vs.Fail("violation", "a file is made")
	}
}
