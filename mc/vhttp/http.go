// Package vhttp replaces net/http: servers listen on a virtual network whose
// requests the driver issues, clients go through a transport the driver
// provides. Everything else is net/http's.
package vhttp

import (
	"bytes"
	stdcontext "context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/url"
	"runtime/debug"
	"strings"
	"time"

	"vmc/vcontext"
	"vmc/vs"
)

// DefaultServeMux is emptied at the start of every execution.
var DefaultServeMux = &http.ServeMux{}

// DefaultClient is a client with the default transport.
var DefaultClient = &Client{}

// DefaultTransport is the virtual transport.
var DefaultTransport http.RoundTripper = vtransport{}

type netState struct {
	o       vs.Obj
	servers map[string]*Server
	rt      func(*http.Request) (*http.Response, error)
	mux     bool
}

func world() *netState {
	return vs.Local("vhttp", func() any { return &netState{servers: map[string]*Server{}} }).(*netState)
}

func mux() *http.ServeMux {
	w := world()
	if !w.mux {
		w.mux = true
		*DefaultServeMux = http.ServeMux{}
	}
	return DefaultServeMux
}

// Handle registers on the default mux.
func Handle(pattern string, h http.Handler) { mux().Handle(pattern, h) }

// HandleFunc registers on the default mux.
func HandleFunc(pattern string, h func(http.ResponseWriter, *http.Request)) {
	mux().HandleFunc(pattern, h)
}

// Server is http.Server on the virtual network.
type Server struct {
	Addr                         string
	Handler                      http.Handler
	DisableGeneralOptionsHandler bool
	TLSConfig                    *tls.Config
	ReadTimeout                  time.Duration
	ReadHeaderTimeout            time.Duration
	WriteTimeout                 time.Duration
	IdleTimeout                  time.Duration
	MaxHeaderBytes               int
	TLSNextProto                 map[string]func(*http.Server, *tls.Conn, http.Handler)
	ConnState                    func(net.Conn, http.ConnState)
	ErrorLog                     *log.Logger
	BaseContext                  func(net.Listener) stdcontext.Context
	ConnContext                  func(ctx stdcontext.Context, c net.Conn) stdcontext.Context
	HTTP2                        *http.HTTP2Config
	Protocols                    *http.Protocols

	o        vs.Obj
	down     bool
	shutdown []func()
	active   int
	cancels  map[int]func()
	n        int
}

// ListenAndServe serves until the server is shut down.
func (s *Server) ListenAndServe() error {
	w := world()
	w.o.Write("listen " + s.Addr)
	if s.down {
		return http.ErrServerClosed
	}
	addr := s.Addr
	if addr == "" {
		addr = ":http"
	}
	if w.servers[addr] != nil {
		return &net.OpError{Op: "listen", Net: "tcp", Err: errors.New("bind: address already in use")}
	}
	w.servers[addr] = s
	vs.WaitUntil("serve "+addr, &s.o, func() bool { return s.down })
	return http.ErrServerClosed
}

// ListenAndServe runs a server with the given handler.
func ListenAndServe(addr string, h http.Handler) error {
	return (&Server{Addr: addr, Handler: h}).ListenAndServe()
}

func (s *Server) stop() {
	w := world()
	w.o.Write("stop listening")
	for a, x := range w.servers {
		if x == s {
			delete(w.servers, a)
		}
	}
	s.o.Write("shutdown")
	s.down = true
	for _, f := range s.shutdown {
		vs.Go(f)
	}
	s.shutdown = nil
}

// Shutdown stops listening and waits for the active requests.
func (s *Server) Shutdown(ctx stdcontext.Context) error {
	s.stop()
	if vs.WaitChan("shutdown: active requests", &s.o, ctx.Done(), func() bool { return s.active == 0 }) {
		return nil
	}
	return ctx.Err()
}

// Close stops at once.
func (s *Server) Close() error {
	s.stop()
	for _, c := range s.cancels {
		c()
	}
	return nil
}

// RegisterOnShutdown registers a function to call on Shutdown.
func (s *Server) RegisterOnShutdown(f func()) { s.shutdown = append(s.shutdown, f) }

// SetKeepAlivesEnabled does nothing.
func (s *Server) SetKeepAlivesEnabled(bool) {}

// Response the driver gets.
type VmcResponse struct {
	Code   int
	Header http.Header
	Body   string
	Err    error  // no connection
	Panic  string // the handler crashed
	Done   bool
}

type stallKey struct{}

// VmcStall makes the client of the request read nothing of the response until
// the event, so that the handler's writes wait (the response is larger than
// what the connection buffers).
func VmcStall(ctx stdcontext.Context, until *vs.Event) stdcontext.Context {
	return vcontext.WithValue(ctx, stallKey{}, until)
}

type recorder struct {
	ctx   stdcontext.Context
	code  int
	h     http.Header
	buf   bytes.Buffer
	wrote bool
}

func (r *recorder) Header() http.Header { return r.h }
func (r *recorder) WriteHeader(c int) {
	if !r.wrote {
		r.wrote, r.code = true, c
	}
}
func (r *recorder) Write(b []byte) (int, error) {
	if !r.wrote {
		r.WriteHeader(200)
	}
	if e, ok := r.ctx.Value(stallKey{}).(*vs.Event); ok && !e.WaitOr(r.ctx.Done()) {
		return 0, r.ctx.Err()
	}
	return r.buf.Write(b)
}
func (r *recorder) Flush() {}

// VmcListening reports whether a server listens at addr.
func VmcListening(addr string) bool { return world().servers[addr] != nil }

// VmcWaitListen waits until a server listens at addr.
func VmcWaitListen(addr string) {
	w := world()
	vs.WaitUntil("listener at "+addr, &w.o, func() bool { return w.servers[addr] != nil })
}

// VmcDo issues a request to the server at addr and waits for the response.
// Closing the context closes the client's connection.
func VmcDo(ctx stdcontext.Context, addr, method, target string, body io.Reader) *VmcResponse {
	w := world()
	w.o.Read("connect " + addr)
	s := w.servers[addr]
	if s == nil {
		return &VmcResponse{Err: errors.New("connection refused")}
	}
	u, err := url.Parse(target)
	if err != nil {
		return &VmcResponse{Err: err}
	}
	if body == nil {
		body = http.NoBody
	}
	rctx, cancel := vcontext.WithCancel(ctx)
	req := (&http.Request{Method: method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(body),
		ContentLength: -1, Host: "localhost" + addr, RemoteAddr: "127.0.0.1:40000", RequestURI: target}).WithContext(rctx)
	rec := &recorder{ctx: rctx, h: http.Header{}, code: 200}
	resp := &VmcResponse{}
	h := s.Handler
	if h == nil {
		h = mux()
	}
	s.o.Write("accept")
	s.active++
	s.n++
	id := s.n
	if s.cancels == nil {
		s.cancels = map[int]func(){}
	}
	s.cancels[id] = cancel
	var o vs.Obj
	vs.Go(func() {
		defer func() {
			if vs.Dead() {
				return
			}
			if r := recover(); r != nil && r != http.ErrAbortHandler {
				resp.Panic = fmt.Sprintf("%v\n%s", r, stack())
			}
			resp.Code, resp.Header, resp.Body = rec.code, rec.h, rec.buf.String()
			cancel()
			s.o.Write("request done")
			s.active--
			delete(s.cancels, id)
			o.Write("response")
			resp.Done = true
		}()
		h.ServeHTTP(rec, req)
	})
	vs.WaitUntil("response "+method+" "+target, &o, func() bool { return resp.Done })
	return resp
}

func stack() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "vanflow") {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

// VmcTransport sets what answers the requests of clients.
func VmcTransport(f func(*http.Request) (*http.Response, error)) { world().rt = f }

type vtransport struct{}

func (vtransport) RoundTrip(r *http.Request) (*http.Response, error) {
	rt := world().rt
	if rt == nil {
		return nil, errors.New("connection refused")
	}
	return rt(r)
}

// Client is http.Client with virtual time.
type Client struct {
	Transport     http.RoundTripper
	CheckRedirect func(req *http.Request, via []*http.Request) error
	Jar           http.CookieJar
	Timeout       time.Duration
}

// Do issues a request.
func (c *Client) Do(req *http.Request) (*http.Response, error) {
	t := c.Transport
	if t == nil || t == http.DefaultTransport {
		t = DefaultTransport
	}
	sc := &http.Client{Transport: t, CheckRedirect: c.CheckRedirect, Jar: c.Jar}
	if c.Timeout > 0 {
		ctx, cancel := vcontext.WithTimeout(req.Context(), c.Timeout)
		_ = cancel // ends with the timeout
		req = req.WithContext(ctx)
	}
	return sc.Do(req)
}

// Get issues a GET.
func (c *Client) Get(u string) (*http.Response, error) {
	r, err := http.NewRequest("GET", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(r)
}

// Head issues a HEAD.
func (c *Client) Head(u string) (*http.Response, error) {
	r, err := http.NewRequest("HEAD", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(r)
}

// Post issues a POST.
func (c *Client) Post(u, ct string, body io.Reader) (*http.Response, error) {
	r, err := http.NewRequest("POST", u, body)
	if err != nil {
		return nil, err
	}
	r.Header.Set("Content-Type", ct)
	return c.Do(r)
}

// PostForm posts a form.
func (c *Client) PostForm(u string, data url.Values) (*http.Response, error) {
	return c.Post(u, "application/x-www-form-urlencoded", strings.NewReader(data.Encode()))
}

// CloseIdleConnections does nothing.
func (c *Client) CloseIdleConnections() {}

// Get uses the default client.
func Get(u string) (*http.Response, error) { return DefaultClient.Get(u) }

// Head uses the default client.
func Head(u string) (*http.Response, error) { return DefaultClient.Head(u) }

// Post uses the default client.
func Post(u, ct string, body io.Reader) (*http.Response, error) {
	return DefaultClient.Post(u, ct, body)
}

// PostForm uses the default client.
func PostForm(u string, d url.Values) (*http.Response, error) { return DefaultClient.PostForm(u, d) }
