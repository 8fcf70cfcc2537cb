// Package spdy stands in for k8s.io/client-go/transport/spdy: dialing records
// what was asked for and answers as the harness decides.
package spdy

import (
	"net/http"
	"net/url"

	"k8s.io/apimachinery/pkg/util/httpstream"
	restclient "k8s.io/client-go/rest"

	"vmc/vs"
)

// Upgrader validates a response from the server after a SPDY upgrade.
type Upgrader interface {
	NewConnection(resp *http.Response) (httpstream.Connection, error)
}

// Dial made.
type Dial struct {
	Method, URL string
	Config      *restclient.Config
}

// Cluster answers dials.
type Cluster struct {
	RoundTripper func(*restclient.Config) error
	OnDial       func(Dial) (httpstream.Connection, error)
	Dials        []Dial
}

// Vmc is the cluster of the execution.
func Vmc() *Cluster {
	return vs.Local("fakek8s/spdy", func() any { return &Cluster{} }).(*Cluster)
}

type transport struct{ cfg *restclient.Config }

func (t *transport) RoundTrip(*http.Request) (*http.Response, error) {
	panic("fakek8s: the SPDY round tripper is only for dialing")
}

func (t *transport) NewConnection(*http.Response) (httpstream.Connection, error) {
	panic("fakek8s: the SPDY upgrader is only for dialing")
}

// RoundTripperFor returns a round tripper and upgrader to use with SPDY.
func RoundTripperFor(config *restclient.Config) (http.RoundTripper, Upgrader, error) {
	if f := Vmc().RoundTripper; f != nil {
		if err := f(config); err != nil {
			return nil, nil, err
		}
	}
	t := &transport{config}
	return t, t, nil
}

type dialer struct {
	d Dial
}

// NewDialer will create a dialer that connects to the provided URL and upgrades the connection to SPDY.
func NewDialer(upgrader Upgrader, client *http.Client, method string, url *url.URL) httpstream.Dialer {
	d := &dialer{Dial{Method: method, URL: url.String()}}
	if t, ok := client.Transport.(*transport); ok && Upgrader(t) == upgrader {
		d.d.Config = t.cfg
	}
	return d
}

func (d *dialer) Dial(protocols ...string) (httpstream.Connection, string, error) {
	c := Vmc()
	c.Dials = append(c.Dials, d.d)
	conn, err := c.OnDial(d.d)
	if err != nil {
		return nil, "", err
	}
	return conn, protocols[0], nil
}
