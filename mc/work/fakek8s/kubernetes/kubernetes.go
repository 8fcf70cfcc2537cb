// Package kubernetes stands in for k8s.io/client-go/kubernetes: clients are
// those the harness provides.
package kubernetes

import (
	"errors"
	"net/http"

	std "k8s.io/client-go/kubernetes"
	"k8s.io/client-go/rest"

	"vmc/vs"
)

// Interface of a client.
type Interface = std.Interface

// Clientset is the real one.
type Clientset = std.Clientset

// Cluster provides clients.
type Cluster struct {
	Client func(*rest.Config) (Interface, error)
}

// Vmc is the cluster of the execution.
func Vmc() *Cluster {
	return vs.Local("fakek8s/kubernetes", func() any { return &Cluster{} }).(*Cluster)
}

// NewForConfig returns the client the harness provides.
func NewForConfig(c *rest.Config) (Interface, error) {
	if f := Vmc().Client; f != nil {
		return f(c)
	}
	return nil, errors.New("no cluster")
}

// NewForConfigAndClient is NewForConfig.
func NewForConfigAndClient(c *rest.Config, _ *http.Client) (Interface, error) {
	return NewForConfig(c)
}

// NewForConfigOrDie is NewForConfig.
func NewForConfigOrDie(c *rest.Config) Interface {
	i, err := NewForConfig(c)
	if err != nil {
		panic(err)
	}
	return i
}
