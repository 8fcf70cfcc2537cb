// Package amqp is a model of github.com/Azure/go-amqp v1.0.4 for the model
// checker: messages (message.go, const.go, errors.go, link_options.go and
// internal/ are the library's own files, see LICENSE) are really marshalled
// and unmarshalled, connections, sessions and links lead to a virtual broker
// that the driver controls (broker.go).
package amqp
