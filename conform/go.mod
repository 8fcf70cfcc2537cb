module conform

go 1.23

require github.com/Azure/go-amqp v1.0.4
