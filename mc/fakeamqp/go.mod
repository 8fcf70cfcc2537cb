module github.com/Azure/go-amqp

go 1.25

require vmc v0.0.0

replace vmc => ../
