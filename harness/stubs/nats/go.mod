module github.com/nats-io/nats.go
