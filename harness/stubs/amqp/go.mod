module github.com/streadway/amqp
