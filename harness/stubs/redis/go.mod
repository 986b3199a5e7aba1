module github.com/go-redis/redis/v8
