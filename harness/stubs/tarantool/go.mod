module github.com/tarantool/go-tarantool
