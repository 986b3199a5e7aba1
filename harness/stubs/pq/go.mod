module github.com/lib/pq
