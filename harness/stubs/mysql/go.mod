module github.com/go-sql-driver/mysql
