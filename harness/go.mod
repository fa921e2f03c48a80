module verifharness

go 1.26.0

require (
	github.com/jackc/pgx/v5 v5.1.1
	github.com/ulule/loukoum/v3 v3.0.0
)

require github.com/pkg/errors v0.9.1

replace github.com/ulule/loukoum/v3 => /repo
