module vsim

go 1.23.0

require (
	github.com/lib/pq v1.10.2
	golang.org/x/tools v0.32.0
)

require (
	golang.org/x/mod v0.24.0 // indirect
	golang.org/x/sync v0.13.0 // indirect
)

require virt v0.0.0

replace virt => ./virt
