module github.com/frk/gosql/vh

go 1.23.0

toolchain go1.23.7

require (
	github.com/frk/ast v0.0.6
	github.com/frk/compare v0.0.6
	github.com/frk/fql v0.0.1
	github.com/frk/gosql v0.0.0
	github.com/frk/tagutil v0.0.0-20190626082652-a41f4c5605cc
	github.com/lib/pq v1.10.2
	golang.org/x/mod v0.24.0 // indirect
	golang.org/x/sync v0.13.0 // indirect
	golang.org/x/tools v0.32.0
	pgregory.net/rapid v1.3.0
)

replace github.com/frk/gosql => /repo
