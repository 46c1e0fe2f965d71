module verif/harness

go 1.23

require (
	github.com/katydid/katydid v0.0.0
	pgregory.net/rapid v1.3.0
)

require github.com/gogo/protobuf v1.3.2

replace github.com/katydid/katydid => /repo
