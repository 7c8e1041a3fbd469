module verifmc

go 1.23

require (
	github.com/gogo/protobuf v1.3.2
	github.com/katydid/katydid v0.0.0
)

replace github.com/katydid/katydid => /repo
