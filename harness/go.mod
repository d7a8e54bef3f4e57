module verif/harness

go 1.24

require github.com/trimmer-io/go-xmp v0.0.0

require (
	github.com/golang/snappy v0.0.4 // indirect
	github.com/montanaflynn/stats v0.6.6 // indirect
)

replace github.com/trimmer-io/go-xmp => /repo
