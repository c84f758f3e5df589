module verif/harness

go 1.23

require (
	github.com/RTann/libsignal-go/protocol v0.0.0
	github.com/golang/glog v1.2.4
	google.golang.org/protobuf v1.34.2
)

require (
	filippo.io/edwards25519 v1.1.0 // indirect
	github.com/google/uuid v1.6.0 // indirect
	golang.org/x/crypto v0.33.0 // indirect
)

replace github.com/RTann/libsignal-go/protocol => /repo/protocol
