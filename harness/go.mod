module verifharness

go 1.25.0

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/openconfig/gnmi v0.99.0
	github.com/openconfig/grpctunnel v0.1.0
	google.golang.org/grpc v1.69.2
	google.golang.org/protobuf v1.36.2
)

require (
	bitbucket.org/creachadair/stringset v0.0.14 // indirect
	github.com/cenkalti/backoff/v4 v4.3.0 // indirect
	github.com/golang/glog v1.2.4 // indirect
	github.com/google/go-cmp v0.6.0 // indirect
	github.com/kylelemons/godebug v1.1.0 // indirect
	github.com/mitchellh/go-wordwrap v1.0.1 // indirect
	github.com/openconfig/goyang v1.6.0 // indirect
	github.com/openconfig/ygot v0.29.20 // indirect
	github.com/protocolbuffers/txtpbfmt v0.0.0-20240823084532-8e6b51fa9bef // indirect
	golang.org/x/crypto v0.32.0 // indirect
	golang.org/x/exp v0.0.0-20241009180824-f66d83c29e7c // indirect
	golang.org/x/net v0.34.0 // indirect
	golang.org/x/sys v0.29.0 // indirect
	golang.org/x/term v0.28.0 // indirect
	golang.org/x/text v0.21.0 // indirect
	google.golang.org/genproto/googleapis/rpc v0.0.0-20250106144421-5f5ef82da422 // indirect
	google.golang.org/grpc/cmd/protoc-gen-go-grpc v1.5.1 // indirect
)

replace github.com/openconfig/gnmi => /repo
