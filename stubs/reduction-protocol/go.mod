module reduction.dev/reduction-protocol

go 1.24

require (
	connectrpc.com/connect v1.18.1
	google.golang.org/protobuf v1.36.3
)
