module rangedbverif

go 1.26.0

godebug default=go1.21

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/aws/aws-sdk-go v1.38.22
	github.com/gorilla/websocket v1.4.2
	github.com/inklabs/rangedb v0.0.0
	github.com/syndtr/goleveldb v1.0.0
	github.com/vmihailenco/msgpack/v4 v4.3.11
	golang.org/x/net v0.0.0-20210405180319-a5a99cb37ef4
	google.golang.org/grpc v1.35.0
)

replace github.com/inklabs/rangedb => /repo

replace github.com/syndtr/goleveldb => /verif/.build/goleveldb
