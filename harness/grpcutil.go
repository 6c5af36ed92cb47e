package main

import (
	"context"
	"io"
	"log"
	"net"

	"google.golang.org/grpc"
	"google.golang.org/grpc/test/bufconn"
)

// serveGRPC runs an in-memory gRPC server.
func serveGRPC(register func(*grpc.Server), opts ...grpc.ServerOption) (srv *grpc.Server, dial func(wrap ...func(net.Conn) net.Conn) (*grpc.ClientConn, error), shut func()) {
	lis := bufconn.Listen(1 << 20)
	srv = grpc.NewServer(opts...)
	register(srv)
	go func() { _ = srv.Serve(lis) }()
	dial = func(wrap ...func(net.Conn) net.Conn) (*grpc.ClientConn, error) {
		return grpc.DialContext(context.Background(), "bufnet",
			grpc.WithContextDialer(func(context.Context, string) (net.Conn, error) {
				c, err := lis.Dial()
				if err == nil {
					for _, w := range wrap {
						c = w(c)
					}
				}
				return c, err
			}),
			grpc.WithInsecure(), grpc.WithBlock())
	}
	return srv, dial, func() { srv.Stop(); _ = lis.Close() }
}

var discardLogger = log.New(io.Discard, "", 0)
