//go:build go1.23

package funds

import (
	"context"
	"errors"
	"fmt"
	"math"
	"net"
	"testing"
	"time"

	"github.com/tdex-network/tdex-daemon/internal/interfaces/grpc/interceptor"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	"google.golang.org/grpc"
	"google.golang.org/grpc/test/bufconn"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/wrapperspb"
)

// TestC34Recovery: a server made with the interceptors of the daemon answers
// the requests that panic their handlers with an error and serves the others,
// before, at the same time and after.
func TestC34Recovery(t *testing.T) {
	vt.Check(t, 200, 6000, "requests of which some panic, in all kinds of ways, to a server that "+
		"uses the interceptors; non-trivial if one panics while others are being served",
		func(rt *rapid.T, c *vt.Case) {
			lis := bufconn.Listen(1 << 16)
			handle := func(in proto.Message, reply func() error) error {
				kind := int(in.(*wrapperspb.Int32Value).Value)
				switch kind {
				case 0:
					return reply()
				case 1:
					return errors.New("refused")
				case 2:
					if err := reply(); err != nil {
						return err
					}
					panic("after a reply")
				default:
					trip(kind)
					return reply()
				}
			}
			srv := grpc.NewServer(interceptor.UnaryInterceptor(nil), interceptor.StreamInterceptor(nil))
			srv.RegisterService(&grpc.ServiceDesc{
				ServiceName: "S", HandlerType: (*interface{})(nil),
				Methods: []grpc.MethodDesc{{MethodName: "Unary", Handler: func(srv interface{}, ctx context.Context, dec func(interface{}) error, i grpc.UnaryServerInterceptor) (interface{}, error) {
					in := &wrapperspb.Int32Value{}
					if err := dec(in); err != nil {
						return nil, err
					}
					h := func(ctx context.Context, req interface{}) (interface{}, error) {
						m := req.(proto.Message)
						return m, handle(m, func() error { return nil })
					}
					if i == nil {
						return h(ctx, in)
					}
					return i(ctx, in, &grpc.UnaryServerInfo{Server: srv, FullMethod: "/S/Unary"}, h)
				}}},
				Streams: []grpc.StreamDesc{{StreamName: "Stream", ServerStreams: true, Handler: func(_ interface{}, st grpc.ServerStream) error {
					in := &wrapperspb.Int32Value{}
					if err := st.RecvMsg(in); err != nil {
						return err
					}
					return handle(in, func() error { return st.SendMsg(in) })
				}}},
			}, struct{}{})
			go srv.Serve(lis)
			defer srv.Stop()
			dial := func() *grpc.ClientConn {
				conn, err := grpc.Dial("bufnet", grpc.WithInsecure(), grpc.WithContextDialer(
					func(context.Context, string) (net.Conn, error) { return lis.Dial() },
				))
				if err != nil {
					panic("[verif-error] " + err.Error())
				}
				return conn
			}
			conns := []*grpc.ClientConn{dial(), dial()}
			defer conns[0].Close()
			defer conns[1].Close()
			type call struct {
				kind, conn int
				stream     bool
			}
			trips, text := false, ""
			for n := rapid.IntRange(1, 6).Draw(rt, "rounds"); n > 0; n-- {
				calls := make([]call, rapid.IntRange(1, 5).Draw(rt, "calls"))
				bad, good := 0, 0
				for i := range calls {
					calls[i] = call{within(rt, "kind", 11), within(rt, "conn", 2), chance(rt, "stream", 50)}
					if calls[i].kind >= 2 {
						bad++
					} else {
						good++
					}
				}
				trips = trips || bad > 0 && good > 0
				text += fmt.Sprintf("%v ", calls)
				res := make([]chan error, len(calls))
				for i, x := range calls {
					res[i] = make(chan error, 1)
					go func(x call, done chan error) {
						ctx, cancel := context.WithTimeout(context.Background(), 2*time.Minute)
						defer cancel()
						in, out := &wrapperspb.Int32Value{Value: int32(x.kind)}, &wrapperspb.Int32Value{}
						if !x.stream {
							done <- conns[x.conn].Invoke(ctx, "/S/Unary", in, out)
							return
						}
						st, err := conns[x.conn].NewStream(ctx, &grpc.StreamDesc{ServerStreams: true}, "/S/Stream")
						if err == nil {
							err = st.SendMsg(in)
						}
						if err == nil {
							err = st.CloseSend()
						}
						for err == nil {
							err = st.RecvMsg(out)
						}
						if err.Error() == "EOF" {
							err = nil
						}
						done <- err
					}(x, res[i])
				}
				for i, x := range calls {
					err := <-res[i]
					if (x.kind == 0) != (err == nil) {
						rt.Fatalf("call %+v, with %v: %v", x, calls, err)
					}
					c.Class("kind %d stream %v", x.kind, x.stream)
				}
			}
			if trips {
				c.NonTrivial("%s", text)
			}
		})
}

// trip panics, in a way of its own.
func trip(kind int) {
	switch kind {
	case 3:
		panic(errors.New("an error"))
	case 4:
		var p *structpb.Value
		_ = *p
		fmt.Sprint(p.Kind)
	case 5:
		var m map[string]int
		m["a"] = 1
	case 6:
		var l []int
		_ = l[kind]
	case 7:
		n := math.MaxInt
		_ = make([]byte, n/(kind-6))
	case 8:
		panic(fmt.Sprintf("%d", kind))
	case 9:
		var c chan int
		close(c)
	default:
		var x interface{} = kind
		_ = x.(string)
	}
}
