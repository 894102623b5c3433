package grpc

// Replay of failed lock obligations: concurrent requests over a proxy and concurrent streams, under the race detector.

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"

	pb "github.com/kgantsov/doq/pkg/proto"
	"github.com/kgantsov/doq/pkg/queue"
	"github.com/prometheus/client_golang/prometheus"
	"github.com/rs/zerolog"
	"google.golang.org/grpc"
)

// rNode never changes
type rNode struct {
	lead   bool
	leader func() string
}

var errNo = errors.New("no")

func (n *rNode) Join(id, addr string) error                { return nil }
func (n *rNode) PrometheusRegistry() prometheus.Registerer { return nil }
func (n *rNode) Leader() string                            { return n.leader() }
func (n *rNode) IsLeader() bool                            { return n.lead }
func (n *rNode) GenerateID() uint64                        { return 1 }
func (n *rNode) CreateQueue(t, name string) error          { return nil }
func (n *rNode) DeleteQueue(name string) error             { return nil }
func (n *rNode) GetQueues() []*queue.QueueInfo             { return nil }
func (n *rNode) GetQueueInfo(name string) (*queue.QueueInfo, error) {
	return nil, errNo
}
func (n *rNode) Enqueue(name, g string, p int64, c string) (*queue.Message, error) {
	return &queue.Message{ID: 1, Group: g, Priority: p, Content: c}, nil
}
func (n *rNode) Dequeue(name string, ack bool) (*queue.Message, error) {
	if rand.Intn(2) == 0 {
		return nil, errNo
	}
	return &queue.Message{ID: 1, Group: "g"}, nil
}
func (n *rNode) Ack(name string, id uint64) error          { return nil }
func (n *rNode) Nack(name string, id uint64) error         { return nil }
func (n *rNode) GetByID(id uint64) (*queue.Message, error) { return nil, errNo }
func (n *rNode) UpdatePriority(name string, id uint64, p int64) error {
	return nil
}

type rStream struct {
	grpc.ServerStream
	ctx context.Context
}

func (s *rStream) Context() context.Context { return s.ctx }
func (s *rStream) Send(x *pb.DequeueResponse) error {
	if rand.Intn(4) == 0 {
		return errNo
	}
	return nil
}

func TestVerifRace(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	secs, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	a, err := net.Listen("tcp", "127.0.0.2:0")
	if err != nil {
		t.Skip(err)
	}
	port := a.Addr().(*net.TCPAddr).Port
	b, err := net.Listen("tcp", fmt.Sprintf("127.0.0.4:%d", port))
	if err != nil {
		t.Skip(err)
	}
	for _, l := range []net.Listener{a, b} {
		s, err := NewGRPCServer(&rNode{lead: true}, port)
		if err != nil {
			t.Skip(err)
		}
		go s.Serve(l)
	}
	f := NewQueueServer(&rNode{leader: func() string { return []string{"127.0.0.2", "127.0.0.4", ""}[rand.Intn(3)] }}, port)
	end := time.Now().Add(time.Duration(secs) * time.Second)
	var wg sync.WaitGroup
	again := func(g func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(end) {
				g()
			}
		}()
	}
	ctx := func() context.Context {
		c, cancel := context.WithTimeout(context.Background(), 2*time.Second)
		time.AfterFunc(3*time.Second, cancel)
		return c
	}
	again(func() { f.CreateQueue(ctx(), &pb.CreateQueueRequest{Name: "q"}) })
	again(func() { f.DeleteQueue(ctx(), &pb.DeleteQueueRequest{Name: "q"}) })
	again(func() { f.Enqueue(ctx(), &pb.EnqueueRequest{QueueName: "q"}) })
	again(func() { f.Dequeue(ctx(), &pb.DequeueRequest{QueueName: "q"}) })
	again(func() { f.Ack(ctx(), &pb.AckRequest{QueueName: "q"}) })
	again(func() { f.Nack(ctx(), &pb.NackRequest{QueueName: "q"}) })
	again(func() { f.UpdatePriority(ctx(), &pb.UpdatePriorityRequest{QueueName: "q"}) })
	l := NewQueueServer(&rNode{lead: true}, port)
	for i := 0; i < 6; i++ {
		again(func() {
			c, cancel := context.WithCancel(context.Background())
			time.AfterFunc(time.Duration(rand.Intn(100))*time.Millisecond, cancel)
			l.DequeueStream(&pb.DequeueRequest{QueueName: []string{"q", "p"}[rand.Intn(2)]}, &rStreamServer{rStream{ctx: c}})
			cancel()
		})
	}
	again(func() { l.broadcastMessage([]string{"q", "p"}[rand.Intn(2)], struct{}{}) })
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(time.Duration(secs+25) * time.Second):
		fmt.Println("REPLAY-FAIL C18 requests and streams: still waiting for a lock after 25 s")
		t.Fail()
	}
}

type rStreamServer struct{ rStream }
