package grpc

// Replay of failed obligations on the real code: random requests and streams to a server that leads and to one
// that does not, over real gRPC, with nodes that record what they are asked and answer at random.

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	pb "github.com/kgantsov/doq/pkg/proto"
	"github.com/kgantsov/doq/pkg/queue"
	"github.com/prometheus/client_golang/prometheus"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
)

var vSeed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
var vSecs, _ = strconv.Atoi(os.Getenv("VERIF_SECS"))
var vProp = os.Getenv("VERIF_PROP")
var seen = map[string]int{}
var seenMu sync.Mutex

func vFail(seed int64, props, f string, a ...interface{}) {
	seenMu.Lock()
	defer seenMu.Unlock()
	for _, p := range strings.Fields(props) {
		seen[p]++
		if seen[p] <= 2 {
			fmt.Printf("REPLAY-FAIL %s seed %d: %s\n", p, seed, fmt.Sprintf(f, a...))
		}
	}
}

func count() int { seenMu.Lock(); defer seenMu.Unlock(); return seen[vProp] }

// vNode records what it is asked.
type vNode struct {
	mu     sync.Mutex
	lead   bool
	leader string
	calls  []string
	err    error
	msg    *queue.Message
	next   uint64
	hook   func()
	// for streams: the outcomes of the operations, in order
	outcomes []*queue.Message
	pending  bool
}

func (n *vNode) rec(f string, a ...interface{}) {
	n.mu.Lock()
	n.calls = append(n.calls, fmt.Sprintf(f, a...))
	n.mu.Unlock()
	if n.hook != nil {
		n.hook()
	}
}
func (n *vNode) Join(id, addr string) error                { n.rec("join"); return n.err }
func (n *vNode) PrometheusRegistry() prometheus.Registerer { return nil }
func (n *vNode) Leader() string                            { return n.leader }
func (n *vNode) IsLeader() bool                            { return n.lead }
func (n *vNode) GenerateID() uint64 {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.next++
	return n.next
}
func (n *vNode) CreateQueue(t, name string) error { n.rec("create %q %q", t, name); return n.err }
func (n *vNode) DeleteQueue(name string) error    { n.rec("delete %q", name); return n.err }
func (n *vNode) GetQueues() []*queue.QueueInfo    { return nil }
func (n *vNode) GetQueueInfo(name string) (*queue.QueueInfo, error) {
	return nil, errors.New("no")
}
func (n *vNode) answer() (*queue.Message, error) {
	if n.outcomes != nil {
		n.mu.Lock()
		defer n.mu.Unlock()
		if len(n.outcomes) == 1 {
			return nil, errors.New("none")
		}
		m := n.outcomes[0]
		n.outcomes = n.outcomes[1:]
		if m == nil {
			return nil, errors.New("no")
		}
		return m, nil
	}
	if n.err != nil {
		return nil, n.err
	}
	return n.msg, nil
}
func (n *vNode) Enqueue(name, g string, p int64, c string) (*queue.Message, error) {
	n.rec("enqueue %q %q %d %q", name, g, p, c)
	return n.answer()
}
func (n *vNode) Dequeue(name string, ack bool) (*queue.Message, error) {
	n.rec("dequeue %q %v", name, ack)
	return n.answer()
}
func (n *vNode) Ack(name string, id uint64) error          { n.rec("ack %q %d", name, id); return n.err }
func (n *vNode) Nack(name string, id uint64) error         { n.rec("nack %q %d", name, id); return n.err }
func (n *vNode) GetByID(id uint64) (*queue.Message, error) { return n.answer() }
func (n *vNode) UpdatePriority(name string, id uint64, p int64) error {
	n.rec("priority %q %d %d", name, id, p)
	return n.err
}

func vText(r *rand.Rand) string {
	cs := []rune("abc \"\\\n<>&é漢%/{}\u2028")
	b := make([]rune, r.Intn(8))
	for i := range b {
		b[i] = cs[r.Intn(len(cs))]
	}
	return string(b)
}

func vNum(r *rand.Rand) int64 {
	if r.Intn(2) == 0 {
		return int64(r.Intn(4))
	}
	return int64(r.Uint64())
}

func vMsg(r *rand.Rand) *queue.Message {
	return &queue.Message{ID: r.Uint64(), Group: vText(r), Priority: vNum(r), Content: vText(r)}
}

// shown: a message as a reply shows it
type shown struct {
	id      uint64
	group   string
	prio    int64
	content string
}

func show(m *queue.Message) shown { return shown{m.ID, m.Group, m.Priority, m.Content} }

type reply struct {
	ok  bool
	msg *shown
}

// vRequest: the call expected on the node, and the request through a client
func vRequest(r *rand.Rand) (string, func(ctx context.Context, c pb.DOQClient) (reply, error), bool) {
	name, g, p, t, id := vText(r), vText(r), vNum(r), vText(r), uint64(vNum(r))
	plain := func(s interface{ GetSuccess() bool }, err error) (reply, error) {
		if err != nil {
			return reply{}, err
		}
		return reply{ok: s.GetSuccess()}, nil
	}
	switch r.Intn(7) {
	case 0:
		return fmt.Sprintf("create %q %q", t, name), func(ctx context.Context, c pb.DOQClient) (reply, error) {
			return plain(c.CreateQueue(ctx, &pb.CreateQueueRequest{Name: name, Type: t}))
		}, false
	case 1:
		return fmt.Sprintf("delete %q", name), func(ctx context.Context, c pb.DOQClient) (reply, error) {
			return plain(c.DeleteQueue(ctx, &pb.DeleteQueueRequest{Name: name}))
		}, false
	case 2:
		return fmt.Sprintf("enqueue %q %q %d %q", name, g, p, t), func(ctx context.Context, c pb.DOQClient) (reply, error) {
			x, err := c.Enqueue(ctx, &pb.EnqueueRequest{QueueName: name, Group: g, Priority: p, Content: t})
			if err != nil {
				return reply{}, err
			}
			return reply{x.Success, &shown{x.Id, x.Group, x.Priority, x.Content}}, nil
		}, true
	case 3:
		ack := r.Intn(2) == 0
		return fmt.Sprintf("dequeue %q %v", name, ack), func(ctx context.Context, c pb.DOQClient) (reply, error) {
			x, err := c.Dequeue(ctx, &pb.DequeueRequest{QueueName: name, Ack: ack})
			if err != nil {
				return reply{}, err
			}
			return reply{x.Success, &shown{x.Id, x.Group, x.Priority, x.Content}}, nil
		}, true
	case 4:
		return fmt.Sprintf("ack %q %d", name, id), func(ctx context.Context, c pb.DOQClient) (reply, error) {
			return plain(c.Ack(ctx, &pb.AckRequest{QueueName: name, Id: id}))
		}, false
	case 5:
		return fmt.Sprintf("nack %q %d", name, id), func(ctx context.Context, c pb.DOQClient) (reply, error) {
			return plain(c.Nack(ctx, &pb.NackRequest{QueueName: name, Id: id}))
		}, false
	default:
		return fmt.Sprintf("priority %q %d %d", name, id, p), func(ctx context.Context, c pb.DOQClient) (reply, error) {
			return plain(c.UpdatePriority(ctx, &pb.UpdatePriorityRequest{QueueName: name, Id: id, Priority: p}))
		}, false
	}
}

func dial(t *testing.T, addr string) pb.DOQClient {
	conn, err := grpc.Dial(addr, grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		t.Skip(err)
	}
	return pb.NewDOQClient(conn)
}

func serve(t *testing.T, host string, port int, n *vNode) (string, int) {
	ln, err := net.Listen("tcp", fmt.Sprintf("%s:0", host))
	if err != nil {
		t.Skip(err)
	}
	own := ln.Addr().(*net.TCPAddr).Port
	if port == 0 {
		port = own
	}
	s, err := NewGRPCServer(n, port)
	if err != nil {
		t.Skip(err)
	}
	go s.Serve(ln)
	return ln.Addr().String(), own
}

func TestVerifGRPC(t *testing.T) {
	nodes := []*vNode{{leader: "127.0.0.2", lead: true}, {leader: "127.0.0.4", lead: true}, {}}
	leadA, port := serve(t, "127.0.0.2", 0, nodes[0])
	// a second leader at the same port, so that leadership can move
	ln, err := net.Listen("tcp", fmt.Sprintf("127.0.0.4:%d", port))
	if err != nil {
		t.Skip(err)
	}
	s, _ := NewGRPCServer(nodes[1], port)
	go s.Serve(ln)
	v6 := false
	if ln6, err := net.Listen("tcp", fmt.Sprintf("[::1]:%d", port)); err == nil {
		v6 = true
		s6, _ := NewGRPCServer(nodes[0], port)
		go s6.Serve(ln6)
	}
	viaA, _ := serve(t, "127.0.0.3", port, nodes[2])
	direct := []pb.DOQClient{dial(t, leadA), dial(t, ln.Addr().String())}
	via := dial(t, viaA)
	follow := nodes[2]
	end := time.Now().Add(time.Duration(vSecs) * time.Second)
	// each request that is forwarded takes a port for a while: the system has some 28000
	for seed := int64(vSeed); seed < int64(vSeed)+8000 && time.Now().Before(end) && count() < 3; seed++ {
		r := rand.New(rand.NewSource(seed))
		call, do, hasMsg := vRequest(r)
		w := r.Intn(2)
		lead := nodes[w]
		follow.lead = false
		for _, n := range nodes {
			n.hook = nil
			n.calls, n.err, n.msg = nil, nil, vMsg(r)
			if r.Intn(3) == 0 {
				n.err = errors.New("no")
			}
		}
		if r.Intn(2) == 0 { // leadership moves while the leader carries out the request
			lead.hook = func() { follow.lead = true }
		}
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
		var rep reply
		var err error
		props, how, cl := "C15", "to a follower", via
		mode := r.Intn(8)
		follow.leader = lead.leader
		if v6 && w == 0 && r.Intn(2) == 0 {
			follow.leader = "::1"
		}
		if mode < 3 {
			props, how, cl = "C15 C16", "to the leader", direct[w]
		}
		if mode == 7 {
			follow.leader, how = []string{"", "127.0.0.77"}[r.Intn(2)], "to a follower that cannot reach a leader"
		}
		rep, err = do(ctx, cl)
		cancel()
		for _, n := range nodes {
			if n != lead && len(n.calls) > 0 || mode == 7 && len(n.calls) > 0 {
				vFail(seed, "C15", "%s %s: executed elsewhere: %q", call, how, n.calls)
			}
		}
		if mode == 7 {
			if err == nil {
				vFail(seed, "C15", "%s %s: no error, reply %+v", call, how, rep)
			}
			continue
		}
		if len(lead.calls) != 1 || lead.calls[0] != call {
			vFail(seed, props, "%s %s: the leader was asked %q", call, how, lead.calls)
		}
		if mode < 3 {
			props = "C16"
		}
		if (err == nil && rep.ok) != (lead.err == nil) {
			vFail(seed, props, "%s %s: the node answered %v, the reply is %v %v", call, how, lead.err, rep.ok, err)
		} else if hasMsg && lead.err == nil && *rep.msg != show(lead.msg) {
			vFail(seed, props, "%s %s: the reply shows %+v instead of %+v", call, how, *rep.msg, show(lead.msg))
		}
	}
	if len(seen) > 0 {
		t.Fail()
	}
}

// ---- streams ----

type vStream struct {
	grpc.ServerStream
	ctx    context.Context
	mu     sync.Mutex
	in     []*pb.EnqueueRequest
	inErr  error
	out    []shown
	ok     []bool
	failAt int
	reject bool
}

func (s *vStream) Context() context.Context { return s.ctx }
func (s *vStream) Recv() (*pb.EnqueueRequest, error) {
	if len(s.in) == 0 {
		return nil, s.inErr
	}
	q := s.in[0]
	s.in = s.in[1:]
	return q, nil
}
func (s *vStream) send(ok bool, x shown) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.out, s.ok = append(s.out, x), append(s.ok, ok)
	if len(s.out) == s.failAt {
		return errors.New("broken stream")
	}
	return nil
}

type vEnq struct{ *vStream }

func (s vEnq) Send(x *pb.EnqueueResponse) error {
	return s.send(x.Success, shown{x.Id, x.Group, x.Priority, x.Content})
}

type vDeq struct{ *vStream }

func (s vDeq) Send(x *pb.DequeueResponse) error {
	return s.send(x.Success, shown{x.Id, x.Group, x.Priority, x.Content})
}

func (s *QueueServer) vConsumers(name string) int {
	s.mu.RLock()
	defer s.mu.RUnlock()
	return len(s.queueConsumers[name])
}

func enqueueStream(seed int64) {
	r := rand.New(rand.NewSource(seed))
	n := &vNode{lead: true}
	s := NewQueueServer(n, 0)
	st := &vStream{ctx: context.Background(), inErr: io.EOF}
	if r.Intn(3) == 0 {
		st.inErr = errors.New("recv")
	}
	var calls []string
	var want []shown
	stop := false
	bad := false
	for i := r.Intn(6); i > 0; i-- {
		q := &pb.EnqueueRequest{QueueName: vText(r), Group: vText(r), Priority: vNum(r), Content: vText(r)}
		if len(st.in) > 0 && r.Intn(3) == 0 {
			l := st.in[len(st.in)-1] // the same once more
			q = &pb.EnqueueRequest{QueueName: l.QueueName, Group: l.Group, Priority: l.Priority, Content: l.Content}
		}
		st.in = append(st.in, q)
		m := vMsg(r)
		if r.Intn(6) == 0 {
			m = nil
		}
		n.outcomes = append(n.outcomes, m)
		if stop {
			continue
		}
		calls = append(calls, fmt.Sprintf("enqueue %q %q %d %q", q.QueueName, q.Group, q.Priority, q.Content))
		if m == nil {
			stop, bad = true, true
			continue
		}
		want = append(want, show(m))
		if st.failAt == 0 && r.Intn(8) == 0 {
			st.failAt = len(want)
			stop, bad = true, true
		}
	}
	n.outcomes = append(n.outcomes, nil)
	err := s.EnqueueStream(vEnq{st})
	if err == nil && bad {
		vFail(seed, "C27", "enqueue stream: no error after a message could not be stored or confirmed")
	}
	if !reflect.DeepEqual(n.calls, calls) {
		vFail(seed, "C27", "enqueue stream: the node was asked %q instead of %q", n.calls, calls)
	}
	if !reflect.DeepEqual(st.out, want) {
		vFail(seed, "C27", "enqueue stream: confirmed %+v instead of %+v", st.out, want)
	}
	for _, ok := range st.ok {
		if !ok {
			vFail(seed, "C27", "enqueue stream: a confirmation without success")
		}
	}
}

func vUntil(f func() bool) {
	for end := time.Now().Add(10 * time.Second); !f() && time.Now().Before(end); {
		time.Sleep(10 * time.Millisecond)
	}
}

// vPatience: the time until all outcomes have been asked for (or the stream should have ended), and a little more
func vPatience(n *vNode, stop bool) chan bool {
	c := make(chan bool)
	go func() {
		vUntil(func() bool {
			n.mu.Lock()
			defer n.mu.Unlock()
			return len(n.outcomes) == 1 && !stop
		})
		time.Sleep(200 * time.Millisecond)
		close(c)
	}()
	return c
}

func dequeueStream(seed int64) {
	r := rand.New(rand.NewSource(seed))
	n := &vNode{lead: true}
	s := NewQueueServer(n, 0)
	ctx, cancel := context.WithCancel(context.Background())
	st := &vStream{ctx: ctx}
	name, ack := vText(r), r.Intn(2) == 0
	var want []shown
	stop := false
	for i := r.Intn(8); i > 0; i-- {
		m := vMsg(r)
		if r.Intn(6) == 0 {
			m = nil
		}
		n.outcomes = append(n.outcomes, m)
		if stop || m == nil {
			continue
		}
		want = append(want, show(m))
		if r.Intn(8) == 0 {
			st.failAt = len(want)
			stop = true
		}
	}
	n.outcomes = append(n.outcomes, nil)
	all := n.outcomes
	// another consumer of the same queue, which must stay registered
	other := make(chan struct{})
	s.registerConsumer(name, 1<<40, other)
	done := make(chan error, 1)
	go func() { done <- s.DequeueStream(&pb.DequeueRequest{QueueName: name, Ack: ack}, vDeq{st}) }()
	vUntil(func() bool { return s.vConsumers(name) == 2 })
	if c := s.vConsumers(name); c != 2 {
		vFail(seed, "C27", "dequeue stream: %d consumers are registered instead of 2", c)
	}
	if r.Intn(2) == 0 {
		s.broadcastMessage(name+"x", struct{}{}) // another queue: no delivery
		s.broadcastMessage(name, struct{}{})
	}
	var err error
	select {
	case err = <-done:
		if !stop {
			vFail(seed, "C27", "dequeue stream: ended with %v while it was open", err)
		}
	case <-vPatience(n, stop):
		cancel()
		select {
		case err = <-done:
			if stop {
				vFail(seed, "C27", "dequeue stream: went on after a message could not be sent")
			}
		case <-time.After(5 * time.Second):
			vFail(seed, "C27", "dequeue stream: still open after its client has gone")
		}
	}
	cancel()
	if stop && err == nil {
		vFail(seed, "C27", "dequeue stream: no error after a message could not be sent")
	}
	if c := s.vConsumers(name); c != 1 {
		vFail(seed, "C27", "dequeue stream: %d consumers are registered instead of 1 after its end", c)
	}
	for _, c := range n.calls {
		if c != fmt.Sprintf("dequeue %q %v", name, ack) {
			vFail(seed, "C27", "dequeue stream on %q, ack %v: the node was asked %s", name, ack, c)
		}
	}
	if !reflect.DeepEqual(st.out, want) {
		vFail(seed, "C27", "dequeue stream: sent %+v instead of %+v", st.out, want)
	}
	took := 0
	for _, m := range all[:len(all)-len(n.outcomes)] {
		if m != nil {
			took++
		}
	}
	if took != len(st.out) {
		vFail(seed, "C27", "dequeue stream: %d messages were taken and %d sent", took, len(st.out))
	}
	for _, ok := range st.ok {
		if !ok {
			vFail(seed, "C27", "dequeue stream: a message without success")
		}
	}
}

func TestVerifStreams(t *testing.T) {
	end := time.Now().Add(time.Duration(vSecs) * time.Second)
	for seed := int64(vSeed); (seed == int64(vSeed) || time.Now().Before(end)) && count() < 3; seed++ {
		for i := int64(0); i < 50; i++ {
			enqueueStream(seed*1000 + i)
		}
		var wg sync.WaitGroup
		for i := int64(0); i < 60; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); dequeueStream(seed*1000 + i) }()
		}
		wg.Wait()
	}
	if len(seen) > 0 {
		t.Fail()
	}
}
