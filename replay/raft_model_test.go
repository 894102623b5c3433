package raft

// Replay of failed obligations on the real code: random commands, through the state machine alone
// and through a node with an in-memory raft, against a second queue manager that is called directly.

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/bwmarrin/snowflake"
	"github.com/dgraph-io/badger/v4"
	"github.com/hashicorp/raft"
	badgerstore "github.com/kgantsov/doq/pkg/badger-store"
	"github.com/kgantsov/doq/pkg/config"
	"github.com/kgantsov/doq/pkg/queue"
	"github.com/rs/zerolog"
)

var vSeed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
var vSecs, _ = strconv.Atoi(os.Getenv("VERIF_SECS"))
var vProp = os.Getenv("VERIF_PROP")
var seen = map[string]int{}

type stop struct{}

type world struct {
	seed   int64
	r      *rand.Rand
	log    []string
	db, sh *badger.DB
	qm     *queue.QueueManager
	sqm    *queue.QueueManager
	fsm    *FSM
	index  uint64
	ids    []uint64
}

func (w *world) note(f string, a ...interface{}) { w.log = append(w.log, fmt.Sprintf(f, a...)) }

func (w *world) fail(props string, f string, a ...interface{}) {
	for _, p := range strings.Fields(props) {
		seen[p]++
		if seen[p] <= 2 {
			fmt.Printf("REPLAY-FAIL %s seed %d: %s\n", p, w.seed, fmt.Sprintf(f, a...))
			if seen[p] == 1 {
				n := len(w.log)
				if n > 60 {
					n = 60
				}
				fmt.Println("   history:\n     " + strings.Join(w.log[len(w.log)-n:], "\n     "))
			}
		}
	}
	panic(stop{})
}

func mem(t *testing.T) *badger.DB {
	db, err := badger.Open(badger.DefaultOptions("").WithInMemory(true).WithLogger(nil).WithMemTableSize(4 << 20).WithValueThreshold(1 << 10))
	if err != nil {
		t.Fatal(err)
	}
	return db
}

func newWorld(t *testing.T, seed int64) *world {
	w := &world{seed: seed, r: rand.New(rand.NewSource(seed)), db: mem(t), sh: mem(t)}
	cfg := &config.Config{Queue: config.QueueConfig{AcknowledgementCheckInterval: 1 << 20, AcknowledgementTimeout: 1 << 20, QueueStats: config.QueueStatsConfig{WindowSide: 2}}}
	w.qm = queue.NewQueueManager(w.db, cfg, nil)
	w.sqm = queue.NewQueueManager(w.sh, cfg, nil)
	w.fsm = &FSM{queueManager: w.qm, NodeID: "n", db: w.db, config: cfg}
	return w
}

var names = []string{"a", "ab", "a:b", "", "q\"x", "ü", "queues:a", "b"}
var texts = []string{"", "default", "a", "é\u2028<&>", "{\"x\":1}", "long " + strings.Repeat("z", 300), "b", "c"}

func pick(r *rand.Rand, s []string) string { return s[r.Intn(len(s))] }

func dump(db *badger.DB) map[string]string {
	m := map[string]string{}
	db.View(func(txn *badger.Txn) error {
		it := txn.NewIterator(badger.DefaultIteratorOptions)
		defer it.Close()
		for it.Rewind(); it.Valid(); it.Next() {
			v, _ := it.Item().ValueCopy(nil)
			m[string(it.Item().KeyCopy(nil))] = string(v)
		}
		return nil
	})
	return m
}

func (w *world) compare() {
	a, b := dump(w.db), dump(w.sh)
	for k, v := range a {
		if b[k] != v {
			w.fail("C13", "the storage holds %q = %q, expected %q", k, v, b[k])
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			w.fail("C13", "the storage has no %q", k)
		}
	}
	x, y := w.qm.GetQueues(), w.sqm.GetQueues()
	if len(x) != len(y) {
		w.fail("C13", "%d queues are open, expected %d", len(x), len(y))
	}
	for i := range x {
		if x[i].Name != y[i].Name || x[i].Type != y[i].Type || x[i].Ready != y[i].Ready || x[i].Unacked != y[i].Unacked {
			w.fail("C13", "queue %+v, expected %+v", x[i], y[i])
		}
	}
}

type want struct {
	err    bool
	msg    *queue.Message
	fields bool
}

type req struct {
	op, name, typ, group, content string
	id                            uint64
	prio                          int64
	ack                           bool
}

func (w *world) direct(q req) want {
	if q.op == "createQueue" {
		_, err := w.sqm.Create(q.typ, q.name)
		return want{err: err != nil}
	}
	if q.op == "deleteQueue" {
		return want{err: w.sqm.Delete(q.name) != nil}
	}
	b, err := w.sqm.GetQueue(q.name)
	if err != nil {
		return want{err: true}
	}
	var m *queue.Message
	switch q.op {
	case "enqueue":
		m, err = b.Enqueue(q.id, q.group, q.prio, q.content)
		return want{err != nil, m, err == nil}
	case "dequeue":
		m, err = b.Dequeue(q.ack)
		return want{err != nil, m, err == nil}
	case "ack":
		err = b.Ack(q.id)
	case "nack":
		err = b.Nack(q.id)
	case "updatePriority":
		err = b.UpdatePriority(q.id, q.prio)
	}
	return want{err: err != nil}
}

func (w *world) request() req {
	r := w.r
	q := req{name: pick(r, names), group: pick(r, texts), content: pick(r, texts), prio: int64(r.Intn(9) - 4), ack: r.Intn(2) == 0, typ: []string{"fair", "delayed", "fair", "delayed", "odd", ""}[r.Intn(6)]}
	if r.Intn(4) == 0 {
		q.prio = []int64{1 << 62, -1 << 63, 1<<53 + 1, 1<<63 - 1, -1<<53 - 1}[r.Intn(5)]
	}
	q.id = uint64(r.Intn(6))
	if len(w.ids) > 0 && r.Intn(4) > 0 {
		q.id = w.ids[r.Intn(len(w.ids))]
	}
	q.op = []string{"createQueue", "createQueue", "enqueue", "enqueue", "enqueue", "enqueue", "dequeue", "dequeue", "ack", "nack", "updatePriority", "deleteQueue"}[r.Intn(12)]
	if q.op == "deleteQueue" && r.Intn(3) > 0 {
		q.op = "enqueue"
	}
	if q.op == "createQueue" {
		// an existing queue that is not open would be replaced (known finding)
		w.qm.GetQueue(q.name)
		w.sqm.GetQueue(q.name)
	}
	return q
}

func (q req) command() Command {
	c := Command{Op: q.op}
	switch q.op {
	case "enqueue":
		c.Payload = EnqueuePayload{ID: q.id, QueueName: q.name, Group: q.group, Priority: q.prio, Content: q.content}
	case "dequeue":
		c.Payload = DequeuePayload{QueueName: q.name, Ack: q.ack}
	case "ack":
		c.Payload = AckPayload{QueueName: q.name, ID: q.id}
	case "nack":
		c.Payload = NackPayload{QueueName: q.name, ID: q.id}
	case "updatePriority":
		c.Payload = UpdatePriorityPayload{QueueName: q.name, ID: q.id, Priority: q.prio}
	case "createQueue":
		c.Payload = CreateQueuePayload{QueueType: q.typ, QueueName: q.name}
	case "deleteQueue":
		c.Payload = DeleteQueuePayload{QueueName: q.name}
	}
	return c
}

func (w *world) apply(data []byte) (r *FSMResponse) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(stop); ok {
				panic(x)
			}
			w.fail("C13 C19", "applying %q panics: %v", data, x)
		}
	}()
	w.index++
	typ := raft.LogCommand
	x := w.fsm.Apply(&raft.Log{Index: w.index, Term: 1, Type: typ, Data: data})
	r, ok := x.(*FSMResponse)
	if !ok || r == nil {
		w.fail("C13 C19", "applying %q answers %T", data, x)
	}
	return r
}

func (w *world) fsmStep() {
	r := w.r
	if r.Intn(6) == 0 {
		garbage := []string{"", "{", "null", "[]", "3", "{}", `{"op":"enqueue"}`, `{"op":"enqueue","payload":null}`, `{"op":"enqueue","payload":[1]}`,
			`{"op":"drop","payload":{"queue_name":"a"}}`, `{"op":7,"payload":{"queue_name":"a"}}`, `{"op":"ack","payload":{"queue_name":"a","id":"x"}}`,
			`{"op":"dequeue","payload":{"queue_name":"a","ack":1}}`, `{"op":"nack","payload":{"queue_name":3,"id":1}}`, `{"op":"enqueue","payload":{"queue_name":"a","id":-1}}`,
			`{"op":"updatePriority","payload":{"queue_name":"a","id":1,"priority":1.5}}`, `{"op":"Enqueue ","payload":{"queue_name":"a"}}`, `{"op":"deleteQueue"}`, `{"op":"createQueue","payload":"x"}`, "\xff\xfe",
			`{"op":"deleteQueue","payload":7}`, `{"op":"dequeue"}`, `{"op":"","payload":{"queue_name":"a"}}`, `{"payload":{"queue_name":"a","id":1}}`}
		g := pick(r, garbage)
		w.note("apply %q", g)
		before := dump(w.db)
		x := w.apply([]byte(g))
		if g != `{"op":"enqueue","payload":null}` && x.error == nil {
			w.fail("C13", "the undecodable command %q was accepted", g)
		}
		if g != `{"op":"enqueue","payload":null}` && len(dump(w.db)) != len(before) {
			w.fail("C13", "the undecodable command %q changed the storage", g)
		}
		if g == `{"op":"enqueue","payload":null}` {
			w.direct(req{op: "enqueue"})
		}
		w.compare()
		return
	}
	q := w.request()
	if q.op == "enqueue" {
		// an enqueue comes with a new ID
		q.id = uint64(r.Int63n(1<<40)) + 100
		if r.Intn(5) == 0 {
			q.id = 1<<64 - 1 - q.id
		}
		w.ids = append(w.ids, q.id)
	}
	b, err := json.Marshal(q.command())
	if err != nil {
		w.fail("C13", "encoding %+v: %v", q, err)
	}
	w.note("apply %s", b)
	x := w.apply(b)
	e := w.direct(q)
	if (x.error != nil) != e.err {
		w.fail("C13", "%s: the response has error %v, the operation itself %v", b, x.error, e.err)
	}
	if e.fields && (x.ID != e.msg.ID || x.Group != e.msg.Group || x.Priority != e.msg.Priority || x.Content != e.msg.Content) {
		w.fail("C13", "%s: response %+v for message %+v", b, x, e.msg)
	}
	w.compare()
}

// ---- a node with an in-memory raft ----

type recFSM struct {
	*FSM
	data [][]byte
}

func (f *recFSM) Apply(l *raft.Log) interface{} {
	f.data = append(f.data, append([]byte(nil), l.Data...))
	return f.FSM.Apply(l)
}

func (w *world) node(t *testing.T) (*Node, *recFSM, func()) {
	rc := raft.DefaultConfig()
	rc.LocalID = "n"
	rc.HeartbeatTimeout, rc.ElectionTimeout, rc.LeaderLeaseTimeout, rc.CommitTimeout = 50*time.Millisecond, 50*time.Millisecond, 50*time.Millisecond, 2*time.Millisecond
	rc.LogOutput = io.Discard
	st := raft.NewInmemStore()
	addr, tr := raft.NewInmemTransport("")
	f := &recFSM{FSM: w.fsm}
	r, err := raft.NewRaft(rc, f, st, st, raft.NewInmemSnapshotStore(), tr)
	if err != nil {
		t.Fatal(err)
	}
	r.BootstrapCluster(raft.Configuration{Servers: []raft.Server{{ID: "n", Address: addr}}}).Error()
	for i := 0; r.State() != raft.Leader && i < 5000; i++ {
		time.Sleep(time.Millisecond)
	}
	gen, _ := snowflake.NewNode(1)
	return &Node{Raft: r, QueueManager: w.qm, idGenerator: gen, id: "n"}, f, func() { r.Shutdown().Error() }
}

func (w *world) nodeStep(n *Node, f *recFSM) {
	q := w.request()
	w.note("node %+v", q)
	k := len(f.data)
	var m *queue.Message
	var err error
	switch q.op {
	case "enqueue":
		m, err = n.Enqueue(q.name, q.group, q.prio, q.content)
	case "dequeue":
		m, err = n.Dequeue(q.name, q.ack)
	case "ack":
		err = n.Ack(q.name, q.id)
	case "nack":
		err = n.Nack(q.name, q.id)
	case "updatePriority":
		err = n.UpdatePriority(q.name, q.id, q.prio)
	case "createQueue":
		err = n.CreateQueue(q.typ, q.name)
	case "deleteQueue":
		err = n.DeleteQueue(q.name)
	}
	if len(f.data) != k+1 {
		w.fail("C13", "%d commands were committed for one request", len(f.data)-k)
	}
	if q.op == "enqueue" {
		var c Command
		json.Unmarshal(f.data[k], &c)
		if p, ok := c.Payload.(EnqueuePayload); ok {
			q.id = p.ID
		}
		for _, i := range w.ids {
			if i == q.id {
				w.fail("C13", "the ID %d is used again", i)
			}
		}
		w.ids = append(w.ids, q.id)
	}
	e := w.direct(q)
	if (err != nil) != e.err {
		w.fail("C13", "%+v: the requester is told %v, the operation failed: %v", q, err, e.err)
	}
	if e.fields && (m == nil || m.ID != e.msg.ID || m.Group != e.msg.Group || m.Priority != e.msg.Priority || m.Content != e.msg.Content) {
		w.fail("C13", "%+v: the requester is told %+v, the message is %+v", q, m, e.msg)
	}
	w.compare()
	w.infos(n, pick(w.r, names))
}

// infos asks the node about a queue and about all of them.
func (w *world) infos(n *Node, name string) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(stop); ok {
				panic(x)
			}
			w.fail("C16 C19", "asking about the queue %q panics: %v", name, x)
		}
	}()
	// the same queues are to be open at both
	b, berr := w.sqm.GetQueue(name)
	i, err := n.GetQueueInfo(name)
	if (err != nil) != (berr != nil) {
		w.fail("C15 C16 C17", "the information about %q: error %v, the queue itself %v", name, err, berr)
	}
	if err == nil {
		e := b.GetStats()
		if i == nil || i.Name != e.Name || i.Type != e.Type || i.Ready != e.Ready || i.Unacked != e.Unacked || i.Total != e.Total {
			w.fail("C15 C16 C17", "the information about %q is %+v instead of %+v", name, i, e)
		}
	}
	for _, i := range n.GetQueues() {
		b, err := w.sqm.GetQueue(i.Name)
		if err != nil {
			w.fail("C15 C16 C17", "%q is listed: %v", i.Name, err)
		}
		if e := b.GetStats(); i.Type != e.Type || i.Ready != e.Ready || i.Unacked != e.Unacked || i.Total != e.Total {
			w.fail("C15 C16 C17", "the information listed for %q is %+v instead of %+v", i.Name, i, e)
		}
	}
}

func TestVerifCommands(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	end := time.Now().Add(time.Duration(vSecs) * time.Second)
	for i := 0; time.Now().Before(end) && seen[vProp] == 0; i++ {
		func() {
			w := newWorld(t, int64(vSeed)*1000003+int64(i))
			defer w.db.Close()
			defer w.sh.Close()
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(stop); !ok {
						panic(x)
					}
				}
			}()
			if i%2 == 0 {
				for s := 0; s < 40; s++ {
					w.fsmStep()
				}
				return
			}
			n, f, done := w.node(t)
			defer done()
			if n.Raft.State() != raft.Leader {
				return
			}
			for s := 0; s < 40; s++ {
				w.nodeStep(n, f)
			}
			// a node that cannot commit says so
			done()
			k := len(f.data)
			if err := n.Ack("a", 1); err == nil && len(f.data) == k {
				w.fail("C13", "an acknowledgement that was not committed was reported as done")
			}
			if m, err := n.Enqueue("a", "default", 1, "x"); err == nil && len(f.data) == k {
				w.fail("C13", "an enqueue that was not committed was reported as done: %+v", m)
			}
			if err := n.CreateQueue("fair", "zz"); err == nil && len(f.data) == k {
				w.fail("C13", "a create that was not committed was reported as done")
			}
		}()
	}
	if len(seen) > 0 {
		t.Fail()
	}
}

// vReport is fail outside of a world.
func vReport(props, f string, a ...interface{}) {
	for _, p := range strings.Fields(props) {
		seen[p]++
		if seen[p] <= 2 {
			fmt.Printf("REPLAY-FAIL %s: %s\n", p, fmt.Sprintf(f, a...))
		}
	}
}

// TestVerifIDs looks at the numbers of the generators and at the IDs of concurrent and repeated enqueues.
func TestVerifIDs(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	type result struct {
		ids        []raft.ServerID
		own        string
		first, got uint64
		err        error
	}
	var rs []*result
	var wg sync.WaitGroup
	for i := 0; i < 24; i++ {
		r := rand.New(rand.NewSource(int64(vSeed)*1009 + int64(i)))
		rc := raft.DefaultConfig()
		rc.LogOutput = io.Discard
		st := raft.NewInmemStore()
		addr, tr := raft.NewInmemTransport("")
		res := &result{own: "n"}
		var c raft.Configuration
		at := r.Intn(6)
		for k, m := 0, 1+r.Intn(6); k < m; k++ {
			s := raft.Server{ID: raft.ServerID([]string{"n-", "nn", "", "N", "x n"}[r.Intn(5)] + fmt.Sprint(k)), Address: raft.ServerAddress(fmt.Sprintf("a%d", k))}
			if k == at {
				s = raft.Server{ID: "n", Address: addr}
			}
			c.Servers = append(c.Servers, s)
			res.ids = append(res.ids, s.ID)
		}
		rc.LocalID = "n"
		fs := &FSM{}
		x, err := raft.NewRaft(rc, fs, st, st, raft.NewInmemSnapshotStore(), tr)
		if err != nil {
			t.Fatal(err)
		}
		if i%8 == 7 { // a node that is in no configuration
			res.ids = nil
		} else if x.BootstrapCluster(c).Error() != nil {
			x.Shutdown()
			continue
		}
		gen, _ := snowflake.NewNode(1)
		n := &Node{Raft: x, id: "n", idGenerator: gen}
		rs = append(rs, res)
		wg.Add(1)
		go func() {
			defer wg.Done()
			res.first = n.GenerateID()
			res.err = n.InitIDGenerator()
			res.got = n.GenerateID()
			x.Shutdown().Error()
		}()
	}
	wg.Wait()
	for _, r := range rs {
		want := uint64(0)
		for i, id := range r.ids {
			if string(id) == r.own {
				want = uint64(i + 1)
			}
		}
		if r.err != nil || r.got>>12&1023 != want {
			vReport("C25", "the node %q of the cluster %q gives IDs with the number %d instead of %d (error %v)", r.own, r.ids, r.got>>12&1023, want, r.err)
		}
		if r.first >= r.got {
			vReport("C25", "the node gives the ID %d after %d", r.got, r.first)
		}
	}
	end := time.Now().Add(time.Duration(vSecs) * time.Second / 2)
	for i := 0; time.Now().Before(end) && seen[vProp] == 0; i++ {
		w := newWorld(t, int64(vSeed)*1000003+int64(i))
		n, f, done := w.node(t)
		if n.Raft.State() != raft.Leader {
			done()
			continue
		}
		for _, q := range []string{"p", "q"} {
			w.qm.Create([]string{"fair", "delayed"}[w.r.Intn(2)], q)
		}
		var mu sync.Mutex
		given := map[uint64]bool{}
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				last := uint64(0)
				for k := 0; k < 25; k++ {
					m, err := n.Enqueue([]string{"p", "q", "none"}[(g+k)%3], "g", 1, "x")
					if err != nil {
						continue
					}
					mu.Lock()
					if m.ID <= last || given[m.ID] {
						vReport("C25", "the node gives the message the ID %d after %d (given before: %v)", m.ID, last, given[m.ID])
					}
					given[m.ID], last = true, m.ID
					mu.Unlock()
				}
			}(g)
		}
		wg.Wait()
		ids := map[uint64]bool{}
		for _, d := range f.data {
			var c Command
			json.Unmarshal(d, &c)
			if p, ok := c.Payload.(EnqueuePayload); ok {
				if ids[p.ID] {
					vReport("C25", "the ID %d is committed twice", p.ID)
				}
				ids[p.ID] = true
			}
		}
		for id := range given {
			if !ids[id] {
				vReport("C25 C13", "the ID %d is told but was not committed", id)
			}
		}
		done()
		w.db.Close()
		w.sh.Close()
	}
	if len(seen) > 0 {
		t.Fail()
	}
}

// TestVerifStart starts a node as the server does.
func TestVerifStart(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	addr := l.Addr().String()
	l.Close()
	db := mem(t)
	cfg := &config.Config{Queue: config.QueueConfig{AcknowledgementCheckInterval: 1}, Cluster: config.ClusterConfig{NodeID: "n"}, Raft: config.RaftConfig{Address: addr}}
	cfg.Logging.LogLevel = "error"
	n := NewNode(db, t.TempDir(), cfg, nil)
	func() {
		defer func() {
			if x := recover(); x != nil {
				vReport("C13 C19", "starting a node panics: %v", x)
			}
		}()
		n.Initialize()
		for i := 0; !n.IsLeader() && i < 100; i++ {
			time.Sleep(100 * time.Millisecond)
		}
		if !n.IsLeader() {
			return
		}
		if err := n.CreateQueue("fair", "q"); err != nil {
			vReport("C13", "creating a queue: %v", err)
			return
		}
		m, err := n.Enqueue("q", "g", 3, "c")
		if err != nil {
			vReport("C13", "enqueue: %v", err)
		}
		if is := n.GetQueues(); len(is) != 1 || is[0].Name != "q" || is[0].Ready != 1 {
			vReport("C13 C16 C17", "a queue with one message was created, %d are listed", len(is))
		}
		if i, err := n.GetQueueInfo("q"); err != nil || i.Name != "q" || i.Type != "fair" || i.Ready != 1 {
			vReport("C13 C16 C17", "the information about the queue: %+v %v", i, err)
		}
		if d, err := n.Dequeue("q", false); err != nil || m == nil || d.ID != m.ID {
			vReport("C13", "dequeue: %+v %v instead of %+v", d, err, m)
		}
		// another start over the same storage finds the entries
		s, err := badgerstore.New(db, badgerstore.Options{})
		if err != nil {
			vReport("C11 C12 C19", "%v", err)
			return
		}
		if i, err := s.LastIndex(); err != nil || i < 3 {
			vReport("C11", "the last index is %d %v after three commands", i, err)
		}
		if _, err := s.GetUint64([]byte("CurrentTerm")); err != nil {
			vReport("C12", "the term: %v", err)
		}
		n.Raft.Shutdown().Error()
	}()
	if len(seen) > 0 {
		t.Fail()
	}
}
