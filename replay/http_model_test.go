package http

// Replay of failed obligations on the real code: random requests to a node that leads and to one that does not,
// over real HTTP, with nodes that record what they are asked and answer at random.

import (
	"bufio"
	"bytes"
	"embed"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	nethttp "net/http"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/kgantsov/doq/pkg/config"
	"github.com/kgantsov/doq/pkg/queue"
	"github.com/prometheus/client_golang/prometheus"
)

var vSeed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
var vSecs, _ = strconv.Atoi(os.Getenv("VERIF_SECS"))
var vProp = os.Getenv("VERIF_PROP")
var seen = map[string]int{}

func vFail(seed int64, props, f string, a ...interface{}) {
	for _, p := range strings.Fields(props) {
		seen[p]++
		if seen[p] <= 2 {
			fmt.Printf("REPLAY-FAIL %s seed %d: %s\n", p, seed, fmt.Sprintf(f, a...))
		}
	}
}

// vNode records what it is asked.
type vNode struct {
	mu     sync.Mutex
	lead   bool
	leader string
	calls  []string
	err    error
	msg    *queue.Message
	infos  []*queue.QueueInfo
	hook   func()
}

func (n *vNode) rec(f string, a ...interface{}) {
	n.mu.Lock()
	n.calls = append(n.calls, fmt.Sprintf(f, a...))
	n.mu.Unlock()
	if n.hook != nil {
		n.hook()
	}
}
func (n *vNode) Join(id, addr string) error                { n.rec("join %q %q", id, addr); return n.err }
func (n *vNode) PrometheusRegistry() prometheus.Registerer { return prometheus.NewRegistry() }
func (n *vNode) Leader() string                            { return n.leader }
func (n *vNode) IsLeader() bool                            { return n.lead }
func (n *vNode) GenerateID() uint64                        { return 1 }
func (n *vNode) CreateQueue(t, name string) error          { n.rec("create %q %q", t, name); return n.err }
func (n *vNode) DeleteQueue(name string) error             { n.rec("delete %q", name); return n.err }
func (n *vNode) GetQueues() []*queue.QueueInfo             { n.rec("queues"); return n.infos }
func (n *vNode) GetQueueInfo(name string) (*queue.QueueInfo, error) {
	n.rec("info %q", name)
	if n.err != nil {
		return nil, n.err
	}
	return n.infos[0], nil
}
func (n *vNode) Enqueue(name, g string, p int64, c string) (*queue.Message, error) {
	n.rec("enqueue %q %q %d %q", name, g, p, c)
	return n.answer()
}
func (n *vNode) answer() (*queue.Message, error) {
	if n.err != nil {
		return nil, n.err
	}
	return n.msg, nil
}
func (n *vNode) Dequeue(name string, ack bool) (*queue.Message, error) {
	n.rec("dequeue %q %v", name, ack)
	return n.answer()
}
func (n *vNode) Ack(name string, id uint64) error          { n.rec("ack %q %d", name, id); return n.err }
func (n *vNode) Nack(name string, id uint64) error         { n.rec("nack %q %d", name, id); return n.err }
func (n *vNode) GetByID(id uint64) (*queue.Message, error) { return n.answer() }
func (n *vNode) UpdatePriority(name string, id uint64, p int64) error {
	n.rec("priority %q %d %d", name, id, p)
	return n.err
}

type request struct {
	method, path, body string
	call               string
	want               func(n *vNode) interface{}
}

func vText(r *rand.Rand, chars string) string {
	cs := []rune(chars)
	b := make([]rune, 1+r.Intn(8))
	for i := range b {
		b[i] = cs[r.Intn(len(cs))]
	}
	return string(b)
}

func vJSON(x interface{}) string { b, _ := json.Marshal(x); return string(b) }

func vInfo(r *rand.Rand) *queue.QueueInfo {
	f := func() float64 { return float64(r.Intn(1000)) / 4 }
	return &queue.QueueInfo{Name: vText(r, "abc-"), Type: []string{"delayed", "fair"}[r.Intn(2)],
		Stats: &queue.QueueStats{EnqueueRPS: f(), DequeueRPS: f(), AckRPS: f(), NackRPS: f()},
		Ready: r.Int63n(1000), Unacked: r.Int63n(1000), Total: r.Int63n(1000)}
}

func infoMap(name string, q *queue.QueueInfo) map[string]interface{} {
	return map[string]interface{}{"name": name, "type": q.Type, "enqueue_rps": q.Stats.EnqueueRPS, "dequeue_rps": q.Stats.DequeueRPS,
		"ack_rps": q.Stats.AckRPS, "nack_rps": q.Stats.NackRPS, "ready": q.Ready, "unacked": q.Unacked, "total": q.Total}
}

func vRequest(r *rand.Rand) request {
	name := vText(r, "abcXYZ019-_~") + []string{"", "%20b", "%2Fc", ".x", "%C3%A9", "+y", "%25"}[r.Intn(7)]
	id := uint64(r.Int63())
	if r.Intn(3) == 0 {
		id = uint64(r.Intn(3))
	}
	prio := r.Int63()
	if r.Intn(2) == 0 {
		prio = int64(r.Intn(3))
	}
	text := func() string { return vText(r, "ab \"\\\n<>&é漢%/{}\u2028") }
	base := "/API/v1/queues/" + name
	msg := func(status string) func(n *vNode) interface{} {
		return func(n *vNode) interface{} {
			return map[string]interface{}{"status": status, "id": fmt.Sprint(n.msg.ID), "group": n.msg.Group, "priority": n.msg.Priority, "content": n.msg.Content}
		}
	}
	konst := func(m map[string]interface{}) func(*vNode) interface{} {
		return func(*vNode) interface{} { return m }
	}
	sid := fmt.Sprint(id)
	switch r.Intn(10) {
	case 0:
		t, nm := []string{"delayed", "fair"}[r.Intn(2)], text()
		return request{"POST", "/API/v1/queues", vJSON(map[string]interface{}{"name": nm, "type": t}), fmt.Sprintf("create %q %q", t, nm), konst(map[string]interface{}{"status": "CREATED", "name": nm, "type": t})}
	case 1:
		return request{"DELETE", base, "", fmt.Sprintf("delete %q", name), konst(map[string]interface{}{"status": "DELETED"})}
	case 2:
		g, c := text(), text()
		return request{"POST", base + "/messages", vJSON(map[string]interface{}{"group": g, "priority": prio, "content": c}), fmt.Sprintf("enqueue %q %q %d %q", name, g, prio, c), msg("ENQUEUED")}
	case 3:
		ack := r.Intn(2) == 0
		return request{"GET", fmt.Sprintf("%s/messages?ack=%v", base, ack), "", fmt.Sprintf("dequeue %q %v", name, ack), msg("DEQUEUED")}
	case 4:
		return request{"GET", base + "/messages", "", fmt.Sprintf("dequeue %q false", name), msg("DEQUEUED")}
	case 5:
		return request{"POST", base + "/messages/" + sid + "/ack", "", fmt.Sprintf("ack %q %d", name, id), konst(map[string]interface{}{"status": "ACKNOWLEDGED", "id": sid})}
	case 6:
		return request{"POST", base + "/messages/" + sid + "/nack", "", fmt.Sprintf("nack %q %d", name, id), konst(map[string]interface{}{"status": "UNACKNOWLEDGED", "id": sid})}
	case 7:
		return request{"PUT", base + "/messages/" + sid + "/priority", vJSON(map[string]interface{}{"priority": prio}), fmt.Sprintf("priority %q %d %d", name, id, prio), konst(map[string]interface{}{"status": "UPDATED", "id": sid, "priority": prio})}
	case 8:
		return request{"GET", "/API/v1/queues", "", "queues", func(n *vNode) interface{} {
			l := []interface{}{}
			for _, q := range n.infos {
				l = append(l, infoMap(q.Name, q))
			}
			return map[string]interface{}{"queues": l}
		}}
	default:
		return request{"GET", base, "", fmt.Sprintf("info %q", name), func(n *vNode) interface{} { return infoMap(name, n.infos[0]) }}
	}
}

func vSame(want interface{}, body []byte) bool {
	var a, b interface{}
	d := func(x []byte, v *interface{}) error {
		dec := json.NewDecoder(bytes.NewReader(x))
		dec.UseNumber()
		return dec.Decode(v)
	}
	w, _ := json.Marshal(want)
	if d(w, &a) != nil || d(body, &b) != nil {
		return false
	}
	if m, ok := b.(map[string]interface{}); ok {
		delete(m, "$schema")
	}
	return reflect.DeepEqual(a, b)
}

func TestVerifHTTP(t *testing.T) {
	var fs embed.FS
	old := os.Stdout
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = null // the request log
	ln, err := net.Listen("tcp", "127.0.0.2:0")
	if err != nil {
		t.Skip(err)
	}
	// a leader that breaks the connection after it has got the request
	broken, err := net.Listen("tcp", fmt.Sprintf("127.0.0.5:%d", ln.Addr().(*net.TCPAddr).Port))
	if err != nil {
		t.Skip(err)
	}
	var got int32
	var hook func()
	go func() {
		for {
			c, err := broken.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				if _, err := nethttp.ReadRequest(bufio.NewReader(c)); err == nil {
					atomic.AddInt32(&got, 1)
					if hook != nil {
						hook()
					}
				}
			}()
		}
	}()
	port := fmt.Sprint(ln.Addr().(*net.TCPAddr).Port)
	ln2, err := net.Listen("tcp", "127.0.0.3:0")
	if err != nil {
		t.Skip(err)
	}
	c := &config.Config{}
	c.Http.Port = port
	lead, follow := &vNode{lead: true, leader: "127.0.0.2"}, &vNode{leader: "127.0.0.2"}
	ls, fsv := NewHttpService(c, lead, fs, fs), NewHttpService(c, follow, fs, fs)
	go ls.router.Listener(ln)
	go fsv.router.Listener(ln2)
	leaders := []string{"127.0.0.2"}
	if ln6, err := net.Listen("tcp", "[::1]:"+port); err == nil {
		leaders = append(leaders, "::1")
		go NewHttpService(c, lead, fs, fs).router.Listener(ln6)
	}
	time.Sleep(100 * time.Millisecond)
	os.Stdout = old
	direct, via := "http://"+ln.Addr().String(), "http://"+ln2.Addr().String()
	client := &nethttp.Client{Timeout: 15 * time.Second}
	var seed int64
	do := func(base string, q request) (int, []byte) {
		req, _ := nethttp.NewRequest(q.method, base+q.path, strings.NewReader(q.body))
		if q.body != "" {
			req.Header.Set("Content-Type", "application/json")
		}
		resp, err := client.Do(req)
		if err != nil {
			return 0, []byte(err.Error())
		}
		defer resp.Body.Close()
		b, _ := io.ReadAll(resp.Body)
		if resp.StatusCode == 500 && (bytes.Contains(b, []byte("runtime error: ")) || bytes.Contains(b, []byte("interface conversion: "))) {
			vFail(seed, "C19", "%s %s %s: the handler panics: %s", q.method, q.path, q.body, b) // fiber recovers and answers so
		}
		return resp.StatusCode, b
	}
	end := time.Now().Add(time.Duration(vSecs) * time.Second)
	for seed = int64(vSeed); time.Now().Before(end) && seen[vProp] < 3; seed++ {
		r := rand.New(rand.NewSource(seed))
		q := vRequest(r)
		text := func() string { return vText(r, "ab \"\\\n<>&é漢") }
		lead.calls, follow.calls = nil, nil
		follow.leader = leaders[r.Intn(len(leaders))]
		lead.err = nil
		if r.Intn(3) == 0 {
			lead.err = errors.New("no")
		}
		lead.msg = &queue.Message{ID: uint64(r.Int63()), Group: text(), Priority: r.Int63(), Content: text()}
		if r.Intn(40) == 0 {
			lead.msg.Content = strings.Repeat("x\n", 1+r.Intn(4<<20))
		}
		lead.infos = []*queue.QueueInfo{vInfo(r)}
		for n := 0; r.Intn(2) == 0 || n > 0; n-- {
			if r.Intn(100) == 0 {
				n = r.Intn(2000)
			}
			lead.infos = append(lead.infos, vInfo(r))
		}
		follow.lead, lead.hook, hook = false, nil, nil
		if r.Intn(2) == 0 { // leadership moves while the leader carries out the request
			hook = func() { follow.lead = true }
			lead.hook = hook
		}
		follow.err, follow.msg, follow.infos = lead.err, &queue.Message{ID: 7, Group: "local"}, lead.infos
		local := q.call == "queues" || strings.HasPrefix(q.call, "info") // answered by every node
		ok := lead.err == nil || q.call == "queues"
		judge := func(code int, body []byte, props string, how string) {
			if (code == 200) != ok {
				vFail(seed, props, "%s %s %s %s: the node answered %v, the reply is %d %.300s", how, q.method, q.path, q.body, lead.err, code, body)
			} else if ok && !vSame(q.want(lead), body) {
				vFail(seed, props, "%s %s %s %s: the reply is %.300s instead of %.300s", how, q.method, q.path, q.body, body, vJSON(q.want(lead)))
			}
		}
		once := func(n *vNode, props, how string) {
			if len(n.calls) != 1 || n.calls[0] != q.call {
				vFail(seed, props, "%s %s %s %s: the node was asked %q instead of %q", how, q.method, q.path, q.body, n.calls, q.call)
			}
		}
		switch mode := r.Intn(9); {
		case mode < 3 || local:
			code, body := do(direct, q)
			judge(code, body, "C16", "to the leader:")
			once(lead, "C15 C16", "to the leader:")
			if len(follow.calls) != 0 {
				vFail(seed, "C15", "a request to the leader reached another node: %q", follow.calls)
			}
		case mode < 7:
			code, body := do(via, q)
			judge(code, body, "C15", "to a follower:")
			once(lead, "C15", "to a follower:")
			if len(follow.calls) != 0 {
				vFail(seed, "C15", "%s %s %s to a follower: executed locally: %q", q.method, q.path, q.body, follow.calls)
			}
		case mode == 7:
			follow.leader = "127.0.0.5"
			atomic.StoreInt32(&got, 0)
			code, body := do(via, q)
			if n := int(atomic.LoadInt32(&got)); code == 200 || n+len(follow.calls) > 1 || len(lead.calls) > 0 {
				vFail(seed, "C15", "%s %s to a follower whose leader breaks the connection: reply %d %s, sent %d times, calls %q", q.method, q.path, code, body, n, follow.calls)
			}
		default:
			follow.leader = []string{"", "127.0.0.77"}[r.Intn(2)]
			code, body := do(via, q)
			if code == 200 || len(lead.calls)+len(follow.calls) != 0 {
				vFail(seed, "C15", "%s %s to a follower of %q: reply %d %s, calls %q %q", q.method, q.path, follow.leader, code, body, lead.calls, follow.calls)
			}
		}
	}
	if len(seen) > 0 {
		t.Fail()
	}
}
