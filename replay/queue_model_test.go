package queue_test

// Replay of failed obligations on the real code: random histories against a reference model.
// Exported names only. Every difference is printed as "REPLAY-FAIL <property> <seed> <what>".

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/dgraph-io/badger/v4"
	"github.com/kgantsov/doq/pkg/config"
	. "github.com/kgantsov/doq/pkg/queue"
	"github.com/rs/zerolog"
)

var vProp = os.Getenv("VERIF_PROP")
var vSeed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
var vSecs, _ = strconv.Atoi(os.Getenv("VERIF_SECS"))

var out = os.Stdout

func init() {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	os.Stdout, _ = os.Open(os.DevNull)
}

type stop struct{}

type hist struct {
	seed int64
	r    *rand.Rand
	log  []string
}

var outMu sync.Mutex
var seen = map[string]int{}

func (h *hist) note(f string, a ...interface{}) { h.log = append(h.log, fmt.Sprintf(f, a...)) }

// fail reports a difference under the properties named and ends the history.
func (h *hist) fail(props string, f string, a ...interface{}) {
	outMu.Lock()
	defer outMu.Unlock()
	for _, p := range strings.Fields(props) {
		seen[p]++
		if seen[p] <= 2 {
			fmt.Fprintf(out, "REPLAY-FAIL %s seed %d: %s\n", p, h.seed, fmt.Sprintf(f, a...))
			if seen[p] == 1 {
				n := len(h.log)
				if n > 60 {
					n = 60
				}
				fmt.Fprintln(out, "   history:\n     "+strings.Join(h.log[len(h.log)-n:], "\n     "))
			}
		}
	}
	panic(stop{})
}

func enough() bool {
	outMu.Lock()
	defer outMu.Unlock()
	return seen[vProp] > 0
}

func run(seed int64, f func(h *hist)) {
	h := &hist{seed: seed, r: rand.New(rand.NewSource(seed))}
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(stop); ok {
				return
			}
			func() {
				defer func() { recover() }()
				h.fail("C19 C04", "panic: %v", x)
			}()
		}
	}()
	f(h)
}

func many(secs int, f func(h *hist)) {
	end := time.Now().Add(time.Duration(secs) * time.Second)
	var wg sync.WaitGroup
	for w := 0; w < 6; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; time.Now().Before(end) && !enough(); i++ {
				run(int64(vSeed)*1000003+int64(w)*100000+int64(i), f)
			}
		}()
	}
	wg.Wait()
}

// ---- the reference model ----

type mmsg struct {
	id      uint64
	group   string
	prio    int64
	content string
	out     bool
	via     string // what touched the message before: C05 nack, C10 restart, C14 priority update
}

func via(ms ...*mmsg) string {
	s := ""
	for _, m := range ms {
		if m != nil {
			s += m.via
		}
	}
	return s
}

type mqueue struct {
	name, typ string
	msgs      map[uint64]*mmsg
	rank      map[string]int // fair: groups waiting
	next      int
}

func (q *mqueue) fair() bool { return q.typ == "fair" }

func (q *mqueue) ready(g string) (ms []*mmsg) {
	for _, m := range q.msgs {
		if !m.out && (g == "\x00any" || m.group == g) {
			ms = append(ms, m)
		}
	}
	sort.Slice(ms, func(i, j int) bool {
		return ms[i].prio < ms[j].prio || ms[i].prio == ms[j].prio && ms[i].id < ms[j].id
	})
	return
}

const anyG = "\x00any"

func (q *mqueue) enter(g string) {
	if _, ok := q.rank[g]; !ok {
		q.next++
		q.rank[g] = q.next
	}
}
func (q *mqueue) leave(g string) {
	if len(q.ready(g)) == 0 {
		delete(q.rank, g)
	}
}
func (q *mqueue) counts() (r, o int) {
	for _, m := range q.msgs {
		if m.out {
			o++
		} else {
			r++
		}
	}
	return
}

var names = []string{"A", "Q", "B", strings.Repeat("long", 70), strings.Repeat("long", 70) + "b", strings.Repeat("long", 20), strings.Repeat("long", 20) + "b", "A:b", "a%s", "a/b", "a", "a:", "a:b", "a:b:", "q", "q:messages", "messages:q:", "queues:a:", ":", "", "queue with space", "ü", "a\x00b", "aa"}
var groups = []string{"default", "g1", "g2", "g3", "", "g:1", "日本", "\"quoted\"\n", "<&>", "a/b"}
var contents = []string{"", "x", "{\"a\":1}", "line\nline", "日本語 \U0001F600", "<script>&amp;", "\u2028\u2029", "null", "\x00\x01", "ünïcode", strings.Repeat("long ", 500)}

func prio(r *rand.Rand, fair bool) int64 {
	now := time.Now().UTC().Unix()
	if fair {
		switch r.Intn(12) {
		case 0:
			return math.MaxInt64
		case 1:
			return math.MinInt64
		case 2:
			return now + 1000
		}
		return int64(r.Intn(6) - 2)
	}
	switch r.Intn(10) {
	case 0:
		return now + 100000 + int64(r.Intn(3))
	case 1:
		return now - int64(r.Intn(3)) - 5
	case 2:
		return math.MinInt64 + int64(r.Intn(2))
	case 3:
		return math.MaxInt64 - int64(r.Intn(2))
	}
	return int64(r.Intn(6) - 2)
}

// ---- level 1: the queues in memory ----

func TestVerifMem(t *testing.T) {
	many(vSecs/4+1, func(h *hist) {
		r := h.r
		kind := r.Intn(3)
		var q Queue
		mq := &mqueue{typ: "delayed", msgs: map[uint64]*mmsg{}, rank: map[string]int{}}
		min := true
		switch kind {
		case 0:
			q = NewDelayedPriorityQueue(true)
		case 1:
			q = NewFairPriorityQueue()
			mq.typ = "fair"
		case 2:
			q = NewDelayedPriorityQueue(false)
			min = false
		}
		items := map[uint64]*Item{}
		var next uint64
		pick := func() (uint64, string) {
			if len(mq.msgs) > 0 && r.Intn(5) > 0 {
				var ids []uint64
				for id := range mq.msgs {
					ids = append(ids, id)
				}
				sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
				id := ids[r.Intn(len(ids))]
				if r.Intn(4) > 0 {
					return id, mq.msgs[id].group
				}
				return id, groups[r.Intn(len(groups))]
			}
			return uint64(r.Intn(30)), groups[r.Intn(len(groups))]
		}
		bias := r.Intn(4)
		ng := 1 + r.Intn(5)
		for step := 0; step < 60+r.Intn(200); step++ {
			op := r.Intn(10)
			if bias == 1 && op > 6 {
				op = 0
			}
			if bias == 2 && op < 4 && len(mq.msgs) > 5 {
				op = 4
			}
			switch {
			case op < 4:
				next++
				id := next
				if r.Intn(3) == 0 {
					id = uint64(r.Int63())<<1 + uint64(r.Intn(2))
				}
				if mq.msgs[id] != nil {
					continue
				}
				g := groups[r.Intn(ng)]
				p := prio(r, mq.fair())
				it := &Item{ID: id, Priority: p}
				h.note("Enqueue(%q, %d, prio %d)", g, id, p)
				q.Enqueue(g, it)
				items[id] = it
				mq.msgs[id] = &mmsg{id: id, group: g, prio: p}
				mq.enter(g)
			case op < 8:
				now0 := time.Now().UTC().Unix()
				it := q.Dequeue()
				now1 := time.Now().UTC().Unix()
				h.note("Dequeue() = %v", it)
				all := mq.ready(anyG)
				if it == nil {
					if mq.fair() && len(all) > 0 {
						h.fail("C03 C02 C04", "fair queue empty with %d ready messages", len(all))
					}
					if !mq.fair() {
						if min && len(all) > 0 && all[0].prio <= now0 {
							h.fail("C02 C01 C04", "nothing delivered though message %d is due", all[0].id)
						}
					}
					break
				}
				m := mq.msgs[it.ID]
				if m == nil {
					h.fail("C04", "delivered %d, which is not in the queue", it.ID)
				}
				if it != items[it.ID] || it.Priority != m.prio {
					h.fail("C04 C14 C06", "delivered another item than the one enqueued, or with another priority")
				}
				if mq.fair() {
					for g, k := range mq.rank {
						if k < mq.rank[m.group] {
							h.fail("C03", "group %q served before group %q, which waited longer", m.group, g)
						}
					}
					if f := mq.ready(m.group)[0]; f.id != m.id {
						h.fail("C01", "delivered %d before %d of the same group", m.id, f.id)
					}
				} else {
					if m.prio > now1 {
						h.fail("C02", "delivered %d with time %d at %d", m.id, m.prio, now1)
					}
					f := all[0]
					if !min {
						f = all[len(all)-1]
					}
					if f.id != m.id {
						h.fail("C01", "delivered %d before %d", m.id, f.id)
					}
				}
				g := m.group
				delete(mq.msgs, it.ID)
				delete(mq.rank, g)
				if len(mq.ready(g)) > 0 {
					mq.enter(g)
				}
			case op == 8:
				id, g := pick()
				h.note("DeleteByID(%q, %d)", g, id)
				it := q.DeleteByID(g, id)
				m := mq.msgs[id]
				want := m != nil && (!mq.fair() || m.group == g)
				if want != (it != nil) || want && it != items[id] {
					h.fail("C04 C17 C03", "DeleteByID(%q, %d) = %v", g, id, it)
				}
				if want {
					delete(mq.msgs, id)
					mq.leave(m.group)
				}
			case op == 9:
				id, g := pick()
				p := prio(r, mq.fair())
				h.note("UpdatePriority(%q, %d, %d)", g, id, p)
				q.UpdatePriority(g, id, p)
				if m := mq.msgs[id]; m != nil && (!mq.fair() || m.group == g) {
					m.prio = p
				}
			}
			if n := q.Len(); n != uint64(len(mq.msgs)) {
				h.fail("C17 C04 C03", "Len() = %d with %d messages", n, len(mq.msgs))
			}
			if id, g := pick(); true {
				it := q.GetByID(g, id)
				m := mq.msgs[id]
				want := m != nil && (!mq.fair() || m.group == g)
				if want != (it != nil) || want && (it != items[id] || it.Priority != m.prio) {
					h.fail("C04 C14 C17", "GetByID(%q, %d) = %v", g, id, it)
				}
			}
		}
	})
	if seen[vProp] > 0 || vProp == "ALL" && len(seen) > 0 {
		t.Fail()
	}
}

// ---- level 2: stored queues behind the manager ----

type stored struct {
	Group    string
	ID       uint64
	Priority int64
	Content  string
}

func openMem() *badger.DB {
	db, err := badger.Open(badger.DefaultOptions("").WithInMemory(true).WithLogger(nil).WithMemTableSize(8 << 20).WithNumCompactors(2).WithBlockCacheSize(1 << 20))
	if err != nil {
		panic(err)
	}
	return db
}

func conf(timeout uint32) *config.Config {
	c := &config.Config{}
	c.Queue.AcknowledgementCheckInterval = 1
	c.Queue.AcknowledgementTimeout = int64(timeout)
	c.Queue.QueueStats.WindowSide = 5
	return c
}

type world struct {
	h      *hist
	db     *badger.DB
	cfg    *config.Config
	qm     *QueueManager
	m      map[string]*mqueue
	closed bool
	open   map[string]bool // known to be in memory
	nextID uint64
	qs     map[string]*BadgerPriorityQueue
}

func (w *world) queue(n string) *BadgerPriorityQueue {
	q, err := w.qm.GetQueue(n)
	mq := w.m[n]
	if mq == nil {
		if err == nil {
			w.h.fail("C08 C07 C10", "queue %q is known but was never created or was deleted", n)
		}
		return nil
	}
	if err != nil {
		w.h.fail("C10 C08 C07", "GetQueue(%q): %v", n, err)
	}
	if p := w.qs[n]; p != nil && p != q {
		w.h.fail("C10", "GetQueue(%q) gives another queue than before", n)
	}
	w.qs[n] = q
	w.open[n] = true
	return q
}

func (w *world) checkStored() {
	w.h.note("-- check storage")
	got := map[string]int{}
	err := w.db.View(func(txn *badger.Txn) error {
		it := txn.NewIterator(badger.DefaultIteratorOptions)
		defer it.Close()
		for it.Rewind(); it.Valid(); it.Next() {
			v, _ := it.Item().ValueCopy(nil)
			k := string(it.Item().KeyCopy(nil))
			if strings.HasPrefix(k, "messages:") {
				var m stored
				if json.Unmarshal(v, &m) == nil {
					got[fmt.Sprintf("%s %d %q %d %q", k[:len(k)-8], m.ID, m.Group, m.Priority, m.Content)]++
				} else {
					got[k+" "+string(v)]++
				}
			} else {
				got[k]++
			}
		}
		return nil
	})
	if err != nil {
		return
	}
	for _, mq := range w.m {
		k := "queues:" + mq.name + ":"
		if got[k] != 1 {
			w.h.fail("C08 C07 C09", "queue %q has no stored record", mq.name)
		}
		delete(got, k)
		for _, m := range mq.msgs {
			k := fmt.Sprintf("messages:%s: %d %q %d %q", mq.name, m.id, m.group, m.prio, m.content)
			if got[k] != 1 {
				w.h.fail("C04 C09 C07 C06 C14", "message %d of queue %q is not stored as it should be (%s)", m.id, mq.name, k)
			}
			delete(got, k)
		}
	}
	for k := range got {
		w.h.fail("C04 C08 C09 C07 C05", "stored but should not be: %q", k)
	}
}

func (w *world) checkStats() {
	after := ""
	if w.closed {
		after = " C09"
	}
	infos := w.qm.GetQueues()
	last := ""
	names := map[string]bool{}
	for i, in := range infos {
		if i > 0 && in.Name <= last {
			w.h.fail("C17"+after, "queues not listed once and in order: %q after %q", in.Name, last)
		}
		last = in.Name
		names[in.Name] = true
		mq := w.m[in.Name]
		if mq == nil {
			w.h.fail("C17 C08 C07"+after, "queue %q listed but does not exist", in.Name)
		}
		if in.Type != mq.typ {
			w.h.fail("C17 C08 C10"+after, "queue %q has type %q, not %q", in.Name, in.Type, mq.typ)
		}
		r, o := mq.counts()
		if in.Ready != int64(r) || in.Unacked != int64(o) || in.Total != int64(r+o) {
			w.h.fail("C17 C04 C10 C05"+after, "queue %q reports ready %d unacked %d total %d, not %d %d", in.Name, in.Ready, in.Unacked, in.Total, r, o)
		}
	}
	for n := range w.open {
		if !names[n] {
			w.h.fail("C17 C08"+after, "open queue %q not listed", n)
		}
	}
}

func (w *world) restart() {
	for _, q := range w.qs {
		func() {
			defer func() { recover() }()
			q.StopAckQueueMonitoring()
		}()
	}
	w.qm = NewQueueManager(w.db, w.cfg, nil)
	w.qs = map[string]*BadgerPriorityQueue{}
	w.open = map[string]bool{}
	lazy := w.h.r.Intn(2) == 0
	w.h.note("restart lazy=%v", lazy)
	if !lazy {
		w.qm.LoadQueues()
	}
	for _, mq := range w.m {
		mq.rank = map[string]int{}
		mq.next = 1
		for _, m := range mq.msgs {
			m.out = false
			m.via = " C10"
			mq.rank[m.group] = 0
		}
		if !lazy {
			w.open[mq.name] = true
		}
	}
}

// deliver checks a delivery and removes the message from the model's ready ones.
func (w *world) deliver(mq *mqueue, msg *Message, t0, t1 int64, ack bool) {
	h := w.h
	m := mq.msgs[msg.ID]
	if m == nil {
		h.fail("C04 C07 C05 C10", "delivered %d, which is not in queue %q", msg.ID, mq.name)
	}
	if m.out {
		h.fail("C05 C04", "delivered %d again while it is unacknowledged", msg.ID)
	}
	if msg.Group != m.group || msg.Content != m.content || msg.Priority != m.prio {
		h.fail("C06 C14"+via(m), "delivered %+v, not group %q priority %d content %q", *msg, m.group, m.prio, m.content)
	}
	if mq.fair() {
		for g, k := range mq.rank {
			if k < mq.rank[m.group] {
				h.fail("C03"+via(m), "group %q served before group %q", m.group, g)
			}
		}
		if f := mq.ready(m.group)[0]; f.id != m.id {
			h.fail("C01 C14"+via(m, f), "delivered %d (%d) before %d (%d) of the same group", m.id, m.prio, f.id, f.prio)
		}
	} else {
		if m.prio > t1 {
			h.fail("C02 C14"+via(m), "delivered %d with time %d at %d", m.id, m.prio, t1)
		}
		if f := mq.ready(anyG)[0]; f.id != m.id {
			h.fail("C01 C14"+via(m, f), "delivered %d (%d) before %d (%d)", m.id, m.prio, f.id, f.prio)
		}
	}
	g := m.group
	if ack {
		delete(mq.msgs, m.id)
	} else {
		m.out = true
		m.via = ""
	}
	delete(mq.rank, g)
	if len(mq.ready(g)) > 0 {
		mq.enter(g)
	}
}

func TestVerifStored(t *testing.T) {
	many(vSecs*2/4, func(h *hist) {
		r := h.r
		db := openMem()
		defer db.Close()
		w := &world{h: h, db: db, cfg: conf(3600), m: map[string]*mqueue{}, open: map[string]bool{}, qs: map[string]*BadgerPriorityQueue{}}
		w.qm = NewQueueManager(db, w.cfg, nil)
		defer func() {
			for _, q := range w.qs {
				func() {
					defer func() { recover() }()
					q.StopAckQueueMonitoring()
				}()
			}
		}()
		ns := make([]string, 1+r.Intn(4))
		p := r.Perm(len(names))
		for i := range ns {
			ns[i] = names[p[i]]
		}
		if r.Intn(3) == 0 {
			ns = []string{"a", "a:b", "a:"}
		} else if r.Intn(6) == 0 {
			ns = [][]string{{"a", "B", "A", "b"}, {strings.Repeat("long", 70), strings.Repeat("long", 70) + "b", strings.Repeat("long", 20) + "b"}}[r.Intn(2)]
		}
		ng := 1 + r.Intn(4)
		slow := r.Intn(3)
		var ops int
		w.nextID = uint64(r.Intn(3)) * (1<<63 - 20)
		steps := 40 + r.Intn(120)
		for ; ops < steps; ops++ {
			n := ns[r.Intn(len(ns))]
			mq := w.m[n]
			pick := func() uint64 {
				if mq != nil && len(mq.msgs) > 0 && r.Intn(6) > 0 {
					var ids, outs []uint64
					for id, m := range mq.msgs {
						ids = append(ids, id)
						if m.out {
							outs = append(outs, id)
						}
					}
					sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
					sort.Slice(outs, func(i, j int) bool { return outs[i] < outs[j] })
					if len(outs) > 0 && r.Intn(3) > 0 {
						return outs[r.Intn(len(outs))]
					}
					return ids[r.Intn(len(ids))]
				}
				for _, o := range w.m {
					for id := range o.msgs {
						if r.Intn(2) == 0 {
							return id
						}
					}
				}
				return uint64(r.Intn(10))
			}
			x := r.Intn(100)
			switch {
			case x < 8 || mq == nil && x < 40:
				typ := []string{"delayed", "fair"}[r.Intn(2)]
				h.note("Create(%q, %q)", typ, n)
				q, err := w.qm.Create(typ, n)
				if mq != nil && w.open[n] {
					if err != nil || q == nil || w.qs[n] != nil && w.qs[n] != q {
						h.fail("C08", "creating the existing queue %q: %v", n, err)
					}
					break
				}
				if mq != nil { // stored but not open: outside what is decided here
					delete(w.m, n)
					w.qm.Delete(n)
					delete(w.qs, n)
					w.m[n] = nil
					delete(w.m, n)
					break
				}
				if err != nil {
					h.fail("C08", "Create(%q): %v", n, err)
				}
				w.m[n] = &mqueue{name: n, typ: typ, msgs: map[uint64]*mmsg{}, rank: map[string]int{}}
				w.open[n] = true
				w.qs[n] = q
			case x < 11:
				h.note("Delete(%q)", n)
				err := w.qm.Delete(n)
				if mq == nil {
					if err == nil {
						h.fail("C08", "deleting the unknown queue %q succeeds", n)
					}
					break
				}
				if err != nil {
					h.fail("C08", "Delete(%q): %v", n, err)
				}
				delete(w.m, n)
				delete(w.qs, n)
				delete(w.open, n)
				w.checkStored()
			case x < 14:
				w.restart()
			case x < 50:
				q := w.queue(n)
				if q == nil {
					break
				}
				w.nextID++
				g, c, p := groups[r.Intn(ng)], contents[r.Intn(len(contents))], prio(r, mq.fair())
				if slow == 1 && r.Intn(4) > 0 {
					p = 5
				}
				h.note("%q.Enqueue(%d, %q, %d, ..)", n, w.nextID, g, p)
				msg, err := q.Enqueue(w.nextID, g, p, c)
				if err != nil {
					h.fail("C04 C09", "Enqueue: %v", err)
				}
				eg := g
				if !mq.fair() {
					eg = "default"
				}
				if msg == nil || msg.ID != w.nextID || msg.Group != eg || msg.Priority != p || msg.Content != c {
					h.fail("C06 C16", "Enqueue replies %+v", msg)
				}
				mq.msgs[w.nextID] = &mmsg{id: w.nextID, group: eg, prio: p, content: c}
				mq.enter(eg)
			case x < 76:
				q := w.queue(n)
				if q == nil {
					break
				}
				ack := r.Intn(3) == 0
				t0 := time.Now().UTC().Unix()
				msg, err := q.Dequeue(ack)
				t1 := time.Now().UTC().Unix()
				h.note("%q.Dequeue(%v) = %+v %v", n, ack, msg, err)
				if err != nil {
					all := mq.ready(anyG)
					if mq.fair() && len(all) > 0 {
						h.fail("C03 C04 C02 C10"+via(all...), "%v with %d ready messages", err, len(all))
					}
					if !mq.fair() && len(all) > 0 && all[0].prio <= t0 {
						h.fail("C02 C04 C01 C10"+via(all...), "%v though %d is due", err, all[0].id)
					}
					break
				}
				if msg == nil {
					h.fail("C04 C16", "no message and no error")
				}
				w.deliver(mq, msg, t0, t1, ack)
			case x < 84:
				q := w.queue(n)
				if q == nil {
					break
				}
				id := pick()
				m := mq.msgs[id]
				err := q.Ack(id)
				h.note("%q.Ack(%d) = %v", n, id, err)
				if (err == nil) != (m != nil && m.out) {
					h.fail("C05 C04", "Ack(%d): %v", id, err)
				}
				if err == nil {
					delete(mq.msgs, id)
				}
			case x < 91:
				q := w.queue(n)
				if q == nil {
					break
				}
				id := pick()
				m := mq.msgs[id]
				err := q.Nack(id)
				h.note("%q.Nack(%d) = %v", n, id, err)
				if (err == nil) != (m != nil && m.out) {
					h.fail("C05 C04", "Nack(%d): %v", id, err)
				}
				if err == nil {
					m.out = false
					m.via += " C05"
					mq.enter(m.group)
				}
			case x < 97:
				q := w.queue(n)
				if q == nil {
					break
				}
				id := pick()
				m := mq.msgs[id]
				p := prio(r, mq.fair())
				err := q.UpdatePriority(id, p)
				h.note("%q.UpdatePriority(%d, %d) = %v", n, id, p, err)
				if m == nil && err == nil {
					h.fail("C14", "UpdatePriority of the unknown message %d succeeds", id)
				}
				if m != nil && err != nil {
					if m.out && m.group != "default" {
						h.fail("C14", "UpdatePriority of the unacknowledged message %d: %v", id, err)
					}
					h.fail("C14", "UpdatePriority(%d): %v", id, err)
				}
				if m != nil {
					m.prio = p
					m.via += " C14"
				}
			default:
				q := w.queue(n)
				if q == nil {
					break
				}
				id := pick()
				m := mq.msgs[id]
				msg, err := q.GetByID(id)
				if (err == nil) != (m != nil) {
					h.fail("C07 C04", "GetByID(%d): %v", id, err)
				}
				if m != nil && (msg.ID != id || msg.Group != m.group || msg.Priority != m.prio || msg.Content != m.content) {
					h.fail("C06 C14", "GetByID(%d) = %+v", id, msg)
				}
			}
			w.checkStats()
			if r.Intn(8) == 0 {
				w.checkStored()
			}
		}
		w.checkStored()
		w.failing(ns)
	})
	if seen[vProp] > 0 || vProp == "ALL" && len(seen) > 0 {
		t.Fail()
	}
}

// failing: with storage that reports errors nothing changes.
func (w *world) failing(ns []string) {
	h, r := w.h, w.h.r
	for n := range w.m {
		w.queue(n)
	}
	// a message too big for a transaction
	for _, n := range ns {
		if q := w.qs[n]; q != nil && w.m[n] != nil && r.Intn(3) == 0 {
			w.nextID++
			h.note("%q.Enqueue of a message too big to be stored", n)
			if _, err := q.Enqueue(w.nextID, "default", 1, strings.Repeat("x", 9<<20)); err == nil {
				w.m[n].msgs[w.nextID] = &mmsg{id: w.nextID, group: "default", prio: 1, content: strings.Repeat("x", 9<<20)}
				w.m[n].enter("default")
			}
			w.checkStats()
			w.checkStored()
		}
	}
	w.db.Close()
	w.closed = true
	for i := 0; i < 30; i++ {
		n := ns[r.Intn(len(ns))]
		mq, q := w.m[n], w.qs[n]
		if mq == nil || q == nil {
			if i%3 == 0 {
				h.note("closed: Create(%q)", n)
				if _, err := w.qm.Create("fair", n); err == nil {
					h.fail("C09 C08", "create succeeds on closed storage")
				}
				w.checkStats()
			}
			continue
		}
		var ids, outs []uint64
		for id, m := range mq.msgs {
			if m.out {
				outs = append(outs, id)
			} else {
				ids = append(ids, id)
			}
		}
		var err error
		switch x := r.Intn(6); {
		case x == 0:
			h.note("closed: %q.Enqueue", n)
			w.nextID++
			_, err = q.Enqueue(w.nextID, "g1", 1, "x")
		case x == 1:
			h.note("closed: %q.Dequeue(true)", n)
			_, err = q.Dequeue(true)
		case x == 2 && len(outs) > 0:
			h.note("closed: %q.Ack", n)
			err = q.Ack(outs[0])
		case x == 3 && len(outs) > 0:
			h.note("closed: %q.Nack", n)
			err = q.Nack(outs[0])
		case x == 4 && len(ids) > 0:
			h.note("closed: %q.UpdatePriority", n)
			err = q.UpdatePriority(ids[0], -7)
		case x == 5 && i > 20:
			h.note("closed: Delete(%q)", n)
			err = w.qm.Delete(n)
			if err == nil {
				h.fail("C09 C08", "delete succeeds on closed storage")
			}
		default:
			continue
		}
		if err == nil {
			h.fail("C09", "an operation on closed storage succeeds")
		}
		w.checkStats()
	}
}

// ---- deadlines: real time ----

func TestVerifDeadlines(t *testing.T) {
	var wg sync.WaitGroup
	for k := 0; k < 24; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			run(int64(vSeed)*7919+int64(k), func(h *hist) {
				r := h.r
				db := openMem()
				defer db.Close()
				timeout := uint32(1 + k%3)
				w := &world{h: h, db: db, cfg: conf(timeout), m: map[string]*mqueue{}, open: map[string]bool{}, qs: map[string]*BadgerPriorityQueue{}}
				w.qm = NewQueueManager(db, w.cfg, nil)
				typ := []string{"delayed", "fair"}[k%2]
				q, err := w.qm.Create(typ, "dl")
				if err != nil {
					h.fail("C08", "%v", err)
				}
				defer func() {
					defer func() { recover() }()
					q.StopAckQueueMonitoring()
				}()
				mq := &mqueue{name: "dl", typ: typ, msgs: map[uint64]*mmsg{}, rank: map[string]int{}}
				w.m["dl"], w.qs["dl"], w.open["dl"] = mq, q, true
				n := 3 + r.Intn(30)
				for i := 1; i <= n; i++ {
					g, p := groups[r.Intn(3)], int64(r.Intn(5))
					if typ != "fair" {
						g = "default"
					}
					c := contents[r.Intn(len(contents))]
					if _, err := q.Enqueue(uint64(i), g, p, c); err != nil {
						h.fail("C04", "%v", err)
					}
					mq.msgs[uint64(i)] = &mmsg{id: uint64(i), group: g, prio: p, content: c}
					mq.enter(g)
				}
				deq := map[uint64]time.Time{}
				take := func(k int) {
					for i := 0; i < k; i++ {
						t0 := time.Now().UTC().Unix()
						at := time.Now()
						msg, err := q.Dequeue(false)
						if err != nil {
							return
						}
						w.deliver(mq, msg, t0, time.Now().UTC().Unix(), false)
						deq[msg.ID] = at
					}
				}
				take(1 + r.Intn(n))
				var acked []uint64
				for id, m := range mq.msgs {
					if m.out && r.Intn(4) == 0 {
						if q.Ack(id) != nil {
							h.fail("C05", "Ack(%d) fails", id)
						}
						delete(mq.msgs, id)
						acked = append(acked, id)
					} else if m.out && r.Intn(4) == 0 {
						p := int64(-3)
						if r.Intn(2) == 0 {
							p = 1 << 40
						}
						if typ == "fair" || p < 0 {
							if err := q.UpdatePriority(id, p); err != nil {
								h.fail("C14", "UpdatePriority of the unacknowledged %d: %v", id, err)
							}
							m.prio = p
						}
					}
				}
				time.Sleep(300 * time.Millisecond)
				_, out0 := mq.counts()
				in := w.qm.GetQueues()[0]
				if int(in.Unacked) != out0 && time.Since(first(deq)) < time.Duration(timeout)*time.Second-400*time.Millisecond {
					h.fail("C05 C14 C17", "%d unacknowledged before any deadline, not %d", in.Unacked, out0)
				}
				time.Sleep(time.Duration(timeout)*time.Second + 2300*time.Millisecond - 300*time.Millisecond)
				in = w.qm.GetQueues()[0]
				if in.Unacked != 0 || int(in.Ready) != len(mq.msgs) {
					h.fail("C05 C17 C14 C04", "after every deadline has passed: ready %d unacked %d, not %d and 0", in.Ready, in.Unacked, len(mq.msgs))
				}
				for _, m := range mq.msgs {
					m.out = false
					mq.rank[m.group] = 0
				}
				for g := range mq.rank {
					mq.rank[g] = 0
				}
				cnt := 0
				for {
					t0 := time.Now().UTC().Unix()
					msg, err := q.Dequeue(true)
					if err != nil {
						break
					}
					cnt++
					w.deliver(mq, msg, t0, time.Now().UTC().Unix(), true)
				}
				for _, m := range mq.msgs {
					if m.prio <= time.Now().Unix() || typ == "fair" {
						h.fail("C05 C04", "message %d never delivered again", m.id)
					}
				}
				w.checkStored()
			})
		}()
	}
	wg.Wait()
	if seen[vProp] > 0 || vProp == "ALL" && len(seen) > 0 {
		t.Fail()
	}
}

// ---- statistics ----

func TestVerifStats(t *testing.T) {
	many(8, func(h *hist) {
		r := h.r
		if r.Intn(4) == 0 {
			const win = 3000
			s := NewQueueStats(win)
			var wg sync.WaitGroup
			done := make(chan bool)
			for i := 0; i < 4; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := 0; j < 15000; j++ {
						s.IncrementEnqueue()
						s.IncrementDequeue()
						s.IncrementAck()
						s.IncrementNack()
					}
				}()
			}
			go func() { wg.Wait(); close(done) }()
			for n := 0; n < win-5; n++ {
				s.UpdateWindow()
				select {
				case <-done:
					n = win
				default:
				}
			}
			<-done
			s.UpdateWindow()
			h.note("4 goroutines increment each counter 15000 times beside updates of a window of %d", win)
			st := s.GetRPS()
			for k, v := range []float64{st.EnqueueRPS, st.DequeueRPS, st.AckRPS, st.NackRPS} {
				if v != 60000.0/win {
					h.fail("C22", "statistic %d (enqueue, dequeue, ack, nack) counts %v of 60000", k, v*win)
				}
			}
			return
		}
		win := r.Intn(8) - 1
		n := win
		if n < 1 {
			n = 1
		}
		s := NewQueueStats(win)
		inc := []func(){s.IncrementEnqueue, s.IncrementDequeue, s.IncrementAck, s.IncrementNack}
		names := []string{"enqueue", "dequeue", "ack", "nack"}
		var hst [][4]uint64
		cur := [4]uint64{}
		for i := 0; i < 40; i++ {
			for j := r.Intn(12); j > 0; j-- {
				k := r.Intn(4)
				h.note("Increment %s", names[k])
				inc[k]()
				cur[k]++
			}
			if r.Intn(3) == 0 { // many at the same time, beside the update of the window
				var wg sync.WaitGroup
				for k := 0; k < 4; k++ {
					f := inc[k]
					cur[k] += 2000
					wg.Add(2)
					for x := 0; x < 2; x++ {
						go func() {
							defer wg.Done()
							for y := 0; y < 1000; y++ {
								f()
							}
						}()
					}
				}
				before := s.GetRPS()
				h.note("2000 increments of each beside 6 updates of the window")
				if win > 6 && i == 0 {
					for y := 0; y < 6; y++ {
						s.UpdateWindow()
						time.Sleep(20 * time.Microsecond)
					}
					wg.Wait()
					s.UpdateWindow()
					st := s.GetRPS()
					for k, v := range []float64{st.EnqueueRPS, st.DequeueRPS, st.AckRPS, st.NackRPS} {
						if v != float64(cur[k])/float64(n) {
							h.fail("C22", "%s rate %v after %d counted in a window of %d", names[k], v, cur[k], win)
						}
					}
					return
				}
				wg.Wait()
				if after := s.GetRPS(); *after != *before {
					h.fail("C22", "rates change within a second: %v %v", *before, *after)
				}
			}
			s.UpdateWindow()
			h.note("UpdateWindow")
			hst = append(hst, cur)
			cur = [4]uint64{}
			sum := [4]uint64{}
			for j := len(hst) - 1; j >= 0 && j >= len(hst)-n; j-- {
				for k := range sum {
					sum[k] += hst[j][k]
				}
			}
			st := s.GetRPS()
			for k, v := range []float64{st.EnqueueRPS, st.DequeueRPS, st.AckRPS, st.NackRPS} {
				if v != float64(sum[k])/float64(n) {
					h.fail("C22", "%s rate %v with %d counted in the last %d seconds (window %d)", names[k], v, sum[k], n, win)
				}
			}
		}
	})
	var wg sync.WaitGroup
	for k := 0; k < 16; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			run(int64(vSeed)*104729+int64(k), func(h *hist) {
				r := h.r
				db := openMem()
				closed := false
				defer func() {
					if !closed {
						db.Close()
					}
				}()
				cfg := conf(1)
				if k%2 == 0 {
					cfg = conf(3600)
				}
				cfg.Queue.QueueStats.WindowSide = 40
				qm := NewQueueManager(db, cfg, nil)
				typ := []string{"delayed", "fair"}[k/2%2]
				q, err := qm.Create(typ, "st")
				if err != nil {
					return
				}
				defer func() { defer func() { recover() }(); q.StopAckQueueMonitoring() }()
				want := [4]float64{}
				outs := []uint64{}
				ids := map[uint64]bool{}
				step := func() {
					id := uint64(r.Intn(30))
					switch x := r.Intn(10); {
					case x < 4:
						if !ids[id] {
							ids[id] = true
							if _, err := q.Enqueue(id, "g", int64(r.Intn(3)), "c"); err == nil {
								want[0]++
							}
						}
					case x < 6:
						ack := r.Intn(3) == 0
						if m, err := q.Dequeue(ack); err == nil {
							want[1]++
							if !ack {
								outs = append(outs, m.ID)
							}
						}
					case x < 8:
						if len(outs) > 0 && r.Intn(2) == 0 {
							id = outs[r.Intn(len(outs))]
						}
						if q.Ack(id) == nil {
							want[2]++
						}
					case x < 9:
						if len(outs) > 0 && r.Intn(3) > 0 {
							id = outs[r.Intn(len(outs))]
						}
						if q.Nack(id) == nil {
							want[3]++
						}
					default:
						q.UpdatePriority(id, 4)
						q.GetByID(id)
					}
				}
				for i := 0; i < 120; i++ {
					step()
					if i%40 == 0 {
						time.Sleep(700 * time.Millisecond)
					}
				}
				if k%4 == 1 {
					db.Close()
					closed = true
					for i := 0; i < 40; i++ {
						step()
					}
				}
				time.Sleep(1200 * time.Millisecond)
				st := q.GetStats().Stats
				for i, v := range []float64{st.EnqueueRPS, st.DequeueRPS, st.AckRPS, st.NackRPS} {
					if math.Abs(v*40-want[i]) > 1e-6 {
						h.fail("C22", "statistic %d (enqueue, dequeue, ack, nack) counts %v, not %v", i, v*40, want[i])
					}
				}
			})
		}()
	}
	wg.Wait()
	if seen[vProp] > 0 || vProp == "ALL" && len(seen) > 0 {
		t.Fail()
	}
}

func first(m map[uint64]time.Time) time.Time {
	t := time.Now()
	for _, x := range m {
		if x.Before(t) {
			t = x
		}
	}
	return t
}

var _ = filepath.Join
