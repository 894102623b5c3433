package queue_test

// Replay of failed lock obligations: concurrent operations under the race detector, with a watch for locks that are
// never released and for messages delivered twice or lost. Exported names only.

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/dgraph-io/badger/v4"
	"github.com/kgantsov/doq/pkg/config"
	. "github.com/kgantsov/doq/pkg/queue"
	"github.com/prometheus/client_golang/prometheus"
	"github.com/rs/zerolog"
)

var raceOut = os.Stdout
var raceSeen atomic.Int64
var raceProm sync.Once
var raceMetrics *PrometheusMetrics

func raceFail(f string, a ...interface{}) {
	if raceSeen.Add(1) <= 3 {
		fmt.Fprintf(raceOut, "REPLAY-FAIL C18 %s\n", fmt.Sprintf(f, a...))
	}
}

// within: f returns
func within(what string, f func()) bool {
	done := make(chan bool)
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(20 * time.Second):
		raceFail("%s: still waiting for a lock after 20 s", what)
		return false
	}
}

// all runs the functions again and again in parallel
func all(what string, d time.Duration, r int64, fs ...func(r *rand.Rand)) bool {
	return within(what, func() {
		end := time.Now().Add(d)
		var wg sync.WaitGroup
		for i, f := range fs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(r*100 + int64(i)))
				for time.Now().Before(end) {
					f(r)
				}
			}()
		}
		wg.Wait()
	})
}

func raceDB() *badger.DB {
	db, err := badger.Open(badger.DefaultOptions("").WithInMemory(true).WithLogger(nil).WithMemTableSize(8 << 20).WithNumCompactors(2).WithBlockCacheSize(1 << 20))
	if err != nil {
		panic(err)
	}
	return db
}

func raceManager(db *badger.DB, prom bool) *QueueManager {
	c := &config.Config{}
	c.Queue.AcknowledgementCheckInterval = 1
	c.Queue.AcknowledgementTimeout = 600
	c.Queue.QueueStats.WindowSide = 5
	var m *PrometheusMetrics
	if prom {
		c.Prometheus.Enabled = true
		raceProm.Do(func() { raceMetrics = NewPrometheusMetrics(prometheus.NewRegistry(), "doq", "race") })
		m = raceMetrics
	}
	return NewQueueManager(db, c, m)
}

type memQueue interface {
	Enqueue(group string, item *Item)
	Dequeue() *Item
	GetByID(group string, id uint64) *Item
	DeleteByID(group string, id uint64) *Item
	UpdatePriority(group string, id uint64, priority int64)
	Len() uint64
}

func raceMem(seed int64, name string, q memQueue) {
	prio := func(r *rand.Rand) int64 {
		if seed%3 == 0 && r.Intn(3) == 0 { // extremes, and what is due later
			return []int64{math.MaxInt64, math.MinInt64, time.Now().Unix() + 1000, math.MaxInt64 - 1, math.MaxUint32, -1}[r.Intn(6)]
		}
		return int64(r.Intn(9))
	}
	var id, got int64
	var put int64
	g := func(r *rand.Rand) string { return strconv.Itoa(r.Intn(3)) }
	all(name, 700*time.Millisecond, seed,
		func(r *rand.Rand) {
			atomic.AddInt64(&put, 1)
			q.Enqueue(g(r), &Item{ID: uint64(atomic.AddInt64(&id, 1)), Priority: prio(r)})
		},
		func(r *rand.Rand) {
			atomic.AddInt64(&put, 1)
			q.Enqueue(g(r), &Item{ID: uint64(atomic.AddInt64(&id, 1)), Priority: prio(r)})
		},
		func(r *rand.Rand) {
			if q.Dequeue() != nil {
				atomic.AddInt64(&got, 1)
			}
		},
		func(r *rand.Rand) {
			if q.Dequeue() != nil {
				atomic.AddInt64(&got, 1)
			}
		},
		func(r *rand.Rand) { q.GetByID(g(r), uint64(1+r.Int63n(1+atomic.LoadInt64(&id)))) },
		func(r *rand.Rand) {
			if q.DeleteByID(g(r), uint64(1+r.Int63n(1+atomic.LoadInt64(&id)))) != nil {
				atomic.AddInt64(&got, 1)
			}
		},
		func(r *rand.Rand) { q.UpdatePriority(g(r), uint64(1+r.Int63n(1+atomic.LoadInt64(&id))), prio(r)) },
		func(r *rand.Rand) { q.Len() },
	)
	within(name, func() {
		if n := int64(q.Len()); n != put-got && raceSeen.Load() == 0 {
			raceFail("%s: %d were put, %d taken, %d are left", name, put, got, n)
		}
	})
}

func raceStored(seed int64, typ string) {
	db := raceDB()
	m := raceManager(db, seed%2 == 0)
	q, err := m.Create(typ, "q")
	if err != nil {
		return
	}
	var id, put int64
	var mu sync.Mutex
	gone := map[uint64]bool{}
	out := map[uint64]bool{}
	enq := func(r *rand.Rand) {
		if _, err := q.Enqueue(uint64(atomic.AddInt64(&id, 1)), strconv.Itoa(r.Intn(3)), int64(r.Intn(9)), "x"); err == nil {
			atomic.AddInt64(&put, 1)
		}
	}
	deq := func(ack bool) func(r *rand.Rand) {
		return func(r *rand.Rand) {
			x, err := q.Dequeue(ack)
			if err != nil || x == nil {
				return
			}
			mu.Lock()
			if gone[x.ID] || out[x.ID] {
				raceFail("message %d of a %s queue is delivered twice", x.ID, typ)
			}
			if ack {
				gone[x.ID] = true
			} else {
				out[x.ID] = true
			}
			mu.Unlock()
		}
	}
	mine := func(r *rand.Rand) uint64 {
		if r.Intn(4) > 0 {
			for x := range out {
				return x
			}
		}
		return 1 << 40
	}
	any := func(r *rand.Rand) uint64 {
		mu.Lock()
		defer mu.Unlock()
		if r.Intn(3) > 0 {
			for x := range out {
				return x
			}
		}
		return uint64(1 + r.Int63n(1+atomic.LoadInt64(&id)))
	}
	ok := all("operations on a "+typ+" queue", 2500*time.Millisecond, seed,
		enq, enq, enq, deq(true), deq(false), deq(false),
		func(r *rand.Rand) {
			mu.Lock()
			defer mu.Unlock()
			x := mine(r)
			if q.Ack(x) == nil {
				delete(out, x)
				gone[x] = true
			}
		},
		func(r *rand.Rand) {
			mu.Lock()
			defer mu.Unlock()
			x := mine(r)
			if q.Nack(x) == nil {
				delete(out, x)
			}
		},
		func(r *rand.Rand) { q.UpdatePriority(any(r), int64(r.Intn(9))) },
		func(r *rand.Rand) { q.GetByID(any(r)) },
		func(r *rand.Rand) { q.GetStats(); q.Len() },
		func(r *rand.Rand) { m.GetQueues(); time.Sleep(time.Millisecond) },
		func(r *rand.Rand) { m.GetQueue(fmt.Sprint("q", r.Intn(3))) },
		func(r *rand.Rand) {
			n := fmt.Sprint("q", r.Intn(3))
			m.Create([]string{"delayed", "fair"}[r.Intn(2)], n)
			if r.Intn(2) == 0 {
				m.Delete(n)
			}
			time.Sleep(time.Millisecond)
		},
	)
	if !ok {
		return
	}
	if raceSeen.Load() == 0 {
		s := q.GetStats()
		if s.Total+int64(len(gone)) != put {
			raceFail("%s queue: %d messages were stored, %d are gone, %d are left", typ, put, len(gone), s.Total)
		} else if s.Unacked != int64(len(out)) {
			raceFail("%s queue: %d messages are out, %d counted", typ, len(out), s.Unacked)
		}
	}
	// what takes a wrong turn gives its lock back
	for i := 0; i < 30 && raceSeen.Load() == 0; i++ {
		within("a refused operation", func() {
			switch i % 6 {
			case 0:
				q.Ack(1 << 40)
			case 1:
				q.Nack(1 << 40)
			case 2:
				q.UpdatePriority(1<<40, 1)
			case 3:
				q.GetByID(1 << 40)
			case 4:
				m.Delete("none")
			case 5:
				m.GetQueue("none")
			}
			q.Len()
			m.GetQueues()
			q.GetStats()
		})
	}
	within("taking all messages", func() {
		for {
			if x, err := q.Dequeue(true); err != nil || x == nil {
				break
			}
		}
		q.Dequeue(false)
		q.Len()
	})
	if raceSeen.Load() > 0 {
		return
	}
	// a queue that is not open yet is opened once
	for k := 0; k < 3; k++ {
		m2 := raceManager(db, false)
		var got [6]*BadgerPriorityQueue
		if !within("opening a queue", func() {
			var wg sync.WaitGroup
			for i := range got {
				wg.Add(1)
				go func() { defer wg.Done(); got[i], _ = m2.GetQueue("q") }()
			}
			wg.Wait()
		}) {
			return
		}
		for _, g := range got {
			if g != got[0] {
				raceFail("a %s queue that is asked for by several requests at once is opened more than once", typ)
			}
		}
	}
	if raceSeen.Load() > 0 {
		return
	}
	// one operation on a closed store
	n := fmt.Sprint("q", 7)
	q2, err := m.Create(typ, n)
	if err != nil {
		return
	}
	q2.Enqueue(1, "g", 1, "x")
	q2.Enqueue(2, "g", 1, "x")
	q2.Dequeue(false)
	db.Close()
	within("an operation on a closed store", func() {
		switch seed % 8 {
		case 0:
			q2.Enqueue(3, "g", 1, "x")
		case 1:
			q2.Dequeue(true)
		case 2:
			q2.Ack(1)
		case 3:
			q2.Nack(1)
		case 4:
			q2.UpdatePriority(2, 7)
		case 5:
			m.Create(typ, "q9")
		case 6:
			m.Delete(n)
		case 7:
			m.GetQueue("q9")
		}
	})
	within("an operation after a failed one on a closed store", func() { q2.Len(); q2.GetStats(); m.GetQueues() })
}

func TestVerifRace(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	os.Stdout, _ = os.Open(os.DevNull)
	secs, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	end := time.Now().Add(time.Duration(secs) * time.Second)
	for i := int64(0); (i == 0 || time.Now().Before(end)) && raceSeen.Load() == 0; i++ {
		within("the delayed queue with nothing due", func() {
			for _, p := range []int64{math.MaxInt64, math.MaxInt64 - 1, 1 << 62, 1 << 40} {
				q := NewDelayedPriorityQueue(true)
				q.Dequeue()
				q.Enqueue("g", &Item{ID: 1, Priority: p})
				q.Dequeue()
				q.Len()
			}
		})
		raceMem(seed+i, "the fair queue", NewFairPriorityQueue())
		raceMem(seed+i, "the delayed queue", NewDelayedPriorityQueue(i%2 == 0))
		var wg sync.WaitGroup
		for j := int64(0); j < 4; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				raceStored((seed+i)*4+j, []string{"fair", "delayed"}[(i+j/2)%2])
			}()
		}
		wg.Wait()
	}
	if raceSeen.Load() > 0 {
		t.Fail()
	}
}
