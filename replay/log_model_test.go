package badgerstore_test

// Replay of failed obligations on the real code: random histories of the raft log and the stable store
// against maps. Every difference is printed as "REPLAY-FAIL <property> <seed> <what>".

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/dgraph-io/badger/v4"
	"github.com/hashicorp/raft"
	. "github.com/kgantsov/doq/pkg/badger-store"
	"github.com/rs/zerolog"
)

var vProp = os.Getenv("VERIF_PROP")
var vSeed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
var vSecs, _ = strconv.Atoi(os.Getenv("VERIF_SECS"))

type stop struct{}

type hist struct {
	seed int64
	r    *rand.Rand
	log  []string
}

var seen = map[string]int{}

func (h *hist) note(f string, a ...interface{}) { h.log = append(h.log, fmt.Sprintf(f, a...)) }

func (h *hist) fail(props string, f string, a ...interface{}) {
	for _, p := range strings.Fields(props) {
		seen[p]++
		if seen[p] <= 2 {
			fmt.Printf("REPLAY-FAIL %s seed %d: %s\n", p, h.seed, fmt.Sprintf(f, a...))
			if seen[p] == 1 {
				n := len(h.log)
				if n > 60 {
					n = 60
				}
				fmt.Println("   history:\n     " + strings.Join(h.log[len(h.log)-n:], "\n     "))
			}
		}
	}
	panic(stop{})
}

func (h *hist) data(max int) []byte {
	if h.r.Intn(6) == 0 {
		return nil
	}
	b := make([]byte, h.r.Intn(max))
	h.r.Read(b)
	return b
}

type world struct {
	h      *hist
	db     *badger.DB
	s      *BadgerStore
	logs   map[uint64]raft.Log
	conf   map[string][]byte
	others map[string]string
}

func same(a, b raft.Log) bool {
	return a.Index == b.Index && a.Term == b.Term && a.Type == b.Type && bytes.Equal(a.Data, b.Data) && bytes.Equal(a.Extensions, b.Extensions)
}

func (w *world) check(full bool) {
	h := w.h
	var first, last uint64
	for i := range w.logs {
		if first == 0 || i < first {
			first = i
		}
		if i > last {
			last = i
		}
	}
	if f, err := w.s.FirstIndex(); err != nil || f != first {
		h.fail("C11", "FirstIndex = %d, %v; expected %d", f, err, first)
	}
	if l, err := w.s.LastIndex(); err != nil || l != last {
		h.fail("C11", "LastIndex = %d, %v; expected %d", l, err, last)
	}
	get := func(i uint64) {
		got := raft.Log{Index: 5, Term: 6, Type: 3, Data: []byte("old data"), Extensions: []byte("old")}
		err := w.s.GetLog(i, &got)
		e, ok := w.logs[i]
		switch {
		case !ok && err != raft.ErrLogNotFound:
			h.fail("C11", "GetLog(%d) of a missing index: %+v, %v", i, got, err)
		case ok && err != nil:
			h.fail("C11", "GetLog(%d) = %v although the entry was stored", i, err)
		case ok && !same(got, e):
			h.fail("C11", "GetLog(%d) = %+v; stored was %+v", i, got, e)
		}
	}
	if full {
		for i := range w.logs {
			get(i)
			get(i + 1)
			get(i - 1)
		}
	}
	get(w.index())
	key := func(k string) {
		v, err := w.s.Get([]byte(k))
		e, ok := w.conf[k]
		switch {
		case !ok && err != ErrKeyNotFound:
			h.fail("C12", "Get(%q) of a key never set: %q, %v", k, v, err)
		case ok && err != nil:
			h.fail("C12", "Get(%q) = %v although it was set", k, err)
		case ok && !bytes.Equal(v, e):
			h.fail("C12", "Get(%q) = %q; set was %q", k, v, e)
		case ok && len(e) == 8:
			n, err := w.s.GetUint64([]byte(k))
			if err != nil || n != binary.BigEndian.Uint64(e) {
				h.fail("C12", "GetUint64(%q) = %d, %v; set was %d", k, n, err, binary.BigEndian.Uint64(e))
			}
		}
		if len(v) > 0 {
			v[0]++ // the caller's own copy
			if v2, _ := w.s.Get([]byte(k)); !bytes.Equal(v2, e) {
				h.fail("C12", "Get(%q) returns memory of the store", k)
			}
		}
	}
	for _, k := range keys {
		key(k)
	}
	if _, err := w.s.GetUint64([]byte("no such key")); err != ErrKeyNotFound {
		h.fail("C12", "GetUint64 of a key never set: %v", err)
	}
	w.db.View(func(txn *badger.Txn) error {
		for k, v := range w.others {
			it, err := txn.Get([]byte(k))
			if err != nil {
				h.fail("C11 C12", "the record %q of a queue is gone: %v", k, err)
			}
			b, _ := it.ValueCopy(nil)
			if string(b) != v {
				h.fail("C11 C12", "the record %q of a queue changed to %q", k, b)
			}
		}
		if full {
			n := 0
			it := txn.NewIterator(badger.DefaultIteratorOptions)
			defer it.Close()
			for it.Rewind(); it.Valid(); it.Next() {
				n++
			}
			if e := len(w.logs) + len(w.conf) + len(w.others); n != e {
				h.fail("C11 C12", "the storage holds %d records; expected %d", n, e)
			}
		}
		return nil
	})
}

var keys = []string{"", "CurrentTerm", "LastVoteTerm", "LastVoteCand", "logs", "c", "conf", "\x00", "logs\x00\x00\x00\x00\x00\x00\x00\x01"}

func (w *world) index() uint64 {
	r := w.h.r
	switch r.Intn(10) {
	case 0:
		return math.MaxUint64 - uint64(r.Intn(3))
	case 1:
		return uint64(1) << uint(r.Intn(64))
	case 2:
		return uint64(255 + r.Intn(3))
	case 3:
		return r.Uint64() | 1
	}
	return uint64(1 + r.Intn(400))
}

func (w *world) entry(i uint64) *raft.Log {
	r := w.h.r
	return &raft.Log{Index: i, Term: r.Uint64() >> uint(r.Intn(64)), Type: raft.LogType(r.Intn(6)), Data: w.h.data(60), Extensions: w.h.data(9)}
}

func (w *world) store(es []*raft.Log) {
	var err error
	if len(es) == 1 && w.h.r.Intn(2) == 0 {
		w.h.note("StoreLog(%d)", es[0].Index)
		err = w.s.StoreLog(es[0])
	} else {
		w.h.note("StoreLogs(%d entries)", len(es))
		err = w.s.StoreLogs(es)
	}
	if err != nil {
		w.h.fail("C11", "StoreLogs: %v", err)
	}
	for _, e := range es {
		c := *e
		c.Data = append([]byte(nil), e.Data...)
		c.Extensions = append([]byte(nil), e.Extensions...)
		w.logs[e.Index] = c
		for i := range e.Data {
			e.Data[i]++ // the caller may reuse its memory
		}
	}
}

func history(t *testing.T, seed int64) {
	h := &hist{seed: seed, r: rand.New(rand.NewSource(seed))}
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(stop); ok {
				return
			}
			func() {
				defer func() { recover() }()
				h.fail("C11 C12 C19", "panic: %v", x)
			}()
		}
	}()
	opts := badger.DefaultOptions("").WithInMemory(true).WithLogger(nil).WithNumCompactors(2).WithMemTableSize(4 << 20).WithValueThreshold(1 << 19).WithNumMemtables(2)
	if seed%4 == 0 {
		opts = badger.DefaultOptions(t.TempDir()).WithLogger(nil).WithMemTableSize(4 << 20).WithValueThreshold(1 << 19)
	}
	db, err := badger.Open(opts)
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()
	s, err := New(db, Options{})
	if err != nil {
		t.Fatal(err)
	}
	w := &world{h: h, db: db, s: s, logs: map[uint64]raft.Log{}, conf: map[string][]byte{}, others: map[string]string{}}
	for _, k := range []string{"queues:a", "messages:a:\x00\x00\x00\x00\x00\x00\x00\x01", "queues:logs", "log", "logt", "con", "d"} {
		w.others[k] = fmt.Sprint(h.r.Int())
	}
	db.Update(func(txn *badger.Txn) error {
		for k, v := range w.others {
			txn.Set([]byte(k), []byte(v))
		}
		return nil
	})
	r := h.r
	for step, n := 0, 5+r.Intn(60); step < n; step++ {
		switch r.Intn(9) {
		case 0, 1:
			w.store([]*raft.Log{w.entry(w.index())})
		case 2, 3:
			var es []*raft.Log
			from := w.index() % (1 << 60)
			if from == 0 {
				from = 1
			}
			for i, m := 0, r.Intn(5+r.Intn(360)); i < m; i++ {
				es = append(es, w.entry(from+uint64(i)))
				if r.Intn(40) == 0 {
					es = append(es, w.entry(from+uint64(r.Intn(i+1))))
				}
			}
			w.store(es)
		case 4, 5:
			lo, hi := w.index(), w.index()
			if r.Intn(4) > 0 && lo > hi {
				lo, hi = hi, lo
			}
			switch r.Intn(5) {
			case 0:
				hi = lo
			case 1:
				lo = 1
			case 2:
				// ends at stored entries
				for i := range w.logs {
					if i > lo {
						hi = i
						break
					}
				}
			}
			h.note("DeleteRange(%d, %d)", lo, hi)
			if err := s.DeleteRange(lo, hi); err != nil {
				h.fail("C11", "DeleteRange(%d, %d): %v", lo, hi, err)
			}
			for i := range w.logs {
				if lo <= i && i <= hi {
					delete(w.logs, i)
				}
			}
		case 6, 7:
			k := keys[r.Intn(len(keys))]
			if r.Intn(2) == 0 {
				v := r.Uint64() >> uint(r.Intn(64))
				h.note("SetUint64(%q, %d)", k, v)
				if err := s.SetUint64([]byte(k), v); err != nil {
					h.fail("C12", "SetUint64(%q): %v", k, err)
				}
				b := make([]byte, 8)
				binary.BigEndian.PutUint64(b, v)
				w.conf[k] = b
			} else {
				v := h.data(20)
				h.note("Set(%q, %q)", k, v)
				kb := []byte(k)
				if err := s.Set(kb, v); err != nil {
					h.fail("C12", "Set(%q): %v", k, err)
				}
				w.conf[k] = append([]byte(nil), v...)
				for i := range v {
					v[i]++
				}
				for i := range kb {
					kb[i]++
				}
			}
		case 8:
			// a batch too large for a transaction stores nothing
			var es []*raft.Log
			from := uint64(1 + r.Intn(300))
			for i := 0; i < 12; i++ {
				e := w.entry(from + uint64(i))
				e.Data = make([]byte, 100000)
				es = append(es, e)
			}
			if r.Intn(2) == 0 {
				// a single entry too large for any transaction
				es[r.Intn(2)*11].Data = make([]byte, 1500000)
			}
			h.note("StoreLogs(too large, from %d)", from)
			if err := s.StoreLogs(es); err == nil {
				for _, e := range es {
					w.logs[e.Index] = *e
				}
			}
		}
		w.check(r.Intn(4) == 0)
	}
	w.check(true)
	db.Close()
	h.note("the storage is closed")
	// a second transaction after a failed one would wait for ever in badger
	if seed%2 == 0 {
		if err := s.StoreLogs([]*raft.Log{w.entry(7)}); err == nil {
			h.fail("C11", "StoreLogs succeeds on a closed storage")
		}
	} else if err := s.Set([]byte("k"), []byte("v")); err == nil {
		h.fail("C12", "Set succeeds on a closed storage")
	}
}

func TestVerifLog(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	end := time.Now().Add(time.Duration(vSecs) * time.Second)
	n := 0
	for i := 0; time.Now().Before(end) && seen[vProp] == 0; i++ {
		history(t, int64(vSeed)*1000003+int64(i))
		n++
	}
	fmt.Println("histories", n)
	if len(seen) > 0 {
		t.Fail()
	}
}
