package raft

// Drives Node.Join (C23) on a cluster of hraft nodes in memory and compares the configuration with what was asked for.

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/hashicorp/go-hclog"
	hraft "github.com/hashicorp/raft"
)

var vJoinSeen int

func vJoinFail(seed int64, f string, a ...interface{}) {
	vJoinSeen++
	if vJoinSeen <= 3 {
		fmt.Println(fmt.Sprintf("REPLAY-FAIL C23 seed %d: ", seed) + fmt.Sprintf(f, a...))
	}
}

type vFSM struct{}

func (vFSM) Apply(*hraft.Log) interface{}         { return nil }
func (vFSM) Snapshot() (hraft.FSMSnapshot, error) { return nil, fmt.Errorf("no") }
func (vFSM) Restore(io.ReadCloser) error          { return nil }

func vMembers(r *hraft.Raft) map[string]string {
	m := map[string]string{}
	f := r.GetConfiguration()
	if f.Error() != nil {
		return nil
	}
	for _, s := range f.Configuration().Servers {
		m[string(s.ID)] = string(s.Address)
		if s.Suffrage != hraft.Voter {
			m[string(s.ID)] += " (no voter)"
		}
	}
	return m
}

func vJoinRun(seed int64, end time.Time) {
	r := rand.New(rand.NewSource(seed))
	const n = 6
	var trs []*hraft.InmemTransport
	var rafts []*hraft.Raft
	for i := 0; i < n; i++ {
		_, tr := hraft.NewInmemTransport(hraft.ServerAddress(fmt.Sprintf("addr%d", i)))
		trs = append(trs, tr)
	}
	for i, tr := range trs {
		for j, o := range trs {
			if i != j {
				tr.Connect(o.LocalAddr(), o)
			}
		}
	}
	for i, tr := range trs {
		c := hraft.DefaultConfig()
		c.LocalID = hraft.ServerID(fmt.Sprintf("id%d", i))
		c.HeartbeatTimeout, c.ElectionTimeout, c.LeaderLeaseTimeout, c.CommitTimeout = 100*time.Millisecond, 100*time.Millisecond, 80*time.Millisecond, 5*time.Millisecond
		if i > 0 {
			// never a candidate in the time of this test
			c.HeartbeatTimeout, c.ElectionTimeout = time.Hour, time.Hour
		}
		c.Logger = hclog.NewNullLogger()
		s := hraft.NewInmemStore()
		snap := hraft.NewInmemSnapshotStore()
		if i == 0 {
			if err := hraft.BootstrapCluster(c, s, s, snap, tr, hraft.Configuration{Servers: []hraft.Server{{ID: c.LocalID, Address: tr.LocalAddr()}}}); err != nil {
				return
			}
		}
		h, err := hraft.NewRaft(c, vFSM{}, s, s, snap, tr)
		if err != nil {
			return
		}
		rafts = append(rafts, h)
		defer h.Shutdown()
	}
	lead := rafts[0]
	for i := 0; lead.State() != hraft.Leader; i++ {
		if i > 500 {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	node := &Node{Raft: lead}
	for k := 0; k < 30 && time.Now().Before(end) && vJoinSeen == 0; k++ {
		before := vMembers(lead)
		id, addr := fmt.Sprintf("id%d", 1+r.Intn(n-1)), fmt.Sprintf("addr%d", 1+r.Intn(n-1))
		if r.Intn(4) == 0 && len(before) > 1 { // a member again
			for i, a := range before {
				if i != "id0" {
					id, addr = i, a
				}
			}
		}
		if r.Intn(4) == 0 {
			id = fmt.Sprintf("other%d", r.Intn(3))
		}
		if r.Intn(12) == 0 { // at the address of the leader
			addr = "addr0"
		}
		target := node
		follower := r.Intn(8) == 0
		if follower {
			target = &Node{Raft: rafts[1+r.Intn(n-1)]}
			before = vMembers(target.Raft)
		}
		ix := target.Raft.LastIndex()
		err := target.Join(id, addr)
		after := vMembers(target.Raft)
		if lead.State() != hraft.Leader || before == nil || after == nil {
			return
		}
		if follower {
			if err == nil && before[id] != addr {
				vJoinFail(seed, "a node that is not the leader says that %s at %s has joined %v", id, addr, before)
			}
			continue
		}
		if err != nil {
			for i, a := range before {
				if i != id && a != addr && after[i] != a {
					vJoinFail(seed, "join of %s at %s (failed: %v) to %v removed %s", id, addr, err, before, i)
				}
			}
			continue
		}
		want := map[string]string{id: addr}
		for i, a := range before {
			if i != id && a != addr {
				want[i] = a
			}
		}
		if fmt.Sprint(after) != fmt.Sprint(want) {
			vJoinFail(seed, "join of %s at %s to %v: members %v instead of %v", id, addr, before, after, want)
		}
		if before[id] == addr && target.Raft.LastIndex() != ix {
			vJoinFail(seed, "join of %s at %s, which is a member, changed the configuration", id, addr)
		}
	}
	// a node that has stopped cannot take part
	if r.Intn(2) == 0 && vJoinSeen == 0 {
		lead.Shutdown().Error()
		if err := node.Join("new", "addrNew"); err == nil {
			vJoinFail(seed, "a join to a stopped node succeeds")
		}
	}
}

func TestVerifJoin(t *testing.T) {
	seed0, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	secs, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	end := time.Now().Add(time.Duration(secs) * time.Second)
	for seed := seed0; time.Now().Before(end) && vJoinSeen == 0; seed++ {
		vJoinRun(seed, end)
	}
	if vJoinSeen > 0 {
		t.Fail()
	}
}
