package raft

// Replay of failed lock obligations: the leader's address is read while it is written, under the race detector.

import (
	"io"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/hashicorp/raft"
	"github.com/rs/zerolog"
)

func TestVerifRaceLeader(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	secs, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	rc := raft.DefaultConfig()
	rc.LocalID = "n"
	rc.HeartbeatTimeout, rc.ElectionTimeout, rc.LeaderLeaseTimeout, rc.CommitTimeout = 50*time.Millisecond, 50*time.Millisecond, 50*time.Millisecond, 2*time.Millisecond
	rc.LogOutput = io.Discard
	st := raft.NewInmemStore()
	addr, tr := raft.NewInmemTransport("")
	r, err := raft.NewRaft(rc, &FSM{}, st, st, raft.NewInmemSnapshotStore(), tr)
	if err != nil {
		t.Skip(err)
	}
	n := &Node{Raft: r, id: "n"}
	go n.monitorLeadership()
	end := time.Now().Add(time.Duration(secs) * time.Second)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(end) {
				n.Leader()
				n.IsLeader()
				time.Sleep(time.Millisecond)
			}
		}()
	}
	time.Sleep(1500 * time.Millisecond)
	r.BootstrapCluster(raft.Configuration{Servers: []raft.Server{{ID: "n", Address: addr}}}).Error()
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(time.Duration(secs+20) * time.Second):
		t.Log("REPLAY-FAIL C18 the leader's address: still waiting for a lock after 20 s")
		t.Fail()
	}
}
