package cluster

// Drives discovery (C24) and joining (C23) with random name services and hosts and compares with what they must do.

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"k8s.io/client-go/rest"
)

var (
	vMu   sync.Mutex
	vSeen []string
)

func vFail(seed int64, prop, f string, a ...interface{}) {
	if os.Getenv("VERIF_PROP") != prop {
		return
	}
	vMu.Lock()
	defer vMu.Unlock()
	m := fmt.Sprintf("REPLAY-FAIL %s seed %d: ", prop, seed) + fmt.Sprintf(f, a...)
	vSeen = append(vSeen, m)
	if len(vSeen) <= 3 {
		fmt.Println(m)
	}
}

func vCount() int {
	vMu.Lock()
	defer vMu.Unlock()
	return len(vSeen)
}

func vDiscovery(seed int64) {
	r := rand.New(rand.NewSource(seed))
	suffix := []string{"", ".doq-internal.default.svc.cluster.local.", ".doq-internal.default.svc.cluster.local"}[r.Intn(3)]
	prefix := []string{"doq-", "a", "doq-1", "Doq-", "x.y-"}[r.Intn(5)]
	own := prefix + strconv.Itoa(r.Intn(12))
	var srv []*net.SRV
	var addrs, others []string
	mine := ""
	n := 1 + r.Intn(14)
	has := r.Intn(8) > 0
	for _, i := range r.Perm(14)[:n] {
		h := prefix + strconv.Itoa(i)
		if h == own && !has {
			continue
		}
		port := uint16(r.Intn(65536))
		s := &net.SRV{Target: h + suffix, Port: port}
		srv = append(srv, s)
		a := fmt.Sprintf("%s:%d", s.Target, s.Port)
		addrs = append(addrs, a)
		if h == own {
			mine = a
		} else {
			others = append(others, a)
			if r.Intn(12) == 0 { // listed twice
				srv, addrs, others = append(srv, s), append(addrs, a), append(others, a)
			}
		}
	}
	errs := [3]error{}
	bad := r.Intn(8)
	if bad < 3 {
		errs[bad] = errors.New("lookup")
	}
	ips := []string{"10.0.0.1", "::1"}[:r.Intn(3)]
	name := ""
	sd := &ServiceDiscoverySRV{namespace: "ns", serviceName: "svc",
		lookupSRVFn: func(service, proto, n string) (string, []*net.SRV, error) {
			name = n
			if errs[0] != nil {
				return "", srv[:r.Intn(len(srv)+1)], errs[0]
			}
			return "", srv, nil
		},
		lookupIPFn: func(h string) ([]string, error) {
			if h != own {
				vFail(seed, "C24", "the IP of %q was looked up instead of %q", h, own)
			}
			return ips, errs[1]
		},
		lookupHostnameFn: func() (string, error) { return own, errs[2] },
	}
	c := NewCluster(sd, "ns", "svc", "8000")
	c.inClusterConfigFunc = func() (*rest.Config, error) { return nil, errors.New("not in a cluster") }
	err := c.Init()
	if bad < 3 {
		if err == nil {
			vFail(seed, "C24", "a failed lookup (%d) is not reported", bad)
		}
		return
	}
	if len(ips) == 0 {
		if err == nil {
			vFail(seed, "C24", "a host without an IP address is not reported")
		}
		return
	}
	if err != nil {
		return // stricter than asked for
	}
	if name != "svc-internal.ns.svc.cluster.local" {
		vFail(seed, "C24", "looked up %q", name)
	}
	if !reflect.DeepEqual(append([]string{}, c.Hosts()...), append([]string{}, others...)) {
		vFail(seed, "C24", "host %q, addresses %q: peers %q instead of %q", own, addrs, c.Hosts(), others)
	}
	if mine != "" && c.NodeID() != mine {
		vFail(seed, "C24", "host %q, addresses %q: own address %q instead of %q", own, addrs, c.NodeID(), mine)
	}
	if mine != "" && c.RaftAddr() != own+suffix+":12000" {
		vFail(seed, "C24", "own address %q: raft address %q", mine, c.RaftAddr())
	}
}

// a host that accepts or refuses: outcomes of its tries in order, the last one for ever
type vHost struct {
	mu       sync.Mutex
	outcomes []int
	tries    int
	accepted bool
}

func vJoining(seed int64) {
	r := rand.New(rand.NewSource(seed))
	id, addr := fmt.Sprintf("node-%d \"é", r.Intn(100)), fmt.Sprintf("h%d:12000", r.Intn(100))
	var hosts []string
	var hs []*vHost
	for i := r.Intn(4); i > 0; i-- {
		h := &vHost{outcomes: []int{[]int{200, 400, 500, 0, 302, 204}[r.Intn(6)], []int{200, 400}[r.Intn(2)], []int{400, 400, 200}[r.Intn(3)]}}
		if r.Intn(3) == 0 {
			h.outcomes = []int{503}
		}
		hs = append(hs, h)
		s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			h.mu.Lock()
			defer h.mu.Unlock()
			b, _ := io.ReadAll(q.Body)
			var m map[string]string
			if err := json.Unmarshal(b, &m); err != nil || q.Method != "POST" || q.URL.Path != "/join" || m["id"] != id || m["addr"] != addr {
				vFail(seed, "C23", "node %q at %q joined with %s %s %s", id, addr, q.Method, q.URL.Path, b)
			}
			h.tries++
			o := h.outcomes[0]
			if len(h.outcomes) > 1 {
				h.outcomes = h.outcomes[1:]
			}
			switch o {
			case 0:
				c, _, _ := w.(http.Hijacker).Hijack()
				c.Close()
			case 302:
				w.Header().Set("Location", "/elsewhere") // never followed to a success
				w.WriteHeader(400)
			default:
				h.accepted = h.accepted || o == 200
				w.WriteHeader(o)
			}
		}))
		defer s.Close()
		hosts = append(hosts, strings.TrimPrefix(s.URL, "http://"))
	}
	if len(hosts) > 0 { // a host that is named like the node
		switch h := hosts[r.Intn(len(hosts))]; r.Intn(9) {
		case 0:
			id = h
		case 1:
			id = h + "-1"
		case 2:
			addr = h
		}
	}
	if len(hosts) > 0 && r.Intn(4) == 0 { // one that is not there
		hosts[0] = "127.0.0.1:1"
		hs[0] = &vHost{tries: 1}
	}
	if len(hosts) > 0 && r.Intn(6) == 0 { // one that is no host
		hosts[len(hosts)-1] = "bad host%"
		hs[len(hosts)-1] = &vHost{tries: 1}
	}
	err := NewJoiner(id, addr, hosts).Join()
	accepted := false
	for _, h := range hs {
		accepted = accepted || h.accepted
	}
	if err == nil && !accepted && len(hosts) > 0 {
		vFail(seed, "C23", "joined although none of %d hosts accepted", len(hosts))
	}
	if !accepted {
		for i, h := range hs {
			if h.tries == 0 {
				vFail(seed, "C23", "host %d of %d was not tried", i, len(hosts))
			}
		}
	}
}

func TestVerifCluster(t *testing.T) {
	seed0, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	secs, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	end := time.Now().Add(time.Duration(secs) * time.Second)
	for seed := seed0; (seed == seed0 || time.Now().Before(end)) && vCount() < 3; seed++ {
		var wg sync.WaitGroup
		if os.Getenv("VERIF_PROP") == "C23" {
			for i := int64(0); i < 60; i++ {
				wg.Add(1)
				go func() { defer wg.Done(); vJoining(seed*1000 + i) }()
			}
		} else {
			for i := int64(0); i < 500; i++ {
				vDiscovery(seed*1000 + i)
			}
		}
		wg.Wait()
	}
	if vCount() > 0 {
		t.Fail()
	}
}
