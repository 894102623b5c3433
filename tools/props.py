QREPLAY = [{"pkg": "./pkg/queue", "files": {"pkg/queue/verif_model_test.go": "queue_model_test.go"}, "run": "TestVerif(Mem|Stored|Deadlines)", "secs": 60}]
SREPLAY = [{"pkg": "./pkg/queue", "files": {"pkg/queue/verif_model_test.go": "queue_model_test.go"}, "run": "TestVerifStats", "secs": 30}]
MEMQ = ["queue.FairPriorityQueue.*", "queue.DelayedPriorityQueue.*", "queue.NewFairPriorityQueue", "queue.NewDelayedPriorityQueue"]
BPQ = ["queue.BadgerPriorityQueue.*", "queue.NewBadgerPriorityQueue"]
MGR = ["queue.QueueManager.*", "queue.NewQueueManager"]
NAMES = ["lemma messageKeys", "lemma queueKeys", "lemma foreignKey"]
LREPLAY = [{"pkg": "./pkg/badger-store", "files": {"pkg/badger-store/verif_log_test.go": "log_model_test.go"}, "run": "TestVerifLog", "secs": 30}]
LOG = ["badger-store.BadgerStore.*", "badger-store.New", "lemma keysApart"]
RREPLAY = [{"pkg": "./pkg/raft", "files": {"pkg/raft/verif_cmd_test.go": "raft_model_test.go"}, "run": "TestVerif(Commands|Start)", "secs": 40}]
IREPLAY = [dict(RREPLAY[0], run="TestVerifIDs", secs=30)]
HREPLAY = {"pkg": "./pkg/http", "files": {"pkg/http/verif_http_test.go": "http_model_test.go"}, "run": "TestVerifHTTP", "secs": 15}
GREPLAY = {"pkg": "./pkg/grpc", "files": {"pkg/grpc/verif_grpc_test.go": "grpc_model_test.go"}, "run": "TestVerifGRPC", "secs": 15}
HTTP = ["http.Handler.*", "http.NewHttpService"]
GRPC = ["grpc.QueueServer." + x for x in ["CreateQueue", "DeleteQueue", "Enqueue", "Dequeue", "Ack", "Nack", "UpdatePriority"]] + ["grpc.NewQueueServer", "grpc.NewGRPCProxy", "grpc.NewGRPCServer"]
STREAM = ["grpc.QueueServer." + x for x in ["EnqueueStream", "DequeueStream", "registerConsumer", "unregisterConsumer", "broadcastMessage"]]
JREPLAY = {"pkg": "./pkg/raft", "files": {"pkg/raft/verif_join_test.go": "join_model_test.go"}, "run": "TestVerifJoin", "secs": 20}
CREPLAY = {"pkg": "./pkg/cluster", "files": {"pkg/cluster/verif_cluster_test.go": "cluster_model_test.go"}, "run": "TestVerifCluster", "secs": 10}
DISC = ["cluster." + x for x in ["NewServiceDiscoverySRV", "ServiceDiscoverySRV.Hostname", "ServiceDiscoverySRV.IP", "ServiceDiscoverySRV.Lookup", "NewCluster", "Cluster.Init", "Cluster.NodeID", "Cluster.RaftAddr", "Cluster.Hosts"]]
MAIN = ["cmd/server.Run", "raft.NewNode", "raft.Node.Initialize"]
START = ["raft.NewNode", "raft.Node.Initialize", "raft.Node.ListenToLeaderChanges", "raft.Node.monitorLeadership"]
INFO = START + ["raft.Node.GetQueues", "raft.Node.GetQueueInfo", "raft.Node.Leader", "raft.Node.IsLeader"]
API = "The node behind the interface answers as raft.Node's contracts say; IDs are below 2^63 (snowflake). huma, fiber and grpc are taken to decode requests and encode replies faithfully. "
RAFT = START + ["raft.FSM.Apply", "raft.Node.Enqueue", "raft.Node.Dequeue", "raft.Node.Ack", "raft.Node.Nack", "raft.Node.UpdatePriority", "raft.Node.CreateQueue", "raft.Node.DeleteQueue"]
STATS = ["queue.queueStats.*", "queue.NewQueueStats"]
FEW = "Assumes fewer than 2^62 messages and a clock that does not go back. "
STORE = "The store (badger) is taken to be transactional: a transaction that reports success is durable and atomic, one that reports an error changes nothing. "
def q(note, roots=BPQ + MGR + MEMQ, replay=QREPLAY, **k):
    return {"def": dict(roots=roots, replay=replay, **k), "note": note}
PROPS = {
    "C01": q("For every input and history of the in-memory queues and of the stored queue. " + FEW, MEMQ + BPQ),
    "C02": q("For every input and history of the in-memory queues and of the stored queue. " + FEW, MEMQ + BPQ),
    "C03": q("For every input and history of the in-memory queues and of the stored queue. " + FEW, MEMQ + BPQ),
    "C04": q("For every operation in every state that satisfies the invariant of the queue, which every operation restores. " + FEW + STORE),
    "C05": q("For every operation and every periodic check in every state that satisfies the invariant of the queue. " + FEW + STORE + "Timeouts and check intervals are taken to be below 2^32 s."),
    "C06": q("For every text that is valid UTF-8; encoding/json is taken to be faithful on such texts. " + STORE),
    "C07": q("For every pair of queue names; the layout of the storage keys is proved injective. " + STORE, BPQ + MGR + NAMES),
    "C08": q("For every name and type. Creating a name that is stored but not open is excluded (known finding). " + STORE, BPQ + MGR + NAMES),
    "C09": q("For an error at any storage call. " + STORE),
    "C10": q("For every set of stored records written by the queue itself. " + STORE, BPQ + MGR + MEMQ + NAMES),
    "C14": q("For every operation in every state that satisfies the invariant of the queue. " + STORE),
    "C17": q("For every state that satisfies the invariant of the queue. " + FEW, BPQ + MGR + MEMQ + INFO, QREPLAY + RREPLAY),
    "C22": q("Counters are updated atomically; sums over the window are taken modulo 2^64 as in the code. Go's float division is taken to be a function of its arguments.", STATS + BPQ, SREPLAY, exclude=["queue.BadgerPriorityQueue.*", "queue.FairPriorityQueue.*", "queue.DelayedPriorityQueue.*", "queue.PriorityQueue.*", "queue.NewBadgerPriorityQueue"]),
    "C11": q("For every log, batch and range. go-msgpack is taken to decode what it encoded. " + STORE, LOG + START, LREPLAY + RREPLAY, exclude=["queue.*"]),
    "C12": q("For every key and value. The number read is one written by SetUint64 or at least 8 bytes long. " + STORE, LOG + START, LREPLAY + RREPLAY, exclude=["queue.*"]),
    "C13": q("For every log entry, decodable or not, and every argument of every operation. encoding/json is taken to be faithful on valid UTF-8 and objects to have no duplicate keys. hraft's futures are taken to report the response of FSM.Apply, whose contract proves that it is a *FSMResponse.", RAFT, RREPLAY, exclude=["queue.*"]),
    "C15": q("For every unary request with any arguments, any leadership state and any leader address, on the HTTP and gRPC interfaces. Leadership may change during a request, the leader's address is taken not to; net/http and grpc are taken to send what they are given (known finding: characters that net/http re-encodes in a path) and the leader's reply to be one JSON value. " + API, HTTP + GRPC + INFO, [HREPLAY, GREPLAY] + RREPLAY, exclude=["queue.*"]),
    "C16": q("For every request and every outcome of the operation. encoding/json is taken to be faithful on valid UTF-8. " + API, HTTP + GRPC + INFO, [HREPLAY, GREPLAY] + RREPLAY, exclude=["queue.*"]),
    "C27": q("For every sequence of requests, outcomes of the node's operations and of the transport, and any other streams. The stream delivers what it is given. " + API, STREAM, [dict(GREPLAY, run="TestVerifStreams")], exclude=["queue.*"]),
    "C23": q("For every membership, ID and address, every refusal of a change and every sequence of answers of the hosts. hraft is taken to report the cluster's configuration, with distinct IDs and addresses and only voters, and to carry out the changes that it reports as done.", ["raft.Node.Join", "http.Handler.Join", "cluster.NewJoiner", "cluster.Joiner.Join"] + MAIN, [JREPLAY, CREPLAY], exclude=["queue.*", "badger-store.*"]),
    "C25": q("For every enqueue and every cluster of fewer than 1023 members. The snowflake library is taken to do what it documents: a generator gives larger and larger IDs below 2^63, which carry the number of the generator, while the clock does not go back. Members are taken to see one configuration when they start.", ["raft.NewNode", "raft.Node.Initialize", "raft.Node.InitIDGenerator", "raft.Node.GenerateID", "raft.Node.Enqueue"] + MAIN, IREPLAY + RREPLAY, exclude=["queue.*", "badger-store.*"]),
    "C24": q("For every host name, every list of addresses and every failure of a lookup. The name services are taken to give the same answers during the initialisation.", DISC + MAIN, [CREPLAY], exclude=["queue.*", "badger-store.*"]),
}
ALL = MGR + BPQ + MEMQ + STATS + LOG + RAFT + INFO + HTTP + GRPC + STREAM + DISC
XREPLAY = [{"pkg": "./pkg/queue", "files": {"pkg/queue/verif_race_test.go": "queue_race_test.go"}, "run": "TestVerifRace", "secs": 50, "race": True},
           {"pkg": "./pkg/grpc", "files": {"pkg/grpc/verif_race_test.go": "grpc_race_test.go"}, "run": "TestVerifRace", "secs": 10, "race": True},
           {"pkg": "./pkg/raft", "files": {"pkg/raft/verif_race_test.go": "raft_race_test.go"}, "run": "TestVerifRaceLeader", "secs": 5, "race": True}]
PROPS["C18"] = q("For every function of the repository that touches what a lock protects, in every state in which it can be called and for any number of concurrent callers: values read under a lock are forgotten when it is released. Methods of the packages of the standard library and of the dependencies are taken to be as safe for concurrent use as they say.", ["*", "*.*", "*.*.*"], XREPLAY, only=["C18"])
PROPS["C19"] = q("For every function under contract, in every state that satisfies its precondition, which every caller is checked to establish. Stored records and log entries of the store are those written by the node itself; replicated commands are arbitrary. Functions of dependencies are taken not to panic on arguments that meet their contracts.", ["*", "*.*", "*.*.*"], QREPLAY + SREPLAY + LREPLAY + RREPLAY + [JREPLAY, HREPLAY, dict(GREPLAY, run="TestVerif(GRPC|Streams)"), CREPLAY])
WIP = "not decided yet: the contracts for this part are being written"
NOT_APPLICABLE = {
    "C20": "relates two executions at different times and nodes. The code applies commands with the local clock (delayed dequeue, acknowledgement deadlines) and replays its log at restart against the already updated store, so the property is false of this design; no contract on one execution can make it hold, and repairing it means redesigning what is replicated (see DESIGN.md).",
    "C21": "snapshot and restore are empty in the code (FSM.Snapshot, Persist and Restore do nothing): there is no function whose contract could be proved; implementing them is a redesign (see DESIGN.md).",
    "C26": "provided by hraft's replication and election; the code only calls it. A contract over hraft would assume the property rather than prove it.",
}
for k in ["C11", "C12", "C13", "C15", "C16", "C18", "C19", "C23", "C24", "C27"]:
    if k not in PROPS:
        NOT_APPLICABLE[k] = WIP
