# Regenerates properties.jsonl (kept as a script so that the statements stay in one readable place).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
Q='pkg/queue/'
BPQ=Q+'badger_priority_queue.go';PQ=Q+'priority_queue.go';DQ=Q+'delayed_priority_queue.go';FQ=Q+'fair_priority_queue.go';QM=Q+'queue_manager.go';ST=Q+'queue_stats.go'
BS='pkg/badger-store/badger_store.go';FSM='pkg/raft/fsm.go';CMD='pkg/raft/commands.go';NODE='pkg/raft/node.go'
p('C01','Messages are delivered in strict priority order',
 'A dequeue from a delayed queue that returns a message returns the ready message with the smallest priority value and, among equal priorities, the one with the smallest ID. A dequeue from a fair queue returns the first message, in that same order, among the ready messages of the group it serves. This holds after every sequence of enqueues, dequeues, acknowledgements, redeliveries, removals and priority updates.',
 ['inputs','histories'],'all queue contents (any number of messages, any 64-bit IDs and priorities, any groups) reachable by any sequence of operations',
 'Tests push a handful of fixed messages; a heap or index error that needs a particular size, shape or removal position is not reached.',
 [PQ,DQ,FQ,BPQ],[('binary heap with an ID-to-position index',PQ),('heap operations of the delayed and fair queues',DQ+', '+FQ)],['message returned by a dequeue'],
 [('items/idToIndex','heap array and position of every message',PQ)])
p('C02','Delayed messages are never early and never withheld once due',
 'In a delayed queue the priority is a Unix time in seconds before which a message must not be delivered: no dequeue returns a message whose time is still in the future. Conversely a dequeue does not report the queue empty while some ready message is already due. Fair queues ignore the clock.',
 ['inputs','schedules','histories'],'all queue contents and all clock values',
 'Tests use one or two messages and a sleep; they do not cover every relation between the clock and the stored priorities.',
 [DQ,BPQ],[('comparison of the head priority with the current time',DQ)],['result of a dequeue against the clock read around it'])
p('C03','Fair queues rotate over groups and starve none',
 'In a fair queue no group is served twice while another group that had ready messages throughout waits; a group that becomes non-empty, or was drained and refilled, takes its turn after the groups already waiting. A dequeue reports the queue empty only if no group has a ready message, and a group drained by any operation no longer takes a turn.',
 ['inputs','histories'],'all interleavings of enqueues, dequeues, removals and refills over any number of groups',
 'Tests run short fixed group sequences; starvation needs particular drain-and-refill histories.',
 [FQ],[('round-robin list of groups and the current position',FQ)],['sequence of groups delivered'],
 [('round-robin list','order in which waiting groups are served',FQ)])
p('C04','No message is lost, duplicated or mixed up',
 'Every message accepted by a queue and not yet acknowledged or deleted with its queue is at every moment either ready or unacknowledged, never both and never neither. An operation on one message leaves the state of every other message unchanged. An operation that reports an error because the queue is empty or the message unknown changes nothing.',
 ['inputs','histories','schedules'],'all histories of operations on a queue, including redelivery of timed-out messages running beside them',
 'Tests check the touched message in short histories, not the untouched ones, nor what holds between operations.',
 [BPQ,DQ,FQ,PQ],[('transfer of a message between the ready and the unacknowledged structure',BPQ)],['later deliveries, acknowledgements and stored records'])
p('C05','Unacknowledged messages: ack is final, nack and timeout redeliver',
 'A message dequeued without automatic acknowledgement is not delivered again until it is negatively acknowledged or its acknowledgement timeout has elapsed; then it is ready again in its own group and with its own priority. Every message whose deadline has passed is returned by the next periodic check, whatever other messages are outstanding. Acknowledging removes the message for good, and acknowledging or negatively acknowledging a message that is not outstanding is an error that changes nothing.',
 ['inputs','histories','schedules'],'all sets of outstanding messages with any deadlines, all orders of ack, nack, priority update and expiry',
 'Tests hold one or two outstanding messages and wait for one timeout.',
 [BPQ,DQ],[('outstanding-message queue ordered by deadline and its monitor',BPQ)],['ack/nack results, later deliveries'])
p('C06','A delivered message is the message that was enqueued',
 'Every delivery of a message carries exactly the ID, group and content it was enqueued with and its current priority, whatever text the group and content hold, and whether it is a first delivery, a redelivery or a delivery after a restart. In a delayed queue the group is always the default group. The enqueue reply shows the same ID, group, priority and content that will be delivered.',
 ['inputs','histories'],'all IDs, groups, priorities and text contents; all paths by which a message is stored and read back',
 'Tests use short ASCII contents and one path at a time.',
 [BPQ,CMD,FSM],[('encoding of the message record and of the replicated command',BPQ+', '+FSM)],['fields of enqueue replies and deliveries'])
p('C07','Queues are isolated from each other',
 'An operation on one queue never reads, delivers, changes or removes messages or settings of another queue, whatever the two names are (including names that are prefixes of each other or contain the separators used in storage). A queue is listed, loaded and deleted only under its exact name.',
 ['inputs','histories'],'all pairs of queue names and all operations on them',
 'Tests use one or two unrelated names.',
 [BPQ,QM],[('storage keys built from queue name and message ID, prefix iteration',BPQ)],['contents of the other queue after an operation'])
p('C08','Creating and deleting a queue does exactly that',
 'After a successful create the queue exists with the requested name and type and is usable, and creating a name that already exists leaves that queue and its messages as they were. After a successful delete the queue, its settings and all its messages are gone, so every operation on the name reports an unknown queue and a queue created again under it starts empty. Deleting or using an unknown queue is an error that creates nothing.',
 ['inputs','histories'],'all names and types, queues with any number of messages, all create/delete histories',
 'Tests delete nearly empty queues and do not look at what stays in storage.',
 [BPQ,QM],[('queue record and message records in storage, registry of loaded queues',BPQ+', '+QM)],['existence and contents of queues afterwards'])
p('C09','Durable before success; a failed write changes nothing',
 'An enqueue, acknowledgement, dequeue with automatic acknowledgement, priority update, create or delete reports success only after its change is committed to storage, in a single atomic transaction. If storage reports an error at any point, the operation reports an error and every message is afterwards, in memory and in storage, exactly as before.',
 ['fault_sequences','crash_points','inputs'],'every operation, every storage call in it failing or succeeding, a stop at any point between them',
 'Tests run on a healthy store only.',
 [BPQ,QM],[('one storage transaction per operation, memory updated around it',BPQ)],['reported result, stored records and memory after a failed call'])
p('C10','Loading a stored queue recovers exactly what was stored',
 'When a node opens a queue that exists in storage but not in memory, the queue has the stored name and type and its ready messages are exactly the stored messages of that queue, each with its stored ID, group and priority, none missing, duplicated or foreign. The queue opened this way stays open: later operations on the name act on the same queue, so that outstanding messages can be acknowledged.',
 ['inputs','histories','crash_points'],'all sets of stored messages of any number of queues',
 'Tests reload one small queue once and do not go on to use it.',
 [BPQ,QM],[('prefix scan of stored messages into memory, registry of loaded queues',BPQ+', '+QM)],['deliveries after the load'])
p('C11','The raft log store keeps a faithful, ordered log',
 'After a successful store of log entries, reading any of their indexes returns exactly the entry stored last under it, entries of other indexes are untouched, and the first and last index are the smallest and largest stored index (zero for an empty log). Deleting a range removes exactly the entries whose index lies in it, inclusively, whatever its size. A failing batch store stores none of its entries, and reading a missing index reports that it is missing.',
 ['inputs','histories','fault_sequences'],'all 64-bit indexes, all batches and ranges, storage errors at any call',
 'Tests use a few small consecutive indexes.',
 [BS,'pkg/badger-store/utils.go'],[('big-endian index keys under a prefix, batched range delete',BS)],['GetLog, FirstIndex, LastIndex after any history'])
p('C12','The stable store returns what was last set',
 'Reading a key of the stable store returns exactly the bytes (or the 64-bit number) last set successfully under that key, and reports not found for a key never set. Keys do not interfere with each other nor with the raft log or the queues kept in the same storage.',
 ['inputs','histories','fault_sequences'],'all keys and values, including empty ones and keys that are prefixes of others',
 'Tests use a few short keys and values.',
 [BS],[('key prefix and byte copies',BS)],['Get/GetUint64 after Set/SetUint64'])
p('C13','A committed command performs exactly the requested operation',
 'Applying a replicated command performs exactly the one operation that was requested, on the queue and with the arguments that were requested, and its result is reported back unchanged to the requester. A command that cannot be decoded, or whose operation is unknown, changes nothing and yields an error. Every operation is encoded so that decoding it yields the same operation and arguments.',
 ['inputs','histories'],'all operations with all argument values; all byte strings as log entries',
 'Tests send one well-formed example per operation.',
 [CMD,FSM],[('command encoding, decoding and dispatch',FSM+', '+CMD)],['operation performed on the queue and response returned'])
p('C14','A priority update takes effect exactly once and only where asked',
 'After a successful priority update of a ready message the message has the new priority in storage and in the delivery order; for an outstanding message the new priority applies when it becomes ready again, and its acknowledgement deadline is unaffected. Its ID, group and content and every other message stay as they were. Updating an unknown message is an error that changes nothing.',
 ['inputs','histories'],'all queue contents, all old and new priorities, ready and outstanding messages, delayed and fair queues',
 'Tests update one ready message in a small queue.',
 [BPQ,PQ,DQ,FQ],[('stored record, heap position and outstanding deadline',BPQ)],['later deliveries and acknowledgements'])
p('C15','A node that is not the leader forwards requests unchanged',
 'A unary HTTP or gRPC request received by a node that is not the leader is forwarded exactly once to the current leader, as the same operation with the same arguments, and is not executed locally; the leader\'s answer or error is returned to the client. A request received by the leader is executed locally exactly once and not forwarded. When the leader is unknown or unreachable the client gets an error.',
 ['inputs','schedules','configurations'],'all unary operations of the HTTP and gRPC interfaces with all argument values, any leadership state and leader address',
 'Tests forward one example per operation to a fixed host.',
 ['pkg/http/messages.go','pkg/http/queues.go','pkg/http/proxy.go','pkg/grpc/server.go','pkg/grpc/proxy.go'],[('leader check and proxy in every handler','pkg/http, pkg/grpc')],['requests sent to the leader, calls made on the local node'])
p('C16','API replies tell the truth',
 'An HTTP or gRPC request executed by the node reports success if and only if the operation succeeded, and an error otherwise. The reply\'s fields are those of the message or queue concerned: ID, group, priority and content of exactly the message enqueued or delivered, and name, type, rates and counts of exactly the queues listed.',
 ['inputs'],'all requests and all outcomes of the underlying operation',
 'Tests check a few examples against a mock.',
 ['pkg/http/messages.go','pkg/http/queues.go','pkg/grpc/server.go','pkg/raft/commands.go'],[('construction of replies from results','pkg/http, pkg/grpc')],['status and fields of replies'])
p('C17','Queue counters equal the real contents',
 'The reported number of ready messages equals the number of messages that can still be delivered, the number of unacknowledged messages equals the number outstanding, and the total is their sum, after every history of operations. Listing queues reports every existing open queue exactly once, ordered by name, under its own name and type.',
 ['inputs','histories','schedules'],'all queue contents and histories, delayed and fair queues, queries concurrent with operations',
 'Tests compare counts after short histories; they do not exercise deletions of absent messages or concurrent queries.',
 [BPQ,FQ,DQ,QM],[('message counters and lengths',FQ+', '+BPQ)],['queue info and queue list'])
p('C18','Shared structures are only touched under their lock',
 'The state of every queue, of the queue registry, of the statistics and of the stream-consumer registry, and the known leader address, are read and written only while the lock that protects it is held (for writing when it is written), so concurrent requests and background tasks never race on it. Every operation releases all locks it took on every path, takes none it already holds, and runs its effect on a queue in one critical section.',
 ['schedules'],'all interleavings of any number of concurrent operations and background tasks',
 'The race detector sees only the interleavings that happen to run.',
 [BPQ,DQ,FQ,QM,ST,'pkg/grpc/server.go'],[('mutexes beside the guarded fields',Q)],['absence of unsynchronised accesses'])
p('C19','No request or log entry can crash the node',
 'No content of a request, stored record or replicated command, in any reachable state, makes a node panic: no nil dereference, index out of range, failed type assertion, closed-channel misuse or division by zero. Bad input yields an error reply.',
 ['inputs','histories','configurations'],'all requests, log entries and stored records in all reachable states',
 'Tests send mostly well-formed requests in ordinary states.',
 [BPQ,PQ,DQ,FQ,QM,ST,FSM,CMD,BS,'pkg/http','pkg/grpc'],[('checks before use','throughout')],['process does not panic'])
p('C20','Replicas applying the same log reach the same state',
 'Applying the same sequence of committed commands gives the same results and the same stored state on every replica and at every time, in particular when a node replays its log after a restart.',
 ['schedules','histories','crash_points'],'all command sequences, all times at which replicas apply them',
 'Tests run one node and do not replay its log later.',
 [FSM,BPQ,DQ],[('state machine application',FSM)],['state of two replicas after the same log'])
p('C21','Snapshots preserve the whole state',
 'Restoring a node from a snapshot yields the queues and messages that existed when the snapshot was taken, and replaying the log after it does not apply any command twice.',
 ['crash_points','histories'],'all states at which a snapshot can be taken',
 'No test takes a snapshot.',
 [FSM],[('snapshot, persist and restore of the state machine',FSM)],['queues after a restore'])
p('C22','Throughput statistics count every operation once',
 'Each successful enqueue, dequeue, acknowledgement and negative acknowledgement is counted exactly once in its own statistic and no other, and failed operations are not counted. The reported rate is the number counted in the last window of whole seconds divided by the window length, older counts being dropped one second at a time, and is a finite number for every configured window.',
 ['inputs','histories','configurations'],'all window sizes and all histories of operations and ticks',
 'Tests check one tick with one window size.',
 [ST,BPQ],[('atomic counters shifted into a history window',ST)],['rates in queue info'])
p('C23','Joining the cluster leaves exactly the requested membership',
 'After a successful join request for a node ID and address the cluster has exactly one member with that ID at that address as a voter and no other member with that ID or that address; members unrelated to both are never removed, and a request for an existing identical member changes nothing. A failed membership change is reported as an error. A starting node tries all configured hosts, with its own ID and address, and reports success only if one accepted it or none is configured; the program serves requests only after that success, under the ID and address it joined with.',
 ['inputs','configurations','fault_sequences'],'all memberships, IDs and addresses; all sequences of accepting, refusing and unreachable hosts',
 'Tests join one fresh node once.',
 [NODE,'pkg/cluster/jointer.go','pkg/http/cluster.go','cmd/server/main.go'],[('scan of the current configuration, removal and addition of members',NODE)],['calls that change the membership'])
p('C24','Discovery separates this node from its peers',
 'From the discovered addresses a node takes as its own the address that belongs to its host name and as peers exactly all the others, in order, and derives its raft address from its own host. Any failure of host name, IP or address lookup is reported as an error. The node is started under what was found: its own address as its ID, its raft address, and these peers.',
 ['inputs','configurations','fault_sequences'],'all host names, all lists of discovered addresses, all lookup failures',
 'Tests use one list with one matching host.',
 ['pkg/cluster/cluster.go','pkg/cluster/service_discovery.go','cmd/server/main.go'],[('prefix match of addresses with the host name','pkg/cluster/cluster.go')],['node ID, hosts and raft address after initialisation'])
p('C25','Message IDs are unique and increasing',
 'Every message that a node accepts gets an ID that the node\'s ID generator has given for this request alone, so the IDs one leader gives are unique and increase; the message is stored and the requester answered under this ID. The generator of a started node carries the node\'s own place in the cluster\'s configuration, so no two members of a configuration ever generate the same ID, and a node that cannot take the number of its place reports an error and does not serve.',
 ['schedules','histories','configurations'],'all requests, memberships and positions in them',
 'Tests run one node, which is always the first member.',
 [NODE,CMD],[('snowflake generator numbered by the position in the membership',NODE)],['IDs returned by enqueue'])
p('C26','Accepted operations survive leader failure and appear in one order',
 'An operation acknowledged to a client is not lost when a minority of nodes fails, and all clients observe queue operations in one global order consistent with real time.',
 ['schedules','fault_sequences','crash_points'],'all failures of a minority of nodes and all message interleavings between them',
 'Tests use one in-process cluster without failures.',
 [NODE,CMD],[('raft library',NODE)],['client histories under failures'])
p('C27','Streaming delivers and confirms every message exactly once',
 'Each request received on an enqueue stream is enqueued exactly once with its own arguments and confirmed, in order, with the message that was stored; the stream ends with an error if an enqueue or a confirmation fails. On a dequeue stream every message taken from the requested queue is sent exactly once, with its own fields, and with the acknowledgement mode the client asked for; a consumer is registered while its stream is open and removed when it ends.',
 ['inputs','histories','schedules','fault_sequences'],'all request sequences, all outcomes of each enqueue, dequeue and send',
 'Tests stream a few messages on a healthy connection.',
 ['pkg/grpc/server.go'],[('stream loops and consumer registry','pkg/grpc/server.go')],['calls on the node and messages sent on the stream'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,x['id']
