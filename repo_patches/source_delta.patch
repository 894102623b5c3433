From 0a43aa381ea2a4be2e16d263cb4344dee3895f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:04 +0000
Subject: [PATCH 01/25] fix: delete all messages and the record of a deleted
 queue

---
 pkg/queue/badger_priority_queue.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index dfec73c..78fa2a6 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -225,8 +225,9 @@ func (bpq *BadgerPriorityQueue) Delete() error {
 
 		prefix := bpq.getMessagesPrefix()
 		for it.Seek(prefix); it.ValidForPrefix(prefix); it.Next() {
-			item := it.Item()
-			return txn.Delete(item.Key())
+			if err := txn.Delete(it.Item().KeyCopy(nil)); err != nil {
+				return err
+			}
 		}
 
 		err := txn.Delete(bpq.GetQueueKey(bpq.config.Name))
-- 
2.43.0


From 563214b2f85f455c37a1c62165a33030724ef7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:04 +0000
Subject: [PATCH 02/25] fix: do not load or delete messages of a queue whose
 name extends this one's

---
 pkg/queue/badger_priority_queue.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 78fa2a6..cd4c3f9 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -189,6 +189,12 @@ func (bpq *BadgerPriorityQueue) GetMessagesKey(id uint64) []byte {
 	return addPrefix(bpq.getMessagesPrefix(), uint64ToBytes(id))
 }
 
+// isMessageKey tells a message key of this queue from a message key of a queue
+// whose name starts with the name of this queue followed by a colon.
+func (bpq *BadgerPriorityQueue) isMessageKey(key []byte) bool {
+	return len(key) == len(bpq.getMessagesPrefix())+8
+}
+
 func (bpq *BadgerPriorityQueue) Create(queueType, queueName string) error {
 	bpq.mu.Lock()
 	defer bpq.mu.Unlock()
@@ -225,7 +231,11 @@ func (bpq *BadgerPriorityQueue) Delete() error {
 
 		prefix := bpq.getMessagesPrefix()
 		for it.Seek(prefix); it.ValidForPrefix(prefix); it.Next() {
-			if err := txn.Delete(it.Item().KeyCopy(nil)); err != nil {
+			key := it.Item().KeyCopy(nil)
+			if !bpq.isMessageKey(key) {
+				continue
+			}
+			if err := txn.Delete(key); err != nil {
 				return err
 			}
 		}
@@ -280,6 +290,9 @@ func (bpq *BadgerPriorityQueue) Load(queueName string, loadMessages bool) error
 			prefix := bpq.getMessagesPrefix()
 			for it.Seek(prefix); it.ValidForPrefix(prefix); it.Next() {
 				item := it.Item()
+				if !bpq.isMessageKey(item.Key()) {
+					continue
+				}
 				err := item.Value(func(val []byte) error {
 					msg, err := MessageFromBytes(val)
 					if err != nil {
-- 
2.43.0


From dd8cb00ffb7860b9b7cd26aa738f1ac147b8dc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:04 +0000
Subject: [PATCH 03/25] fix: redeliver expired messages in the order of their
 deadlines

---
 pkg/queue/badger_priority_queue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index cd4c3f9..838ad13 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -82,7 +82,7 @@ func NewBadgerPriorityQueue(db *badger.DB, cfg *config.Config, metrics *Promethe
 	bpq := &BadgerPriorityQueue{
 		db:                db,
 		cfg:               cfg,
-		ackQueue:          NewDelayedPriorityQueue(false),
+		ackQueue:          NewDelayedPriorityQueue(true),
 		PrometheusMetrics: metrics,
 		stats:             NewQueueStats(cfg.Queue.QueueStats.WindowSide),
 	}
-- 
2.43.0


From 11649af9cfbc876d9a9d5ef3bce3dd893a2077ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:04 +0000
Subject: [PATCH 04/25] fix: a priority update no longer overwrites the
 deadline of an outstanding message

---
 pkg/queue/badger_priority_queue.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 838ad13..c458591 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -477,8 +477,6 @@ func (bpq *BadgerPriorityQueue) UpdatePriority(id uint64, newPriority int64) err
 			return err
 		}
 
-		queueItem.UpdatePriority(newPriority)
-
 		return nil
 	})
 	if err != nil {
-- 
2.43.0


From 687cffb49352c916b2936c42bf48116cd1fa57b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:04 +0000
Subject: [PATCH 05/25] fix: keep a queue loaded from storage open instead of
 loading it on every call

---
 pkg/queue/badger_priority_queue.go | 7 ++++++-
 pkg/queue/queue_manager.go         | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index c458591..b2c0b1f 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -345,7 +345,12 @@ func (bpq *BadgerPriorityQueue) Enqueue(id uint64, group string, priority int64,
 		return msg, err
 	}
 
-	bpq.pq.Enqueue(msg.Group, queueItem)
+	if bpq.pq.GetByID(msg.Group, msg.ID) != nil {
+		// The message was loaded from storage and its command is applied again
+		bpq.pq.UpdatePriority(msg.Group, msg.ID, msg.Priority)
+	} else {
+		bpq.pq.Enqueue(msg.Group, queueItem)
+	}
 
 	bpq.stats.IncrementEnqueue()
 
diff --git a/pkg/queue/queue_manager.go b/pkg/queue/queue_manager.go
index 7af8bf9..89272a0 100644
--- a/pkg/queue/queue_manager.go
+++ b/pkg/queue/queue_manager.go
@@ -114,7 +114,7 @@ func (qm *QueueManager) GetQueue(queueName string) (*BadgerPriorityQueue, error)
 		if err != nil {
 			return nil, ErrQueueNotFound
 		}
-		return q, nil
+		qm.queues[queueName] = q
 	}
 	return q, nil
 }
-- 
2.43.0


From 2ccbb9b49836d8e837cd58436181d27d3dbea84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:36 +0000
Subject: [PATCH 06/25] fix: a storage error during dequeue or ack no longer
 loses the message in memory

---
 pkg/queue/badger_priority_queue.go | 44 ++++++++++++++++--------------
 pkg/queue/fair_priority_queue.go   |  1 +
 pkg/queue/priority_queue.go        |  2 +-
 3 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index b2c0b1f..cfe3461 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -381,35 +381,44 @@ func (bpq *BadgerPriorityQueue) Dequeue(ack bool) (*Message, error) {
 			return err
 		}
 
-		item.Value(func(val []byte) error {
+		err = item.Value(func(val []byte) error {
 			msg, err = MessageFromBytes(val)
 			return err
 		})
+		if err != nil {
+			return err
+		}
 
 		if ack {
 			// in case of autoAck, we need to remove the message from the queue
 			return txn.Delete(bpq.GetMessagesKey(queueItem.ID))
-		} else {
-			// in case of manual ack, we need to keep the message in the queue
-			// so we can ack it later and add it to the ackQueue
-			bpq.ackQueue.Enqueue(
-				"default",
-				&Item{
-					ID: queueItem.ID,
-					Priority: time.Now().UTC().Add(
-						time.Duration(bpq.cfg.Queue.AcknowledgementTimeout) * time.Second,
-					).Unix(),
-				},
-			)
 		}
 
 		return nil
 	})
 
 	if err != nil {
+		if err != badger.ErrKeyNotFound {
+			// nothing was changed in the storage, so the message is still ready
+			bpq.pq.Enqueue(queueItem.Group, queueItem)
+		}
 		return nil, err
 	}
 
+	if !ack {
+		// in case of manual ack, we need to keep the message in the queue
+		// so we can ack it later and add it to the ackQueue
+		bpq.ackQueue.Enqueue(
+			"default",
+			&Item{
+				ID: queueItem.ID,
+				Priority: time.Now().UTC().Add(
+					time.Duration(bpq.cfg.Queue.AcknowledgementTimeout) * time.Second,
+				).Unix(),
+			},
+		)
+	}
+
 	bpq.stats.IncrementDequeue()
 	if bpq.cfg.Prometheus.Enabled {
 		bpq.PrometheusMetrics.dequeueTotal.With(prometheus.Labels{"queue_name": bpq.config.Name}).Inc()
@@ -501,17 +510,12 @@ func (bpq *BadgerPriorityQueue) Ack(id uint64) error {
 	}
 
 	err := bpq.db.Update(func(txn *badger.Txn) error {
-		err := txn.Delete(bpq.GetMessagesKey(queueItem.ID))
-		if err != nil {
-			return err
-		}
-		bpq.ackQueue.DeleteByID("default", queueItem.ID)
-
-		return nil
+		return txn.Delete(bpq.GetMessagesKey(queueItem.ID))
 	})
 	if err != nil {
 		return err
 	}
+	bpq.ackQueue.DeleteByID("default", queueItem.ID)
 
 	bpq.stats.IncrementAck()
 	if bpq.cfg.Prometheus.Enabled {
diff --git a/pkg/queue/fair_priority_queue.go b/pkg/queue/fair_priority_queue.go
index 3144fa0..c78e2d6 100644
--- a/pkg/queue/fair_priority_queue.go
+++ b/pkg/queue/fair_priority_queue.go
@@ -94,6 +94,7 @@ func (fq *FairPriorityQueue) Enqueue(group string, item *Item) {
 		fq.queues[group] = node
 		fq.roundRobin.Append(node)
 	}
+	item.Group = group
 	heap.Push(fq.queues[group].Queue(), item)
 	fq.totalMessages++
 }
diff --git a/pkg/queue/priority_queue.go b/pkg/queue/priority_queue.go
index d16519e..63f69cd 100644
--- a/pkg/queue/priority_queue.go
+++ b/pkg/queue/priority_queue.go
@@ -8,7 +8,7 @@ import (
 type Item struct {
 	ID       uint64
 	Priority int64
-	Group    int64
+	Group    string
 }
 
 func (m *Item) UpdatePriority(newPriority int64) {
-- 
2.43.0


From 8226bc0a303a8f1ec0d36ce928832023f2732132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:41 +0000
Subject: [PATCH 07/25] fix: fair queue starved waiting groups and miscounted
 removals

---
 pkg/queue/fair_priority_queue.go | 54 +++++++++++++++++---------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/pkg/queue/fair_priority_queue.go b/pkg/queue/fair_priority_queue.go
index c78e2d6..bfa4bc5 100644
--- a/pkg/queue/fair_priority_queue.go
+++ b/pkg/queue/fair_priority_queue.go
@@ -56,6 +56,8 @@ func (l *LinkedList) Remove(node *LinkedListNode) {
 		l.tail = node.prev
 	}
 
+	node.prev = nil
+	node.next = nil
 	l.total--
 }
 
@@ -65,10 +67,9 @@ func (l *LinkedList) Len() uint64 {
 
 // FairQueue is a fair queue that balances between different groups
 type FairPriorityQueue struct {
-	queues      map[string]*LinkedListNode
-	roundRobin  *LinkedList
-	currentNone *LinkedListNode
-	mu          sync.RWMutex
+	queues     map[string]*LinkedListNode
+	roundRobin *LinkedList
+	mu         sync.RWMutex
 
 	totalMessages uint64
 }
@@ -76,9 +77,8 @@ type FairPriorityQueue struct {
 // FairPriorityQueue creates a new FairQueue
 func NewFairPriorityQueue() *FairPriorityQueue {
 	return &FairPriorityQueue{
-		queues:      make(map[string]*LinkedListNode),
-		roundRobin:  &LinkedList{},
-		currentNone: nil,
+		queues:     make(map[string]*LinkedListNode),
+		roundRobin: &LinkedList{},
 	}
 }
 
@@ -109,26 +109,20 @@ func (fq *FairPriorityQueue) Dequeue() *Item {
 		return nil
 	}
 
-	if fq.currentNone == nil {
-		fq.currentNone = fq.roundRobin.head
-	}
-
-	if fq.currentNone.Queue().Len() == 0 {
-		return nil
-	}
+	// The group at the head of the round-robin list has waited longest
+	node := fq.roundRobin.head
 
 	// Get the message from the group's queue
-	item := heap.Pop(fq.currentNone.Queue()).(*Item)
-
-	// If the group's queue is empty, remove the group from the round-robin list
-	if fq.currentNone.Queue().Len() == 0 {
-		next := fq.currentNone.next
-		fq.roundRobin.Remove(fq.currentNone)
-		delete(fq.queues, fq.currentNone.group)
-		fq.currentNone = next
+	item := heap.Pop(node.Queue()).(*Item)
+
+	// Take the group off the head of the round-robin list. If it still has
+	// messages, it waits behind all the other groups for its next turn, as a
+	// group that becomes non-empty later does
+	fq.roundRobin.Remove(node)
+	if node.Queue().Len() == 0 {
+		delete(fq.queues, node.group)
 	} else {
-		// Move to the next group for the next Dequeue operation
-		fq.currentNone = fq.currentNone.next
+		fq.roundRobin.Append(node)
 	}
 
 	fq.totalMessages--
@@ -154,9 +148,19 @@ func (fq *FairPriorityQueue) DeleteByID(group string, id uint64) *Item {
 		return nil
 	}
 
-	item := fq.queues[group].Queue().DeleteByID(id)
+	node := fq.queues[group]
+	item := node.Queue().DeleteByID(id)
+	if item == nil {
+		return nil
+	}
 	fq.totalMessages--
 
+	// If the group's queue is empty, the group takes no more turns
+	if node.Queue().Len() == 0 {
+		fq.roundRobin.Remove(node)
+		delete(fq.queues, group)
+	}
+
 	return item
 }
 
-- 
2.43.0


From b54b450cf31d34b1231b50181b61637dca68999b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:12 +0000
Subject: [PATCH 08/25] fix: run every operation on a queue and every
 redelivery in one critical section

---
 pkg/queue/badger_priority_queue.go | 72 ++++++++++++++++++++++--------
 1 file changed, 53 insertions(+), 19 deletions(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index cfe3461..1505393 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -107,6 +107,9 @@ func (bpq *BadgerPriorityQueue) Init(queueType, queueName string) error {
 }
 
 func (bpq *BadgerPriorityQueue) GetStats() *QueueInfo {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	return &QueueInfo{
 		Name:    bpq.config.Name,
 		Type:    bpq.config.Type,
@@ -142,25 +145,7 @@ func (bpq *BadgerPriorityQueue) monitorAckQueue() {
 	for {
 		select {
 		case <-ticker.C:
-			for {
-				item := bpq.ackQueue.Dequeue()
-				if item == nil {
-					break
-				}
-
-				message, err := bpq.GetByID(item.ID)
-				if err != nil {
-					log.Error().Err(err).Msgf("Failed to get message by ID: %d", item.ID)
-					continue
-				}
-
-				queueItem := &Item{
-					ID:       message.ID,
-					Priority: message.Priority,
-				}
-
-				bpq.pq.Enqueue(message.Group, queueItem)
-				log.Debug().Msgf("Re-enqueued message: %d", message.ID)
+			for bpq.redeliverExpired() {
 			}
 		case <-bpq.ackQueueMonitoringChan:
 			return
@@ -168,6 +153,40 @@ func (bpq *BadgerPriorityQueue) monitorAckQueue() {
 	}
 }
 
+// redeliverExpired makes one message whose acknowledgement deadline has passed
+// ready again, in one step with respect to the operations on the queue. It
+// returns false if there is no such message.
+func (bpq *BadgerPriorityQueue) redeliverExpired() bool {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
+	item := bpq.ackQueue.Dequeue()
+	if item == nil {
+		return false
+	}
+
+	message, err := bpq.GetByID(item.ID)
+	if err != nil {
+		log.Error().Err(err).Msgf("Failed to get message by ID: %d", item.ID)
+		if err != badger.ErrKeyNotFound {
+			// the message is still stored, so it is tried again a second later
+			bpq.ackQueue.Enqueue(
+				"default", &Item{ID: item.ID, Priority: time.Now().UTC().Unix() + 1},
+			)
+		}
+		return true
+	}
+
+	queueItem := &Item{
+		ID:       message.ID,
+		Priority: message.Priority,
+	}
+
+	bpq.pq.Enqueue(message.Group, queueItem)
+	log.Debug().Msgf("Re-enqueued message: %d", message.ID)
+	return true
+}
+
 func (bpq *BadgerPriorityQueue) StartAckQueueMonitoring() {
 	bpq.ackQueueMonitoringChan = make(chan struct{})
 	go bpq.monitorAckQueue()
@@ -318,6 +337,9 @@ func (bpq *BadgerPriorityQueue) Load(queueName string, loadMessages bool) error
 }
 
 func (bpq *BadgerPriorityQueue) Enqueue(id uint64, group string, priority int64, content string) (*Message, error) {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	if bpq.config.Type != "fair" {
 		group = "default"
 	}
@@ -364,6 +386,9 @@ func (bpq *BadgerPriorityQueue) Enqueue(id uint64, group string, priority int64,
 }
 
 func (bpq *BadgerPriorityQueue) Dequeue(ack bool) (*Message, error) {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	if bpq.pq.Len() == 0 {
 		return nil, ErrEmptyQueue
 	}
@@ -450,6 +475,9 @@ func (bpq *BadgerPriorityQueue) GetByID(id uint64) (*Message, error) {
 }
 
 func (bpq *BadgerPriorityQueue) UpdatePriority(id uint64, newPriority int64) error {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	group := "default"
 
 	// Update BadgerDB
@@ -503,6 +531,9 @@ func (bpq *BadgerPriorityQueue) UpdatePriority(id uint64, newPriority int64) err
 }
 
 func (bpq *BadgerPriorityQueue) Ack(id uint64) error {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	queueItem := bpq.ackQueue.GetByID("default", id)
 
 	if queueItem == nil {
@@ -527,6 +558,9 @@ func (bpq *BadgerPriorityQueue) Ack(id uint64) error {
 }
 
 func (bpq *BadgerPriorityQueue) Nack(id uint64) error {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	item := bpq.ackQueue.GetByID("default", id)
 
 	if item == nil {
-- 
2.43.0


From 7182c4c227a33c84767e005b24354c0ba39af8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:16 +0000
Subject: [PATCH 09/25] fix: data race and empty window in queue statistics

---
 pkg/queue/queue_stats.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/queue/queue_stats.go b/pkg/queue/queue_stats.go
index fa32e8b..6c1e45f 100644
--- a/pkg/queue/queue_stats.go
+++ b/pkg/queue/queue_stats.go
@@ -1,6 +1,7 @@
 package queue
 
 import (
+	"sync"
 	"sync/atomic"
 	"time"
 )
@@ -23,11 +24,17 @@ type queueStats struct {
 	ackHistory     []uint64
 	nackHistory    []uint64
 	windowSize     int
+	mu             sync.Mutex
 
 	quit chan struct{}
 }
 
 func NewQueueStats(windowSize int) *queueStats {
+	// A window shorter than a second has no rate
+	if windowSize < 1 {
+		windowSize = 1
+	}
+
 	stats := &queueStats{
 		enqueueHistory: make([]uint64, windowSize),
 		dequeueHistory: make([]uint64, windowSize),
@@ -75,6 +82,9 @@ func (rc *queueStats) IncrementNack() {
 }
 
 func (rc *queueStats) UpdateWindow() {
+	rc.mu.Lock()
+	defer rc.mu.Unlock()
+
 	// Shift history to the left and store current counts
 	for i := 1; i < rc.windowSize; i++ {
 		rc.enqueueHistory[i-1] = rc.enqueueHistory[i]
@@ -89,6 +99,8 @@ func (rc *queueStats) UpdateWindow() {
 }
 
 func (rc *queueStats) GetRPS() *QueueStats {
+	rc.mu.Lock()
+	defer rc.mu.Unlock()
 
 	var totalEnqueue, totalDequeue, totalAck, totalNack uint64
 
-- 
2.43.0


From 461993de2e2e255a1947b228f9d3e9cc5fe130bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:16 +0000
Subject: [PATCH 10/25] fix: take the registry lock while loading all queues

---
 pkg/queue/queue_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/queue/queue_manager.go b/pkg/queue/queue_manager.go
index 89272a0..1eb3c97 100644
--- a/pkg/queue/queue_manager.go
+++ b/pkg/queue/queue_manager.go
@@ -32,6 +32,9 @@ func NewQueueManager(db *badger.DB, cfg *config.Config, metrics *PrometheusMetri
 }
 
 func (qm *QueueManager) LoadQueues() {
+	qm.mu.Lock()
+	defer qm.mu.Unlock()
+
 	prefix := []byte("queues:")
 	err := qm.db.View(func(txn *badger.Txn) error {
 		opts := badger.DefaultIteratorOptions
-- 
2.43.0


From 788d3579fc21cda84000158c1874775d72a1f89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:37 +0000
Subject: [PATCH 11/25] fix: the enqueue reply shows the group the message was
 stored with

---
 pkg/http/messages.go | 6 +++---
 pkg/raft/commands.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/http/messages.go b/pkg/http/messages.go
index 3513439..3856e6a 100644
--- a/pkg/http/messages.go
+++ b/pkg/http/messages.go
@@ -49,9 +49,9 @@ func (h *Handler) Enqueue(ctx context.Context, input *EnqueueInput) (*EnqueueOut
 		Body: EnqueueOutputBody{
 			Status:   "ENQUEUED",
 			ID:       strconv.Itoa(int(msg.ID)),
-			Group:    group,
-			Priority: priority,
-			Content:  content,
+			Group:    msg.Group,
+			Priority: msg.Priority,
+			Content:  msg.Content,
 		},
 	}
 	return res, nil
diff --git a/pkg/raft/commands.go b/pkg/raft/commands.go
index 28b65ec..b85097f 100644
--- a/pkg/raft/commands.go
+++ b/pkg/raft/commands.go
@@ -37,7 +37,7 @@ func (n *Node) Enqueue(
 
 	return &queue.Message{
 		ID:       r.ID,
-		Group:    group,
+		Group:    r.Group,
 		Priority: r.Priority,
 		Content:  r.Content,
 	}, nil
-- 
2.43.0


From 4073c66c829a114ff493936981010e82ffd9efd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:05 +0000
Subject: [PATCH 12/25] fix: forwarding a gRPC request crashed the node when
 the leader was unknown or just changed

---
 pkg/grpc/proxy.go | 68 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 47 insertions(+), 21 deletions(-)

diff --git a/pkg/grpc/proxy.go b/pkg/grpc/proxy.go
index 24d9172..efb9dd3 100644
--- a/pkg/grpc/proxy.go
+++ b/pkg/grpc/proxy.go
@@ -3,16 +3,20 @@ package grpc
 import (
 	"context"
 	"fmt"
+	"sync"
 
 	pb "github.com/kgantsov/doq/pkg/proto"
 	"github.com/rs/zerolog/log"
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
 )
 
 type GRPCProxy struct {
 	client pb.DOQClient
 	leader string
 	port   int
+	mu     sync.Mutex
 }
 
 func NewGRPCProxy(client pb.DOQClient, port int) *GRPCProxy {
@@ -40,65 +44,87 @@ func (p *GRPCProxy) initClient(leader string) {
 	p.client = pb.NewDOQClient(conn)
 }
 
+// getClient returns a client connected to the leader
+func (p *GRPCProxy) getClient(leader string) (pb.DOQClient, error) {
+	if leader == "" {
+		return nil, status.Error(codes.Unavailable, "the leader is unknown")
+	}
+
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	if p.client == nil || p.leader != leader {
+		p.initClient(leader)
+	}
+	return p.client, nil
+}
+
 func (p *GRPCProxy) CreateQueue(ctx context.Context, host string, req *pb.CreateQueueRequest) (*pb.CreateQueueResponse, error) {
 	log.Debug().Msgf("PROXY CreateQueue: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.getClient(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.CreateQueue(ctx, req)
+	return client.CreateQueue(ctx, req)
 }
 
 func (p *GRPCProxy) DeleteQueue(ctx context.Context, host string, req *pb.DeleteQueueRequest) (*pb.DeleteQueueResponse, error) {
 	log.Debug().Msgf("PROXY DeleteQueue: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.getClient(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.DeleteQueue(ctx, req)
+	return client.DeleteQueue(ctx, req)
 }
 
 func (p *GRPCProxy) Enqueue(ctx context.Context, host string, req *pb.EnqueueRequest) (*pb.EnqueueResponse, error) {
 	log.Debug().Msgf("PROXY Enqueue: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.getClient(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.Enqueue(ctx, req)
+	return client.Enqueue(ctx, req)
 }
 
 func (p *GRPCProxy) Dequeue(ctx context.Context, host string, req *pb.DequeueRequest) (*pb.DequeueResponse, error) {
 	log.Debug().Msgf("PROXY Dequeue: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.getClient(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.Dequeue(ctx, req)
+	return client.Dequeue(ctx, req)
 }
 
 func (p *GRPCProxy) Ack(ctx context.Context, host string, req *pb.AckRequest) (*pb.AckResponse, error) {
 	log.Debug().Msgf("PROXY Ack: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.getClient(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.Ack(ctx, req)
+	return client.Ack(ctx, req)
 }
 
 func (p *GRPCProxy) Nack(ctx context.Context, host string, req *pb.NackRequest) (*pb.NackResponse, error) {
 	log.Debug().Msgf("PROXY Nack: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.getClient(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.Nack(ctx, req)
+	return client.Nack(ctx, req)
 }
 
 func (p *GRPCProxy) UpdatePriority(ctx context.Context, host string, req *pb.UpdatePriorityRequest) (*pb.UpdatePriorityResponse, error) {
 	log.Debug().Msgf("PROXY UpdatePriority: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.getClient(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.UpdatePriority(ctx, req)
+	return client.UpdatePriority(ctx, req)
 }
-- 
2.43.0


From 128be68ac59838456574c1f7e247e1f48da579f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:08 +0000
Subject: [PATCH 13/25] fix: do not forward HTTP requests to this node itself
 while the leader is unknown

---
 pkg/http/proxy.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/http/proxy.go b/pkg/http/proxy.go
index d1053b5..ace7b53 100644
--- a/pkg/http/proxy.go
+++ b/pkg/http/proxy.go
@@ -24,7 +24,9 @@ func NewProxy(client *http.Client, port string) *Proxy {
 }
 
 func (p *Proxy) getHost(host string) string {
-	if p.port != "" {
+	// An unknown leader has no address: a URL without a host fails, while a URL
+	// with only a port would send the request back to this node
+	if p.port != "" && host != "" {
 		return fmt.Sprintf("http://%s:%s", host, p.port)
 	}
 
-- 
2.43.0


From 683f85d4f9d83a2197914dca15fd90bf035bed06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:39 +0000
Subject: [PATCH 14/25] fix: the stable store lost keys set to an empty value

---
 pkg/badger-store/badger_store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/badger-store/badger_store.go b/pkg/badger-store/badger_store.go
index 1f867a6..e70b176 100644
--- a/pkg/badger-store/badger_store.go
+++ b/pkg/badger-store/badger_store.go
@@ -287,7 +287,7 @@ func (b *BadgerStore) Get(k []byte) ([]byte, error) {
 
 	val, err := item.ValueCopy(nil)
 
-	if val == nil || err != nil {
+	if err != nil {
 		return nil, ErrKeyNotFound
 	}
 	return append([]byte(nil), val...), nil
-- 
2.43.0


From 1a0232fb7a1f8796f88ea79f56889c375ef1d1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:39 +0000
Subject: [PATCH 15/25] fix: a node took a peer for itself when its host name
 is a prefix of the peer's

---
 pkg/cluster/cluster.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/cluster.go b/pkg/cluster/cluster.go
index 75561c9..c78cf54 100644
--- a/pkg/cluster/cluster.go
+++ b/pkg/cluster/cluster.go
@@ -64,7 +64,9 @@ func (c *Cluster) Init() error {
 	for _, addr := range addrs {
 		log.Debug().Msgf("Discovered address: %s Current host: %s", addr, c.hostname)
 
-		if strings.HasPrefix(addr, c.hostname) {
+		// The host name must be followed by a domain or a port, because it can be
+		// a prefix of the host name of another node
+		if strings.HasPrefix(addr, c.hostname+".") || strings.HasPrefix(addr, c.hostname+":") {
 			c.nodeID = addr
 		} else {
 			c.hosts = append(c.hosts, addr)
-- 
2.43.0


From b6f135328d53426594d86d58f384f70562a7241c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:04 +0000
Subject: [PATCH 16/25] fix: the last index missed raft log entries with the
 largest indexes

---
 pkg/badger-store/badger_store.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/badger-store/badger_store.go b/pkg/badger-store/badger_store.go
index e70b176..28dded5 100644
--- a/pkg/badger-store/badger_store.go
+++ b/pkg/badger-store/badger_store.go
@@ -2,6 +2,7 @@ package badgerstore
 
 import (
 	"errors"
+	"math"
 
 	"github.com/dgraph-io/badger/v4"
 	"github.com/hashicorp/raft"
@@ -150,7 +151,10 @@ func (b *BadgerStore) LastIndex() (uint64, error) {
 
 	it.Rewind()
 
-	for it.Seek(End(prefix)); it.ValidForPrefix(prefix); it.Next() {
+	// The largest possible log key; a shorter bound would sort before some of them
+	end := addPrefix(prefix, uint64ToBytes(math.MaxUint64))
+
+	for it.Seek(end); it.ValidForPrefix(prefix); it.Next() {
 
 		item := it.Item()
 		key := item.Key()
-- 
2.43.0


From a943a22872b1d0e27c58912e8cbb0afbca3d3430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:00 +0000
Subject: [PATCH 17/25] fix: an enqueue applied again to an outstanding message
 made it ready as well

---
 pkg/queue/badger_priority_queue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 1505393..22b19dc 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -370,7 +370,7 @@ func (bpq *BadgerPriorityQueue) Enqueue(id uint64, group string, priority int64,
 	if bpq.pq.GetByID(msg.Group, msg.ID) != nil {
 		// The message was loaded from storage and its command is applied again
 		bpq.pq.UpdatePriority(msg.Group, msg.ID, msg.Priority)
-	} else {
+	} else if bpq.ackQueue.GetByID("default", msg.ID) == nil {
 		bpq.pq.Enqueue(msg.Group, queueItem)
 	}
 
-- 
2.43.0


From 63e3bcd2f818fe500c243446940f20419db7a27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:37 +0000
Subject: [PATCH 18/25] fix: take the queue's lock in BadgerPriorityQueue.Len

---
 pkg/queue/badger_priority_queue.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 22b19dc..1185aea 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -592,5 +592,8 @@ func (bpq *BadgerPriorityQueue) Nack(id uint64) error {
 }
 
 func (bpq *BadgerPriorityQueue) Len() int {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	return int(bpq.pq.Len())
 }
-- 
2.43.0


From 4bd1486088d1a6b5281e602f22cc1af8382574de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:39 +0000
Subject: [PATCH 19/25] fix: a queue that failed to load was registered half
 initialised

---
 pkg/queue/queue_manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/queue/queue_manager.go b/pkg/queue/queue_manager.go
index 1eb3c97..a17a219 100644
--- a/pkg/queue/queue_manager.go
+++ b/pkg/queue/queue_manager.go
@@ -53,6 +53,7 @@ func (qm *QueueManager) LoadQueues() {
 			err := q.Load(queueName, true)
 			if err != nil {
 				log.Error().Err(err).Str("queue", queueName).Msg("Failed to load queue")
+				continue
 			}
 			qm.queues[queueName] = q
 		}
-- 
2.43.0


From 06b769389aafe03b04eef2cf5ae9eac9639b84a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:13 +0000
Subject: [PATCH 20/25] fix: deleting a range of raft log entries left most of
 them in the store

---
 pkg/badger-store/badger_store.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/badger-store/badger_store.go b/pkg/badger-store/badger_store.go
index 28dded5..5abe901 100644
--- a/pkg/badger-store/badger_store.go
+++ b/pkg/badger-store/badger_store.go
@@ -228,8 +228,9 @@ func (b *BadgerStore) DeleteRange(min, max uint64) error {
 
 		for it.Seek(minKey); it.ValidForPrefix(dbLogs); it.Next() {
 			item := it.Item()
-			k := item.Key()
-			lastKey = append([]byte{}, k...)
+			// Deletes keep the key until the commit, so it must not be memory of the iterator
+			k := item.KeyCopy(nil)
+			lastKey = k
 
 			if bytesToUint64(k[len(dbLogs):]) > max {
 				break
-- 
2.43.0


From cb9cd0c34851165a5ee30cf8a8834207519ec63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:42 +0000
Subject: [PATCH 21/25] fix: an unparsable leader address must not crash the
 node

---
 pkg/raft/node.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/raft/node.go b/pkg/raft/node.go
index 4155827..f496f82 100644
--- a/pkg/raft/node.go
+++ b/pkg/raft/node.go
@@ -167,7 +167,12 @@ func (node *Node) ListenToLeaderChanges() {
 }
 
 func (n *Node) Leader() string {
-	u, _ := url.ParseRequestURI(fmt.Sprintf("http://%s", n.leader))
+	u, err := url.ParseRequestURI(fmt.Sprintf("http://%s", n.leader))
+	if err != nil {
+		// e.g. an IPv6 address with a zone
+		log.Warn().Msgf("failed to parse the address of the leader %s: %s", n.leader, err)
+		return ""
+	}
 
 	return u.Hostname()
 }
-- 
2.43.0


From 759cd4693e54a22a26cccfbabd8cdb032afaf000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:42 +0000
Subject: [PATCH 22/25] fix: a failed connection to the leader is an error, not
 the end of the process

---
 pkg/grpc/proxy.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pkg/grpc/proxy.go b/pkg/grpc/proxy.go
index efb9dd3..0f5ec2a 100644
--- a/pkg/grpc/proxy.go
+++ b/pkg/grpc/proxy.go
@@ -26,9 +26,7 @@ func NewGRPCProxy(client pb.DOQClient, port int) *GRPCProxy {
 	}
 }
 
-func (p *GRPCProxy) initClient(leader string) {
-	p.leader = leader
-
+func (p *GRPCProxy) initClient(leader string) error {
 	host := leader
 
 	if p.port != 0 {
@@ -37,11 +35,15 @@ func (p *GRPCProxy) initClient(leader string) {
 
 	conn, err := grpc.Dial(host, grpc.WithInsecure())
 	if err != nil {
-		log.Fatal().Msgf("Failed to connect: %v", err)
+		log.Warn().Msgf("Failed to connect: %v", err)
+		return status.Errorf(codes.Unavailable, "failed to connect to the leader: %v", err)
 	}
 	// defer conn.Close()
 
+	p.leader = leader
 	p.client = pb.NewDOQClient(conn)
+
+	return nil
 }
 
 // getClient returns a client connected to the leader
@@ -54,7 +56,9 @@ func (p *GRPCProxy) getClient(leader string) (pb.DOQClient, error) {
 	defer p.mu.Unlock()
 
 	if p.client == nil || p.leader != leader {
-		p.initClient(leader)
+		if err := p.initClient(leader); err != nil {
+			return nil, err
+		}
 	}
 	return p.client, nil
 }
-- 
2.43.0


From 047fedf5e3810baeea56d1ed7d76638cf908166a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:34 +0000
Subject: [PATCH 23/25] fix: the leader's address was read without
 synchronisation while the monitor changes it

---
 pkg/raft/node.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/pkg/raft/node.go b/pkg/raft/node.go
index f496f82..115f79e 100644
--- a/pkg/raft/node.go
+++ b/pkg/raft/node.go
@@ -5,6 +5,7 @@ import (
 	"net/url"
 	"os"
 	"sort"
+	"sync"
 	"time"
 
 	"github.com/bwmarrin/snowflake"
@@ -32,7 +33,9 @@ type Node struct {
 
 	Raft         *raft.Raft
 	QueueManager *queue.QueueManager
-	leader       string
+
+	leader   string
+	leaderMu sync.RWMutex
 
 	leaderChangeFn func(bool)
 
@@ -152,8 +155,7 @@ func (node *Node) monitorLeadership() {
 
 	for {
 		leaderAddr, _ := node.Raft.LeaderWithID()
-		if string(leaderAddr) != node.leader {
-			node.leader = string(leaderAddr)
+		if node.setLeader(string(leaderAddr)) {
 			log.Info().Msgf("Node %s leader is now %s", node.id, leaderAddr)
 		}
 		time.Sleep(1 * time.Second)
@@ -166,11 +168,26 @@ func (node *Node) ListenToLeaderChanges() {
 	}
 }
 
+// setLeader sets the address of the leader and tells whether it has changed
+func (n *Node) setLeader(leader string) bool {
+	n.leaderMu.Lock()
+	defer n.leaderMu.Unlock()
+
+	changed := n.leader != leader
+	n.leader = leader
+
+	return changed
+}
+
 func (n *Node) Leader() string {
-	u, err := url.ParseRequestURI(fmt.Sprintf("http://%s", n.leader))
+	n.leaderMu.RLock()
+	leader := n.leader
+	n.leaderMu.RUnlock()
+
+	u, err := url.ParseRequestURI(fmt.Sprintf("http://%s", leader))
 	if err != nil {
 		// e.g. an IPv6 address with a zone
-		log.Warn().Msgf("failed to parse the address of the leader %s: %s", n.leader, err)
+		log.Warn().Msgf("failed to parse the address of the leader %s: %s", leader, err)
 		return ""
 	}
 
-- 
2.43.0


From f9dfdca33a3b9a356b93b2caad3512f581430e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:22 +0000
Subject: [PATCH 24/25] fix: gRPC requests could not be forwarded to a leader
 with an IPv6 address

---
 pkg/grpc/proxy.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/grpc/proxy.go b/pkg/grpc/proxy.go
index 0f5ec2a..96078e5 100644
--- a/pkg/grpc/proxy.go
+++ b/pkg/grpc/proxy.go
@@ -2,7 +2,8 @@ package grpc
 
 import (
 	"context"
-	"fmt"
+	"net"
+	"strconv"
 	"sync"
 
 	pb "github.com/kgantsov/doq/pkg/proto"
@@ -30,7 +31,7 @@ func (p *GRPCProxy) initClient(leader string) error {
 	host := leader
 
 	if p.port != 0 {
-		host = fmt.Sprintf("%s:%d", host, p.port)
+		host = net.JoinHostPort(host, strconv.Itoa(p.port))
 	}
 
 	conn, err := grpc.Dial(host, grpc.WithInsecure())
-- 
2.43.0


From aeccfe48a427bd2a6f7f7ce1e075496b41aea8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:54 +0000
Subject: [PATCH 25/25] fix: do not serve without an ID generator numbered by
 the node's place

The error of InitIDGenerator was ignored, so a node that could not take its
number went on with number 1, the number of the first member, and two nodes
could give the same IDs.
---
 cmd/server/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/server/main.go b/cmd/server/main.go
index 517b53e..7282b13 100644
--- a/cmd/server/main.go
+++ b/cmd/server/main.go
@@ -176,7 +176,9 @@ func Run(cmd *cobra.Command, args []string) {
 		log.Fatal().Msg(err.Error())
 	}
 
-	node.InitIDGenerator()
+	if err := node.InitIDGenerator(); err != nil {
+		log.Fatal().Msgf("failed to initialise the ID generator: %s", err.Error())
+	}
 
 	if config.Grpc.Address != "" {
 		lis, err := net.Listen("tcp", config.Grpc.Address)
-- 
2.43.0

