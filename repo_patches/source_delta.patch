From f420b78541a21b652b38aa0d83f9c76687a31643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:53 +0000
Subject: [PATCH 01/74] fix: inmemorystore removes the saved part of a batch
 that is refused half-way

A mismatched aggregate or a context cancelled part-way left the first events of
the batch stored, and a rollback trimmed the default stream name instead of the
stream that was written to (panicking with custom stream names).
---
 provider/inmemorystore/inmemory_store.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index 5f7f5fe..d83bcef 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -237,11 +237,13 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 	s.mux.Lock()
 	for _, eventRecord := range eventRecords {
 		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
+			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
 		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
+			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
@@ -251,6 +253,7 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 
 		select {
 		case <-ctx.Done():
+			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, context.Canceled
 
@@ -268,7 +271,7 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 			eventRecord.Metadata,
 		)
 		if err != nil {
-			s.removeRecentEvents(createdGlobalSequenceNumbers, eventRecord.Event.AggregateType(), eventRecord.Event.AggregateID())
+			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, err
 		}
@@ -341,8 +344,10 @@ func (s *inMemoryStore) saveEvent(
 	return data, record, nil
 }
 
-func (s *inMemoryStore) removeRecentEvents(globalSequenceNumbers []uint64, aggregateType, aggregateID string) {
-	stream := rangedb.GetStream(aggregateType, aggregateID)
+func (s *inMemoryStore) removeRecentEvents(globalSequenceNumbers []uint64, streamName, aggregateType string) {
+	if len(globalSequenceNumbers) == 0 {
+		return
+	}
 
 	for _, globalSequenceNumber := range globalSequenceNumbers {
 		delete(s.recordData, globalSequenceNumber)
@@ -352,8 +357,12 @@ func (s *inMemoryStore) removeRecentEvents(globalSequenceNumbers []uint64, aggre
 
 	s.globalSequenceNumber -= uint64(total)
 	s.records = rTrimFromUint64Slice(s.records, total)
-	s.streams[stream] = rTrimFromUint64Slice(s.streams[stream], total)
+	s.streams[streamName] = rTrimFromUint64Slice(s.streams[streamName], total)
 	s.aggregateTypes[aggregateType] = rTrimFromUint64Slice(s.aggregateTypes[aggregateType], total)
+
+	if len(s.streams[streamName]) == 0 {
+		delete(s.streams, streamName)
+	}
 }
 
 func rTrimFromUint64Slice(slice []uint64, total int) []uint64 {
-- 
2.43.0


From 300c1bdb07e61849a3813702deb876e345d8e3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:34 +0000
Subject: [PATCH 02/74] fix: inmemorystore broadcasts records in commit order

Broadcasting after releasing the lock let two concurrent saves broadcast in the
opposite order, and subscriptions then dropped the earlier record.
---
 provider/inmemorystore/inmemory_store.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index d83bcef..472ee50 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -235,16 +235,16 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 	var createdGlobalSequenceNumbers []uint64
 
 	s.mux.Lock()
+	defer s.mux.Unlock()
+
 	for _, eventRecord := range eventRecords {
 		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
 			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
-			s.mux.Unlock()
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
 		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
 			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
-			s.mux.Unlock()
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
 
@@ -254,7 +254,6 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 		select {
 		case <-ctx.Done():
 			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
-			s.mux.Unlock()
 			return 0, context.Canceled
 
 		default:
@@ -272,7 +271,6 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 		)
 		if err != nil {
 			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
-			s.mux.Unlock()
 			return 0, err
 		}
 
@@ -286,8 +284,8 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 			*expectedStreamSequenceNumber++
 		}
 	}
-	s.mux.Unlock()
 
+	// Broadcasting inside the lock keeps records in order for subscribers.
 	for _, data := range pendingEventsData {
 		deSerializedRecord, err := s.serializer.Deserialize(data)
 		if err == nil {
-- 
2.43.0


From 2b34ade8422f7b4752ea55fe3ce091c4c23399ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:42 +0000
Subject: [PATCH 03/74] fix: reading several aggregate types takes the read
 lock once

Locking once per aggregate type deadlocked the store when a writer was waiting in
between. A repeated aggregate type no longer repeats its events.
---
 provider/inmemorystore/inmemory_store.go | 23 ++++++++++++++-----
 provider/leveldbstore/leveldb_store.go   | 29 +++++++++++++++++++++---
 2 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index 472ee50..d24df17 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io/ioutil"
 	"log"
+	"sort"
 	"sync"
 	"time"
 
@@ -99,18 +100,28 @@ func (s *inMemoryStore) Events(ctx context.Context, globalSequenceNumber uint64)
 }
 
 func (s *inMemoryStore) EventsByAggregateTypes(ctx context.Context, globalSequenceNumber uint64, aggregateTypes ...string) rangedb.RecordIterator {
+	s.mux.RLock()
+
 	if len(aggregateTypes) == 1 {
-		s.mux.RLock()
 		return s.recordsByIDs(ctx, s.aggregateTypes[aggregateTypes[0]], compareByGlobalSequenceNumber(globalSequenceNumber))
 	}
 
-	var recordIterators []rangedb.RecordIterator
+	return s.recordsByIDs(ctx, s.idsByAggregateTypes(aggregateTypes), compareByGlobalSequenceNumber(globalSequenceNumber))
+}
+
+// idsByAggregateTypes returns the ordered ids of all given aggregate types without locking the mutex.
+func (s *inMemoryStore) idsByAggregateTypes(aggregateTypes []string) []uint64 {
+	var ids []uint64
+	seen := make(map[string]struct{}, len(aggregateTypes))
 	for _, aggregateType := range aggregateTypes {
-		s.mux.RLock()
-		recordIterators = append(recordIterators, s.recordsByIDs(ctx, s.aggregateTypes[aggregateType], compareByGlobalSequenceNumber(globalSequenceNumber)))
+		if _, ok := seen[aggregateType]; ok {
+			continue
+		}
+		seen[aggregateType] = struct{}{}
+		ids = append(ids, s.aggregateTypes[aggregateType]...)
 	}
-
-	return rangedb.MergeRecordIteratorsInOrder(recordIterators)
+	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
+	return ids
 }
 
 func compareByGlobalSequenceNumber(globalSequenceNumber uint64) func(record *rangedb.Record) bool {
diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 031a4bf..04c04b0 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -118,11 +118,28 @@ func (s *levelDbStore) EventsByAggregateTypes(ctx context.Context, globalSequenc
 		return s.getEventsByLookup(ctx, getAggregateTypeKeyPrefix(aggregateTypes[0]), globalSequenceNumber)
 	}
 
+	// The read lock is taken once for all aggregate types: taking it again
+	// while a writer is waiting would never succeed.
+	var reading sync.WaitGroup
+	s.mux.RLock()
+
 	var recordIterators []rangedb.RecordIterator
+	seen := make(map[string]struct{}, len(aggregateTypes))
 	for _, aggregateType := range aggregateTypes {
-		recordIterators = append(recordIterators, s.getEventsByLookup(ctx, getAggregateTypeKeyPrefix(aggregateType), globalSequenceNumber))
+		if _, ok := seen[aggregateType]; ok {
+			continue
+		}
+		seen[aggregateType] = struct{}{}
+
+		reading.Add(1)
+		recordIterators = append(recordIterators, s.readEventsByLookup(ctx, getAggregateTypeKeyPrefix(aggregateType), globalSequenceNumber, reading.Done))
 	}
 
+	go func() {
+		reading.Wait()
+		s.mux.RUnlock()
+	}()
+
 	return rangedb.MergeRecordIteratorsInOrder(recordIterators)
 }
 
@@ -406,11 +423,17 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 }
 
 func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, globalSequenceNumber uint64) rangedb.RecordIterator {
-	resultRecords := make(chan rangedb.ResultRecord)
 	s.mux.RLock()
 
+	return s.readEventsByLookup(ctx, key, globalSequenceNumber, s.mux.RUnlock)
+}
+
+// readEventsByLookup reads events in a goroutine without locking the mutex, and calls done when finished.
+func (s *levelDbStore) readEventsByLookup(ctx context.Context, key string, globalSequenceNumber uint64, done func()) rangedb.RecordIterator {
+	resultRecords := make(chan rangedb.ResultRecord)
+
 	go func() {
-		defer s.mux.RUnlock()
+		defer done()
 		defer close(resultRecords)
 
 		iter := s.db.NewIterator(util.BytesPrefix([]byte(key)), nil)
-- 
2.43.0


From e3f4e16d19a6ce0bdeadd8dcad95e62eb91cb1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:50 +0000
Subject: [PATCH 04/74] fix: leveldbstore discards the transaction of every
 failed save and delete

A refused delete left its transaction open, and every later save waited for it
forever; so did a failed commit.
---
 provider/leveldbstore/leveldb_store.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 04c04b0..3761b5d 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -162,6 +162,7 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 	if err != nil {
 		return err
 	}
+	defer transaction.Discard()
 
 	iter := s.db.NewIterator(util.BytesPrefix([]byte(getStreamKeyPrefix(streamName))), nil)
 	defer iter.Release()
@@ -232,15 +233,14 @@ func (s *levelDbStore) saveEvents(ctx context.Context, expectedStreamSequenceNum
 	if err != nil {
 		return 0, err
 	}
+	defer transaction.Discard()
 
 	for _, eventRecord := range eventRecords {
 		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
-			transaction.Discard()
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
 		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
-			transaction.Discard()
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
 
@@ -262,7 +262,6 @@ func (s *levelDbStore) saveEvents(ctx context.Context, expectedStreamSequenceNum
 			eventRecord.Metadata,
 		)
 		if err != nil {
-			transaction.Discard()
 			return 0, err
 		}
 
-- 
2.43.0


From 12b125f45d7c58663a3b9cdb7860f901d7ff8c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:29 +0000
Subject: [PATCH 05/74] fix: leveldbstore keeps streams apart whose names
 contain the key separator

The key prefix of stream a is also the prefix of a stream named a$!b, whose
events were read, counted and deleted as events of stream a.
---
 provider/leveldbstore/leveldb_store.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 3761b5d..dc5a5b3 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -170,6 +170,10 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 	cnt := uint64(0)
 	batch := new(leveldb.Batch)
 	for iter.Next() {
+		if !isNumberedKey(iter.Key(), getStreamKeyPrefix(streamName)) {
+			continue
+		}
+
 		cnt++
 		record, err := s.getRecordByValue(iter.Value())
 		if err != nil {
@@ -393,6 +397,10 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 		cnt := 0
 
 		for iter.Next() {
+			if !isNumberedKey(iter.Key(), prefix) {
+				continue
+			}
+
 			cnt++
 
 			record, err := s.getRecordByValue(iter.Value())
@@ -447,6 +455,10 @@ func (s *levelDbStore) readEventsByLookup(ctx context.Context, key string, globa
 		}
 
 		for iter.Next() {
+			if !isNumberedKey(iter.Key(), key) {
+				continue
+			}
+
 			targetKey := iter.Value()
 
 			record, err := s.getRecordByLookup(targetKey, iter)
@@ -500,6 +512,11 @@ func getKeyWithNumber(inputKey string, number uint64) []byte {
 	return append([]byte(inputKey), uint64ToBytes(number)...)
 }
 
+// isNumberedKey tells keys of the prefix apart from keys of a longer name that starts with the same prefix.
+func isNumberedKey(key []byte, prefix string) bool {
+	return len(key) == len(prefix)+8
+}
+
 func uint64ToBytes(number uint64) []byte {
 	var buf bytes.Buffer
 	_ = binary.Write(&buf, binary.BigEndian, number)
@@ -532,12 +549,11 @@ func (s *levelDbStore) getStreamSequenceNumber(iterable dbNewIterable, stream st
 
 func (s *levelDbStore) getSequenceNumber(iterable dbNewIterable, key string) uint64 {
 	iter := iterable.NewIterator(util.BytesPrefix([]byte(key)), nil)
-	iter.Last()
 
-	keySize := len(key)
-	if len(iter.Key()) > keySize {
-		lastSequenceNumber := bytesToUint64(iter.Key()[keySize:])
-		return lastSequenceNumber
+	for ok := iter.Last(); ok; ok = iter.Prev() {
+		if isNumberedKey(iter.Key(), key) {
+			return bytesToUint64(iter.Key()[len(key):])
+		}
 	}
 
 	return 0
-- 
2.43.0


From 343b4ddb971fb7f64af47be77aec1c1bba002a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:48 +0000
Subject: [PATCH 06/74] fix: leveldbstore reports iteration errors and never
 waits for a consumer that is gone

A read or a count that could not iterate all keys looked complete, a save after
such a count could overwrite events, and an undelivered error kept the read lock
of a cancelled read forever.
---
 provider/leveldbstore/leveldb_store.go | 72 +++++++++++++++++++-------
 1 file changed, 53 insertions(+), 19 deletions(-)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index dc5a5b3..830f0c2 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -188,6 +188,10 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 		batch.Delete(allEventsKey)
 	}
 
+	if err := iter.Error(); err != nil {
+		return err
+	}
+
 	if cnt == 0 {
 		return rangedb.ErrStreamNotFound
 	}
@@ -199,8 +203,6 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 		}
 	}
 
-	_ = iter.Error()
-
 	err = transaction.Write(batch, nil)
 	if err != nil {
 		return err
@@ -302,7 +304,10 @@ func (s *levelDbStore) saveEvent(ctx context.Context, transaction *leveldb.Trans
 	default:
 	}
 
-	streamSequenceNumber := s.getStreamSequenceNumber(transaction, streamName)
+	streamSequenceNumber, err := s.getStreamSequenceNumber(transaction, streamName)
+	if err != nil {
+		return nil, 0, err
+	}
 
 	if expectedStreamSequenceNumber != nil && *expectedStreamSequenceNumber != streamSequenceNumber {
 		return nil, 0, &rangedberror.UnexpectedSequenceNumber{
@@ -311,7 +316,11 @@ func (s *levelDbStore) saveEvent(ctx context.Context, transaction *leveldb.Trans
 		}
 	}
 
-	globalSequenceNumber := s.getGlobalSequenceNumber(transaction) + 1
+	globalSequenceNumber, err := s.getGlobalSequenceNumber(transaction)
+	if err != nil {
+		return nil, 0, err
+	}
+	globalSequenceNumber++
 
 	record := &rangedb.Record{
 		StreamName:           streamName,
@@ -380,7 +389,7 @@ func (s *levelDbStore) TotalEventsInStream(ctx context.Context, streamName strin
 	default:
 	}
 
-	return s.getStreamSequenceNumber(s.db, streamName), nil
+	return s.getStreamSequenceNumber(s.db, streamName)
 }
 
 func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, streamSequenceNumber uint64) rangedb.RecordIterator {
@@ -405,7 +414,7 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 
 			record, err := s.getRecordByValue(iter.Value())
 			if err != nil {
-				resultRecords <- rangedb.ResultRecord{Err: err}
+				publishErrorOrCancel(ctx, resultRecords, err)
 				return
 			}
 
@@ -418,12 +427,15 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 			}
 		}
 
-		if cnt == 0 {
-			resultRecords <- rangedb.ResultRecord{Err: rangedb.ErrStreamNotFound}
+		if err := iter.Error(); err != nil {
+			publishErrorOrCancel(ctx, resultRecords, err)
 			return
 		}
 
-		_ = iter.Error()
+		if cnt == 0 {
+			publishErrorOrCancel(ctx, resultRecords, rangedb.ErrStreamNotFound)
+			return
+		}
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
@@ -463,7 +475,7 @@ func (s *levelDbStore) readEventsByLookup(ctx context.Context, key string, globa
 
 			record, err := s.getRecordByLookup(targetKey, iter)
 			if err != nil {
-				resultRecords <- rangedb.ResultRecord{Err: err}
+				publishErrorOrCancel(ctx, resultRecords, err)
 				return
 			}
 
@@ -475,11 +487,30 @@ func (s *levelDbStore) readEventsByLookup(ctx context.Context, key string, globa
 				return
 			}
 		}
+
+		if err := iter.Error(); err != nil {
+			publishErrorOrCancel(ctx, resultRecords, err)
+		}
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
 }
 
+// publishErrorOrCancel does not wait for a consumer that has canceled.
+func publishErrorOrCancel(ctx context.Context, resultRecords chan rangedb.ResultRecord, err error) {
+	select {
+	case resultRecords <- rangedb.ResultRecord{Err: err}:
+		return
+
+	case <-ctx.Done():
+	}
+
+	select {
+	case resultRecords <- rangedb.ResultRecord{Err: err}:
+	case <-time.After(time.Second):
+	}
+}
+
 func (s *levelDbStore) getRecordByLookup(targetKey []byte, iter iterator.Iterator) (*rangedb.Record, error) {
 	data, err := s.db.Get(targetKey, nil)
 	if err != nil {
@@ -533,28 +564,31 @@ type dbNewIterable interface {
 	NewIterator(slice *util.Range, ro *opt.ReadOptions) iterator.Iterator
 }
 
-func (s *levelDbStore) getGlobalSequenceNumber(transaction *leveldb.Transaction) uint64 {
-	var globalSequenceNumber uint64
+func (s *levelDbStore) getGlobalSequenceNumber(transaction *leveldb.Transaction) (uint64, error) {
 	globalSequenceNumberBytes, err := transaction.Get([]byte(globalSequenceNumberKey), nil)
-	if err == nil {
-		globalSequenceNumber = bytesToUint64(globalSequenceNumberBytes)
+	if err == leveldb.ErrNotFound {
+		return 0, nil
+	}
+	if err != nil {
+		return 0, err
 	}
 
-	return globalSequenceNumber
+	return bytesToUint64(globalSequenceNumberBytes), nil
 }
 
-func (s *levelDbStore) getStreamSequenceNumber(iterable dbNewIterable, stream string) uint64 {
+func (s *levelDbStore) getStreamSequenceNumber(iterable dbNewIterable, stream string) (uint64, error) {
 	return s.getSequenceNumber(iterable, getStreamKeyPrefix(stream))
 }
 
-func (s *levelDbStore) getSequenceNumber(iterable dbNewIterable, key string) uint64 {
+func (s *levelDbStore) getSequenceNumber(iterable dbNewIterable, key string) (uint64, error) {
 	iter := iterable.NewIterator(util.BytesPrefix([]byte(key)), nil)
+	defer iter.Release()
 
 	for ok := iter.Last(); ok; ok = iter.Prev() {
 		if isNumberedKey(iter.Key(), key) {
-			return bytesToUint64(iter.Key()[len(key):])
+			return bytesToUint64(iter.Key()[len(key):]), nil
 		}
 	}
 
-	return 0
+	return 0, iter.Error()
 }
-- 
2.43.0


From 445e58f94872b14414ad4ec3efd0ed8546bff4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:33 +0000
Subject: [PATCH 07/74] fix: a subscription started from a number that does not
 exist yet receives that event

StartFrom(n) treated n itself as already sent, so the first live event was
dropped when it was the one the subscription asked to start from.
---
 pkg/recordsubscriber/record_subscriber.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/recordsubscriber/record_subscriber.go b/pkg/recordsubscriber/record_subscriber.go
index cb43a02..b5e895f 100644
--- a/pkg/recordsubscriber/record_subscriber.go
+++ b/pkg/recordsubscriber/record_subscriber.go
@@ -55,7 +55,10 @@ func (s *recordSubscriber) Receiver() broadcast.SendRecordChan {
 }
 
 func (s *recordSubscriber) StartFrom(globalSequenceNumber uint64) error {
-	s.lastGlobalSequenceNumber = globalSequenceNumber
+	if globalSequenceNumber > 0 {
+		s.lastGlobalSequenceNumber = globalSequenceNumber - 1
+	}
+
 	err := s.writeRecords(globalSequenceNumber)
 	if err != nil {
 		return err
-- 
2.43.0


From 555a86fc2e7ecf7f5a29a664640a9938d24ed5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:52 +0000
Subject: [PATCH 08/74] fix: StartFrom reports a catch-up that could not read
 all records

A read that failed half-way looked like a complete catch-up, and the subscription
continued with live events after the gap.
---
 pkg/recordsubscriber/record_subscriber.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/recordsubscriber/record_subscriber.go b/pkg/recordsubscriber/record_subscriber.go
index b5e895f..3e1c606 100644
--- a/pkg/recordsubscriber/record_subscriber.go
+++ b/pkg/recordsubscriber/record_subscriber.go
@@ -138,7 +138,7 @@ func (s *recordSubscriber) writeRecords(globalSequenceNumber uint64) error {
 		}
 	}
 
-	return nil
+	return iter.Err()
 }
 
 func (s *recordSubscriber) writeRecord(record *rangedb.Record) error {
-- 
2.43.0


From 603d604b77050d1655a44212168252efb65f4c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:35 +0000
Subject: [PATCH 09/74] fix: a stopped subscription delivers no further
 records, and a failed one finishes

After Stop, buffered and historical records were still delivered (with a gap when
the subscription had been dropped from one of its aggregate types), and a failing
consumer never closed the Done channel.
---
 pkg/recordsubscriber/record_subscriber.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pkg/recordsubscriber/record_subscriber.go b/pkg/recordsubscriber/record_subscriber.go
index 3e1c606..1169aef 100644
--- a/pkg/recordsubscriber/record_subscriber.go
+++ b/pkg/recordsubscriber/record_subscriber.go
@@ -91,26 +91,28 @@ func (s *recordSubscriber) Start() error {
 }
 
 func (s *recordSubscriber) work() {
+	defer close(s.finishChan)
+	defer s.unsubscribe(s)
+
 	for {
 		select {
 		case <-s.stopChan:
-			s.unsubscribe(s)
-			close(s.finishChan)
 			return
 
 		case <-s.ctx.Done():
-			s.unsubscribe(s)
-			close(s.finishChan)
 			return
 
 		case record := <-s.bufferedRecords:
+			if s.ctx.Err() != nil {
+				return
+			}
+
 			if s.recordHasAlreadyBeenSent(record) {
 				continue
 			}
 
 			err := s.writeRecord(record)
 			if err != nil {
-				s.unsubscribe(s)
 				return
 			}
 		}
@@ -132,6 +134,10 @@ func (s *recordSubscriber) writeRecords(globalSequenceNumber uint64) error {
 			return iter.Err()
 		}
 
+		if s.ctx.Err() != nil {
+			continue
+		}
+
 		err := s.writeRecord(iter.Record())
 		if err != nil {
 			return err
-- 
2.43.0


From 0e42982c986da49b9db2627f222a3517c2677b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:52 +0000
Subject: [PATCH 10/74] fix: using a closed broadcaster returns instead of
 blocking forever

Accept, subscribing and unsubscribing after Close waited for a goroutine that had
ended, so stopped servers kept their subscribers and new ones hung.
---
 pkg/broadcast/broadcaster.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/pkg/broadcast/broadcaster.go b/pkg/broadcast/broadcaster.go
index 462a41f..d30d488 100644
--- a/pkg/broadcast/broadcaster.go
+++ b/pkg/broadcast/broadcaster.go
@@ -66,35 +66,56 @@ func New(bufferSize int, timeout time.Duration) *broadcaster {
 }
 
 func (b *broadcaster) Accept(record *rangedb.Record) {
-	b.bufferedRecords <- record
+	select {
+	case b.bufferedRecords <- record:
+	case <-b.stopChan:
+	}
 }
 
 func (b *broadcaster) SubscribeAllEvents(subscribers ...RecordSubscriber) {
 	for _, subscriber := range subscribers {
-		b.subscribeAllEvents <- subscriber
+		select {
+		case b.subscribeAllEvents <- subscriber:
+		case <-b.stopChan:
+			subscriber.Stop()
+		}
 	}
 }
 func (b *broadcaster) UnsubscribeAllEvents(subscribers ...RecordSubscriber) {
 	for _, subscriber := range subscribers {
-		b.unsubscribeAllEvents <- subscriber
+		select {
+		case b.unsubscribeAllEvents <- subscriber:
+		case <-b.stopChan:
+		}
 	}
 }
 
 func (b *broadcaster) SubscribeAggregateTypes(subscriber RecordSubscriber, aggregateTypes ...string) {
 	for _, aggregateType := range aggregateTypes {
-		b.subscribeAggregateTypes <- AggregateTypeSubscription{
+		subscription := AggregateTypeSubscription{
 			AggregateType: aggregateType,
 			Subscriber:    subscriber,
 		}
+
+		select {
+		case b.subscribeAggregateTypes <- subscription:
+		case <-b.stopChan:
+			subscriber.Stop()
+		}
 	}
 }
 
 func (b *broadcaster) UnsubscribeAggregateTypes(subscriber RecordSubscriber, aggregateTypes ...string) {
 	for _, aggregateType := range aggregateTypes {
-		b.unsubscribeAggregateTypes <- AggregateTypeSubscription{
+		subscription := AggregateTypeSubscription{
 			AggregateType: aggregateType,
 			Subscriber:    subscriber,
 		}
+
+		select {
+		case b.unsubscribeAggregateTypes <- subscription:
+		case <-b.stopChan:
+		}
 	}
 }
 
-- 
2.43.0


From 821ff8abea6ad6535a13bf911ff5770803e8b43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:01 +0000
Subject: [PATCH 11/74] fix: chat example counts warnings before it processes
 the next event

Two independent subscriptions let the process manager judge a message before the
projection had counted the earlier warnings, so a user beyond the threshold was
warned instead of removed.
---
 examples/chat/chat.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/examples/chat/chat.go b/examples/chat/chat.go
index 76bb447..339064f 100644
--- a/examples/chat/chat.go
+++ b/examples/chat/chat.go
@@ -2,6 +2,7 @@ package chat
 
 import (
 	"context"
+	"sync/atomic"
 
 	"github.com/inklabs/rangedb"
 	"github.com/inklabs/rangedb/pkg/cqrs"
@@ -25,17 +26,20 @@ func New(store rangedb.Store) (cqrs.CommandDispatcher, error) {
 	ctx := context.Background()
 	const bufferSize = 10
 
-	// Block until all previous events have been read
-	err := store.AllEventsSubscription(ctx, bufferSize, warnedUsers).StartFrom(0)
-	if err != nil {
-		return nil, err
-	}
+	// Block until all previous events have been read, then process only new events.
+	// One subscription for both counts the warnings before each event is processed.
+	var isLive int32
+	err := store.AllEventsSubscription(ctx, bufferSize, rangedb.RecordSubscriberFunc(func(record *rangedb.Record) {
+		warnedUsers.Accept(record)
 
-	// Subscribe to only new events
-	err = store.AllEventsSubscription(ctx, bufferSize, restrictedWordProcessor).Start()
+		if atomic.LoadInt32(&isLive) == 1 {
+			restrictedWordProcessor.Accept(record)
+		}
+	})).StartFrom(0)
 	if err != nil {
 		return nil, err
 	}
+	atomic.StoreInt32(&isLive, 1)
 
 	return app, nil
 }
-- 
2.43.0


From e26de2a2ec68e438a4e9a8a6c6628f090675a4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:57 +0000
Subject: [PATCH 12/74] fix: merging record iterators reports the error of a
 failed source

A source that failed half-way looked exhausted, so reading several aggregate types
returned an incomplete result without an error.
---
 merge_record_iterators.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/merge_record_iterators.go b/merge_record_iterators.go
index 3113ebb..e19285c 100644
--- a/merge_record_iterators.go
+++ b/merge_record_iterators.go
@@ -29,11 +29,23 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 	go func() {
 		defer close(resultRecords)
 
+		// Unread records are drained after an error to release their producers.
+		fail := func(err error) {
+			resultRecords <- ResultRecord{Err: err}
+			for _, recordIterator := range recordIterators {
+				for recordIterator.Next() {
+				}
+			}
+		}
+
 		var pipes []*pipe
 		for _, recordIterator := range recordIterators {
 			pipe := newPipe(recordIterator)
 			if pipe.ReadNext() {
 				pipes = append(pipes, pipe)
+			} else if pipe.currentResultRecord.Err != nil {
+				fail(pipe.currentResultRecord.Err)
+				return
 			}
 		}
 
@@ -47,6 +59,10 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 			currentPosition = pipes[i].currentResultRecord.Record.GlobalSequenceNumber
 
 			if !pipes[i].ReadNext() {
+				if pipes[i].currentResultRecord.Err != nil {
+					fail(pipes[i].currentResultRecord.Err)
+					return
+				}
 				pipes = remove(pipes, i)
 				continue
 			}
@@ -57,6 +73,10 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 				currentPosition = pipes[i].currentResultRecord.Record.GlobalSequenceNumber
 
 				if !pipes[i].ReadNext() {
+					if pipes[i].currentResultRecord.Err != nil {
+						fail(pipes[i].currentResultRecord.Err)
+						return
+					}
 					pipes = remove(pipes, i)
 					break
 				}
-- 
2.43.0


From 7e8ec72b45b7ce297e178b93c57a1d316132b07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:20 +0000
Subject: [PATCH 13/74] fix: a slow consumer of a cancelled read gets the error
 instead of a clean end

The context error was dropped when the consumer did not read for a second, after
which the closed channel looked like the end of the records. It now waits in the
channel buffer. Other errors no longer block a read whose consumer has cancelled.
---
 provider/inmemorystore/inmemory_store.go |  6 ++--
 provider/leveldbstore/leveldb_store.go   | 29 ++++------------
 provider/remotestore/remote_store.go     | 10 +++---
 publish_record.go                        | 43 +++++++++++++++++++-----
 4 files changed, 49 insertions(+), 39 deletions(-)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index d24df17..a69fce4 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -144,7 +144,7 @@ func (s *inMemoryStore) EventsByStream(ctx context.Context, streamSequenceNumber
 }
 
 func (s *inMemoryStore) recordsByIDs(ctx context.Context, ids []uint64, compare func(record *rangedb.Record) bool) rangedb.RecordIterator {
-	resultRecords := make(chan rangedb.ResultRecord)
+	resultRecords := make(chan rangedb.ResultRecord, 1)
 
 	go func() {
 		defer s.mux.RUnlock()
@@ -153,7 +153,7 @@ func (s *inMemoryStore) recordsByIDs(ctx context.Context, ids []uint64, compare
 		for _, id := range ids {
 			recordData, exists := s.recordData[id]
 			if !exists {
-				resultRecords <- rangedb.ResultRecord{Err: fmt.Errorf("record missing")}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, fmt.Errorf("record missing"), time.Second)
 				return
 			}
 
@@ -161,7 +161,7 @@ func (s *inMemoryStore) recordsByIDs(ctx context.Context, ids []uint64, compare
 			if err != nil {
 				deserializeErr := fmt.Errorf("failed to deserialize record: %v", err)
 				s.logger.Printf(deserializeErr.Error())
-				resultRecords <- rangedb.ResultRecord{Err: deserializeErr}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, deserializeErr, time.Second)
 				return
 			}
 
diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 830f0c2..eb03edb 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -393,7 +393,7 @@ func (s *levelDbStore) TotalEventsInStream(ctx context.Context, streamName strin
 }
 
 func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, streamSequenceNumber uint64) rangedb.RecordIterator {
-	resultRecords := make(chan rangedb.ResultRecord)
+	resultRecords := make(chan rangedb.ResultRecord, 1)
 	s.mux.RLock()
 
 	go func() {
@@ -414,7 +414,7 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 
 			record, err := s.getRecordByValue(iter.Value())
 			if err != nil {
-				publishErrorOrCancel(ctx, resultRecords, err)
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 				return
 			}
 
@@ -428,12 +428,12 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 		}
 
 		if err := iter.Error(); err != nil {
-			publishErrorOrCancel(ctx, resultRecords, err)
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 			return
 		}
 
 		if cnt == 0 {
-			publishErrorOrCancel(ctx, resultRecords, rangedb.ErrStreamNotFound)
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, rangedb.ErrStreamNotFound, time.Second)
 			return
 		}
 	}()
@@ -449,7 +449,7 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 
 // readEventsByLookup reads events in a goroutine without locking the mutex, and calls done when finished.
 func (s *levelDbStore) readEventsByLookup(ctx context.Context, key string, globalSequenceNumber uint64, done func()) rangedb.RecordIterator {
-	resultRecords := make(chan rangedb.ResultRecord)
+	resultRecords := make(chan rangedb.ResultRecord, 1)
 
 	go func() {
 		defer done()
@@ -475,7 +475,7 @@ func (s *levelDbStore) readEventsByLookup(ctx context.Context, key string, globa
 
 			record, err := s.getRecordByLookup(targetKey, iter)
 			if err != nil {
-				publishErrorOrCancel(ctx, resultRecords, err)
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 				return
 			}
 
@@ -489,28 +489,13 @@ func (s *levelDbStore) readEventsByLookup(ctx context.Context, key string, globa
 		}
 
 		if err := iter.Error(); err != nil {
-			publishErrorOrCancel(ctx, resultRecords, err)
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 		}
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
 }
 
-// publishErrorOrCancel does not wait for a consumer that has canceled.
-func publishErrorOrCancel(ctx context.Context, resultRecords chan rangedb.ResultRecord, err error) {
-	select {
-	case resultRecords <- rangedb.ResultRecord{Err: err}:
-		return
-
-	case <-ctx.Done():
-	}
-
-	select {
-	case resultRecords <- rangedb.ResultRecord{Err: err}:
-	case <-time.After(time.Second):
-	}
-}
-
 func (s *levelDbStore) getRecordByLookup(targetKey []byte, iter iterator.Iterator) (*rangedb.Record, error) {
 	data, err := s.db.Get(targetKey, nil)
 	if err != nil {
diff --git a/provider/remotestore/remote_store.go b/provider/remotestore/remote_store.go
index 4292b69..5bb4c72 100644
--- a/provider/remotestore/remote_store.go
+++ b/provider/remotestore/remote_store.go
@@ -303,7 +303,7 @@ func (s *remoteStore) TotalEventsInStream(ctx context.Context, streamName string
 }
 
 func (s *remoteStore) readRecords(ctx context.Context, events PbRecordReceiver) rangedb.RecordIterator {
-	resultRecords := make(chan rangedb.ResultRecord)
+	resultRecords := make(chan rangedb.ResultRecord, 1)
 
 	go func() {
 		defer close(resultRecords)
@@ -316,24 +316,24 @@ func (s *remoteStore) readRecords(ctx context.Context, events PbRecordReceiver)
 				}
 
 				if strings.Contains(err.Error(), rpcErrContextCanceled) {
-					resultRecords <- rangedb.ResultRecord{Err: context.Canceled}
+					rangedb.PublishErrorOrCancel(ctx, resultRecords, context.Canceled, time.Second)
 					return
 				}
 
 				if strings.Contains(err.Error(), rpcErrStreamNotFound) {
-					resultRecords <- rangedb.ResultRecord{Err: rangedb.ErrStreamNotFound}
+					rangedb.PublishErrorOrCancel(ctx, resultRecords, rangedb.ErrStreamNotFound, time.Second)
 					return
 				}
 
 				log.Printf("failed to get record: %v", err)
-				resultRecords <- rangedb.ResultRecord{Err: err}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 				return
 			}
 
 			record, err := rangedbpb.ToRecord(pbRecord, s.serializer)
 			if err != nil {
 				log.Printf("failed converting to record: %v", err)
-				resultRecords <- rangedb.ResultRecord{Err: err}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 				return
 			}
 
diff --git a/publish_record.go b/publish_record.go
index 140811d..051d343 100644
--- a/publish_record.go
+++ b/publish_record.go
@@ -5,14 +5,11 @@ import (
 	"time"
 )
 
-// PublishRecordOrCancel publishes a Record to a ResultRecord channel, or times out.
+// PublishRecordOrCancel publishes a record, or the context error when ctx is canceled first.
 func PublishRecordOrCancel(ctx context.Context, resultRecords chan ResultRecord, record *Record, timeout time.Duration) bool {
 	select {
 	case <-ctx.Done():
-		select {
-		case <-time.After(timeout):
-		case resultRecords <- ResultRecord{Err: ctx.Err()}:
-		}
+		publishErrorWithTimeout(resultRecords, ctx.Err(), timeout)
 		return false
 
 	default:
@@ -20,10 +17,7 @@ func PublishRecordOrCancel(ctx context.Context, resultRecords chan ResultRecord,
 
 	select {
 	case <-ctx.Done():
-		select {
-		case <-time.After(timeout):
-		case resultRecords <- ResultRecord{Err: ctx.Err()}:
-		}
+		publishErrorWithTimeout(resultRecords, ctx.Err(), timeout)
 		return false
 
 	case resultRecords <- ResultRecord{Record: record}:
@@ -31,3 +25,34 @@ func PublishRecordOrCancel(ctx context.Context, resultRecords chan ResultRecord,
 
 	return true
 }
+
+// PublishErrorOrCancel publishes an error without waiting forever for a consumer when ctx is canceled.
+func PublishErrorOrCancel(ctx context.Context, resultRecords chan ResultRecord, err error, timeout time.Duration) {
+	select {
+	case resultRecords <- ResultRecord{Err: err}:
+	case <-ctx.Done():
+		publishErrorWithTimeout(resultRecords, err, timeout)
+	}
+}
+
+// publishErrorWithTimeout publishes an error to a consumer that may be gone. A consumer that is merely slow finds
+// the error in the channel buffer, if there is one, in place of the last unread record: it must not mistake the
+// end of a canceled read for the end of the records.
+func publishErrorWithTimeout(resultRecords chan ResultRecord, err error, timeout time.Duration) {
+	select {
+	case resultRecords <- ResultRecord{Err: err}:
+		return
+
+	case <-time.After(timeout):
+	}
+
+	select {
+	case <-resultRecords:
+	default:
+	}
+
+	select {
+	case resultRecords <- ResultRecord{Err: err}:
+	default:
+	}
+}
-- 
2.43.0


From ad2dd2ef5bccdd780312c785226f3fa9ae9c4c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:47 +0000
Subject: [PATCH 14/74] fix: record streams report failed iterators, failed
 writers and truncated input

Writing ignored the terminal error of the iterator and every writer error, and
reading took a truncated JSON array, a truncated MessagePack record and a stray
closing bracket for the end of the records.
---
 .../json_record_io_stream.go                  | 46 +++++++++++++++++--
 .../msgpack_record_io_stream.go               | 10 +++-
 .../msgpack_record_serializer.go              | 18 ++++----
 .../ndjson_record_io_stream.go                | 29 ++++++++++--
 4 files changed, 84 insertions(+), 19 deletions(-)

diff --git a/provider/jsonrecordiostream/json_record_io_stream.go b/provider/jsonrecordiostream/json_record_io_stream.go
index 16c0e4b..d572b21 100644
--- a/provider/jsonrecordiostream/json_record_io_stream.go
+++ b/provider/jsonrecordiostream/json_record_io_stream.go
@@ -27,7 +27,11 @@ func (s *jsonRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Reco
 	go func() {
 		defer close(errors)
 
-		_, _ = fmt.Fprint(writer, "[")
+		_, err := fmt.Fprint(writer, "[")
+		if err != nil {
+			errors <- fmt.Errorf("failed writing: %v", err)
+			return
+		}
 
 		totalSaved := 0
 		for recordIterator.Next() {
@@ -43,14 +47,27 @@ func (s *jsonRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Reco
 			}
 
 			if totalSaved > 0 {
-				_, _ = fmt.Fprint(writer, ",")
+				data = append([]byte(","), data...)
 			}
 
-			_, _ = fmt.Fprintf(writer, "%s", data)
+			_, err = writer.Write(data)
+			if err != nil {
+				errors <- fmt.Errorf("failed writing: %v", err)
+				return
+			}
 
 			totalSaved++
 		}
-		_, _ = fmt.Fprint(writer, "]")
+
+		if recordIterator.Err() != nil {
+			errors <- recordIterator.Err()
+			return
+		}
+
+		_, err = fmt.Fprint(writer, "]")
+		if err != nil {
+			errors <- fmt.Errorf("failed writing: %v", err)
+		}
 	}()
 
 	return errors
@@ -65,7 +82,7 @@ func (s *jsonRecordIoStream) Read(reader io.Reader) rangedb.RecordIterator {
 		decoder := json.NewDecoder(reader)
 		decoder.UseNumber()
 
-		_, err := decoder.Token()
+		token, err := decoder.Token()
 		if err != nil {
 			if err == io.EOF {
 				return
@@ -77,6 +94,14 @@ func (s *jsonRecordIoStream) Read(reader io.Reader) rangedb.RecordIterator {
 			return
 		}
 
+		if token != json.Delim('[') {
+			resultRecords <- rangedb.ResultRecord{
+				Record: nil,
+				Err:    fmt.Errorf("unexpected token %v looking for beginning of array", token),
+			}
+			return
+		}
+
 		for decoder.More() {
 			record, err := jsonrecordserializer.UnmarshalRecord(decoder, s)
 			if err != nil {
@@ -93,6 +118,17 @@ func (s *jsonRecordIoStream) Read(reader io.Reader) rangedb.RecordIterator {
 				Err:    nil,
 			}
 		}
+
+		_, err = decoder.Token()
+		if err != nil {
+			if err == io.EOF {
+				err = io.ErrUnexpectedEOF
+			}
+			resultRecords <- rangedb.ResultRecord{
+				Record: nil,
+				Err:    fmt.Errorf("failed reading end of array: %v", err),
+			}
+		}
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
diff --git a/provider/msgpackrecordiostream/msgpack_record_io_stream.go b/provider/msgpackrecordiostream/msgpack_record_io_stream.go
index a6ccd27..9849b13 100644
--- a/provider/msgpackrecordiostream/msgpack_record_io_stream.go
+++ b/provider/msgpackrecordiostream/msgpack_record_io_stream.go
@@ -43,7 +43,15 @@ func (s *msgpackRecordIoStream) Write(writer io.Writer, recordIterator rangedb.R
 				return
 			}
 
-			_, _ = writer.Write(serializedRecord)
+			_, err = writer.Write(serializedRecord)
+			if err != nil {
+				errors <- err
+				return
+			}
+		}
+
+		if recordIterator.Err() != nil {
+			errors <- recordIterator.Err()
 		}
 	}()
 
diff --git a/provider/msgpackrecordserializer/msgpack_record_serializer.go b/provider/msgpackrecordserializer/msgpack_record_serializer.go
index 353cde1..621d8fd 100644
--- a/provider/msgpackrecordserializer/msgpack_record_serializer.go
+++ b/provider/msgpackrecordserializer/msgpack_record_serializer.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"io"
 	"reflect"
 
 	"github.com/vmihailenco/msgpack/v4"
@@ -74,16 +75,17 @@ func MarshalRecord(record *rangedb.Record) ([]byte, error) {
 func UnmarshalRecord(decoder *msgpack.Decoder, eventTypeIdentifier rangedb.EventTypeIdentifier) (*rangedb.Record, error) {
 	record := rangedb.Record{}
 
+	_, peekErr := decoder.PeekCode()
+	if peekErr == io.EOF {
+		return nil, ErrorEOF
+	}
+	if peekErr != nil {
+		return nil, fmt.Errorf("failed decoding record: %v", peekErr)
+	}
+
 	decodeErr := decoder.Decode(&record)
 	if decodeErr != nil {
-		var err error
-		if decodeErr.Error() == "EOF" {
-			err = ErrorEOF
-		} else {
-			err = fmt.Errorf("failed decoding record: %v", decodeErr)
-		}
-
-		return nil, err
+		return nil, fmt.Errorf("failed decoding record: %v", decodeErr)
 	}
 
 	eventType, ok := eventTypeIdentifier.EventTypeLookup(record.EventType)
diff --git a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
index 383a6b2..c5bd208 100644
--- a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
+++ b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
@@ -34,20 +34,28 @@ func (s *ndJSONRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Re
 				return
 			}
 
-			if totalSaved > 0 {
-				_, _ = fmt.Fprint(writer, "\n")
-			}
-
 			data, err := json.Marshal(recordIterator.Record())
 			if err != nil {
 				errors <- fmt.Errorf("failed marshalling event: %v", err)
 				return
 			}
 
-			_, _ = fmt.Fprintf(writer, "%s", data)
+			if totalSaved > 0 {
+				data = append([]byte("\n"), data...)
+			}
+
+			_, err = writer.Write(data)
+			if err != nil {
+				errors <- fmt.Errorf("failed writing: %v", err)
+				return
+			}
 
 			totalSaved++
 		}
+
+		if recordIterator.Err() != nil {
+			errors <- recordIterator.Err()
+		}
 	}()
 
 	return errors
@@ -78,6 +86,17 @@ func (s *ndJSONRecordIoStream) Read(reader io.Reader) rangedb.RecordIterator {
 				Err:    nil,
 			}
 		}
+
+		_, err := decoder.Token()
+		if err != io.EOF {
+			if err == nil {
+				err = fmt.Errorf("unexpected token")
+			}
+			resultRecords <- rangedb.ResultRecord{
+				Record: nil,
+				Err:    fmt.Errorf("failed reading end of records: %v", err),
+			}
+		}
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
-- 
2.43.0


From b09f0512728d4f8852437c7cdc10556764437b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:40 +0000
Subject: [PATCH 15/74] fix: msgpack stores events of unknown type with their
 data and numbers

---
 .../msgpack_record_serializer.go              |  5 +-
 store.go                                      | 55 +++++++++++++++++++
 2 files changed, 59 insertions(+), 1 deletion(-)

diff --git a/provider/msgpackrecordserializer/msgpack_record_serializer.go b/provider/msgpackrecordserializer/msgpack_record_serializer.go
index 621d8fd..784e298 100644
--- a/provider/msgpackrecordserializer/msgpack_record_serializer.go
+++ b/provider/msgpackrecordserializer/msgpack_record_serializer.go
@@ -28,7 +28,10 @@ func (s *msgpackSerializer) Bind(events ...rangedb.Event) {
 }
 
 func (s *msgpackSerializer) Serialize(record *rangedb.Record) ([]byte, error) {
-	return MarshalRecord(record)
+	newRecord := *record
+	newRecord.Metadata = rangedb.ConvertJSONNumbers(record.Metadata)
+
+	return MarshalRecord(&newRecord)
 }
 
 func (s *msgpackSerializer) Deserialize(serializedData []byte) (*rangedb.Record, error) {
diff --git a/store.go b/store.go
index 8dbeacb..3dfdc60 100644
--- a/store.go
+++ b/store.go
@@ -4,7 +4,10 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"strconv"
 	"strings"
+
+	"github.com/vmihailenco/msgpack/v4"
 )
 
 // Version for RangeDB.
@@ -194,4 +197,56 @@ func (e rawEvent) MarshalJSON() ([]byte, error) {
 	return json.Marshal(e.data)
 }
 
+// EncodeMsgpack encodes the event data, like MarshalJSON.
+func (e rawEvent) EncodeMsgpack(encoder *msgpack.Encoder) error {
+	return encoder.Encode(ConvertJSONNumbers(e.data))
+}
+
+// ConvertJSONNumbers replaces each json.Number within generic maps and slices with a numeric value,
+// for encodings that would otherwise treat it as a string. The supplied value is not modified.
+func ConvertJSONNumbers(value interface{}) interface{} {
+	switch v := value.(type) {
+	case json.Number:
+		if i, err := strconv.ParseInt(v.String(), 10, 64); err == nil {
+			return i
+		}
+
+		if u, err := strconv.ParseUint(v.String(), 10, 64); err == nil {
+			return u
+		}
+
+		if f, err := v.Float64(); err == nil {
+			return f
+		}
+
+		return v
+
+	case map[string]interface{}:
+		if v == nil {
+			return v
+		}
+
+		converted := make(map[string]interface{}, len(v))
+		for key, item := range v {
+			converted[key] = ConvertJSONNumbers(item)
+		}
+
+		return converted
+
+	case []interface{}:
+		if v == nil {
+			return v
+		}
+
+		converted := make([]interface{}, len(v))
+		for i, item := range v {
+			converted[i] = ConvertJSONNumbers(item)
+		}
+
+		return converted
+	}
+
+	return value
+}
+
 var ErrStreamNotFound = fmt.Errorf("stream not found")
-- 
2.43.0


From 76993db3566993b3abf0281efe4b39e95cc45089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:18 +0000
Subject: [PATCH 16/74] fix: gRPC server reports a failed read of all events or
 of aggregate types

---
 pkg/grpc/rangedbserver/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index d5269bd..2b799d8 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -97,7 +97,7 @@ func (s *rangeDBServer) Events(req *rangedbpb.EventsRequest, stream rangedbpb.Ra
 		}
 	}
 
-	return nil
+	return recordIterator.Err()
 }
 
 func (s *rangeDBServer) EventsByStream(req *rangedbpb.EventsByStreamRequest, stream rangedbpb.RangeDB_EventsByStreamServer) error {
@@ -144,7 +144,7 @@ func (s *rangeDBServer) EventsByAggregateType(req *rangedbpb.EventsByAggregateTy
 		}
 	}
 
-	return nil
+	return recordIterator.Err()
 }
 
 func (s *rangeDBServer) OptimisticDeleteStream(ctx context.Context, req *rangedbpb.OptimisticDeleteStreamRequest) (*rangedbpb.OptimisticDeleteStreamResponse, error) {
-- 
2.43.0


From cd4688c2a0f83bd8419ea138aa9c23eaba406768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:18 +0000
Subject: [PATCH 17/74] fix: numbers keep their precision on the way through
 gRPC

---
 pkg/grpc/rangedbpb/translate.go  | 21 ++++++++++++++++++++-
 pkg/grpc/rangedbserver/server.go |  9 ++++-----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/pkg/grpc/rangedbpb/translate.go b/pkg/grpc/rangedbpb/translate.go
index 03043ad..bbe24f4 100644
--- a/pkg/grpc/rangedbpb/translate.go
+++ b/pkg/grpc/rangedbpb/translate.go
@@ -3,6 +3,7 @@ package rangedbpb
 import (
 	"encoding/json"
 	"fmt"
+	"io"
 	"strings"
 
 	"github.com/inklabs/rangedb"
@@ -48,7 +49,7 @@ func ToRecord(pbRecord *Record, eventTypeIdentifier rangedb.EventTypeIdentifier)
 
 	var metadata interface{}
 	if pbRecord.Metadata != "null" {
-		err = json.Unmarshal([]byte(pbRecord.Metadata), &metadata)
+		err = DecodeJSON(pbRecord.Metadata, &metadata)
 		if err != nil {
 			return nil, fmt.Errorf("unable to unmarshal metadata: %v", err)
 		}
@@ -67,3 +68,21 @@ func ToRecord(pbRecord *Record, eventTypeIdentifier rangedb.EventTypeIdentifier)
 		Metadata:             metadata,
 	}, nil
 }
+
+// DecodeJSON decodes a single json value without losing the precision of numbers.
+func DecodeJSON(data string, value interface{}) error {
+	decoder := json.NewDecoder(strings.NewReader(data))
+	decoder.UseNumber()
+
+	err := decoder.Decode(value)
+	if err != nil {
+		return err
+	}
+
+	_, err = decoder.Token()
+	if err == io.EOF {
+		return nil
+	}
+
+	return fmt.Errorf("unexpected data after json value")
+}
diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index 2b799d8..dd3d741 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -2,7 +2,6 @@ package rangedbserver
 
 import (
 	"context"
-	"encoding/json"
 	"fmt"
 	"log"
 
@@ -163,7 +162,7 @@ func (s *rangeDBServer) OptimisticSave(ctx context.Context, req *rangedbpb.Optim
 
 	for _, event := range req.Events {
 		var data interface{}
-		err := json.Unmarshal([]byte(event.Data), &data)
+		err := rangedbpb.DecodeJSON(event.Data, &data)
 		if err != nil {
 			message := fmt.Sprintf("unable to read event data: %v", err)
 			st := status.New(codes.InvalidArgument, message)
@@ -175,7 +174,7 @@ func (s *rangeDBServer) OptimisticSave(ctx context.Context, req *rangedbpb.Optim
 
 		var metadata interface{}
 		if event.Metadata != "" {
-			err = json.Unmarshal([]byte(event.Metadata), &metadata)
+			err = rangedbpb.DecodeJSON(event.Metadata, &metadata)
 			if err != nil {
 				message := fmt.Sprintf("unable to read event metadata: %v", err)
 				st := status.New(codes.InvalidArgument, message)
@@ -218,7 +217,7 @@ func (s *rangeDBServer) Save(ctx context.Context, req *rangedbpb.SaveRequest) (*
 
 	for _, event := range req.Events {
 		var data interface{}
-		err := json.Unmarshal([]byte(event.Data), &data)
+		err := rangedbpb.DecodeJSON(event.Data, &data)
 		if err != nil {
 			message := fmt.Sprintf("unable to read event data: %v", err)
 			st := status.New(codes.InvalidArgument, message)
@@ -230,7 +229,7 @@ func (s *rangeDBServer) Save(ctx context.Context, req *rangedbpb.SaveRequest) (*
 
 		var metadata interface{}
 		if event.Metadata != "" {
-			err = json.Unmarshal([]byte(event.Metadata), &metadata)
+			err = rangedbpb.DecodeJSON(event.Metadata, &metadata)
 			if err != nil {
 				message := fmt.Sprintf("unable to read event metadata: %v", err)
 				st := status.New(codes.InvalidArgument, message)
-- 
2.43.0


From 1116614f9758780889e566228c3f00169c3c8303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:30 +0000
Subject: [PATCH 18/74] fix: several stuck subscribers delay a broadcast no
 longer than one

---
 pkg/broadcast/broadcaster.go | 53 ++++++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/pkg/broadcast/broadcaster.go b/pkg/broadcast/broadcaster.go
index d30d488..5330c01 100644
--- a/pkg/broadcast/broadcaster.go
+++ b/pkg/broadcast/broadcaster.go
@@ -147,26 +147,63 @@ func (b *broadcaster) start() {
 	}
 }
 
+// broadcastRecord sends the record to each subscriber. Subscribers without room for the record share one timeout,
+// so that several stuck subscribers delay the others no longer than one.
 func (b *broadcaster) broadcastRecord(record *rangedb.Record) {
-	for subscriber := range b.allEventsSubscribers {
-		select {
-		case <-time.After(b.timeout):
+	waitingAllEvents := sendToReadySubscribers(b.allEventsSubscribers, record)
+	waitingAggregateType := sendToReadySubscribers(b.aggregateTypeSubscribers[record.AggregateType], record)
+
+	if len(waitingAllEvents)+len(waitingAggregateType) == 0 {
+		return
+	}
+
+	deadline := time.Now().Add(b.timeout)
+
+	for _, subscriber := range waitingAllEvents {
+		if !sendBefore(deadline, subscriber, record) {
 			delete(b.allEventsSubscribers, subscriber)
 			subscriber.Stop()
-
-		case subscriber.Receiver() <- record:
 		}
 	}
 
-	for subscriber := range b.aggregateTypeSubscribers[record.AggregateType] {
-		select {
-		case <-time.After(b.timeout):
+	for _, subscriber := range waitingAggregateType {
+		if !sendBefore(deadline, subscriber, record) {
 			delete(b.aggregateTypeSubscribers[record.AggregateType], subscriber)
 			subscriber.Stop()
+		}
+	}
+}
 
+func sendToReadySubscribers(subscribers map[RecordSubscriber]struct{}, record *rangedb.Record) []RecordSubscriber {
+	var waiting []RecordSubscriber
+
+	for subscriber := range subscribers {
+		select {
 		case subscriber.Receiver() <- record:
+		default:
+			waiting = append(waiting, subscriber)
 		}
 	}
+
+	return waiting
+}
+
+func sendBefore(deadline time.Time, subscriber RecordSubscriber, record *rangedb.Record) bool {
+	select {
+	case subscriber.Receiver() <- record:
+		return true
+	default:
+	}
+
+	timer := time.NewTimer(time.Until(deadline))
+	defer timer.Stop()
+
+	select {
+	case subscriber.Receiver() <- record:
+		return true
+	case <-timer.C:
+		return false
+	}
 }
 
 func (b *broadcaster) Close() {
-- 
2.43.0


From fd673367387eb9b6dd635cd42886fb7834b9929d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:47 +0000
Subject: [PATCH 19/74] fix: gRPC subscriptions end with an error when their
 subscriber was dropped or the server stopped

---
 pkg/grpc/rangedbserver/server.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index dd3d741..3269dc4 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -281,9 +281,7 @@ func (s *rangeDBServer) SubscribeToLiveEvents(_ *rangedbpb.SubscribeToLiveEvents
 		return err
 	}
 
-	<-stream.Context().Done()
-
-	return nil
+	return waitUntilDone(stream.Context(), subscriber)
 }
 
 func (s *rangeDBServer) SubscribeToEvents(req *rangedbpb.SubscribeToEventsRequest, stream rangedbpb.RangeDB_SubscribeToEventsServer) error {
@@ -302,9 +300,7 @@ func (s *rangeDBServer) SubscribeToEvents(req *rangedbpb.SubscribeToEventsReques
 		return err
 	}
 
-	<-stream.Context().Done()
-
-	return nil
+	return waitUntilDone(stream.Context(), subscriber)
 }
 
 func (s *rangeDBServer) SubscribeToEventsByAggregateType(req *rangedbpb.SubscribeToEventsByAggregateTypeRequest, stream rangedbpb.RangeDB_SubscribeToEventsByAggregateTypeServer) error {
@@ -324,9 +320,26 @@ func (s *rangeDBServer) SubscribeToEventsByAggregateType(req *rangedbpb.Subscrib
 		return err
 	}
 
-	<-stream.Context().Done()
+	return waitUntilDone(stream.Context(), subscriber)
+}
 
-	return nil
+type finisher interface {
+	Done() <-chan struct{}
+}
+
+// waitUntilDone returns when the client is gone, or with an error when the subscriber was dropped or failed.
+func waitUntilDone(ctx context.Context, subscriber finisher) error {
+	select {
+	case <-ctx.Done():
+		return nil
+
+	case <-subscriber.Done():
+		if ctx.Err() != nil {
+			return nil
+		}
+
+		return status.Error(codes.Aborted, "subscription ended")
+	}
 }
 
 func (s *rangeDBServer) TotalEventsInStream(ctx context.Context, request *rangedbpb.TotalEventsInStreamRequest) (*rangedbpb.TotalEventsInStreamResponse, error) {
-- 
2.43.0


From 01ef48386fab2512a371483835b5fb05c25f6ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 20/74] fix: a remote store receives every event saved after it
 was constructed, and its subscriptions end with the connection

---
 pkg/grpc/rangedbserver/server.go     | 7 +++++++
 provider/remotestore/remote_store.go | 9 +++++++++
 2 files changed, 16 insertions(+)

diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index 3269dc4..73dada0 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -6,6 +6,7 @@ import (
 	"log"
 
 	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/metadata"
 	"google.golang.org/grpc/status"
 
 	"github.com/inklabs/rangedb"
@@ -281,6 +282,12 @@ func (s *rangeDBServer) SubscribeToLiveEvents(_ *rangedbpb.SubscribeToLiveEvents
 		return err
 	}
 
+	// The header tells the client that every event from now on will be sent.
+	err = stream.SendHeader(metadata.MD{})
+	if err != nil {
+		return err
+	}
+
 	return waitUntilDone(stream.Context(), subscriber)
 }
 
diff --git a/provider/remotestore/remote_store.go b/provider/remotestore/remote_store.go
index 5bb4c72..b2c1dce 100644
--- a/provider/remotestore/remote_store.go
+++ b/provider/remotestore/remote_store.go
@@ -356,7 +356,16 @@ func (s *remoteStore) listenForEvents() error {
 		return err
 	}
 
+	_, err = events.Header()
+	if err != nil {
+		err = fmt.Errorf("failed to subscribe: %v", err)
+		log.Print(err)
+		return err
+	}
+
 	go func() {
+		defer s.broadcaster.Close()
+
 		recordIterator := s.readRecords(ctx, events)
 		for recordIterator.Next() {
 			if recordIterator.Err() != nil {
-- 
2.43.0


From d30c8f334e51433325749ab2170800731913627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:42 +0000
Subject: [PATCH 21/74] fix: a decrypting iterator decrypts each record once
 and releases the read when that fails

---
 .../decrypting_record_iterator.go             | 46 ++++++++++++++-----
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/provider/encryptedstore/decrypting_record_iterator.go b/provider/encryptedstore/decrypting_record_iterator.go
index 0f75894..a5bbc9a 100644
--- a/provider/encryptedstore/decrypting_record_iterator.go
+++ b/provider/encryptedstore/decrypting_record_iterator.go
@@ -26,7 +26,7 @@ func (i *decryptingRecordIterator) Next() bool {
 		return false
 	}
 
-	return i.parent.Next()
+	return i.decryptCurrent(i.parent.Next())
 }
 
 func (i *decryptingRecordIterator) NextContext(ctx context.Context) bool {
@@ -34,25 +34,47 @@ func (i *decryptingRecordIterator) NextContext(ctx context.Context) bool {
 		return false
 	}
 
-	return i.parent.NextContext(ctx)
+	return i.decryptCurrent(i.parent.NextContext(ctx))
 }
 
-func (i *decryptingRecordIterator) Record() *rangedb.Record {
-	record := i.parent.Record()
+// decryptCurrent decrypts the current record of the parent once. A record that cannot be decrypted ends the iteration:
+// Err reports the error and Record returns nil from there on.
+func (i *decryptingRecordIterator) decryptCurrent(hasRecord bool) bool {
+	if !hasRecord {
+		return false
+	}
 
+	record := i.parent.Record()
 	if record == nil {
-		return nil
+		return true
+	}
+
+	rangedbEvent, ok := record.Data.(rangedb.Event)
+	if !ok {
+		return true
+	}
+
+	err := i.eventEncryptor.Decrypt(rangedbEvent)
+	if err != nil {
+		i.currentErr = err
+		go drain(i.parent)
 	}
 
-	if rangedbEvent, ok := record.Data.(rangedb.Event); ok {
-		err := i.eventEncryptor.Decrypt(rangedbEvent)
-		if err != nil {
-			i.currentErr = err
-			return nil
-		}
+	return true
+}
+
+// drain reads the remaining records, so that the parent store does not wait for a consumer.
+func drain(recordIterator rangedb.RecordIterator) {
+	for recordIterator.Next() {
+	}
+}
+
+func (i *decryptingRecordIterator) Record() *rangedb.Record {
+	if i.currentErr != nil {
+		return nil
 	}
 
-	return record
+	return i.parent.Record()
 }
 
 func (i *decryptingRecordIterator) Err() error {
-- 
2.43.0


From 023f8afcc3ab01ec4e6784923572660b9e650fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 22/74] fix: encrypting store encrypts copies of events, and
 decrypts copies of records shared by subscribers

---
 provider/encryptedstore/encrypted_store.go | 88 ++++++++++++++++++----
 1 file changed, 74 insertions(+), 14 deletions(-)

diff --git a/provider/encryptedstore/encrypted_store.go b/provider/encryptedstore/encrypted_store.go
index 73fc69d..594173d 100644
--- a/provider/encryptedstore/encrypted_store.go
+++ b/provider/encryptedstore/encrypted_store.go
@@ -2,6 +2,7 @@ package encryptedstore
 
 import (
 	"context"
+	"reflect"
 
 	"github.com/inklabs/rangedb"
 	"github.com/inklabs/rangedb/pkg/crypto"
@@ -41,35 +42,94 @@ func (e *encryptedStore) OptimisticDeleteStream(ctx context.Context, expectedStr
 }
 
 func (e *encryptedStore) OptimisticSave(ctx context.Context, expectedStreamSequenceNumber uint64, streamName string, eventRecords ...*rangedb.EventRecord) (uint64, error) {
-	for _, record := range eventRecords {
-		err := e.eventEncryptor.Encrypt(record.Event)
-		if err != nil {
-			return 0, err
-		}
+	encryptedEventRecords, err := e.encryptEventRecords(eventRecords)
+	if err != nil {
+		return 0, err
 	}
 
-	return e.parent.OptimisticSave(ctx, expectedStreamSequenceNumber, streamName, eventRecords...)
+	return e.parent.OptimisticSave(ctx, expectedStreamSequenceNumber, streamName, encryptedEventRecords...)
 }
 
 func (e *encryptedStore) Save(ctx context.Context, streamName string, eventRecords ...*rangedb.EventRecord) (uint64, error) {
-	for _, record := range eventRecords {
-		err := e.eventEncryptor.Encrypt(record.Event)
-		if err != nil {
-			return 0, err
-		}
+	encryptedEventRecords, err := e.encryptEventRecords(eventRecords)
+	if err != nil {
+		return 0, err
 	}
 
-	return e.parent.Save(ctx, streamName, eventRecords...)
+	return e.parent.Save(ctx, streamName, encryptedEventRecords...)
 }
 
 func (e *encryptedStore) AllEventsSubscription(ctx context.Context, bufferSize int, subscriber rangedb.RecordSubscriber) rangedb.RecordSubscription {
-	return e.parent.AllEventsSubscription(ctx, bufferSize, NewDecryptingRecordSubscriber(subscriber, e.eventEncryptor))
+	return e.parent.AllEventsSubscription(ctx, bufferSize, e.newSubscriber(subscriber))
 }
 
 func (e *encryptedStore) AggregateTypesSubscription(ctx context.Context, bufferSize int, subscriber rangedb.RecordSubscriber, aggregateTypes ...string) rangedb.RecordSubscription {
-	return e.parent.AggregateTypesSubscription(ctx, bufferSize, NewDecryptingRecordSubscriber(subscriber, e.eventEncryptor), aggregateTypes...)
+	return e.parent.AggregateTypesSubscription(ctx, bufferSize, e.newSubscriber(subscriber), aggregateTypes...)
 }
 
 func (e *encryptedStore) TotalEventsInStream(ctx context.Context, streamName string) (uint64, error) {
 	return e.parent.TotalEventsInStream(ctx, streamName)
 }
+
+// encryptEventRecords encrypts copies of the events: the events of the caller stay as they are, so a save can be retried.
+func (e *encryptedStore) encryptEventRecords(eventRecords []*rangedb.EventRecord) ([]*rangedb.EventRecord, error) {
+	encryptedEventRecords := make([]*rangedb.EventRecord, len(eventRecords))
+
+	for i, eventRecord := range eventRecords {
+		event := copySelfEncryptor(eventRecord.Event)
+
+		err := e.eventEncryptor.Encrypt(event)
+		if err != nil {
+			return nil, err
+		}
+
+		encryptedEventRecords[i] = &rangedb.EventRecord{
+			Event:    event,
+			Metadata: eventRecord.Metadata,
+		}
+	}
+
+	return encryptedEventRecords, nil
+}
+
+// newSubscriber decrypts copies of the records, which are shared with the other subscribers of the parent.
+func (e *encryptedStore) newSubscriber(subscriber rangedb.RecordSubscriber) rangedb.RecordSubscriber {
+	decryptingSubscriber := NewDecryptingRecordSubscriber(subscriber, e.eventEncryptor)
+
+	return rangedb.RecordSubscriberFunc(func(record *rangedb.Record) {
+		event, ok := record.Data.(rangedb.Event)
+		if ok {
+			newRecord := *record
+			newRecord.Data = copySelfEncryptor(event)
+			record = &newRecord
+		}
+
+		decryptingSubscriber.Accept(record)
+	})
+}
+
+// copySelfEncryptor returns a pointer to a shallow copy of an event that encrypts itself, or any other event unchanged.
+func copySelfEncryptor(event rangedb.Event) rangedb.Event {
+	value := reflect.ValueOf(event)
+	if value.Kind() == reflect.Ptr && !value.IsNil() {
+		value = value.Elem()
+	}
+
+	if value.Kind() != reflect.Struct {
+		return event
+	}
+
+	newValue := reflect.New(value.Type())
+	newValue.Elem().Set(value)
+
+	newEvent, ok := newValue.Interface().(rangedb.Event)
+	if !ok {
+		return event
+	}
+
+	if _, ok := newEvent.(crypto.SelfEncryptor); !ok {
+		return event
+	}
+
+	return newEvent
+}
-- 
2.43.0


From 34f22c24aeb8e1612cbf56980bf6f0c591e2dc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:15 +0000
Subject: [PATCH 23/74] fix: decrypting invalid cipher text returns an error
 instead of a panic

---
 pkg/crypto/aes/cbc_pkcs5_padding.go              | 16 ++++++++++++----
 .../xchacha20poly1305/xchacha20poly1305.go       |  4 ++++
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/crypto/aes/cbc_pkcs5_padding.go b/pkg/crypto/aes/cbc_pkcs5_padding.go
index d382268..d9b0e10 100644
--- a/pkg/crypto/aes/cbc_pkcs5_padding.go
+++ b/pkg/crypto/aes/cbc_pkcs5_padding.go
@@ -85,6 +85,10 @@ func (e *cbcPKCS5Padding) decrypt(key, cipherText []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if len(cipherText) == aes.BlockSize || len(cipherText)%aes.BlockSize != 0 {
+		return nil, crypto.ErrInvalidCipherText
+	}
+
 	buf := bytes.NewReader(cipherText)
 	initializationVector := make([]byte, aes.BlockSize)
 	if _, err := io.ReadFull(buf, initializationVector); err != nil {
@@ -95,7 +99,7 @@ func (e *cbcPKCS5Padding) decrypt(key, cipherText []byte) ([]byte, error) {
 	decrypted := make([]byte, len(cipherText)-aes.BlockSize)
 	ecb.CryptBlocks(decrypted, cipherText[aes.BlockSize:])
 
-	return pkcs5Trimming(decrypted), nil
+	return pkcs5Trimming(decrypted)
 }
 
 func pkcs5Padding(ciphertext []byte, blockSize int) []byte {
@@ -104,7 +108,11 @@ func pkcs5Padding(ciphertext []byte, blockSize int) []byte {
 	return append(ciphertext, padText...)
 }
 
-func pkcs5Trimming(value []byte) []byte {
-	padding := value[len(value)-1]
-	return value[:len(value)-int(padding)]
+func pkcs5Trimming(value []byte) ([]byte, error) {
+	padding := int(value[len(value)-1])
+	if padding == 0 || padding > aes.BlockSize || padding > len(value) {
+		return nil, crypto.ErrInvalidCipherText
+	}
+
+	return value[:len(value)-padding], nil
 }
diff --git a/pkg/crypto/xchacha20poly1305/xchacha20poly1305.go b/pkg/crypto/xchacha20poly1305/xchacha20poly1305.go
index 9dfa3aa..97fa134 100644
--- a/pkg/crypto/xchacha20poly1305/xchacha20poly1305.go
+++ b/pkg/crypto/xchacha20poly1305/xchacha20poly1305.go
@@ -74,6 +74,10 @@ func (x *xChaCha20Poly1305) decrypt(key, sealedCipherText []byte) ([]byte, error
 		return nil, err
 	}
 
+	if len(sealedCipherText) < aead.NonceSize() {
+		return nil, crypto.ErrInvalidCipherText
+	}
+
 	nonceSize := aead.NonceSize()
 	nonce, cipherText := sealedCipherText[:nonceSize], sealedCipherText[nonceSize:]
 
-- 
2.43.0


From ac7c7be1c6556f750555a9470b8cb9f5565b28c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:20 +0000
Subject: [PATCH 24/74] fix: callers that encrypt for a new subject at the same
 time agree on one key

---
 pkg/crypto/eventencryptor/event_encryptor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/crypto/eventencryptor/event_encryptor.go b/pkg/crypto/eventencryptor/event_encryptor.go
index 5ab1705..92ac411 100644
--- a/pkg/crypto/eventencryptor/event_encryptor.go
+++ b/pkg/crypto/eventencryptor/event_encryptor.go
@@ -62,6 +62,10 @@ func (e *engine) Encrypt(subjectID, data string) (string, error) {
 		}
 
 		err = e.keyStore.Set(subjectID, base64Key)
+		if err == crypto.ErrKeyExistsForSubjectID {
+			// Another caller set the key first.
+			base64Key, err = e.keyStore.Get(subjectID)
+		}
 	}
 
 	if err != nil {
-- 
2.43.0


From 7c2f061f7a09bff0e54a6db13835a37beb809929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:25 +0000
Subject: [PATCH 25/74] fix: layered key store never returns deleted keys, and
 tolerates concurrent caching

---
 .../provider/cachekeystore/cache_keystore.go     | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/crypto/provider/cachekeystore/cache_keystore.go b/pkg/crypto/provider/cachekeystore/cache_keystore.go
index d850f67..307b196 100644
--- a/pkg/crypto/provider/cachekeystore/cache_keystore.go
+++ b/pkg/crypto/provider/cachekeystore/cache_keystore.go
@@ -24,7 +24,10 @@ func (c *cacheKeyStore) Get(subjectID string) (string, error) {
 			return "", secondErr
 		}
 
-		return secondKey, c.first.Set(subjectID, secondKey)
+		// The key is valid even if it cannot be cached, for example, when another caller has just done so.
+		_ = c.first.Set(subjectID, secondKey)
+
+		return secondKey, nil
 	}
 
 	return key, nil
@@ -36,14 +39,19 @@ func (c *cacheKeyStore) Set(subjectID, key string) error {
 		return err
 	}
 
-	return c.first.Set(subjectID, key)
+	// The key is set even if it cannot be cached, for example, when a reader has just done so.
+	_ = c.first.Set(subjectID, key)
+
+	return nil
 }
 
+// Delete removes the key from the first store before the second, so that the first never returns a key that has been
+// deleted from the second.
 func (c *cacheKeyStore) Delete(subjectID string) error {
-	err := c.second.Delete(subjectID)
+	err := c.first.Delete(subjectID)
 	if err != nil {
 		return err
 	}
 
-	return c.first.Delete(subjectID)
+	return c.second.Delete(subjectID)
 }
-- 
2.43.0


From 410ff77549e77f1716cc8583aac5e5dfeaa7d559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:48 +0000
Subject: [PATCH 26/74] fix: vault key store never sets a key again that
 exists, was deleted or is being set

---
 .../vaultkeystore/hashicorp_vault_keystore.go | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go b/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
index 8fb9bb6..fe7721e 100644
--- a/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
+++ b/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
@@ -75,13 +75,19 @@ func (h *hashicorpVaultKeyStore) Set(subjectID, key string) error {
 	}
 
 	_, err := h.Get(subjectID)
-	if err == nil {
+	if err == nil || err == crypto.ErrKeyWasDeleted {
 		return crypto.ErrKeyExistsForSubjectID
 	}
 
-	payload := dataPayload{Data: map[string]string{
-		"key": key,
-	}}
+	payload := dataPayload{
+		// Vault only writes the first version of a secret.
+		Options: map[string]int{
+			"cas": 0,
+		},
+		Data: map[string]string{
+			"key": key,
+		},
+	}
 	jsonString, err := json.Marshal(payload)
 	if err != nil {
 		return err
@@ -102,6 +108,10 @@ func (h *hashicorpVaultKeyStore) Set(subjectID, key string) error {
 		body, _ := ioutil.ReadAll(response.Body)
 		log.Printf("%d: %s", response.StatusCode, body)
 
+		if response.StatusCode == http.StatusBadRequest && bytes.Contains(body, []byte("check-and-set")) {
+			return crypto.ErrKeyExistsForSubjectID
+		}
+
 		return fmt.Errorf("unable to save")
 	}
 
@@ -131,7 +141,8 @@ func (h *hashicorpVaultKeyStore) Delete(subjectID string) error {
 }
 
 type dataPayload struct {
-	Data map[string]string `json:"data"`
+	Options map[string]int    `json:"options"`
+	Data    map[string]string `json:"data"`
 }
 
 type secretResponse struct {
-- 
2.43.0


From d5c77814d4847fc719e9ff482eb912d0b593686f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:53 +0000
Subject: [PATCH 27/74] fix: DynamoDB key store reads its own writes

---
 pkg/crypto/provider/dynamodbkeystore/dynamodb_keystore.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/crypto/provider/dynamodbkeystore/dynamodb_keystore.go b/pkg/crypto/provider/dynamodbkeystore/dynamodb_keystore.go
index 11fd14d..17a6f70 100644
--- a/pkg/crypto/provider/dynamodbkeystore/dynamodb_keystore.go
+++ b/pkg/crypto/provider/dynamodbkeystore/dynamodb_keystore.go
@@ -40,7 +40,8 @@ func (d *dynamoDBKeyStore) Get(subjectID string) (string, error) {
 				S: aws.String(subjectID),
 			},
 		},
-		TableName: aws.String(d.config.TableName),
+		TableName:      aws.String(d.config.TableName),
+		ConsistentRead: aws.Bool(true),
 		AttributesToGet: []*string{
 			aws.String("EncryptionKey"),
 			aws.String("DeletedAtTimestamp"),
-- 
2.43.0


From de09a0b92e109a39b4337f586f6449cd98214bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:36 +0000
Subject: [PATCH 28/74] fix: aggregate type statistics reject inconsistent
 snapshots, and read their total under the lock

---
 pkg/projection/aggregate_type_stats.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/projection/aggregate_type_stats.go b/pkg/projection/aggregate_type_stats.go
index 3712e7e..a564968 100644
--- a/pkg/projection/aggregate_type_stats.go
+++ b/pkg/projection/aggregate_type_stats.go
@@ -2,6 +2,7 @@ package projection
 
 import (
 	"encoding/json"
+	"fmt"
 	"io"
 	"sort"
 	"sync"
@@ -60,6 +61,8 @@ func (a *AggregateTypeStats) TotalEventsByAggregateType(aggregateType string) ui
 
 // TotalEvents returns the total number of received events.
 func (a *AggregateTypeStats) TotalEvents() uint64 {
+	a.mux.RLock()
+	defer a.mux.RUnlock()
 	return a.data.TotalEvents
 }
 
@@ -91,6 +94,19 @@ func (a *AggregateTypeStats) LoadFromSnapshot(r io.Reader) error {
 		return err
 	}
 
+	if data.TotalEventsByAggregateType == nil {
+		data.TotalEventsByAggregateType = make(map[string]uint64)
+	}
+
+	totalEvents := uint64(0)
+	for _, total := range data.TotalEventsByAggregateType {
+		totalEvents += total
+	}
+
+	if totalEvents != data.TotalEvents || totalEvents > data.LatestGlobalSequenceNumber {
+		return fmt.Errorf("invalid snapshot: inconsistent totals")
+	}
+
 	a.mux.Lock()
 	a.data.TotalEventsByAggregateType = data.TotalEventsByAggregateType
 	a.data.LatestGlobalSequenceNumber = data.LatestGlobalSequenceNumber
-- 
2.43.0


From 7d1e08ab11dc53b76457ebc0b053743de7dd8e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 29/74] fix: paging links never share the memory of the
 previous indices

---
 pkg/paging/paging.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/paging/paging.go b/pkg/paging/paging.go
index 85611f1..676b1cf 100644
--- a/pkg/paging/paging.go
+++ b/pkg/paging/paging.go
@@ -108,7 +108,9 @@ func (p Pagination) Links(baseURI string, nextIndex uint64) Links {
 		q := url.Values{}
 		q.Add("itemsPerPage", strconv.FormatUint(p.ItemsPerPage, 10))
 
-		previousIndices := append(p.PreviousIndices, p.CurrentIndex)
+		previousIndices := make([]uint64, 0, len(p.PreviousIndices)+1)
+		previousIndices = append(previousIndices, p.PreviousIndices...)
+		previousIndices = append(previousIndices, p.CurrentIndex)
 		previousCSV := strings.Trim(strings.Join(strings.Fields(fmt.Sprint(previousIndices)), ","), "[]")
 		q.Add("previous", previousCSV)
 
-- 
2.43.0


From 5770642ec29dd1757142b8f4458f4a59d0af4331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 30/74] fix: paging links of streams keep special characters of
 the stream name

---
 pkg/rangedbui/ui.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/rangedbui/ui.go b/pkg/rangedbui/ui.go
index 071a175..094dfeb 100644
--- a/pkg/rangedbui/ui.go
+++ b/pkg/rangedbui/ui.go
@@ -10,6 +10,7 @@ import (
 	"io/fs"
 	"log"
 	"net/http"
+	"net/url"
 	"time"
 
 	"github.com/gorilla/handlers"
@@ -229,7 +230,7 @@ func (a *webUI) stream(w http.ResponseWriter, r *http.Request) {
 		records = records[:len(records)-1]
 	}
 
-	baseURI := fmt.Sprintf("/s/%s", streamName)
+	baseURI := fmt.Sprintf("/s/%s", url.PathEscape(streamName))
 	totalRecords, err := a.store.TotalEventsInStream(r.Context(), streamName)
 	if err != nil {
 		if errors.Is(err, context.Canceled) {
-- 
2.43.0


From 10bd910dfc8f8e0b98421a44ea66cd125da4c2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:36 +0000
Subject: [PATCH 31/74] fix: live page connections end when their subscription
 ends

---
 pkg/rangedbui/ui.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/rangedbui/ui.go b/pkg/rangedbui/ui.go
index 094dfeb..0e7bd97 100644
--- a/pkg/rangedbui/ui.go
+++ b/pkg/rangedbui/ui.go
@@ -336,6 +336,13 @@ func (a *webUI) realtimeEventsByAggregateType(w http.ResponseWriter, r *http.Req
 		return
 	}
 
+	if finisher, ok := subscription.(interface{ Done() <-chan struct{} }); ok {
+		go func() {
+			<-finisher.Done()
+			_ = conn.Close()
+		}()
+	}
+
 	_, _, _ = conn.ReadMessage()
 }
 
-- 
2.43.0


From 97e5c32b5aaa7e86b08a3b0943a30ce0adf8565b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:18 +0000
Subject: [PATCH 32/74] fix: ParseStream keeps separators within the aggregate
 ID, and accepts names without separator

---
 store.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 3dfdc60..4e133e7 100644
--- a/store.go
+++ b/store.go
@@ -135,7 +135,11 @@ func GetStream(aggregateType, aggregateID string) string {
 
 // ParseStream returns the aggregateType and aggregateID for a stream name.
 func ParseStream(streamName string) (aggregateType, aggregateID string) {
-	pieces := strings.Split(streamName, "!")
+	pieces := strings.SplitN(streamName, "!", 2)
+	if len(pieces) < 2 {
+		return streamName, ""
+	}
+
 	return pieces[0], pieces[1]
 }
 
-- 
2.43.0


From 49f2014161667fe1d65173ec6fe2bddec28bf364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:29 +0000
Subject: [PATCH 33/74] fix: aggregate types are not limited to letters in the
 API and web interface

---
 pkg/rangedbapi/api.go          | 2 +-
 pkg/rangedbui/ui.go            | 4 ++--
 pkg/rangedbws/websocket_api.go | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/rangedbapi/api.go b/pkg/rangedbapi/api.go
index d23b6e4..7a3eb61 100644
--- a/pkg/rangedbapi/api.go
+++ b/pkg/rangedbapi/api.go
@@ -101,7 +101,7 @@ func (a *api) initRoutes() {
 	router.HandleFunc("/save-events/"+streamName, a.saveEvents)
 	router.HandleFunc("/all-events"+extension, a.allEvents)
 	router.HandleFunc("/events-by-stream/"+streamName+extension, a.eventsByStream)
-	router.HandleFunc("/events-by-aggregate-type/{aggregateType:[a-zA-Z-,]+}"+extension, a.eventsByAggregateType)
+	router.HandleFunc("/events-by-aggregate-type/{aggregateType:[^/]+}"+extension, a.eventsByAggregateType)
 	router.HandleFunc("/list-aggregate-types", a.listAggregateTypes)
 	a.handler = handlers.CompressHandler(router)
 }
diff --git a/pkg/rangedbui/ui.go b/pkg/rangedbui/ui.go
index 0e7bd97..3cd1d82 100644
--- a/pkg/rangedbui/ui.go
+++ b/pkg/rangedbui/ui.go
@@ -90,7 +90,7 @@ func New(
 
 func (a *webUI) initRoutes() {
 	const streamName = "{streamName}"
-	const aggregateType = "{aggregateType:[a-zA-Z-]+}"
+	const aggregateType = "{aggregateType:[^/]+}"
 	router := mux.NewRouter().StrictSlash(true)
 
 	main := router.PathPrefix("/").Subrouter()
@@ -190,7 +190,7 @@ func (a *webUI) aggregateType(w http.ResponseWriter, r *http.Request) {
 		records = records[:len(records)-1]
 	}
 
-	baseURI := fmt.Sprintf("/a/%s", aggregateTypeName)
+	baseURI := fmt.Sprintf("/a/%s", url.PathEscape(aggregateTypeName))
 	totalRecords := a.aggregateTypeStats.TotalEventsByAggregateType(aggregateTypeName)
 
 	a.renderWithValues(w, "aggregate-type.gohtml", aggregateTypeTemplateVars{
diff --git a/pkg/rangedbws/websocket_api.go b/pkg/rangedbws/websocket_api.go
index 64bca09..360e306 100644
--- a/pkg/rangedbws/websocket_api.go
+++ b/pkg/rangedbws/websocket_api.go
@@ -82,7 +82,7 @@ func New(options ...Option) (*websocketAPI, error) {
 func (a *websocketAPI) initRoutes() {
 	router := mux.NewRouter().StrictSlash(true)
 	router.HandleFunc("/events", a.SubscribeToAllEvents)
-	router.HandleFunc("/events/{aggregateType:[a-zA-Z-,]+}", a.SubscribeToEventsByAggregateTypes)
+	router.HandleFunc("/events/{aggregateType:[^/]+}", a.SubscribeToEventsByAggregateTypes)
 	a.handler = router
 }
 
-- 
2.43.0


From 7d16016174095b43b9a7b9520697563ed1dab650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:15 +0000
Subject: [PATCH 34/74] fix: JSON serializer refuses records without data,
 which it could not read back

---
 .../jsonrecordserializer/json_record_serializer.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/provider/jsonrecordserializer/json_record_serializer.go b/provider/jsonrecordserializer/json_record_serializer.go
index 15c3b28..c28b1c6 100644
--- a/provider/jsonrecordserializer/json_record_serializer.go
+++ b/provider/jsonrecordserializer/json_record_serializer.go
@@ -26,7 +26,19 @@ func (s *jsonSerializer) Bind(events ...rangedb.Event) {
 }
 
 func (s *jsonSerializer) Serialize(record *rangedb.Record) ([]byte, error) {
-	data, err := json.Marshal(record)
+	eventData, err := json.Marshal(record.Data)
+	if err != nil {
+		return nil, fmt.Errorf("failed marshalling record: %v", err)
+	}
+
+	if string(eventData) == "null" {
+		return nil, fmt.Errorf("failed marshalling record: missing event data")
+	}
+
+	newRecord := *record
+	newRecord.Data = json.RawMessage(eventData)
+
+	data, err := json.Marshal(newRecord)
 	if err != nil {
 		return nil, fmt.Errorf("failed marshalling record: %v", err)
 	}
-- 
2.43.0


From 679e5010bbb4be2aa94386ce2b2efe4c7824da63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 35/74] fix: API reports missing streams, failed reads and
 malformed bodies, and keeps the precision of numbers

---
 pkg/rangedbapi/api.go | 76 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 68 insertions(+), 8 deletions(-)

diff --git a/pkg/rangedbapi/api.go b/pkg/rangedbapi/api.go
index 7a3eb61..6d17c20 100644
--- a/pkg/rangedbapi/api.go
+++ b/pkg/rangedbapi/api.go
@@ -5,6 +5,7 @@ import (
 	"encoding/base64"
 	"encoding/json"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"log"
 	"net/http"
@@ -265,11 +266,19 @@ func getEventRecords(r *http.Request) ([]*rangedb.EventRecord, error) {
 		Data          interface{} `json:"data"`
 		Metadata      interface{} `json:"metadata"`
 	}
-	err := json.NewDecoder(r.Body).Decode(&events)
+	decoder := json.NewDecoder(r.Body)
+	decoder.UseNumber()
+
+	err := decoder.Decode(&events)
 	if err != nil {
 		return nil, fmt.Errorf("invalid json request body: %v", err)
 	}
 
+	_, err = decoder.Token()
+	if err != io.EOF {
+		return nil, fmt.Errorf("invalid json request body: unexpected data after events")
+	}
+
 	var eventRecords []*rangedb.EventRecord
 	for _, event := range events {
 		eventRecords = append(eventRecords, &rangedb.EventRecord{
@@ -316,27 +325,78 @@ func (a *api) listAggregateTypes(w http.ResponseWriter, _ *http.Request) {
 }
 
 func (a *api) writeEvents(w http.ResponseWriter, recordIterator rangedb.RecordIterator, extension string) {
+	// The first record decides if the request succeeds, before anything is written.
+	hasFirstRecord := recordIterator.Next()
+	if err := recordIterator.Err(); err != nil {
+		a.writeFailedRead(w, err)
+		return
+	}
+
+	records := &startedRecordIterator{RecordIterator: recordIterator, hasFirstRecord: hasFirstRecord}
+
+	var err error
 	switch extension {
 	case "json":
 		w.Header().Set(`Content-Type`, `application/json`)
-		errors := a.jsonRecordIoStream.Write(w, recordIterator)
-		<-errors
+		err = <-a.jsonRecordIoStream.Write(w, records)
 
 	case "ndjson":
 		w.Header().Set(`Content-Type`, `application/json; boundary=LF`)
-		errors := a.ndJSONRecordIoStream.Write(w, recordIterator)
-		<-errors
+		err = <-a.ndJSONRecordIoStream.Write(w, records)
 
 	case "msgpack":
 		w.Header().Set(`Content-Type`, `application/msgpack`)
 		base64Writer := base64.NewEncoder(base64.RawStdEncoding, w)
-		errors := a.msgpackRecordIoStream.Write(base64Writer, recordIterator)
-		<-errors
-		_ = base64Writer.Close()
+		err = <-a.msgpackRecordIoStream.Write(base64Writer, records)
+		if err == nil {
+			err = base64Writer.Close()
+		}
+	}
 
+	if err != nil {
+		// Aborting the response is the only way left to tell that it is incomplete.
+		a.logger.Printf("unable to write events: %v", err)
+		panic(http.ErrAbortHandler)
 	}
 }
 
+func (a *api) writeFailedRead(w http.ResponseWriter, err error) {
+	w.Header().Set("Content-Type", "application/json")
+
+	if err == rangedb.ErrStreamNotFound {
+		writeFailedResponse(w, err.Error(), http.StatusNotFound)
+		return
+	}
+
+	a.logger.Printf("unable to read events: %v", err)
+	writeFailedResponse(w, "internal server error", http.StatusInternalServerError)
+}
+
+// startedRecordIterator is an iterator whose Next method has already been called once.
+type startedRecordIterator struct {
+	rangedb.RecordIterator
+	isStarted      bool
+	hasFirstRecord bool
+}
+
+func (i *startedRecordIterator) Next() bool {
+	if !i.isStarted {
+		i.isStarted = true
+		return i.hasFirstRecord
+	}
+
+	return i.RecordIterator.Next()
+}
+
+func (i *startedRecordIterator) NextContext(ctx context.Context) bool {
+	if !i.isStarted {
+		i.isStarted = true
+		return i.hasFirstRecord
+	}
+
+	return i.RecordIterator.NextContext(ctx)
+}
+
 type invalidInput struct {
 	err error
 }
-- 
2.43.0


From aae378abcd1bd233fb3dcc108870b27624dbde1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:45 +0000
Subject: [PATCH 36/74] fix: a read canceled before its last record was taken
 reports the cancellation

---
 publish_record.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/publish_record.go b/publish_record.go
index 051d343..691dbc4 100644
--- a/publish_record.go
+++ b/publish_record.go
@@ -23,6 +23,12 @@ func PublishRecordOrCancel(ctx context.Context, resultRecords chan ResultRecord,
 	case resultRecords <- ResultRecord{Record: record}:
 	}
 
+	// A canceled read never ends like a complete one, even when this was its last record.
+	if ctx.Err() != nil {
+		publishErrorWithTimeout(resultRecords, ctx.Err(), timeout)
+		return false
+	}
+
 	return true
 }
 
-- 
2.43.0


From d69125734c4208435b8c5352b992b426fab065aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:44 +0000
Subject: [PATCH 37/74] fix: a consumer failing during catch-up releases the
 read, so that writers proceed

---
 pkg/recordsubscriber/record_subscriber.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/recordsubscriber/record_subscriber.go b/pkg/recordsubscriber/record_subscriber.go
index 1169aef..6728318 100644
--- a/pkg/recordsubscriber/record_subscriber.go
+++ b/pkg/recordsubscriber/record_subscriber.go
@@ -140,6 +140,10 @@ func (s *recordSubscriber) writeRecords(globalSequenceNumber uint64) error {
 
 		err := s.writeRecord(iter.Record())
 		if err != nil {
+			// Reading to the end releases what the iterator holds.
+			for iter.Next() {
+			}
+
 			return err
 		}
 	}
-- 
2.43.0


From 63ccbfc5ac1fd6c07758f42e60a9fb8fee585257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:43 +0000
Subject: [PATCH 38/74] Revert the repair of the chat example

Examples are outside of what may be changed here; the finding is recorded instead.
---
 .../msgpack_record_serializer.go              | 41 +++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/provider/msgpackrecordserializer/msgpack_record_serializer.go b/provider/msgpackrecordserializer/msgpack_record_serializer.go
index 784e298..2b95bd1 100644
--- a/provider/msgpackrecordserializer/msgpack_record_serializer.go
+++ b/provider/msgpackrecordserializer/msgpack_record_serializer.go
@@ -78,6 +78,8 @@ func MarshalRecord(record *rangedb.Record) ([]byte, error) {
 func UnmarshalRecord(decoder *msgpack.Decoder, eventTypeIdentifier rangedb.EventTypeIdentifier) (*rangedb.Record, error) {
 	record := rangedb.Record{}
 
+	decoder.SetDecodeMapFunc(decodeMap)
+
 	_, peekErr := decoder.PeekCode()
 	if peekErr == io.EOF {
 		return nil, ErrorEOF
@@ -113,5 +115,44 @@ func UnmarshalRecord(decoder *msgpack.Decoder, eventTypeIdentifier rangedb.Event
 	return &record, nil
 }
 
+// decodeMap decodes a map without a known type. The default would derive the type
+// of all keys and values from the first ones.
+func decodeMap(decoder *msgpack.Decoder) (interface{}, error) {
+	size, err := decoder.DecodeMapLen()
+	if err != nil {
+		return nil, err
+	}
+
+	if size == -1 {
+		return nil, nil
+	}
+
+	data := make(map[string]interface{})
+	for i := 0; i < size; i++ {
+		key, err := decoder.DecodeInterface()
+		if err != nil {
+			return nil, err
+		}
+
+		value, err := decoder.DecodeInterface()
+		if err != nil {
+			return nil, err
+		}
+
+		switch k := key.(type) {
+		case string:
+			data[k] = value
+		case []byte:
+			data[string(k)] = value
+		case int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+			data[fmt.Sprint(k)] = value
+		default:
+			return nil, fmt.Errorf("unsupported map key: %T", key)
+		}
+	}
+
+	return data, nil
+}
+
 // ErrorEOF defines an end of file error.
 var ErrorEOF = errors.New("EOF")
-- 
2.43.0


From 83dad687aa1245646d9dc34182bbf3eb26322435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:09 +0000
Subject: [PATCH 39/74] fix: msgpack reports malformed records instead of
 panicking

---
 .../msgpackrecordserializer/msgpack_record_serializer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/provider/msgpackrecordserializer/msgpack_record_serializer.go b/provider/msgpackrecordserializer/msgpack_record_serializer.go
index 2b95bd1..5ee2742 100644
--- a/provider/msgpackrecordserializer/msgpack_record_serializer.go
+++ b/provider/msgpackrecordserializer/msgpack_record_serializer.go
@@ -75,9 +75,16 @@ func MarshalRecord(record *rangedb.Record) ([]byte, error) {
 //
 // The record, excluding data, is decoded first. Then, event data is decoded.
 // Event data will be parsed into a struct if supplied by getEventType.
-func UnmarshalRecord(decoder *msgpack.Decoder, eventTypeIdentifier rangedb.EventTypeIdentifier) (*rangedb.Record, error) {
+func UnmarshalRecord(decoder *msgpack.Decoder, eventTypeIdentifier rangedb.EventTypeIdentifier) (_ *rangedb.Record, err error) {
 	record := rangedb.Record{}
 
+	// The decoder panics on some malformed input, e.g. a map field given twice.
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("failed decoding record: %v", r)
+		}
+	}()
+
 	decoder.SetDecodeMapFunc(decodeMap)
 
 	_, peekErr := decoder.PeekCode()
-- 
2.43.0


From 171d517cf984d888ed72490c7f33ed6509d768f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:19 +0000
Subject: [PATCH 40/74] fix: a WebSocket client that stops reading during
 catch-up does not block writers forever

---
 pkg/rangedbws/websocket_api.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/rangedbws/websocket_api.go b/pkg/rangedbws/websocket_api.go
index 360e306..5914dc5 100644
--- a/pkg/rangedbws/websocket_api.go
+++ b/pkg/rangedbws/websocket_api.go
@@ -10,6 +10,7 @@ import (
 	"net/http"
 	"strconv"
 	"strings"
+	"time"
 
 	"github.com/gorilla/mux"
 	"github.com/gorilla/websocket"
@@ -23,6 +24,9 @@ import (
 const (
 	broadcastRecordBuffSize  = 100
 	subscriberRecordBuffSize = 20
+
+	// A client that stops reading must not keep a read of the store open, which would block writers.
+	writeTimeout = 3 * time.Second
 )
 
 type void struct{}
@@ -123,6 +127,7 @@ func (a *websocketAPI) SubscribeToAllEvents(w http.ResponseWriter, r *http.Reque
 		a.broadcaster,
 		subscriberRecordBuffSize,
 		func(record *rangedb.Record) error {
+			_ = conn.SetWriteDeadline(time.Now().Add(writeTimeout))
 			return a.broadcastRecord(conn, record)
 		},
 	)
@@ -177,6 +182,7 @@ func (a *websocketAPI) SubscribeToEventsByAggregateTypes(w http.ResponseWriter,
 		subscriberRecordBuffSize,
 		aggregateTypes,
 		func(record *rangedb.Record) error {
+			_ = conn.SetWriteDeadline(time.Now().Add(writeTimeout))
 			return a.broadcastRecord(conn, record)
 		},
 	)
-- 
2.43.0


From bfaa3887cf9fcaef6e9aa45a4eb825a8f5d2d839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:56 +0000
Subject: [PATCH 41/74] fix: live pages start from the total that belongs to
 their start number

---
 pkg/rangedbui/ui.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/rangedbui/ui.go b/pkg/rangedbui/ui.go
index 3cd1d82..ec81497 100644
--- a/pkg/rangedbui/ui.go
+++ b/pkg/rangedbui/ui.go
@@ -305,6 +305,11 @@ func (a *webUI) realtimeEventsByAggregateType(w http.ResponseWriter, r *http.Req
 
 	latestGlobalSequenceNumber := a.aggregateTypeStats.LatestGlobalSequenceNumber()
 	totalRecords := a.aggregateTypeStats.TotalEventsByAggregateType(aggregateTypeName)
+	for latestGlobalSequenceNumber != a.aggregateTypeStats.LatestGlobalSequenceNumber() {
+		// An event arrived in between: the total may include it already.
+		latestGlobalSequenceNumber = a.aggregateTypeStats.LatestGlobalSequenceNumber()
+		totalRecords = a.aggregateTypeStats.TotalEventsByAggregateType(aggregateTypeName)
+	}
 	ctx, cancel := context.WithCancel(r.Context())
 
 	recordSubscriber := rangedb.RecordSubscriberFunc(func(record *rangedb.Record) {
-- 
2.43.0


From 2f2f244e0e826c2641d8cac0e87b6b49ed931412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:18 +0000
Subject: [PATCH 42/74] fix: a slow snapshot writer does not stop the
 projection from accepting records

SaveSnapshot held the projection's lock while it wrote. Accept waited for it, so
the broadcaster dropped the projection after its timeout and the totals were
wrong from then on.
---
 pkg/projection/aggregate_type_stats.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/projection/aggregate_type_stats.go b/pkg/projection/aggregate_type_stats.go
index a564968..51f3de1 100644
--- a/pkg/projection/aggregate_type_stats.go
+++ b/pkg/projection/aggregate_type_stats.go
@@ -1,6 +1,7 @@
 package projection
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io"
@@ -78,12 +79,21 @@ func (a *AggregateTypeStats) SnapshotName() string {
 	return "AggregateTypeStats"
 }
 
-// SaveSnapshot writes the projection data to an io.Writer.
+// SaveSnapshot writes the projection data to an io.Writer. The projection keeps accepting records while a slow writer
+// takes the snapshot.
 func (a *AggregateTypeStats) SaveSnapshot(w io.Writer) error {
+	var snapshot bytes.Buffer
+
 	a.mux.RLock()
-	defer a.mux.RUnlock()
+	err := json.NewEncoder(&snapshot).Encode(a.data)
+	a.mux.RUnlock()
+
+	if err != nil {
+		return err
+	}
 
-	return json.NewEncoder(w).Encode(a.data)
+	_, err = snapshot.WriteTo(w)
+	return err
 }
 
 // LoadFromSnapshot reads the projection data from an io.Reader and loads the state.
-- 
2.43.0


From 9c717809dc3c1dfda1ee383389f95edb403ad064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:23 +0000
Subject: [PATCH 43/74] fix: links of the web interface escape names

---
 pkg/rangedbui/functions.go                          | 2 ++
 pkg/rangedbui/templates/aggregate-type-live.gohtml  | 8 ++++----
 pkg/rangedbui/templates/aggregate-type.gohtml       | 2 +-
 pkg/rangedbui/templates/aggregate-types-live.gohtml | 2 +-
 pkg/rangedbui/templates/aggregate-types.gohtml      | 2 +-
 pkg/rangedbui/templates/layout/records.gohtml       | 4 ++--
 6 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/pkg/rangedbui/functions.go b/pkg/rangedbui/functions.go
index 8ff1359..85d669c 100644
--- a/pkg/rangedbui/functions.go
+++ b/pkg/rangedbui/functions.go
@@ -3,6 +3,7 @@ package rangedbui
 import (
 	"encoding/json"
 	"html/template"
+	"net/url"
 	"time"
 
 	"github.com/dustin/go-humanize"
@@ -15,6 +16,7 @@ var FuncMap = template.FuncMap{
 	"formatDate":   formatDate,
 	"formatJson":   formatJson,
 	"formatUint64": formatUint64,
+	"pathEscape":   url.PathEscape,
 	"rangeDBVersion": func() string {
 		return rangedb.Version
 	},
diff --git a/pkg/rangedbui/templates/aggregate-type-live.gohtml b/pkg/rangedbui/templates/aggregate-type-live.gohtml
index 5acdef8..9b90714 100644
--- a/pkg/rangedbui/templates/aggregate-type-live.gohtml
+++ b/pkg/rangedbui/templates/aggregate-type-live.gohtml
@@ -13,7 +13,7 @@
             <nav aria-label="You are here:" role="navigation">
                 <ul class="breadcrumbs">
                     <li><a href="/aggregate-types/live">Aggregate</a></li>
-                    <li><a href="/a/{{.AggregateTypeInfo.Name}}">{{.AggregateTypeInfo.Name}}</a></li>
+                    <li><a v-pre href="/a/{{.AggregateTypeInfo.Name | pathEscape}}">{{.AggregateTypeInfo.Name}}</a></li>
                     <li>
                         Realtime (${ Number(totalEvents).toLocaleString() })
                     </li>
@@ -37,8 +37,8 @@
                     <td>${record.globalSequenceNumber}</td>
                     <td>${record.streamSequenceNumber}</td>
                     <td>${record.eventType}</td>
-                    <td><a :href="'/a/' + record.aggregateType + '/live'">${record.aggregateType}</a></td>
-                    <td><a :href="'/s/' + record.streamName">${record.streamName}</a></td>
+                    <td><a :href="'/a/' + encodeURIComponent(record.aggregateType) + '/live'">${record.aggregateType}</a></td>
+                    <td><a :href="'/s/' + encodeURIComponent(record.streamName)">${record.streamName}</a></td>
                     <td class="date">${formatDate(record.insertTimestamp)}</td>
                     <td class="event-data">${record.data}</td>
                 </tr>
@@ -69,7 +69,7 @@
                 return new Intl.DateTimeFormat('default', {dateStyle: 'medium', timeStyle: 'long'}).format(date);
             },
             connect() {
-                let ws = new WebSocket('ws://{{.UIHost}}/live/a/{{.AggregateTypeInfo.Name}}');
+                let ws = new WebSocket('ws://{{.UIHost}}/live/a/{{.AggregateTypeInfo.Name | pathEscape}}');
                 ws.onmessage = (event) => {
                     if (this.wasDisconnected) {
                         this.records = [];
diff --git a/pkg/rangedbui/templates/aggregate-type.gohtml b/pkg/rangedbui/templates/aggregate-type.gohtml
index 1f350ba..2ab2dec 100644
--- a/pkg/rangedbui/templates/aggregate-type.gohtml
+++ b/pkg/rangedbui/templates/aggregate-type.gohtml
@@ -14,7 +14,7 @@
                             {{.AggregateTypeInfo.Name}} ({{.AggregateTypeInfo.TotalEvents | formatUint64}})
                         </li>
                         <li>
-                            <a href="/a/{{.AggregateTypeInfo.Name}}/live">Realtime</a>
+                            <a href="/a/{{.AggregateTypeInfo.Name | pathEscape}}/live">Realtime</a>
                         </li>
                     </ul>
                 </nav>
diff --git a/pkg/rangedbui/templates/aggregate-types-live.gohtml b/pkg/rangedbui/templates/aggregate-types-live.gohtml
index e383d91..12bb34c 100644
--- a/pkg/rangedbui/templates/aggregate-types-live.gohtml
+++ b/pkg/rangedbui/templates/aggregate-types-live.gohtml
@@ -29,7 +29,7 @@
                     </thead>
                     <tbody>
                     <tr v-for="aggregateType in aggregateTypes" :key="aggregateType.Name">
-                        <td><a :href="'/a/' + aggregateType.Name + '/live'">${aggregateType.Name}</a></td>
+                        <td><a :href="'/a/' + encodeURIComponent(aggregateType.Name) + '/live'">${aggregateType.Name}</a></td>
                         <td>${ Number(aggregateType.TotalEvents).toLocaleString() }</td>
                     </tr>
                     </tbody>
diff --git a/pkg/rangedbui/templates/aggregate-types.gohtml b/pkg/rangedbui/templates/aggregate-types.gohtml
index 613975b..a7ea7e3 100644
--- a/pkg/rangedbui/templates/aggregate-types.gohtml
+++ b/pkg/rangedbui/templates/aggregate-types.gohtml
@@ -27,7 +27,7 @@
                     <tbody>
                     {{range .AggregateTypes}}
                     <tr>
-                        <td><a href="/a/{{.Name}}">{{.Name}}</a></td>
+                        <td><a href="/a/{{.Name | pathEscape}}">{{.Name}}</a></td>
                         <td>{{.TotalEvents | formatUint64}}</td>
                     </tr>
                     {{end}}
diff --git a/pkg/rangedbui/templates/layout/records.gohtml b/pkg/rangedbui/templates/layout/records.gohtml
index cd4ac2c..03eedb6 100644
--- a/pkg/rangedbui/templates/layout/records.gohtml
+++ b/pkg/rangedbui/templates/layout/records.gohtml
@@ -19,8 +19,8 @@
             <td>{{.GlobalSequenceNumber}}</td>
             <td>{{.StreamSequenceNumber}}</td>
             <td>{{.EventType}}</td>
-            <td><a href="/a/{{.AggregateType}}">{{.AggregateType}}</a></td>
-            <td><a href="/s/{{.StreamName}}">{{.StreamName}}</a></td>
+            <td><a href="/a/{{.AggregateType | pathEscape}}">{{.AggregateType}}</a></td>
+            <td><a href="/s/{{.StreamName | pathEscape}}">{{.StreamName}}</a></td>
             <td class="date">{{formatDate .InsertTimestamp "Jan 02, 2006 15:04:05 UTC"}}</td>
             <td class="event-data">{{formatJson .Data}}</td>
         </tr>
-- 
2.43.0


From e228f7f143646abcbb21732e2340f09ec563c57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:31 +0000
Subject: [PATCH 44/74] fix: generated code for names that start with a letter
 outside ASCII

---
 pkg/aggregategenerator/write_aggregate.go | 3 ++-
 pkg/eventparser/event_writer.go           | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/aggregategenerator/write_aggregate.go b/pkg/aggregategenerator/write_aggregate.go
index bee0cfc..2c69fd2 100644
--- a/pkg/aggregategenerator/write_aggregate.go
+++ b/pkg/aggregategenerator/write_aggregate.go
@@ -6,6 +6,7 @@ import (
 	"text/template"
 	"time"
 	"unicode"
+	"unicode/utf8"
 )
 
 var NowFunc = time.Now
@@ -35,7 +36,7 @@ type templateData struct {
 
 func lcFirst(str string) string {
 	for i, v := range str {
-		return string(unicode.ToLower(v)) + str[i+1:]
+		return string(unicode.ToLower(v)) + str[i+utf8.RuneLen(v):]
 	}
 	return ""
 }
diff --git a/pkg/eventparser/event_writer.go b/pkg/eventparser/event_writer.go
index c551511..21e6425 100644
--- a/pkg/eventparser/event_writer.go
+++ b/pkg/eventparser/event_writer.go
@@ -6,6 +6,7 @@ import (
 	"text/template"
 	"time"
 	"unicode"
+	"unicode/utf8"
 )
 
 var NowFunc = time.Now
@@ -49,7 +50,7 @@ type templateData struct {
 
 func lcFirst(str string) string {
 	for i, v := range str {
-		return string(unicode.ToLower(v)) + str[i+1:]
+		return string(unicode.ToLower(v)) + str[i+utf8.RuneLen(v):]
 	}
 	return ""
 }
-- 
2.43.0


From 473cadfbca8ee18f08c3979f074b50cbd1c035f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:57 +0000
Subject: [PATCH 45/74] fix: generated events compile for fields named like a
 keyword or a variable of the method

---
 pkg/eventparser/event_writer.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pkg/eventparser/event_writer.go b/pkg/eventparser/event_writer.go
index 21e6425..5c43287 100644
--- a/pkg/eventparser/event_writer.go
+++ b/pkg/eventparser/event_writer.go
@@ -2,7 +2,9 @@ package eventparser
 
 import (
 	"fmt"
+	"go/token"
 	"io"
+	"strings"
 	"text/template"
 	"time"
 	"unicode"
@@ -55,8 +57,25 @@ func lcFirst(str string) string {
 	return ""
 }
 
+// varName returns the local variable name for a field, without hiding or
+// repeating another name used in the generated methods.
+func varName(fieldName string) string {
+	name := lcFirst(fieldName)
+
+	switch name {
+	case "e", "err", "encryptor", "crypto", "strconv", "nil":
+		return name + "_"
+	}
+
+	if token.IsKeyword(name) || strings.HasPrefix(name, "string") || strings.HasPrefix(name, "decrypted") {
+		return name + "_"
+	}
+
+	return name
+}
+
 var funcMap = template.FuncMap{
-	"LcFirst": lcFirst,
+	"LcFirst": varName,
 }
 
 var fileTemplate = template.Must(template.New("").Funcs(funcMap).Parse(`// Code generated by go generate; DO NOT EDIT.
-- 
2.43.0


From d907481fa833599f154c410b0542e5c1398da321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:03 +0000
Subject: [PATCH 46/74] fix: generated code quotes the aggregate type

---
 pkg/commandgenerator/write_command.go | 2 +-
 pkg/eventparser/event_writer.go       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/commandgenerator/write_command.go b/pkg/commandgenerator/write_command.go
index 3cca7d2..68055b6 100644
--- a/pkg/commandgenerator/write_command.go
+++ b/pkg/commandgenerator/write_command.go
@@ -39,7 +39,7 @@ package {{ $.Package }}
 {{- range .Commands }}
 
 func (c {{ . }}) AggregateID() string   { return c.{{ $.ID }} }
-func (c {{ . }}) AggregateType() string { return "{{ $.AggregateType }}" }
+func (c {{ . }}) AggregateType() string { return {{ $.AggregateType | printf "%q" }} }
 func (c {{ . }}) CommandType() string   { return "{{ . }}" }
 {{- end }}
 `))
diff --git a/pkg/eventparser/event_writer.go b/pkg/eventparser/event_writer.go
index 5c43287..c5cbbb5 100644
--- a/pkg/eventparser/event_writer.go
+++ b/pkg/eventparser/event_writer.go
@@ -96,7 +96,7 @@ import (
 {{- range .Events }}
 
 func (e {{ .Name }}) AggregateID() string   { return e.{{ $.ID }} }
-func (e {{ .Name }}) AggregateType() string { return "{{ $.AggregateType }}" }
+func (e {{ .Name }}) AggregateType() string { return {{ $.AggregateType | printf "%q" }} }
 func (e {{ .Name }}) EventType() string     { return "{{ .Name }}" }
 
 {{- if .PersonalData }}
-- 
2.43.0


From 62db59937f5c1eaad6102e9fba32d895d094c6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:38 +0000
Subject: [PATCH 47/74] fix: every field of a declaration with several names is
 encrypted

---
 pkg/eventparser/event_parser.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/pkg/eventparser/event_parser.go b/pkg/eventparser/event_parser.go
index 6a254ea..f95a4f5 100644
--- a/pkg/eventparser/event_parser.go
+++ b/pkg/eventparser/event_parser.go
@@ -50,7 +50,7 @@ func (v *structVisitor) Visit(node ast.Node) (w ast.Visitor) {
 			var subjectID string
 			var personalDataFields []string
 			var serializedFields map[string]string
-			for _, field := range value.Fields.List {
+			for _, field := range oneNamePerField(value.Fields.List) {
 				// log.Printf(" %v - %v", field.Names, field.Tag)
 				if field.Tag == nil || len(field.Names) == 0 {
 					continue
@@ -85,7 +85,7 @@ func (v *structVisitor) Visit(node ast.Node) (w ast.Visitor) {
 				}
 			}
 
-			for _, field := range value.Fields.List {
+			for _, field := range oneNamePerField(value.Fields.List) {
 				if len(field.Names) == 0 {
 					continue
 				}
@@ -121,3 +121,22 @@ func (v *structVisitor) Visit(node ast.Node) (w ast.Visitor) {
 
 	return v
 }
+
+// oneNamePerField splits declarations of several fields, such as "A, B string".
+func oneNamePerField(fields []*ast.Field) []*ast.Field {
+	var split []*ast.Field
+	for _, field := range fields {
+		if len(field.Names) < 2 {
+			split = append(split, field)
+			continue
+		}
+
+		for _, name := range field.Names {
+			single := *field
+			single.Names = []*ast.Ident{name}
+			split = append(split, &single)
+		}
+	}
+
+	return split
+}
-- 
2.43.0


From 2048ec5e61e46a9581fa87ed1fbab8e95af5ff31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:44 +0000
Subject: [PATCH 48/74] fix: encrypt tags in double quotes are not ignored

---
 pkg/eventparser/event_parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/eventparser/event_parser.go b/pkg/eventparser/event_parser.go
index f95a4f5..3b3b1c0 100644
--- a/pkg/eventparser/event_parser.go
+++ b/pkg/eventparser/event_parser.go
@@ -6,7 +6,7 @@ import (
 	"go/parser"
 	"go/token"
 	"io"
-	"strings"
+	"strconv"
 
 	"github.com/fatih/structtag"
 )
@@ -57,7 +57,11 @@ func (v *structVisitor) Visit(node ast.Node) (w ast.Visitor) {
 				}
 
 				fieldName := field.Names[0].String()
-				tagString := strings.Replace(field.Tag.Value, "`", "", 2)
+				tagString, err := strconv.Unquote(field.Tag.Value)
+				if err != nil {
+					continue
+				}
+
 				tags, err := structtag.Parse(tagString)
 				if err != nil {
 					continue
-- 
2.43.0


From 8adbec49ca2f3fbefe03ef8649f4b37768ccf556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:51 +0000
Subject: [PATCH 49/74] fix: malformed personal data declarations are refused

---
 pkg/eventparser/event_parser.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/eventparser/event_parser.go b/pkg/eventparser/event_parser.go
index 3b3b1c0..ac6c25e 100644
--- a/pkg/eventparser/event_parser.go
+++ b/pkg/eventparser/event_parser.go
@@ -84,11 +84,19 @@ func (v *structVisitor) Visit(node ast.Node) (w ast.Visitor) {
 						if serializedFields == nil {
 							serializedFields = make(map[string]string)
 						}
+						if _, ok := serializedFields[serializedTag.Name]; ok {
+							v.err = fmt.Errorf("string target is used by two serialized personal data fields")
+						}
 						serializedFields[serializedTag.Name] = fieldName
 					}
 				}
 			}
 
+			if subjectID == "" && len(personalDataFields)+len(serializedFields) > 0 {
+				v.err = fmt.Errorf("no subject-id for personal data")
+			}
+
+			targetsFound := 0
 			for _, field := range oneNamePerField(value.Fields.List) {
 				if len(field.Names) == 0 {
 					continue
@@ -96,12 +104,17 @@ func (v *structVisitor) Visit(node ast.Node) (w ast.Visitor) {
 
 				fieldName := field.Names[0].String()
 				if _, ok := serializedFields[fieldName]; ok {
+					targetsFound++
 					if fmt.Sprintf("%s", field.Type) != "string" {
 						v.err = fmt.Errorf("no string target for serialized personal data")
 					}
 				}
 			}
 
+			if targetsFound < len(serializedFields) {
+				v.err = fmt.Errorf("no string target for serialized personal data")
+			}
+
 			var parsedEvent ParsedEvent
 			if subjectID != "" {
 				parsedEvent = ParsedEvent{
-- 
2.43.0


From ed36f853bc3f63e6567441fa6a53368d4b64b44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:56 +0000
Subject: [PATCH 50/74] fix: generated aggregates compile for commands and
 events named like a keyword or a generated method

---
 pkg/aggregategenerator/write_aggregate.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pkg/aggregategenerator/write_aggregate.go b/pkg/aggregategenerator/write_aggregate.go
index 2c69fd2..47b42b1 100644
--- a/pkg/aggregategenerator/write_aggregate.go
+++ b/pkg/aggregategenerator/write_aggregate.go
@@ -2,6 +2,7 @@ package aggregategenerator
 
 import (
 	"fmt"
+	"go/token"
 	"io"
 	"text/template"
 	"time"
@@ -41,8 +42,25 @@ func lcFirst(str string) string {
 	return ""
 }
 
+// methodName returns the name of the method that handles a command or event,
+// which must not be a keyword or the name of a generated method.
+func methodName(structName string) string {
+	name := lcFirst(structName)
+
+	switch name {
+	case "apply", "raise", "resetPendingEvents", "pendingEvents":
+		return name + "_"
+	}
+
+	if token.IsKeyword(name) {
+		return name + "_"
+	}
+
+	return name
+}
+
 var funcMap = template.FuncMap{
-	"LcFirst": lcFirst,
+	"LcFirst": methodName,
 }
 
 var fileTemplate = template.Must(template.New("").Funcs(funcMap).Parse(`// Code generated by go generate; DO NOT EDIT.
-- 
2.43.0


From 39d01e5ade13cfe58dc5a1b05754bf312416043b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:15 +0000
Subject: [PATCH 51/74] Revert "fix: chat example counts warnings before it
 processes the next event"

This reverts commit 821ff8abea6ad6535a13bf911ff5770803e8b43f.
---
 examples/chat/chat.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/examples/chat/chat.go b/examples/chat/chat.go
index 339064f..76bb447 100644
--- a/examples/chat/chat.go
+++ b/examples/chat/chat.go
@@ -2,7 +2,6 @@ package chat
 
 import (
 	"context"
-	"sync/atomic"
 
 	"github.com/inklabs/rangedb"
 	"github.com/inklabs/rangedb/pkg/cqrs"
@@ -26,20 +25,17 @@ func New(store rangedb.Store) (cqrs.CommandDispatcher, error) {
 	ctx := context.Background()
 	const bufferSize = 10
 
-	// Block until all previous events have been read, then process only new events.
-	// One subscription for both counts the warnings before each event is processed.
-	var isLive int32
-	err := store.AllEventsSubscription(ctx, bufferSize, rangedb.RecordSubscriberFunc(func(record *rangedb.Record) {
-		warnedUsers.Accept(record)
+	// Block until all previous events have been read
+	err := store.AllEventsSubscription(ctx, bufferSize, warnedUsers).StartFrom(0)
+	if err != nil {
+		return nil, err
+	}
 
-		if atomic.LoadInt32(&isLive) == 1 {
-			restrictedWordProcessor.Accept(record)
-		}
-	})).StartFrom(0)
+	// Subscribe to only new events
+	err = store.AllEventsSubscription(ctx, bufferSize, restrictedWordProcessor).Start()
 	if err != nil {
 		return nil, err
 	}
-	atomic.StoreInt32(&isLive, 1)
 
 	return app, nil
 }
-- 
2.43.0


From 6e0e89cd1aecc3b2b1d3f19736fca36e49602396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:54 +0000
Subject: [PATCH 52/74] fix: concurrent commands do not share the pending
 events of an aggregate

---
 pkg/cqrs/cqrs.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/cqrs/cqrs.go b/pkg/cqrs/cqrs.go
index db0e473..9a8d0aa 100644
--- a/pkg/cqrs/cqrs.go
+++ b/pkg/cqrs/cqrs.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"io/ioutil"
 	"log"
+	"sync"
 
 	"github.com/inklabs/rangedb"
 )
@@ -30,6 +31,9 @@ type cqrs struct {
 	store      rangedb.Store
 	aggregates map[string]Aggregate
 	logger     *log.Logger
+
+	// handlerMux protects aggregates, which are shared by all commands.
+	handlerMux sync.Mutex
 }
 
 // Option defines functional option parameters for App.
@@ -77,11 +81,17 @@ func (c *cqrs) Dispatch(command Command) []rangedb.Event {
 		return preHandlerEvents
 	}
 
+	// Events are saved after unlocking, a subscriber may be waiting to dispatch another command.
+	var unlock sync.Once
+	c.handlerMux.Lock()
+	defer unlock.Do(c.handlerMux.Unlock)
+
 	ctx := context.Background()
 	streamName := rangedb.GetEventStream(command)
 	eventStream := c.store.EventsByStream(ctx, 0, streamName)
 	commandHandler.Load(eventStream)
 	handlerEvents := commandHandler.Handle(command)
+	unlock.Do(c.handlerMux.Unlock)
 
 	events := append(preHandlerEvents, handlerEvents...)
 	return c.saveEvents(ctx, events)
-- 
2.43.0


From 98db7777303051125f90df06ebe76bd76f8fb23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:16 +0000
Subject: [PATCH 53/74] fix: finish requests and close the store when the
 server is interrupted

---
 cmd/rangedb/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/rangedb/main.go b/cmd/rangedb/main.go
index 43d2a07..b0c14fd 100644
--- a/cmd/rangedb/main.go
+++ b/cmd/rangedb/main.go
@@ -206,7 +206,7 @@ func nilFunc() error {
 func serveHTTP(srv *http.Server, listener net.Listener) {
 	fmt.Printf("Listening: http://%s\n", listener.Addr().String())
 	err := srv.Serve(listener)
-	if err != nil {
+	if err != nil && err != http.ErrServerClosed {
 		log.Fatal(err)
 	}
 }
-- 
2.43.0


From 6fc6c2ced204c87f2213d52e6229d6387a5c5da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:17 +0000
Subject: [PATCH 54/74] fix: keep the snapshots of databases with the same
 relative path apart

---
 cmd/rangedb/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/rangedb/main.go b/cmd/rangedb/main.go
index b0c14fd..bdcf069 100644
--- a/cmd/rangedb/main.go
+++ b/cmd/rangedb/main.go
@@ -191,7 +191,12 @@ func getStore(levelDBPath string, logger *log.Logger) (rangedb.Store, string, fu
 		}
 
 		fmt.Println("Using LevelDB Store")
-		return levelDBStore, levelDBPath, levelDBStore.Stop, nil
+		absolutePath, err := filepath.Abs(levelDBPath)
+		if err != nil {
+			log.Fatalf("Unable to get absolute path (%s): %v", levelDBPath, err)
+		}
+
+		return levelDBStore, absolutePath, levelDBStore.Stop, nil
 	}
 
 	inMemoryStore := inmemorystore.New(inmemorystore.WithLogger(logger))
-- 
2.43.0


From 53231ba6e4076488021c15ad1a84a7a6f46026dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:17 +0000
Subject: [PATCH 55/74] fix: do not print the last event again after
 reconnecting

---
 cmd/grpc-event-subscriber/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/grpc-event-subscriber/main.go b/cmd/grpc-event-subscriber/main.go
index fb6da0c..0c73277 100644
--- a/cmd/grpc-event-subscriber/main.go
+++ b/cmd/grpc-event-subscriber/main.go
@@ -104,7 +104,7 @@ func (s *grpcEventSubscriber) connectAndListen(ctx context.Context) {
 			log.Printf("error received: %v", err)
 			return
 		}
-		s.globalSequenceNumber = record.GlobalSequenceNumber
+		s.globalSequenceNumber = record.GlobalSequenceNumber + 1
 		fmt.Println(record)
 	}
 }
-- 
2.43.0


From f04828e69564717a92a90fac6807d202631472fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:49 +0000
Subject: [PATCH 56/74] fix: generate the requested number of events

---
 cmd/gen-random-events/main.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cmd/gen-random-events/main.go b/cmd/gen-random-events/main.go
index fd99185..63135e2 100644
--- a/cmd/gen-random-events/main.go
+++ b/cmd/gen-random-events/main.go
@@ -61,8 +61,12 @@ func main() {
 	go func() {
 		total := uint64(0)
 		ctx := context.Background()
-		for {
+		for total < *totalEvents {
 			eventsPerStream := rand.Intn(*maxEventsPerStream) + 1
+			if remaining := *totalEvents - total; uint64(eventsPerStream) > remaining {
+				eventsPerStream = int(remaining)
+			}
+
 			eventRecords := getNEvents(eventsPerStream, shortuuid.New().String(), *eventType)
 			streamName := rangedb.GetEventStream(eventRecords[0].Event)
 			_, err := store.Save(ctx, streamName, eventRecords...)
@@ -76,12 +80,9 @@ func main() {
 			}
 			total += uint64(eventsPerStream)
 			fmt.Printf("\rSaved %d events", total)
-
-			if total >= *totalEvents {
-				close(stop)
-				return
-			}
 		}
+
+		close(stop)
 	}()
 
 	<-stop
-- 
2.43.0


From 29e3a9fca7c3b3ac2796409134f68b5a2f69514f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:49 +0000
Subject: [PATCH 57/74] fix: do not lose a signal that arrives early

---
 cmd/gen-random-events/main.go   | 2 +-
 cmd/ws-event-subscriber/main.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/gen-random-events/main.go b/cmd/gen-random-events/main.go
index 63135e2..64314f1 100644
--- a/cmd/gen-random-events/main.go
+++ b/cmd/gen-random-events/main.go
@@ -50,7 +50,7 @@ func main() {
 		connectDone()
 	}()
 
-	stop := make(chan os.Signal)
+	stop := make(chan os.Signal, 1)
 	signal.Notify(stop, os.Interrupt, syscall.SIGTERM)
 
 	store, err := remotestore.New(conn)
diff --git a/cmd/ws-event-subscriber/main.go b/cmd/ws-event-subscriber/main.go
index 45b60af..7d3c4e8 100644
--- a/cmd/ws-event-subscriber/main.go
+++ b/cmd/ws-event-subscriber/main.go
@@ -45,7 +45,7 @@ func main() {
 	}
 	defer closeOrLog(socket)
 
-	stop := make(chan os.Signal)
+	stop := make(chan os.Signal, 1)
 	signal.Notify(stop, os.Interrupt, syscall.SIGTERM)
 
 	go readEventsForever(socket, stop)
-- 
2.43.0


From 1fb1228e785d0c261dbafe4f8c2c40a127e8f6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:33 +0000
Subject: [PATCH 58/74] fix: a gRPC subscriber that stops reading while it
 catches up does not block writers forever

---
 pkg/grpc/rangedbserver/server.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index 73dada0..9aff9c1 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"log"
+	"time"
 
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/metadata"
@@ -19,6 +20,9 @@ import (
 const (
 	broadcastRecordBuffSize  = 100
 	subscriberRecordBuffSize = 20
+
+	// A subscriber that stops reading must not keep a read of the store open, which would block writers.
+	sendTimeout = 5 * time.Second
 )
 
 type void struct{}
@@ -366,7 +370,7 @@ func (s *rangeDBServer) broadcastRecord(stream streamSender, record *rangedb.Rec
 		return err
 	}
 
-	err = stream.Send(pbRecord)
+	err = sendOrTimeout(stream, pbRecord)
 	if err != nil {
 		log.Printf("unable to send record to gRPC client: %v", err)
 		return err
@@ -375,6 +379,25 @@ func (s *rangeDBServer) broadcastRecord(stream streamSender, record *rangedb.Rec
 	return nil
 }
 
+// sendOrTimeout gives up on a client that stops reading. The pending Send ends with its stream.
+func sendOrTimeout(stream streamSender, pbRecord *rangedbpb.Record) error {
+	sent := make(chan error, 1)
+	go func() {
+		sent <- stream.Send(pbRecord)
+	}()
+
+	timer := time.NewTimer(sendTimeout)
+	defer timer.Stop()
+
+	select {
+	case err := <-sent:
+		return err
+
+	case <-timer.C:
+		return status.Error(codes.DeadlineExceeded, "client stopped reading")
+	}
+}
+
 // PbRecordSender defines the interface for sending a protobuf record.
 type PbRecordSender interface {
 	Send(*rangedbpb.Record) error
-- 
2.43.0


From 6d2a54261f7eb93e6877cc30e451ac2e3d40f5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:34 +0000
Subject: [PATCH 59/74] fix: the event generator accepts a field with a blank
 tag instead of crashing

---
 pkg/eventparser/event_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/eventparser/event_parser.go b/pkg/eventparser/event_parser.go
index ac6c25e..4f3b5ca 100644
--- a/pkg/eventparser/event_parser.go
+++ b/pkg/eventparser/event_parser.go
@@ -63,7 +63,7 @@ func (v *structVisitor) Visit(node ast.Node) (w ast.Visitor) {
 				}
 
 				tags, err := structtag.Parse(tagString)
-				if err != nil {
+				if err != nil || tags == nil {
 					continue
 				}
 
-- 
2.43.0


From e96d1e5cf421804dc461031aff3083db85381797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:12 +0000
Subject: [PATCH 60/74] fix: a batch whose first event has an empty aggregate
 type or id cannot mix aggregates

---
 provider/eventstore/eventstore.go        |  6 +++---
 provider/inmemorystore/inmemory_store.go |  6 +++---
 provider/leveldbstore/leveldb_store.go   |  6 +++---
 provider/remotestore/remote_store.go     | 12 ++++++------
 4 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/provider/eventstore/eventstore.go b/provider/eventstore/eventstore.go
index 8796f09..c513d8d 100644
--- a/provider/eventstore/eventstore.go
+++ b/provider/eventstore/eventstore.go
@@ -631,12 +631,12 @@ func (s *eventStore) saveEvents(ctx context.Context, expectedStreamSequenceNumbe
 
 	var proposedEvents []esdb.EventData
 
-	for _, eventRecord := range eventRecords {
-		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
+	for i, eventRecord := range eventRecords {
+		if i > 0 && aggregateType != eventRecord.Event.AggregateType() {
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
-		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
+		if i > 0 && aggregateID != eventRecord.Event.AggregateID() {
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
 
diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index a69fce4..479252c 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -248,13 +248,13 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 	s.mux.Lock()
 	defer s.mux.Unlock()
 
-	for _, eventRecord := range eventRecords {
-		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
+	for i, eventRecord := range eventRecords {
+		if i > 0 && aggregateType != eventRecord.Event.AggregateType() {
 			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
-		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
+		if i > 0 && aggregateID != eventRecord.Event.AggregateID() {
 			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index eb03edb..5abbfea 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -241,12 +241,12 @@ func (s *levelDbStore) saveEvents(ctx context.Context, expectedStreamSequenceNum
 	}
 	defer transaction.Discard()
 
-	for _, eventRecord := range eventRecords {
-		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
+	for i, eventRecord := range eventRecords {
+		if i > 0 && aggregateType != eventRecord.Event.AggregateType() {
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
-		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
+		if i > 0 && aggregateID != eventRecord.Event.AggregateID() {
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
 
diff --git a/provider/remotestore/remote_store.go b/provider/remotestore/remote_store.go
index b2c1dce..8877c9b 100644
--- a/provider/remotestore/remote_store.go
+++ b/provider/remotestore/remote_store.go
@@ -151,14 +151,14 @@ func (s *remoteStore) OptimisticSave(ctx context.Context, expectedStreamSequence
 	var aggregateType, aggregateID string
 
 	var events []*rangedbpb.Event
-	for _, eventRecord := range eventRecords {
+	for i, eventRecord := range eventRecords {
 		// TODO: Allow mixed aggregate types?
-		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
+		if i > 0 && aggregateType != eventRecord.Event.AggregateType() {
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
 		// TODO: Allow mixed aggregate IDs?
-		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
+		if i > 0 && aggregateID != eventRecord.Event.AggregateID() {
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
 
@@ -214,14 +214,14 @@ func (s *remoteStore) Save(ctx context.Context, streamName string, eventRecords
 	var aggregateType, aggregateID string
 
 	var events []*rangedbpb.Event
-	for _, eventRecord := range eventRecords {
+	for i, eventRecord := range eventRecords {
 		// TODO: Allow mixed aggregate types?
-		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
+		if i > 0 && aggregateType != eventRecord.Event.AggregateType() {
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
 		// TODO: Allow mixed aggregate IDs?
-		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
+		if i > 0 && aggregateID != eventRecord.Event.AggregateID() {
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
 
-- 
2.43.0


From 16a230bfe3762ebb36874c0df78f83946d3716e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:28 +0000
Subject: [PATCH 61/74] fix: a page of the web interface whose records could
 not be read is an error, not a short page

---
 pkg/rangedbui/ui.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/pkg/rangedbui/ui.go b/pkg/rangedbui/ui.go
index ec81497..f67f465 100644
--- a/pkg/rangedbui/ui.go
+++ b/pkg/rangedbui/ui.go
@@ -174,13 +174,18 @@ func (a *webUI) aggregateType(w http.ResponseWriter, r *http.Request) {
 	pagination := paging.NewPaginationFromQuery(r.URL.Query())
 
 	globalSequenceNumber := pagination.CurrentIndex
+	var iterator rangedb.RecordIterator
 	records := rangedb.ReadNRecords(
 		pagination.ItemsPerPage+1,
 		func() (rangedb.RecordIterator, context.CancelFunc) {
 			ctx, done := context.WithCancel(r.Context())
-			return a.store.EventsByAggregateTypes(ctx, globalSequenceNumber, aggregateTypeName), done
+			iterator = a.store.EventsByAggregateTypes(ctx, globalSequenceNumber, aggregateTypeName)
+			return iterator, done
 		},
 	)
+	if len(records) <= int(pagination.ItemsPerPage) && writeReadError(w, iterator.Err()) {
+		return
+	}
 
 	nextIndex := pagination.CurrentIndex
 	if len(records) > int(pagination.ItemsPerPage) {
@@ -214,13 +219,18 @@ func (a *webUI) stream(w http.ResponseWriter, r *http.Request) {
 	pagination := paging.NewPaginationFromQuery(r.URL.Query())
 
 	streamSequenceNumber := pagination.CurrentIndex
+	var iterator rangedb.RecordIterator
 	records := rangedb.ReadNRecords(
 		pagination.ItemsPerPage+1,
 		func() (rangedb.RecordIterator, context.CancelFunc) {
 			ctx, done := context.WithCancel(r.Context())
-			return a.store.EventsByStream(ctx, streamSequenceNumber, streamName), done
+			iterator = a.store.EventsByStream(ctx, streamSequenceNumber, streamName)
+			return iterator, done
 		},
 	)
+	if len(records) <= int(pagination.ItemsPerPage) && writeReadError(w, iterator.Err()) {
+		return
+	}
 
 	nextIndex := pagination.CurrentIndex
 	if len(records) > int(pagination.ItemsPerPage) {
@@ -252,6 +262,21 @@ func (a *webUI) stream(w http.ResponseWriter, r *http.Request) {
 	})
 }
 
+// writeReadError responds with an error when a page could not be read completely.
+func writeReadError(w http.ResponseWriter, err error) bool {
+	if err == nil || errors.Is(err, rangedb.ErrStreamNotFound) {
+		return false
+	}
+
+	if errors.Is(err, context.Canceled) {
+		http.Error(w, "Request Timeout", http.StatusRequestTimeout)
+		return true
+	}
+
+	http.Error(w, "500 Internal Server Error", http.StatusInternalServerError)
+	return true
+}
+
 func (a *webUI) aggregateTypeLive(w http.ResponseWriter, r *http.Request) {
 	aggregateTypeName := mux.Vars(r)["aggregateType"]
 
-- 
2.43.0


From e235649710a5d3ccf4b47e53facb42f667a57a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:18 +0000
Subject: [PATCH 62/74] fix: postgresstore generates event ids by default, like
 the other stores, instead of crashing

---
 provider/postgresstore/postgres_store.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index d3139f9..0962723 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -83,10 +83,11 @@ func WithPgNotify() Option {
 // New constructs an postgresStore.
 func New(config *Config, options ...Option) (*postgresStore, error) {
 	s := &postgresStore{
-		config:      config,
-		clock:       systemclock.New(),
-		serializer:  jsonrecordserializer.New(),
-		broadcaster: broadcast.New(broadcastRecordBuffSize, broadcast.DefaultTimeout),
+		config:        config,
+		clock:         systemclock.New(),
+		uuidGenerator: shortuuid.NewUUIDGenerator(),
+		serializer:    jsonrecordserializer.New(),
+		broadcaster:   broadcast.New(broadcastRecordBuffSize, broadcast.DefaultTimeout),
 	}
 
 	for _, option := range options {
-- 
2.43.0


From 50b1b2534d29b6b1b13d96356c057d38d46ab6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:36 +0000
Subject: [PATCH 63/74] fix: postgresstore reads metadata back instead of
 failing after it was saved

---
 provider/postgresstore/postgres_store.go | 47 +++++++++++++-----------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index 0962723..ed7d00c 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -403,12 +403,9 @@ func (s *postgresStore) batchNotifySubscribers(saveResult *saveResults) error {
 			return fmt.Errorf("unable to decode data: %v", err)
 		}
 
-		var metadata interface{}
-		if batchRecord.Metadata != "null" {
-			err = json.Unmarshal([]byte(batchRecord.Metadata), metadata)
-			if err != nil {
-				return fmt.Errorf("unable to unmarshal metadata: %v", err)
-			}
+		metadata, err := decodeMetadata(batchRecord.Metadata)
+		if err != nil {
+			return fmt.Errorf("unable to unmarshal metadata: %v", err)
 		}
 
 		record.Data = deSerializedData
@@ -643,14 +640,11 @@ func (s *postgresStore) readResultRecords(ctx context.Context, rows *sql.Rows, r
 			return 0, decodeErr
 		}
 
-		var metadata interface{}
-		if serializedMetadata != "null" {
-			err = json.Unmarshal([]byte(serializedMetadata), metadata)
-			if err != nil {
-				unmarshalErr := fmt.Errorf("unable to unmarshal metadata: %v", err)
-				resultRecords <- rangedb.ResultRecord{Err: unmarshalErr}
-				return 0, unmarshalErr
-			}
+		metadata, err := decodeMetadata(serializedMetadata)
+		if err != nil {
+			unmarshalErr := fmt.Errorf("unable to unmarshal metadata: %v", err)
+			resultRecords <- rangedb.ResultRecord{Err: unmarshalErr}
+			return 0, unmarshalErr
 		}
 
 		record := &rangedb.Record{
@@ -682,6 +676,20 @@ func (s *postgresStore) readResultRecords(ctx context.Context, rows *sql.Rows, r
 	return recordsRead, nil
 }
 
+// decodeMetadata decodes metadata without losing the precision of numbers.
+func decodeMetadata(serializedMetadata string) (interface{}, error) {
+	decoder := json.NewDecoder(strings.NewReader(serializedMetadata))
+	decoder.UseNumber()
+
+	var metadata interface{}
+	err := decoder.Decode(&metadata)
+	if err != nil {
+		return nil, err
+	}
+
+	return metadata, nil
+}
+
 func (s *postgresStore) connectToDB() error {
 	db, err := sql.Open("postgres", s.config.DataSourceName())
 	if err != nil {
@@ -751,13 +759,10 @@ func (s *postgresStore) listen(listener *pq.Listener) {
 				return
 			}
 
-			var metadata interface{}
-			if jsonRecord.Metadata != "null" {
-				err = json.Unmarshal([]byte(jsonRecord.Metadata), metadata)
-				if err != nil {
-					log.Printf("unable to unmarshal metadata: %v", err)
-					return
-				}
+			metadata, err := decodeMetadata(jsonRecord.Metadata)
+			if err != nil {
+				log.Printf("unable to unmarshal metadata: %v", err)
+				return
 			}
 
 			record := &rangedb.Record{
-- 
2.43.0


From 86d0f06352e138aaadf85234743bfb21d3154704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:59 +0000
Subject: [PATCH 64/74] fix: postgresstore does not report an existing stream
 as missing when it is read from beyond its end

---
 provider/postgresstore/postgres_store.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index ed7d00c..d182c3e 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -216,7 +216,16 @@ func (s *postgresStore) EventsByStream(ctx context.Context, streamSequenceNumber
 
 		recordsRead, err := s.readResultRecords(ctx, rows, resultRecords)
 		if err == nil && recordsRead == 0 {
-			resultRecords <- rangedb.ResultRecord{Err: rangedb.ErrStreamNotFound}
+			// A stream without records from the given number on may still exist.
+			lastStreamSequenceNumber, err := s.getStreamSequenceNumber(ctx, s.db, streamName)
+			if err != nil {
+				resultRecords <- rangedb.ResultRecord{Err: err}
+				return
+			}
+
+			if lastStreamSequenceNumber == 0 {
+				resultRecords <- rangedb.ResultRecord{Err: rangedb.ErrStreamNotFound}
+			}
 		}
 	}()
 
-- 
2.43.0


From 0cc516df90572dc3de16fc59fef0bdafd6c6c0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:23 +0000
Subject: [PATCH 65/74] fix: postgresstore deletes under the lock of the
 stream, and ends the transaction of a refused delete

---
 provider/postgresstore/postgres_store.go | 32 ++++++++++++++++--------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index d182c3e..23a74fc 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -238,6 +238,26 @@ func (s *postgresStore) OptimisticDeleteStream(ctx context.Context, expectedStre
 		return err
 	}
 
+	err = s.deleteStream(ctx, transaction, expectedStreamSequenceNumber, streamName)
+	if err != nil {
+		_ = transaction.Rollback()
+		return err
+	}
+
+	err = transaction.Commit()
+	if err != nil {
+		return err
+	}
+
+	return nil
+}
+
+func (s *postgresStore) deleteStream(ctx context.Context, transaction *sql.Tx, expectedStreamSequenceNumber uint64, streamName string) error {
+	err := s.lockStream(ctx, transaction, streamName)
+	if err != nil {
+		return err
+	}
+
 	streamSequenceNumber, err := s.getStreamSequenceNumber(ctx, transaction, streamName)
 	if err != nil {
 		return err
@@ -255,17 +275,7 @@ func (s *postgresStore) OptimisticDeleteStream(ctx context.Context, expectedStre
 	}
 
 	_, err = transaction.ExecContext(ctx, `DELETE FROM record WHERE StreamName = $1`, streamName)
-	if err != nil {
-		_ = transaction.Rollback()
-		return err
-	}
-
-	err = transaction.Commit()
-	if err != nil {
-		return err
-	}
-
-	return nil
+	return err
 }
 
 func (s *postgresStore) OptimisticSave(ctx context.Context, expectedStreamSequenceNumber uint64, streamName string, eventRecords ...*rangedb.EventRecord) (uint64, error) {
-- 
2.43.0


From da75b1db93dd2d110673997ba6ad89fab93fb1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:15 +0000
Subject: [PATCH 66/74] fix: postgresstore commits and broadcasts events in the
 order of their global sequence numbers

---
 provider/postgresstore/postgres_store.go | 29 ++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index 23a74fc..babed41 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -9,6 +9,7 @@ import (
 	"io"
 	"log"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/lib/pq"
@@ -26,6 +27,9 @@ import (
 const (
 	broadcastRecordBuffSize   = 100
 	streamAdvisoryLockTimeout = 2 * time.Second
+
+	// insertAdvisoryLockKey is outside of the range of the stream lock keys.
+	insertAdvisoryLockKey = int64(1) << 32
 )
 
 type batchSQLRecord struct {
@@ -54,6 +58,7 @@ type postgresStore struct {
 	serializer        JsonSerializer
 	broadcaster       broadcast.Broadcaster
 	pgNotifyIsEnabled bool
+	saveMux           sync.Mutex
 }
 
 // Option defines functional option parameters for postgresStore.
@@ -293,6 +298,12 @@ type saveResults struct {
 }
 
 func (s *postgresStore) transactionalSaveEvents(ctx context.Context, expectedStreamSequenceNumber *uint64, streamName string, eventRecords ...*rangedb.EventRecord) (uint64, error) {
+	if !s.pgNotifyIsEnabled {
+		// Broadcasting inside the lock keeps records in order for subscribers.
+		s.saveMux.Lock()
+		defer s.saveMux.Unlock()
+	}
+
 	transaction, err := s.db.BeginTx(ctx, nil)
 	if err != nil {
 		return 0, err
@@ -345,6 +356,13 @@ func (s *postgresStore) saveEvents(
 		return nil, err
 	}
 
+	// Global sequence numbers become visible in order: a reader or subscriber that has seen
+	// one never finds a lower one that was committed later.
+	err = s.lock(ctx, transaction, insertAdvisoryLockKey)
+	if err != nil {
+		return nil, err
+	}
+
 	globalSequenceNumbers, lastStreamSequenceNumber, err := s.batchInsert(ctx, transaction, batchRecords)
 	if err != nil {
 		return nil, err
@@ -534,12 +552,15 @@ func (s *postgresStore) batchInsert(ctx context.Context, transaction dbQueryable
 }
 
 func (s *postgresStore) lockStream(ctx context.Context, transaction dbExecAble, streamName string) error {
-	lockCtx, cancel := context.WithTimeout(ctx, streamAdvisoryLockTimeout)
-	defer cancel()
-
 	h := fnv.New32a()
 	_, _ = h.Write([]byte(streamName))
-	lockKey := h.Sum32()
+
+	return s.lock(ctx, transaction, int64(h.Sum32()))
+}
+
+func (s *postgresStore) lock(ctx context.Context, transaction dbExecAble, lockKey int64) error {
+	lockCtx, cancel := context.WithTimeout(ctx, streamAdvisoryLockTimeout)
+	defer cancel()
 
 	_, err := transaction.ExecContext(lockCtx, `SELECT pg_advisory_xact_lock($1)`, lockKey)
 	if err != nil {
-- 
2.43.0


From e26dfd12708e8cf3c8986d1d32ab0ca46d614983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:26 +0000
Subject: [PATCH 67/74] fix: postgresstore reads from numbers beyond the range
 of its columns find nothing instead of failing

---
 provider/postgresstore/postgres_store.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index babed41..6379060 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -8,6 +8,7 @@ import (
 	"hash/fnv"
 	"io"
 	"log"
+	"math"
 	"strings"
 	"sync"
 	"time"
@@ -141,10 +142,10 @@ func (s *postgresStore) Events(ctx context.Context, globalSequenceNumber uint64)
 			Data,
 			Metadata
 		FROM record
-		WHERE GlobalSequenceNumber >= $1
+		WHERE GlobalSequenceNumber >= $1::bigint
 		ORDER BY GlobalSequenceNumber`
 		rows, err := s.db.QueryContext(ctx, query,
-			globalSequenceNumber)
+			bigint(globalSequenceNumber))
 		if err != nil {
 			resultRecords <- rangedb.ResultRecord{Err: err}
 			return
@@ -156,6 +157,15 @@ func (s *postgresStore) Events(ctx context.Context, globalSequenceNumber uint64)
 	return rangedb.NewRecordIterator(resultRecords)
 }
 
+// bigint limits a sequence number to the range of the BIGINT type, which no stored number exceeds.
+func bigint(sequenceNumber uint64) int64 {
+	if sequenceNumber > math.MaxInt64 {
+		return math.MaxInt64
+	}
+
+	return int64(sequenceNumber)
+}
+
 func ignoreClose(closer io.Closer) {
 	_ = closer.Close()
 }
@@ -177,10 +187,10 @@ func (s *postgresStore) EventsByAggregateTypes(ctx context.Context, globalSequen
 			Data,
 			Metadata
 		FROM record
-		WHERE AggregateType = ANY($1) AND GlobalSequenceNumber >= $2
+		WHERE AggregateType = ANY($1) AND GlobalSequenceNumber >= $2::bigint
 		ORDER BY GlobalSequenceNumber`
 		rows, err := s.db.QueryContext(ctx, query,
-			pq.Array(aggregateTypes), globalSequenceNumber)
+			pq.Array(aggregateTypes), bigint(globalSequenceNumber))
 		if err != nil {
 			resultRecords <- rangedb.ResultRecord{Err: err}
 			return
@@ -212,7 +222,7 @@ func (s *postgresStore) EventsByStream(ctx context.Context, streamSequenceNumber
 		WHERE StreamName = $1 AND StreamSequenceNumber >= $2 
 		ORDER BY GlobalSequenceNumber`
 		rows, err := s.db.QueryContext(ctx, query,
-			streamName, streamSequenceNumber)
+			streamName, bigint(streamSequenceNumber))
 		if err != nil {
 			resultRecords <- rangedb.ResultRecord{Err: err}
 			return
-- 
2.43.0


From 161753823b742ca079aaf741374f63520993a2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:26 +0000
Subject: [PATCH 68/74] fix: postgresstore reads never wait for a consumer that
 is gone to take an error

---
 provider/postgresstore/postgres_store.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index 6379060..cbc43a7 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -125,7 +125,7 @@ func (s *postgresStore) Bind(events ...rangedb.Event) {
 }
 
 func (s *postgresStore) Events(ctx context.Context, globalSequenceNumber uint64) rangedb.RecordIterator {
-	resultRecords := make(chan rangedb.ResultRecord)
+	resultRecords := make(chan rangedb.ResultRecord, 1)
 
 	go func() {
 		defer close(resultRecords)
@@ -147,7 +147,7 @@ func (s *postgresStore) Events(ctx context.Context, globalSequenceNumber uint64)
 		rows, err := s.db.QueryContext(ctx, query,
 			bigint(globalSequenceNumber))
 		if err != nil {
-			resultRecords <- rangedb.ResultRecord{Err: err}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 			return
 		}
 		defer ignoreClose(rows)
@@ -171,7 +171,7 @@ func ignoreClose(closer io.Closer) {
 }
 
 func (s *postgresStore) EventsByAggregateTypes(ctx context.Context, globalSequenceNumber uint64, aggregateTypes ...string) rangedb.RecordIterator {
-	resultRecords := make(chan rangedb.ResultRecord)
+	resultRecords := make(chan rangedb.ResultRecord, 1)
 
 	go func() {
 		defer close(resultRecords)
@@ -192,7 +192,7 @@ func (s *postgresStore) EventsByAggregateTypes(ctx context.Context, globalSequen
 		rows, err := s.db.QueryContext(ctx, query,
 			pq.Array(aggregateTypes), bigint(globalSequenceNumber))
 		if err != nil {
-			resultRecords <- rangedb.ResultRecord{Err: err}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 			return
 		}
 		defer ignoreClose(rows)
@@ -203,7 +203,7 @@ func (s *postgresStore) EventsByAggregateTypes(ctx context.Context, globalSequen
 }
 
 func (s *postgresStore) EventsByStream(ctx context.Context, streamSequenceNumber uint64, streamName string) rangedb.RecordIterator {
-	resultRecords := make(chan rangedb.ResultRecord)
+	resultRecords := make(chan rangedb.ResultRecord, 1)
 
 	go func() {
 		defer close(resultRecords)
@@ -224,7 +224,7 @@ func (s *postgresStore) EventsByStream(ctx context.Context, streamSequenceNumber
 		rows, err := s.db.QueryContext(ctx, query,
 			streamName, bigint(streamSequenceNumber))
 		if err != nil {
-			resultRecords <- rangedb.ResultRecord{Err: err}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 			return
 		}
 		defer ignoreClose(rows)
@@ -234,12 +234,12 @@ func (s *postgresStore) EventsByStream(ctx context.Context, streamSequenceNumber
 			// A stream without records from the given number on may still exist.
 			lastStreamSequenceNumber, err := s.getStreamSequenceNumber(ctx, s.db, streamName)
 			if err != nil {
-				resultRecords <- rangedb.ResultRecord{Err: err}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 				return
 			}
 
 			if lastStreamSequenceNumber == 0 {
-				resultRecords <- rangedb.ResultRecord{Err: rangedb.ErrStreamNotFound}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, rangedb.ErrStreamNotFound, time.Second)
 			}
 		}
 	}()
@@ -675,7 +675,7 @@ func (s *postgresStore) readResultRecords(ctx context.Context, rows *sql.Rows, r
 			&serializedMetadata,
 		)
 		if err != nil {
-			resultRecords <- rangedb.ResultRecord{Err: err}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 			return 0, err
 		}
 
@@ -686,14 +686,14 @@ func (s *postgresStore) readResultRecords(ctx context.Context, rows *sql.Rows, r
 		)
 		if err != nil {
 			decodeErr := fmt.Errorf("unable to decode data: %v", err)
-			resultRecords <- rangedb.ResultRecord{Err: decodeErr}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, decodeErr, time.Second)
 			return 0, decodeErr
 		}
 
 		metadata, err := decodeMetadata(serializedMetadata)
 		if err != nil {
 			unmarshalErr := fmt.Errorf("unable to unmarshal metadata: %v", err)
-			resultRecords <- rangedb.ResultRecord{Err: unmarshalErr}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, unmarshalErr, time.Second)
 			return 0, unmarshalErr
 		}
 
@@ -719,7 +719,7 @@ func (s *postgresStore) readResultRecords(ctx context.Context, rows *sql.Rows, r
 
 	err := rows.Err()
 	if err != nil {
-		resultRecords <- rangedb.ResultRecord{Err: err}
+		rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 		return 0, err
 	}
 
-- 
2.43.0


From 32e5112703131154fd1a8c2c12b894d6722817c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:32 +0000
Subject: [PATCH 69/74] fix: postgresstore subscribers get every event after a
 lost connection or an unreadable notification

---
 provider/postgresstore/postgres_store.go | 127 +++++++++++++++++------
 1 file changed, 97 insertions(+), 30 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index cbc43a7..43994b4 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -31,6 +31,8 @@ const (
 
 	// insertAdvisoryLockKey is outside of the range of the stream lock keys.
 	insertAdvisoryLockKey = int64(1) << 32
+
+	pgUndefinedTableCode = pq.ErrorCode("42P01")
 )
 
 type batchSQLRecord struct {
@@ -60,6 +62,7 @@ type postgresStore struct {
 	broadcaster       broadcast.Broadcaster
 	pgNotifyIsEnabled bool
 	saveMux           sync.Mutex
+	listener          *pq.Listener
 }
 
 // Option defines functional option parameters for postgresStore.
@@ -115,8 +118,12 @@ func New(config *Config, options ...Option) (*postgresStore, error) {
 	return s, nil
 }
 
-// CloseDB closes the postgres DB connection.
+// CloseDB closes the postgres DB connection, and stops notifying subscribers.
 func (s *postgresStore) CloseDB() error {
+	if s.listener != nil {
+		_ = s.listener.Close()
+	}
+
 	return s.db.Close()
 }
 
@@ -766,14 +773,36 @@ func (s *postgresStore) startPQListener() error {
 	listener := pq.NewListener(s.config.DataSourceName(), 10*time.Second, time.Minute, reportProblem)
 	err := listener.Listen("records")
 	if err != nil {
+		_ = listener.Close()
+		return err
+	}
+
+	lastGlobalSequenceNumber, err := s.getLastGlobalSequenceNumber()
+	if err != nil {
+		_ = listener.Close()
 		return err
 	}
 
-	go s.listen(listener)
+	s.listener = listener
+	go s.listen(listener, lastGlobalSequenceNumber)
 
 	return nil
 }
 
+func (s *postgresStore) getLastGlobalSequenceNumber() (uint64, error) {
+	var globalSequenceNumber uint64
+	err := s.db.QueryRow(`SELECT COALESCE(MAX(GlobalSequenceNumber), 0) FROM record`).Scan(&globalSequenceNumber)
+	if err != nil {
+		if pqErr, ok := err.(*pq.Error); ok && pqErr.Code == pgUndefinedTableCode {
+			return 0, nil
+		}
+
+		return 0, err
+	}
+
+	return globalSequenceNumber, nil
+}
+
 // PostgresJsonRecord holds a JSON record sent via pg_notify.
 type PostgresJsonRecord struct {
 	StreamName           string `json:"streamname"`
@@ -788,46 +817,31 @@ type PostgresJsonRecord struct {
 	Metadata             string `json:"metadata"`
 }
 
-func (s *postgresStore) listen(listener *pq.Listener) {
+func (s *postgresStore) listen(listener *pq.Listener, lastGlobalSequenceNumber uint64) {
 	for {
 		select {
-		case n := <-listener.Notify:
-			var jsonRecord PostgresJsonRecord
-			err := json.Unmarshal([]byte(n.Extra), &jsonRecord)
-			if err != nil {
-				log.Printf("invalid json request body: %v", err)
+		case n, ok := <-listener.Notify:
+			if !ok {
 				return
 			}
 
-			data, err := jsonrecordserializer.DecodeJsonData(
-				jsonRecord.EventType,
-				strings.NewReader(jsonRecord.Data),
-				s.serializer,
-			)
-			if err != nil {
-				log.Printf("unable to decode data: %v", err)
-				return
+			if n == nil {
+				// The connection was lost and established again: notifications may be missing.
+				lastGlobalSequenceNumber = s.broadcastMissedRecords(lastGlobalSequenceNumber)
+				continue
 			}
 
-			metadata, err := decodeMetadata(jsonRecord.Metadata)
+			record, err := s.decodeNotification(n.Extra)
 			if err != nil {
-				log.Printf("unable to unmarshal metadata: %v", err)
-				return
+				log.Print(err)
+				continue
 			}
 
-			record := &rangedb.Record{
-				StreamName:           jsonRecord.StreamName,
-				AggregateType:        jsonRecord.AggregateType,
-				AggregateID:          jsonRecord.AggregateID,
-				GlobalSequenceNumber: jsonRecord.GlobalSequenceNumber,
-				StreamSequenceNumber: jsonRecord.StreamSequenceNumber,
-				InsertTimestamp:      jsonRecord.InsertTimestamp,
-				EventID:              jsonRecord.EventID,
-				EventType:            jsonRecord.EventType,
-				Data:                 data,
-				Metadata:             metadata,
+			if record.GlobalSequenceNumber <= lastGlobalSequenceNumber {
+				continue
 			}
 
+			lastGlobalSequenceNumber = record.GlobalSequenceNumber
 			s.broadcaster.Accept(record)
 
 		case <-time.After(90 * time.Second):
@@ -841,6 +855,59 @@ func (s *postgresStore) listen(listener *pq.Listener) {
 	}
 }
 
+func (s *postgresStore) broadcastMissedRecords(lastGlobalSequenceNumber uint64) uint64 {
+	iter := s.Events(context.Background(), lastGlobalSequenceNumber+1)
+	for iter.Next() {
+		if iter.Err() != nil {
+			break
+		}
+
+		lastGlobalSequenceNumber = iter.Record().GlobalSequenceNumber
+		s.broadcaster.Accept(iter.Record())
+	}
+
+	if iter.Err() != nil {
+		log.Printf("unable to read missed records: %v", iter.Err())
+	}
+
+	return lastGlobalSequenceNumber
+}
+
+func (s *postgresStore) decodeNotification(payload string) (*rangedb.Record, error) {
+	var jsonRecord PostgresJsonRecord
+	err := json.Unmarshal([]byte(payload), &jsonRecord)
+	if err != nil {
+		return nil, fmt.Errorf("invalid json request body: %v", err)
+	}
+
+	data, err := jsonrecordserializer.DecodeJsonData(
+		jsonRecord.EventType,
+		strings.NewReader(jsonRecord.Data),
+		s.serializer,
+	)
+	if err != nil {
+		return nil, fmt.Errorf("unable to decode data: %v", err)
+	}
+
+	metadata, err := decodeMetadata(jsonRecord.Metadata)
+	if err != nil {
+		return nil, fmt.Errorf("unable to unmarshal metadata: %v", err)
+	}
+
+	return &rangedb.Record{
+		StreamName:           jsonRecord.StreamName,
+		AggregateType:        jsonRecord.AggregateType,
+		AggregateID:          jsonRecord.AggregateID,
+		GlobalSequenceNumber: jsonRecord.GlobalSequenceNumber,
+		StreamSequenceNumber: jsonRecord.StreamSequenceNumber,
+		InsertTimestamp:      jsonRecord.InsertTimestamp,
+		EventID:              jsonRecord.EventID,
+		EventType:            jsonRecord.EventType,
+		Data:                 data,
+		Metadata:             metadata,
+	}, nil
+}
+
 type dbQueryable interface {
 	QueryContext(ctx context.Context, query string, args ...interface{}) (*sql.Rows, error)
 }
-- 
2.43.0


From 1fa16c6e252617fe615ef8a523fbb63ea653691c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:17 +0000
Subject: [PATCH 70/74] fix: postgresstore reads of a stream being created see
 it either missing or with its events

---
 provider/postgresstore/postgres_store.go | 32 +++++++++++++++++-------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index 43994b4..7d36361 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -228,16 +228,12 @@ func (s *postgresStore) EventsByStream(ctx context.Context, streamSequenceNumber
 		FROM record
 		WHERE StreamName = $1 AND StreamSequenceNumber >= $2 
 		ORDER BY GlobalSequenceNumber`
-		rows, err := s.db.QueryContext(ctx, query,
-			streamName, bigint(streamSequenceNumber))
-		if err != nil {
-			rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
-			return
-		}
-		defer ignoreClose(rows)
+		for {
+			recordsRead, err := s.queryResultRecords(ctx, resultRecords, query, streamName, bigint(streamSequenceNumber))
+			if err != nil || recordsRead > 0 {
+				return
+			}
 
-		recordsRead, err := s.readResultRecords(ctx, rows, resultRecords)
-		if err == nil && recordsRead == 0 {
 			// A stream without records from the given number on may still exist.
 			lastStreamSequenceNumber, err := s.getStreamSequenceNumber(ctx, s.db, streamName)
 			if err != nil {
@@ -247,7 +243,14 @@ func (s *postgresStore) EventsByStream(ctx context.Context, streamSequenceNumber
 
 			if lastStreamSequenceNumber == 0 {
 				rangedb.PublishErrorOrCancel(ctx, resultRecords, rangedb.ErrStreamNotFound, time.Second)
+				return
 			}
+
+			if lastStreamSequenceNumber < streamSequenceNumber {
+				return
+			}
+
+			// The records were saved since they were queried.
 		}
 	}()
 
@@ -654,6 +657,17 @@ func (s *postgresStore) getStreamSequenceNumber(ctx context.Context, queryable d
 	return lastStreamSequenceNumber, nil
 }
 
+func (s *postgresStore) queryResultRecords(ctx context.Context, resultRecords chan rangedb.ResultRecord, query string, args ...interface{}) (int, error) {
+	rows, err := s.db.QueryContext(ctx, query, args...)
+	if err != nil {
+		rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
+		return 0, err
+	}
+	defer ignoreClose(rows)
+
+	return s.readResultRecords(ctx, rows, resultRecords)
+}
+
 func (s *postgresStore) readResultRecords(ctx context.Context, rows *sql.Rows, resultRecords chan rangedb.ResultRecord) (int, error) {
 	recordsRead := 0
 	for rows.Next() {
-- 
2.43.0


From 7dca2c0d1b3202d3891a993fe054789c47845f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:03 +0000
Subject: [PATCH 71/74] fix: Postgres key store can delete more than one key,
 and a subject that has none yet

---
 .../provider/postgreskeystore/postgres_keystore.go   | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/crypto/provider/postgreskeystore/postgres_keystore.go b/pkg/crypto/provider/postgreskeystore/postgres_keystore.go
index 41b5521..a09e650 100644
--- a/pkg/crypto/provider/postgreskeystore/postgres_keystore.go
+++ b/pkg/crypto/provider/postgreskeystore/postgres_keystore.go
@@ -86,10 +86,16 @@ func (p *postgresKeyStore) Set(subjectID, encryptionKey string) error {
 	return nil
 }
 
+// Delete replaces the key with a value unique to the subject, also for a subject without a key,
+// which can no longer be set afterwards.
 func (p *postgresKeyStore) Delete(subjectID string) error {
-	_, err := p.db.Exec("UPDATE vault SET DeletedAtTimestamp = $1, EncryptionKey = '' WHERE SubjectID = $2",
-		time.Now().Unix(),
-		subjectID)
+	_, err := p.db.Exec(`INSERT INTO vault (SubjectID, EncryptionKey, DeletedAtTimestamp) VALUES ($1, $2, $3)
+		ON CONFLICT (SubjectID) DO UPDATE SET
+			EncryptionKey = EXCLUDED.EncryptionKey,
+			DeletedAtTimestamp = EXCLUDED.DeletedAtTimestamp`,
+		subjectID,
+		"deleted "+subjectID,
+		time.Now().Unix())
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 792db76323b181129bf416db35e97fd2b801f064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:57 +0000
Subject: [PATCH 72/74] fix: postgresstore saves an event that cannot be
 decoded again without reporting a failure

---
 provider/postgresstore/postgres_store.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index 7d36361..a75d8b5 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -341,10 +341,7 @@ func (s *postgresStore) transactionalSaveEvents(ctx context.Context, expectedStr
 	}
 
 	if !s.pgNotifyIsEnabled {
-		err = s.batchNotifySubscribers(saveResult)
-		if err != nil {
-			return 0, err
-		}
+		s.batchNotifySubscribers(saveResult)
 	}
 
 	return saveResult.LastStreamSequenceNumber, nil
@@ -436,7 +433,8 @@ func (s *postgresStore) validateStreamSequenceNumber(ctx context.Context, querya
 	return streamSequenceNumber, nil
 }
 
-func (s *postgresStore) batchNotifySubscribers(saveResult *saveResults) error {
+// batchNotifySubscribers leaves out records that cannot be decoded; they have been saved nevertheless.
+func (s *postgresStore) batchNotifySubscribers(saveResult *saveResults) {
 	for i, batchRecord := range saveResult.BatchRecords {
 		record := &rangedb.Record{
 			StreamName:           batchRecord.StreamName,
@@ -457,20 +455,18 @@ func (s *postgresStore) batchNotifySubscribers(saveResult *saveResults) error {
 			s.serializer,
 		)
 		if err != nil {
-			return fmt.Errorf("unable to decode data: %v", err)
+			continue
 		}
 
 		metadata, err := decodeMetadata(batchRecord.Metadata)
 		if err != nil {
-			return fmt.Errorf("unable to unmarshal metadata: %v", err)
+			continue
 		}
 
 		record.Data = deSerializedData
 		record.Metadata = metadata
 		s.broadcaster.Accept(record)
 	}
-
-	return nil
 }
 
 func (s *postgresStore) eventRecordsToBatchRecords(eventRecords []*rangedb.EventRecord, streamName string, streamSequenceNumber uint64) ([]*batchSQLRecord, error) {
-- 
2.43.0


From 2eb80fb11fd50dbc6be983c08a1a820356efac20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:03 +0000
Subject: [PATCH 73/74] fix: clients that stopped reading at different moments
 silenced the whole gRPC or WebSocket server

The server's own subscription, which feeds all of its clients, was dropped by the store for good when two
of them delayed a burst of events one after the other. It continues after the last event received.
---
 pkg/grpc/rangedbserver/server.go | 12 +++---
 pkg/rangedbws/websocket_api.go   | 12 +++---
 pkg/recordsubscriber/follow.go   | 65 ++++++++++++++++++++++++++++++++
 3 files changed, 77 insertions(+), 12 deletions(-)
 create mode 100644 pkg/recordsubscriber/follow.go

diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index 9aff9c1..b394df5 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -36,6 +36,7 @@ type rangeDBServer struct {
 	store       rangedb.Store
 	broadcaster broadcast.Broadcaster
 	stopChan    chan void
+	cancel      context.CancelFunc
 }
 
 // Option defines functional option parameters for rangeDBServer.
@@ -69,15 +70,14 @@ func New(options ...Option) (*rangeDBServer, error) {
 }
 
 func (s *rangeDBServer) initBroadcaster() error {
-	ctx := context.Background()
-	subscription := s.store.AllEventsSubscription(ctx,
-		subscriberRecordBuffSize,
-		s.broadcaster,
-	)
-	return subscription.Start()
+	ctx, cancel := context.WithCancel(context.Background())
+	s.cancel = cancel
+
+	return recordsubscriber.Follow(ctx, s.store, subscriberRecordBuffSize, s.broadcaster)
 }
 
 func (s *rangeDBServer) Stop() error {
+	s.cancel()
 	s.broadcaster.Close()
 	close(s.stopChan)
 	return nil
diff --git a/pkg/rangedbws/websocket_api.go b/pkg/rangedbws/websocket_api.go
index 5914dc5..20ce39a 100644
--- a/pkg/rangedbws/websocket_api.go
+++ b/pkg/rangedbws/websocket_api.go
@@ -38,6 +38,7 @@ type websocketAPI struct {
 	logger      *log.Logger
 	broadcaster broadcast.Broadcaster
 	stopChan    chan void
+	cancel      context.CancelFunc
 }
 
 // Option defines functional option parameters for websocketAPI.
@@ -91,15 +92,14 @@ func (a *websocketAPI) initRoutes() {
 }
 
 func (a *websocketAPI) initBroadcaster() error {
-	ctx := context.Background()
-	subscription := a.store.AllEventsSubscription(ctx,
-		subscriberRecordBuffSize,
-		a.broadcaster,
-	)
-	return subscription.Start()
+	ctx, cancel := context.WithCancel(context.Background())
+	a.cancel = cancel
+
+	return recordsubscriber.Follow(ctx, a.store, subscriberRecordBuffSize, a.broadcaster)
 }
 
 func (a *websocketAPI) Stop() {
+	a.cancel()
 	a.broadcaster.Close()
 	close(a.stopChan)
 }
diff --git a/pkg/recordsubscriber/follow.go b/pkg/recordsubscriber/follow.go
new file mode 100644
index 0000000..e961a61
--- /dev/null
+++ b/pkg/recordsubscriber/follow.go
@@ -0,0 +1,65 @@
+package recordsubscriber
+
+import (
+	"context"
+	"time"
+
+	"github.com/inklabs/rangedb"
+	"github.com/inklabs/rangedb/pkg/broadcast"
+)
+
+const resumeDelay = broadcast.DefaultTimeout
+
+// Follow sends new events of the store to a subscriber that others depend on. A store drops a subscription that has no
+// room for an event in time; Follow then continues after the last event received, until the context is done.
+func Follow(ctx context.Context, store rangedb.Store, bufferSize int, subscriber rangedb.RecordSubscriber) error {
+	lastGlobalSequenceNumber := uint64(0)
+	follower := rangedb.RecordSubscriberFunc(func(record *rangedb.Record) {
+		lastGlobalSequenceNumber = record.GlobalSequenceNumber
+		subscriber.Accept(record)
+	})
+
+	subscription := store.AllEventsSubscription(ctx, bufferSize, follower)
+	err := subscription.Start()
+	if err != nil {
+		return err
+	}
+
+	go func() {
+		for waitForEnd(ctx, subscription) {
+			resumed := store.AllEventsSubscription(ctx, bufferSize, follower)
+			if lastGlobalSequenceNumber > 0 {
+				err = resumed.StartFrom(lastGlobalSequenceNumber + 1)
+			} else {
+				err = resumed.Start()
+			}
+
+			if err == nil {
+				subscription = resumed
+			}
+		}
+	}()
+
+	return nil
+}
+
+// waitForEnd returns true when the subscription ended before the context was done.
+func waitForEnd(ctx context.Context, subscription rangedb.RecordSubscription) bool {
+	finisher, ok := subscription.(interface{ Done() <-chan struct{} })
+	if !ok {
+		return false
+	}
+
+	select {
+	case <-ctx.Done():
+		return false
+	case <-finisher.Done():
+	}
+
+	select {
+	case <-ctx.Done():
+		return false
+	case <-time.After(resumeDelay):
+		return true
+	}
+}
-- 
2.43.0


From d66d701fe81d398c401b36209496b42e236f1ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:03 +0000
Subject: [PATCH 74/74] fix: a remote store that was dropped by its server in a
 burst ended the subscriptions of everyone

Subscribers of a remote store that stopped reading at different moments delayed its own subscription until
the server gave it up. It continues after the last event received.
---
 provider/remotestore/remote_store.go | 36 ++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/provider/remotestore/remote_store.go b/provider/remotestore/remote_store.go
index 8877c9b..93742b6 100644
--- a/provider/remotestore/remote_store.go
+++ b/provider/remotestore/remote_store.go
@@ -10,6 +10,8 @@ import (
 	"time"
 
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
 
 	"github.com/inklabs/rangedb"
 	"github.com/inklabs/rangedb/pkg/broadcast"
@@ -366,15 +368,39 @@ func (s *remoteStore) listenForEvents() error {
 	go func() {
 		defer s.broadcaster.Close()
 
-		recordIterator := s.readRecords(ctx, events)
-		for recordIterator.Next() {
-			if recordIterator.Err() != nil {
-				continue
+		lastGlobalSequenceNumber, err := s.broadcastRecords(s.readRecords(ctx, events), 0)
+
+		// A server drops a client that has no room for an event in time, and aborts its stream. Without any events
+		// after the last one received, the server was stopped.
+		for lastGlobalSequenceNumber > 0 && status.Code(err) == codes.Aborted {
+			request := &rangedbpb.SubscribeToEventsRequest{GlobalSequenceNumber: lastGlobalSequenceNumber + 1}
+			events, subscribeErr := s.client.SubscribeToEvents(ctx, request)
+			if subscribeErr != nil {
+				return
 			}
 
-			s.broadcaster.Accept(recordIterator.Record())
+			previousGlobalSequenceNumber := lastGlobalSequenceNumber
+			lastGlobalSequenceNumber, err = s.broadcastRecords(s.readRecords(ctx, events), lastGlobalSequenceNumber)
+			if lastGlobalSequenceNumber == previousGlobalSequenceNumber {
+				return
+			}
 		}
 	}()
 
 	return nil
 }
+
+// broadcastRecords returns the last global sequence number and the error that ended the records.
+func (s *remoteStore) broadcastRecords(recordIterator rangedb.RecordIterator, lastGlobalSequenceNumber uint64) (uint64, error) {
+	for recordIterator.Next() {
+		if recordIterator.Err() != nil {
+			continue
+		}
+
+		record := recordIterator.Record()
+		lastGlobalSequenceNumber = record.GlobalSequenceNumber
+		s.broadcaster.Accept(record)
+	}
+
+	return lastGlobalSequenceNumber, recordIterator.Err()
+}
-- 
2.43.0

