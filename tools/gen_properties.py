#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

MEM="provider/inmemorystore/inmemory_store.go"; LDB="provider/leveldbstore/leveldb_store.go"
REM="provider/remotestore/remote_store.go"; SRV="pkg/grpc/rangedbserver/server.go"; ENC="provider/encryptedstore/encrypted_store.go"
PG="provider/postgresstore/postgres_store.go"; PGK="pkg/crypto/provider/postgreskeystore/postgres_keystore.go"
RS="pkg/recordsubscriber/record_subscriber.go"; BC="pkg/broadcast/broadcaster.go"; MRG="merge_record_iterators.go"

p("C01","Every stream behaves as one linearizable append log with optimistic concurrency",
  "Under any concurrent mix of plain saves, saves with an expected sequence number, deletes, counts and reads, each stream behaves as if the operations took effect one at a time at some instant between call and return. A save or delete that names an expected sequence number succeeds exactly when that number is the stream's current length, otherwise it reports the expected and the actual number and changes nothing; so of several writers naming the same number at most one wins. A successful save returns the sequence number of its last event, and a stream's sequence numbers run 1, 2, 3, ... without gap or repeat.",
  ["schedules","histories"],"every interleaving of any number of clients over any streams, on the in-memory, LevelDB and PostgreSQL engines, directly and through the gRPC client, and through the encrypting decorator",
  "The tests drive one client at a time (one test has two saves in parallel); exactly-one-winner and real-time order quantify over schedules.",
  [MEM,LDB,REM,SRV,ENC,"store.go","pkg/rangedberror/errors.go",PG],
  [("advisory lock of the stream inside the transaction",PG+" saveEvents, deleteStream"),("store mutex held over the whole batch",MEM+" saveEvents"),("mutex plus LevelDB transaction",LDB+" saveEvents"),("expected-number comparison","saveEvent in both engines"),("error translated from its text",REM+" OptimisticSave")],
  [("streams","sequence numbers of each stream",MEM),("$s$ keys","events of each stream",LDB)],["Store.Save / OptimisticSave / OptimisticDeleteStream / TotalEventsInStream / EventsByStream results"])

p("C02","A batch save is all or nothing",
  "A save of several events either makes all of them visible, in order, or none of them: when it fails for any reason (an event that cannot be serialized, mismatched aggregate, wrong expected number, context cancelled part-way, no events, storage failure) every query, count and subscription is exactly as before. The store stays fully usable afterwards and the next successful save continues each stream's numbering without gap. No reader or subscriber ever observes part of a batch as the final state or in the wrong order.",
  ["inputs","fault_sequences","histories"],"every batch size, every failing position and failure cause, any stream name, any prior contents and later operations",
  "The tests check three failure positions on conventionally named streams and never look at all the indexes, the subscriptions and the next save together.",
  [MEM,LDB,SRV,"provider/remotestore/remote_store.go",PG],
  [("rollback of the transaction",PG+" transactionalSaveEvents"),("rollback of recent events",MEM+" removeRecentEvents"),("transaction discard",LDB+" saveEvents"),("broadcast only after commit","saveEvents in both engines")],
  None,["all queries, counts and subscriptions before and after the failed save"])

p("C03","One global order that every view agrees on",
  "Every stored event has a unique global sequence number that is never reused, even after its stream was deleted, and numbers increase in commit order: if one save returned before another began, all of its events come first, and events of one batch are in batch order. The all-events view, the by-aggregate-type view and the by-stream view always contain exactly the same events with identical fields, each strictly ascending. Every event carries a unique event identifier, the store clock's timestamp, and the aggregate type, aggregate id, event type and stream it was saved with.",
  ["schedules","histories"],"every interleaving of writers and deleters over streams and aggregate types, observed by readers at any moment and at quiescence",
  "Tests compare small fixed sequences from one writer; cross-view agreement and never-reused numbers are invariants over whole concurrent histories.",
  [MEM,LDB,MRG,"pkg/shortuuid/short_uuid.go","pkg/clock",PG],
  [("advisory lock around the insertion",PG+" saveEvents"),("counter under the store lock",MEM),("$gsn$ key in the same batch",LDB),("index entries written in the same transaction",LDB+" saveEvent"),("k-way merge",MRG)],
  [("globalSequenceNumber","last assigned number",MEM),("$gsn$","last assigned number",LDB)],["records returned by the three kinds of query"])

p("C04","Queries return exactly the matching events, in order",
  "Reading from sequence number n returns every stored event of the queried scope (everything, one stream, or a set of aggregate types) whose number is n or more, each once, ascending, and nothing else. Streams and aggregate types are isolated from each other whatever characters their names contain. A stream that does not exist or has been deleted is reported as not found and counts zero events, and an aggregate type without events yields an empty result.",
  ["inputs","histories"],"every history of saves and deletes, every start number from 0 to beyond the end and to the maximum, every set of aggregate types, every stream and aggregate type name",
  "Tests use a dozen tame names and start numbers; prefix collisions, boundary numbers, deleted prefixes and merged type sets need generated histories compared with a model.",
  [MEM,LDB,MRG,REM,SRV,PG],
  [("SQL queries",PG),("prefix scan with separator",LDB+" getEventsByPrefix"),("seek then filter",LDB+" getEventsByLookup"),("filter closure",MEM+" recordsByIDs"),("merge of per-type iterators",MRG)],
  None,["records returned by each query against a reference model"])

p("C05","Deleting a stream removes that stream, only on a matching number",
  "Deleting a stream with the right expected number removes all of its events from every view and nothing else; the name can then be reused and numbering restarts at 1 while global numbers keep growing. With a wrong number, an unknown stream or a cancelled context the delete reports which, and changes nothing. After any delete, successful or refused, all later operations work normally.",
  ["histories","inputs","schedules"],"every history mixing deletes with saves, reads and subscriptions, every stream position in the global order, repeated delete and recreate, restarts",
  "Tests delete one stream in a two-stream store and stop there; what the next operations do after a refused delete is never exercised.",
  [MEM,LDB,REM,SRV,"pkg/rangedbapi/api.go",PG],
  [("delete in a transaction",PG+" OptimisticDeleteStream"),("index removal under lock",MEM+" OptimisticDeleteStream"),("batch delete in a transaction",LDB+" OptimisticDeleteStream")],
  None,["all queries and totals after each delete; the next save on the same and other streams"])

p("C06","LevelDB keeps every acknowledged write across crashes and restarts",
  "After a process kill or power loss at any instant, reopening a LevelDB store succeeds and shows every acknowledged save and delete, each unacknowledged one either entirely or not at all, and nothing else. The recovered views agree with each other, global and stream numbering continue without reuse, and new writes work. A clean stop and reopen loses and changes nothing.",
  ["crash_points","histories","fault_sequences"],"a crash before or after every storage operation (write, sync, create, rename, remove) with any part of unsynced data lost, process kills at arbitrary instants, failing storage operations, any workload",
  "The tests open, write and close cleanly; none of them crashes, loses unsynced data or fails a storage call.",
  [LDB],
  [("all keys of a batch in one transaction",LDB+" saveEvents"),("commit before acknowledge and broadcast",LDB+" saveEvents"),("sequence counter stored with the events",LDB+" saveEvent")],
  [("$gsn$, $s$, $at$, $all$ keys","counter, events and the two indexes",LDB)],["store contents after reopening the recorded storage state"],None)

p("C07","Subscriptions deliver every matching event exactly once, in order",
  "A subscriber that keeps up receives every event committed after it subscribed, and when it asked to start at number n every stored event from n on, each exactly once, in ascending global order, with the stored contents, and with no loss or repeat at the hand-over from history to live. A subscription to aggregate types receives exactly the events of those types. Events of failed saves are never delivered.",
  ["schedules","histories"],"every interleaving of concurrent writers with subscription start, any start number including one beyond the current end, any set of types, any number of subscribers, on each engine and through gRPC and the encrypting decorator",
  "Tests start a subscription on a quiet store and save one event after another; the hand-over and concurrent publication are schedule dependent.",
  [RS,BC,"pkg/recordsubscriber/config.go",MEM,LDB,REM,SRV,"provider/encryptedstore",PG],
  [("notification trigger and listener",PG+" listen"),("catch up, subscribe, catch up again",RS+" StartFrom"),("skip of already sent numbers",RS+" recordHasAlreadyBeenSent"),("broadcast after commit","saveEvents in both engines")],
  [("lastGlobalSequenceNumber","highest number delivered",RS)],["sequence of records accepted by each subscriber against the final store contents"])

p("C08","A slow, stuck, failing or stopped subscriber affects nobody else",
  "A subscriber that stops consuming, fails or is stopped or cancelled is dropped without preventing writers from completing, other subscribers from receiving everything, or new subscriptions from starting. What a dropped or stopped subscriber has received is a gap-free, ordered prefix of what it should receive, and a dropped remote or network subscriber is told so by the end of its stream. Once stopping has finished nothing more is delivered, and stopping repeatedly or cancelling concurrently never panics or blocks.",
  ["schedules","fault_sequences"],"any subset of subscribers stalling, failing, stopping or cancelling at any event, for any buffer size and any number of aggregate types, concurrently with writers",
  "Tests stall one subscriber on one event with a dummy broadcaster and do not observe the others' completeness or the dropped one's prefix.",
  [BC,RS,SRV,"pkg/rangedbws/websocket_api.go"],
  [("bounded wait then drop",BC+" broadcastRecord"),("stop and unsubscribe",RS+" work / Stop"),("per-connection handlers",SRV)],
  None,["records each subscriber accepted, completion of writers, end of the gRPC stream"])

p("C09","Errors and cancellation surface; a partial result never looks complete",
  "Whenever a read, merge, export, import, catch-up or remote query cannot deliver everything it was asked for (a record that cannot be decoded, a failing source, cancelled context, truncated or corrupt input, a broken connection, a failing writer), its consumer gets every record before the failure in order (from a merge, at least those of the failed source) and then an error, never a clean end. An iterator that ended keeps reporting the same outcome on further use, and a complete result is never reported as an error.",
  ["fault_sequences","inputs"],"any position and kind of failure in any source, any truncation point of an encoded stream, every iterator, merge, record stream format, gRPC query and subscription catch-up",
  "Tests inject a failure at one position in some of the components, and none checks merged, exported or remote results for silent truncation.",
  ["record_iterator.go",MRG,"publish_record.go","provider/jsonrecordiostream/json_record_io_stream.go","provider/ndjsonrecordiostream/ndjson_record_io_stream.go","provider/msgpackrecordiostream/msgpack_record_io_stream.go",SRV,REM,RS,"provider/encryptedstore/decrypting_record_iterator.go",PG],
  [("errors of rows",PG+" readResultRecords"),("error carried in the record channel","record_iterator.go"),("Err checked after the loop",SRV+" EventsByStream"),("cancel-or-publish","publish_record.go")],
  None,["records and final error seen by the consumer"])

p("C10","No operation blocks the store forever",
  "Whatever mix of reads, multi-type reads, saves, deletes, subscriptions and cancellations runs concurrently, every operation whose consumer keeps reading or whose context is cancelled completes. Cancelled, failed or abandoned-then-cancelled reads release whatever they hold, so writers proceed. Stopping a server, store or broadcaster returns.",
  ["schedules","fault_sequences"],"every interleaving of operations with cancellations at any point, including consumers that stop reading and then cancel, and operations that fail",
  "A deadlock needs a writer to arrive between two lock acquisitions of a reader, or an abandoned failing read; sequential tests never produce these schedules.",
  [MEM,LDB,"publish_record.go",MRG,BC,RS],
  [("read lock released by the streaming goroutine",MEM+" recordsByIDs, "+LDB+" getEventsByLookup"),("transaction discard on error",LDB),("cancel-or-publish with bound","publish_record.go")],
  None,["completion of every operation; goroutine stacks when progress stops"])

p("C11","What is saved is what is read: record serialization is lossless",
  "Every record whose event and metadata the chosen format can represent is returned by every query and subscription with all fields and contents unchanged, including large integers, empty and nested values, every Unicode string, and boundary sequence numbers, whether its event type is bound to a struct or not. Decoding arbitrary or corrupted bytes yields a record or an error, never a panic. Events of unknown type can be re-saved, and come back equal.",
  ["inputs"],"all events and metadata values, bound and unbound event types, both record serializers, each engine, raw events",
  "Tests round-trip a few small structs; loss shows only for particular values such as integers above 2^53 or for raw events in the binary format.",
  ["provider/jsonrecordserializer/json_record_serializer.go","provider/msgpackrecordserializer/msgpack_record_serializer.go","store.go","event_identifier.go","pkg/grpc/rangedbpb/translate.go"],
  [("number-preserving decoder","provider/jsonrecordserializer"),("record and data encoded separately","provider/msgpackrecordserializer"),("type lookup by event type","event_identifier.go")],
  None,["decoded record against the original"])

p("C12","Exported record streams can be imported without loss, in every format",
  "Writing any finite sequence of records as JSON, newline-delimited JSON or MessagePack and reading it back, however the bytes are chunked, yields the same records in the same order, and the output is a well-formed document of that format, also for an empty sequence. The three formats of the same sequence describe the same records. Arbitrary input bytes give records or an error, never a panic or a hang.",
  ["inputs"],"all record sequences including empty ones, any chunking of the byte stream, arbitrary input bytes",
  "Tests round-trip one or two fixed records and compare with fixed strings.",
  ["provider/jsonrecordiostream/json_record_io_stream.go","provider/ndjsonrecordiostream/ndjson_record_io_stream.go","provider/msgpackrecordiostream/msgpack_record_io_stream.go"],
  [("streaming encoder and decoder per format","provider/*recordiostream"),("shared record decoding","provider/jsonrecordserializer UnmarshalRecord")],
  None,["records read back; independent parse of the output"])

p("C13","The remote store is indistinguishable from the embedded store it serves",
  "Any sequence of operations issued through the gRPC client gives the same results, records, sequence numbers and errors as the same sequence on the embedded store behind the server: same success or failure, same expected and actual numbers in conflicts, same not-found and cancellation outcomes, same events with unchanged contents and metadata. Operations through one client are immediately visible to other clients and to the server's own store.",
  ["inputs","histories"],"all operation sequences with any event contents, metadata, names and start numbers, and any engine behind the server",
  "Tests run the store suite over an in-memory connection, but never differentially and not with large numbers, awkward names or mixed outcomes.",
  [REM,SRV,"pkg/grpc/rangedbpb/translate.go","pkg/rangedberror/errors.go"],
  [("record translation","pkg/grpc/rangedbpb/translate.go"),("error text parsing","pkg/rangedberror/errors.go"),("request handlers",SRV)],
  None,["results of each operation on both sides"])

p("C14","The HTTP API does exactly the requested operation and reports it truthfully",
  "Each save, optimistic save, delete and query over HTTP has the same effect and result as the corresponding store operation: created with the new sequence number, conflict with expected and actual numbers, not found, bad request for malformed input or header, server error otherwise, and nothing stored unless success was reported. Events are stored with their type, identifiers, data and metadata unchanged, and each export format lists exactly the stored events. Every JSON response is well-formed, and the aggregate type listing equals the counts of the events saved.",
  ["inputs","histories"],"all request bodies, headers, stream names and histories, well-formed or malformed, concurrent or not",
  "Tests use fixed requests; body fidelity, malformed inputs and combined histories are unbounded.",
  ["pkg/rangedbapi/api.go"],
  [("request decoding","pkg/rangedbapi/api.go getEventRecords"),("error to status mapping","pkg/rangedbapi/api.go saveEvents / deleteStream"),("export","pkg/rangedbapi/api.go writeEvents")],
  None,["HTTP status, body, and the store's contents after each request"])

p("C15","WebSocket clients see every event exactly once, in order",
  "A WebSocket client that keeps reading receives every stored event from its requested number on, and then every live event, for all events or for its aggregate types, each exactly once, in ascending order and with the stored contents. The live pages of the web interface receive each new event of their type once, with the correct running total. Malformed requests are refused, and clients that disconnect or stall never disturb other clients or writers.",
  ["schedules","histories","inputs"],"any number of clients connecting and disconnecting at any moment relative to concurrent writers, any start number and type set",
  "The existing tests connect one client on a quiet store and are themselves too unreliable to run in the baseline.",
  ["pkg/rangedbws/websocket_api.go","pkg/rangedbui/ui.go",RS,BC],
  [("subscription per connection","pkg/rangedbws/websocket_api.go SubscribeToAllEvents"),("own broadcaster fed from the store","pkg/rangedbws/websocket_api.go initBroadcaster"),("running total","pkg/rangedbui/ui.go realtimeEventsByAggregateType")],
  None,["messages received by each client against the store's contents"])

p("C16","Personal data is encrypted at rest and transparent to authorised readers",
  "Through the encrypting store, fields marked as personal data never reach the underlying store, its files or its subscriptions in plain text, while non-personal fields stay readable, and readers and subscribers of the encrypting store get the original values back every time they look. A save that fails or is retried never results in data that cannot be decrypted, and an event that cannot be encrypted is not stored at all. Records that cannot be decrypted end the read with an error and do not disturb other reads.",
  ["inputs","histories","schedules"],"all values of marked fields, every engine underneath, every query and subscription, retries after conflicts, repeated access to the same record, concurrent writers for new and existing subjects",
  "Tests save one event and read it once; repeated access, retries, concurrent first use of a subject and mixed histories are not covered.",
  [ENC,"provider/encryptedstore/decrypting_record_iterator.go","provider/encryptedstore/decrypting_record_subscriber.go","pkg/crypto/eventencryptor/event_encryptor.go"],
  [("encrypt before delegating",ENC),("decrypt on access","provider/encryptedstore"),("key created on first use","pkg/crypto/eventencryptor/event_encryptor.go")],
  None,["raw records and files of the underlying store; values returned by the encrypting store"])

p("C17","Ciphers round-trip, never reuse randomness, and reject what they did not produce",
  "Every supported cipher decrypts what it encrypted, for every key size it accepts and every text, and two encryptions of the same text differ. The authenticated ciphers reject every modified, truncated or extended cipher text and every other key with an error; the unauthenticated one returns an error or wrong text but never crashes. Invalid keys, invalid encodings and arbitrary input always give an error, never a panic or a plain-text result.",
  ["inputs"],"all keys, plain texts, cipher texts, single and multiple bit changes, truncations, arbitrary strings, concurrent use",
  "Tests use a handful of vectors; malformed cipher texts and concurrent use are an unbounded input space.",
  ["pkg/crypto/aes/gcm.go","pkg/crypto/aes/cbc_pkcs5_padding.go","pkg/crypto/xchacha20poly1305/xchacha20poly1305.go","pkg/crypto/crypto.go"],
  [("authenticated modes","pkg/crypto/aes/gcm.go, pkg/crypto/xchacha20poly1305"),("length checks before slicing","decrypt in each engine"),("fresh nonce or IV per message","encrypt in each engine")],
  None,["outcome of encrypt and decrypt calls"])

p("C18","Keys are set once, deleted for good, and deletion shreds the data",
  "In every key store a subject's key never changes once set, a second key for the same subject and an empty key are refused, unknown subjects are reported as not found, and a deleted key is reported as deleted forever and can never be set or read again. Under concurrent use all callers agree on one key per subject, and the layered cache never returns anything the authoritative store would not return, except while an authoritative call fails. Once a subject's key is deleted no reader obtains that subject's personal data again: fields are blanked and the deletion is reported, while other subjects' data stay readable.",
  ["histories","schedules","fault_sequences"],"all sequences and interleavings of get, set and delete over subjects in the in-memory, layered, Vault, DynamoDB and PostgreSQL key stores, with backend failures, and encrypted events before and after deletion",
  "Tests call each operation once per store; permanence, concurrent first use, cache staleness and backend failures need whole histories.",
  ["pkg/crypto/provider/inmemorykeystore/inmemory_keystore.go","pkg/crypto/provider/cachekeystore/cache_keystore.go","pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go","pkg/crypto/provider/dynamodbkeystore/dynamodb_keystore.go","pkg/crypto/eventencryptor/event_encryptor.go",PGK],
  [("tombstone row on delete",PGK+" Delete"),("tombstone on delete","pkg/crypto/provider/inmemorykeystore"),("write-through, read-through cache","pkg/crypto/provider/cachekeystore"),("conditional put","pkg/crypto/provider/dynamodbkeystore"),("destroy of versions","pkg/crypto/provider/vaultkeystore")],
  None,["results of key store calls against a model; decrypted events"])

p("C19","Statistics and snapshots equal a fold over the stored events",
  "The aggregate statistics always equal the counts computed from the events delivered so far, per type and in total, with the latest global number and a sorted list of types, and readers never see them inconsistent or crash. Saving a snapshot and loading it, in the same or a restarted process and with events added in between, gives the same numbers as replaying everything, with no event counted twice or missed. A missing, empty, truncated, unreadable or inconsistent snapshot never crashes and never leads to wrong counts, and a snapshot that cannot be written, or only slowly, does not disturb the counting.",
  ["histories","crash_points","inputs","schedules"],"all event histories, all points at which a snapshot is taken, written partly, or the process restarts, concurrent readers",
  "Tests count three events and reload once; restarts at every point and damaged snapshots are not exercised.",
  ["pkg/projection/aggregate_type_stats.go","pkg/projection/disk_snapshot_store.go","pkg/rangedbapi/api.go"],
  [("fold under a mutex","pkg/projection/aggregate_type_stats.go Accept"),("snapshot encode and decode","pkg/projection/aggregate_type_stats.go"),("resume after the latest number","pkg/rangedbapi/api.go initProjections")],
  None,["statistics accessors and the type listing against counts from the store"])

p("C20","No data races in concurrent use",
  "Stores, subscriptions, broadcasters, servers, projections, key stores, serializers in use and web front ends can be used from many goroutines at once, each with its own iterators, without any unsynchronised conflicting access to shared memory. Values handed to one consumer are not modified behind its back by the library.",
  ["schedules"],"every concurrent mix of the public operations after set-up, on all engines and network front ends",
  "The existing tests are run without a race detector and hardly use the API concurrently.",
  [MEM,LDB,REM,SRV,BC,RS,"pkg/projection/aggregate_type_stats.go","pkg/rangedbapi/api.go","pkg/rangedbws/websocket_api.go","pkg/crypto/provider/inmemorykeystore/inmemory_keystore.go"],
  [("mutexes","stores, projection, key store"),("single goroutine owning subscriber maps",BC),("decode per consumer","recordsByIDs, getRecordByValue")],
  None,["race detector reports; contents of records held by consumers"])

p("C21","Generated code compiles and implements the declared events and commands",
  "For every well-formed source file of event or command structs the generators produce Go code that compiles, in which each event reports its aggregate id, aggregate type and event type, events with personal data encrypt exactly the marked fields and decrypt back to the original, and deleted keys blank them. Generated aggregates dispatch every command and apply every event, generated binders bind every event, and repeated generation gives the same code. Malformed declarations are refused with an error.",
  ["programs","inputs"],"all combinations of struct names, field types and order, marked fields and subject ids, numbers of events and commands",
  "Tests compare the generated text for a few fixed structs with golden strings; they never compile or run it.",
  ["pkg/eventparser/event_parser.go","pkg/eventparser/event_writer.go","pkg/aggregategenerator/write_aggregate.go","pkg/commandgenerator/write_command.go","pkg/structparser/struct_names.go","gen"],
  [("tag parsing","pkg/eventparser/event_parser.go"),("templates","pkg/eventparser/event_writer.go, pkg/aggregategenerator, pkg/commandgenerator, gen/eventbinder")],
  None,["compiler result and behaviour of the generated program"])

p("C22","Paging through the web interface shows each record exactly once",
  "Following the next links from the first page visits every record of a stream or aggregate type exactly once, in order, with at most the requested number per page, and the previous links retrace the same pages back to the first. Totals shown equal the stored counts, and names and contents are escaped. Arbitrary query parameters give a valid page, never an error or a panic.",
  ["inputs","histories"],"all page sizes, numbers of records including gaps from deleted streams, start positions, and arbitrary query strings",
  "Tests render one or two pages with fixed sizes.",
  ["pkg/paging/paging.go","pkg/rangedbui/ui.go","store.go","pkg/rangedbui/functions.go"],
  [("one record look-ahead","pkg/rangedbui/ui.go aggregateType / stream"),("index history in the link","pkg/paging/paging.go Links"),("limit","pkg/paging/paging.go NewPagination")],
  None,["pages rendered over HTTP"])

p("C23","Command dispatch and process managers keep the domain invariants",
  "A dispatched command is handled by the aggregate registered for it, with state rebuilt from exactly that aggregate instance's stored events, and the events that are returned are exactly those that were stored, in the order they were raised, each in its own stream; events whose save fails are not returned, unknown commands change nothing, and commands dispatched at the same time never mix their events. State of one aggregate instance never leaks into another. In the chat example no sequence of commands breaks the domain rules (a user is on-boarded at most once, nobody joins or writes in a room that is not on-boarded, no banned user joins, every use of a restricted word is answered by a warning or, beyond the threshold, by removal and ban), also after a restart from the stored events. The given/when/then test helper accepts an expectation exactly when it matches the events the command raised in the expected streams.",
  ["histories","inputs"],"all sequences of commands over any number of aggregate instances and users",
  "Tests send one to three commands to a single instance.",
  ["pkg/cqrs/cqrs.go","examples/chat","pkg/aggregategenerator/write_aggregate.go","rangedbtest/bdd/bdd.go"],
  [("load, handle, save","pkg/cqrs/cqrs.go Dispatch"),("handlers and apply methods","examples/chat/room_aggregate.go")],
  None,["events stored after each command against a reference model"])

p("C24","The server process keeps every answer it gave across kills, stops and restarts",
  "A running RangeDB server (the rangedb program, with LevelDB) can be killed or interrupted at any moment and started again: every save and deletion it acknowledged over HTTP or gRPC is still in force, exactly once and in the acknowledged place; an unanswered request took effect completely or not at all, a refused one not; stored records keep their numbers, identifiers and timestamps and new ones are numbered above them, in real-time order; what was delivered to a subscriber is stored. After every start the HTTP API in its three formats, gRPC, the subscriptions, the totals and the statistics show the same events. An interrupted server finishes the HTTP requests in progress, closes its store and exits with status 0 in bounded time, even with clients that stopped reading. Servers with different databases share nothing, also when the databases have the same relative path; a second server on a database or port in use gives up without harm; a server in memory starts empty. Clients that come and go leave no connections behind. The subscriber programs print every matching event once, in order, also when the server restarts, and the generator program saves what it says.",
  ["crash_points","schedules","histories"],"all moments of a kill or interruption, all interleavings of clients, all sequences of restarts",
  "No test starts the program; the packages it wires together are tested one at a time.",
  ["cmd/rangedb/main.go","cmd/grpc-event-subscriber/main.go","cmd/ws-event-subscriber/main.go","cmd/gen-random-events/main.go","provider/leveldbstore/leveldb_store.go","pkg/rangedbapi/api.go"],
  [("start and shutdown order","cmd/rangedb/main.go main, serveHTTP"),("snapshot directory","cmd/rangedb/main.go snapshotBasePath"),("statistics catch-up","pkg/rangedbapi/api.go initProjections")],
  None,["answers of a real child process over loopback, its exit status and sockets"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
