"""The properties: one record each; gen.py writes properties.jsonl and MANIFEST.json from it."""
TPL = 'path-sensitive abstract interpretation of MIR, judged against reference semantics'
EFF = 'path-sensitive abstract interpretation of MIR: effect and message rules per path'
SYM = ('Holds for every command template listed in engine/templates.py with unknown argument bytes and an unknown initial '
       'database, up to the stated representative bound (collections are explored through the members a command names and at '
       'most two more; loops over data up to that). ')
TRUST = ('Trusts the MIR extractor, the models of library calls (engine/models.py, engine/api.py) and, for keys, the slot '
         'function (decided on its own). Partitions the analysis cannot follow are counted as undecided in the evidence, never '
         'reported.')

P = []


def p(id, title, statement, over, qtext, why, files, state, mech, technique, note, level='other'):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech]),
                  technique=technique, level=level, level_note=note))


NA = []


def na(id, title, statement, over, qtext, why, files, state, mech, reason):
    p(id, title, statement, over, qtext, why, files, state, mech, None, None)
    P[-1]['na'] = reason


D = 'component/dict/src/'
DB = 'component/db/src/'
S = 'component/server/src/'
C = 'component/common/src/'
KEYSPACE = ('inner', 'key to value map of a slot', D + 'lib.rs')
SEQ = ('write_id', 'sequence number of the last write of a slot', D + 'lib.rs')
EXP = ('expires_at', 'absolute deadline of a key, 0 when it has none', D + 'lib.rs')

p('C01', 'Every accepted write is replicated exactly once, in sequence',
  'Every write command that reaches the keyspace of a slot advances that slot\'s sequence number by exactly one and hands exactly '
  'one message, carrying that number, that slot and the command itself, to replication, whatever the outcome of the command. '
  'The messages of a slot are handed over in the order of its writes. '
  'A command that is refused before it reaches the keyspace does neither. No write changes a slot without both.',
  ['inputs', 'histories'], 'all write commands, all argument values, all states of the slot',
  'Tests send a handful of writes to one server and never look at the messages handed to replicas; a path that forgets the '
  'message (an error path, an early return) is invisible until a replica diverges.',
  [DB + 'slot.rs', S + 'cmd/mod.rs', D + 'lib.rs'], [SEQ, ('forward_sender', 'queue of replication messages', DB + 'lib.rs')],
  [('write path of a slot', DB + 'slot.rs'), ('sequence number allocation', D + 'lib.rs')],
  EFF, SYM + 'On every partition the number of messages, their sequence numbers and slot are compared with the advance of the '
  'slot. ' + TRUST)
p('C02', 'A replica that applies the next message reaches the primary\'s state',
  'A replica holding the state the primary had before a write, on receiving that write\'s replication message, applies it and '
  'ends with the same live keys, values, deadlines and sequence number as the primary, even when it does so later. '
  'A message that was already applied changes nothing, and one that is ahead of sequence is not applied but reported as a gap, '
  'so that the slot is fetched again.',
  ['inputs', 'histories', 'fault_sequences'], 'all write commands and states, any delay between primary and replica, repeated and skipped messages',
  'No test runs a primary and a replica together; each operation needs its replica twin checked on all states, and delays and '
  'gaps cannot be enumerated.',
  [DB + 'slot/replica_update.rs', DB + 'slot.rs', DB + 'forward/message.rs'], [SEQ, KEYSPACE],
  [('replica application', DB + 'slot/replica_update.rs'), ('write path of a slot', DB + 'slot.rs')],
  EFF, SYM + 'The message the primary path emits is interpreted through the replica entry point on the same unknown initial state '
  'with a later clock, and both final states are compared. Keys whose deadline falls between the two clocks are left out. ' + TRUST)
p('C03', 'Read commands and refused requests change nothing',
  'A read command, and a request that is refused as malformed, leaves every key, value and deadline as it was, consumes no '
  'sequence number and sends nothing to replicas or to the expiry index. Only access statistics may change.',
  ['inputs'], 'all read commands and malformed requests, all argument values, all states',
  'Tests check replies of reads, not that the store is untouched on all paths.',
  [DB + 'slot.rs', D + 'lib.rs', S + 'cmd/mod.rs'], [KEYSPACE, SEQ, EXP], [('read path of a slot', DB + 'slot.rs')],
  EFF, SYM + TRUST)
p('C04', 'An expired key behaves as an absent key in every command',
  'From the moment its deadline has passed, a key is indistinguishable from one that was never set: every command replies and '
  'acts as if it were absent, whether or not the background removal has run. A write that recreates the key carries over '
  'neither the old value nor the old deadline.',
  ['inputs', 'schedules', 'histories'], 'all commands on a key with a deadline in the past, before or after background removal',
  'The window between a deadline and the background removal is a matter of timing; tests meet it by luck and for few commands.',
  [D + 'lib.rs', D + 'cmd/', DB + 'slot.rs'], [EXP, KEYSPACE], [('lookup that hides expired keys', D + 'lib.rs')],
  TPL, SYM + 'Reported are differences from the reference on partitions in which the key held an expired value. ' + TRUST)
p('C05', 'A command on a value of another type is refused and changes nothing',
  'A command that works on one kind of value (string, list, hash, set, sorted set), applied to a live key holding another kind, '
  'is answered with an error starting with WRONGTYPE and leaves the key, its value and its deadline untouched.',
  ['inputs'], 'all typed commands, all stored kinds, all arguments',
  'The product of commands and stored types is large and each pair has its own code path; tests touch few pairs.',
  [D + 'cmd/', D + 'data_type/mod.rs'], [KEYSPACE], [('type dispatch of each operation', D + 'cmd/')],
  TPL, SYM + TRUST)
p('C06', 'A single-key command that reports an error has changed nothing',
  'When the reply to a command on one key is an error, the keys, values and deadlines are exactly what they were before the '
  'command.',
  ['inputs'], 'all commands, all argument values, all states',
  'Partial effects before an error need particular combinations of arguments and state (an overflow after one field was set, '
  'a bad second pair); tests sample few.',
  [D + 'cmd/', S + 'cmd/', DB + 'slot.rs'], [KEYSPACE, EXP], [('operations on the keyspace', D + 'cmd/')],
  TPL, SYM + 'One known finding: SET with GET on a key holding a collection (see known-findings.txt). ' + TRUST)
p('C09', 'No client command can make the server panic',
  'No command, with any arguments and on any state of the keyspace, reaches a panic: no failed index or slice bound, arithmetic '
  'overflow, unwrap of a missing value or explicit panic.',
  ['inputs'], 'all commands with unknown argument bytes, all states',
  'A panicking index needs particular numbers (extreme ranges, offsets, empty lists); tests try ordinary ones.',
  [D + 'cmd/', S + 'cmd/', S + 'frame_parse.rs', C + 'connection/parse/mod.rs'], [KEYSPACE], [('command parsing and application', S + 'cmd/mod.rs')],
  'path-sensitive abstract interpretation of MIR with overflow checks on: panic reachability', SYM + TRUST)
p('C11', 'The two indexes of a sorted set always agree',
  'After every command, the member-to-score map of a sorted set and its score-ordered index hold exactly the same members with '
  'the same scores.',
  ['inputs', 'histories'], 'all sorted-set writes on all states that satisfy the property before',
  'A stale index entry shows only after a particular sequence of updates and a later range query.',
  [D + 'data_type/sorted_set.rs', D + 'cmd/sorted_set/'], [('hash', 'member to score', D + 'data_type/sorted_set.rs'),
                                                          ('value', 'members ordered by score', D + 'data_type/sorted_set.rs')],
  [('sorted-set updates', D + 'cmd/sorted_set/add.rs')], TPL, SYM + 'Inductive: assumed before, shown after. ' + TRUST)
p('C12', 'A collection that becomes empty is removed with its key',
  'A command that removes the last element of a list, hash, set or sorted set also removes the key, and no command leaves a key '
  'holding an empty collection.',
  ['inputs', 'histories'], 'all removing and adding commands, all states',
  'Tests look at the collection, not at the existence of the key after the last removal on every path.',
  [D + 'cmd/deque/pop.rs', D + 'cmd/kvp/del.rs', D + 'cmd/set/remove.rs', D + 'cmd/sorted_set/'], [KEYSPACE],
  [('removal operations', D + 'cmd/')], TPL, SYM + 'Inductive: no empty collection before, none after. ' + TRUST)
p('C13', 'Deadlines are computed and kept exactly as the commands say',
  'SET and EXPIRE with their unit and absolute variants set the deadline they name, a plain SET removes it, KEEPTTL and in-place '
  'changes of a value keep it, and TTL reports it in the right unit. A deadline that is not in the future removes the key, and '
  'one that cannot be represented is refused.',
  ['inputs'], 'all deadline commands and options, all numbers, all states',
  'Units, overflow, past deadlines and preservation combine with every option; tests with sleeps sample few.',
  [C + 'options/expires_at.rs', C + 'options/set_cmd_expires.rs', D + 'cmd/simple/expire.rs', D + 'cmd/simple/set.rs', D + 'cmd/simple/ttl.rs'],
  [EXP], [('deadline parsing', C + 'options/'), ('deadline update', D + 'cmd/simple/expire.rs')], TPL, SYM + TRUST)
p('C14', 'Conditional writes act exactly when their condition holds',
  'SET, EXPIRE and ZADD with NX, XX, GT or LT, HSETNX and their combinations change the key if and only if the condition holds '
  'for its state at that moment, and the reply tells which happened.',
  ['inputs'], 'all conditional options and their combinations, all argument values, all states',
  'Each condition has boundary cases (equal scores, expired keys, missing deadlines) in product with the others.',
  [D + 'cmd/simple/set.rs', D + 'cmd/simple/expire.rs', D + 'cmd/sorted_set/add.rs', D + 'cmd/kvp/set.rs', C + 'options/'], [KEYSPACE, EXP],
  [('condition evaluation', D + 'cmd/')], TPL, SYM + TRUST)
p('C15', 'Malformed requests are refused and valid ones accepted',
  'A request with a wrong number of arguments, an unknown or incompatible option, or a number that is not one is answered with '
  'an error and has no effect; the documented forms, with options in any letter case, are accepted.',
  ['inputs'], 'all documented forms with unknown argument bytes, and the malformed neighbours of each',
  'The space of malformed requests is unbounded and every command parses its own arguments.',
  [S + 'cmd/', S + 'frame_parse.rs', 'component/macros/src/', C + 'connection/parse/mod.rs', C + 'options/'], [KEYSPACE],
  [('argument parsing', S + 'frame_parse.rs')], TPL, SYM + TRUST)
p('C16', 'Commands on a missing key give the neutral reply',
  'A command on a key that does not exist replies as for an empty value (nil, zero, an empty array, or the codes of TTL) and '
  'creates the key only if it is meant to, with exactly the content it was given.',
  ['inputs'], 'all commands on an absent key, all argument values',
  'Each command has its own missing-key path; tests cover some.',
  [D + 'cmd/', S + 'cmd/'], [KEYSPACE], [('operations on the keyspace', D + 'cmd/')], TPL, SYM + TRUST)
p('C17', 'No command nests locks or keeps one',
  'While a command on keys runs, at most one lock is held at a time, none is held across a suspension point, and none is left held '
  'when the command ends, so commands cannot deadlock one another. The commands on all slots (FLUSHALL, SYNCSNAPSHOT) never take a '
  'lock they hold, wait with none held, keep none, and take different kinds of lock in one order only.',
  ['schedules', 'inputs'], 'all commands, all interleavings',
  'A deadlock needs two threads at particular points; tests run one command at a time.',
  [DB + 'slot.rs', DB + 'lib.rs'], [('share_status', 'content of a slot behind its lock', DB + 'slot.rs')],
  [('lock guard of a slot', DB + 'slot.rs')], EFF, SYM + 'Lock and unlock events, guard moves and drops are followed on every path. ' + TRUST)
p('C18', 'A single-key command takes effect in one critical section',
  'A command on one key reads and writes its slot, and draws its sequence number, within a single acquisition of the slot\'s '
  'lock, so no other command is ever seen between its parts.',
  ['schedules', 'inputs'], 'all single-key commands, all interleavings',
  'A check-then-act split over two lock acquisitions only fails in a particular interleaving.',
  [DB + 'slot.rs', DB + 'lib.rs', S + 'cmd/'], [('share_status', 'content of a slot behind its lock', DB + 'slot.rs')],
  [('lock guard of a slot', DB + 'slot.rs')], EFF, SYM + 'The acquisitions of slot locks are counted on every path; the type system ties every '
  'access to a guard. ' + TRUST)
p('C19', 'The expiry index learns every deadline a command sets',
  'Whenever a command gives a key a new deadline, the expiry index is told that key, slot and deadline; it is never told a '
  'deadline the key does not have, and the old deadline it is told to forget is the one the key had. '
  'Changes of a slot\'s deadlines reach it in the order they were made.',
  ['inputs', 'histories'], 'all write commands, all states',
  'A key missing from the index is hidden by lazy expiry and only leaks memory; no test looks.',
  [DB + 'slot.rs', D + 'cmd/mod.rs', D + 'cmd/simple/'], [('expire_sender', 'queue to the expiry task', DB + 'lib.rs'), EXP],
  [('expiring write path of a slot', DB + 'slot.rs')], EFF, SYM + TRUST)
p('C33', 'Counters are exact over the whole 64-bit range',
  'INCR, DECR, INCRBY, DECRBY and HINCRBY add exactly the requested amount to the stored integer, treat a missing counter as '
  'zero, keep the deadline, and refuse, without effect, a non-integer value or a result outside the signed 64-bit range.',
  ['inputs'], 'all stored values and increments', 'Overflow boundaries and negation of the smallest integer need particular numbers.',
  [D + 'cmd/simple/incr.rs', D + 'cmd/kvp/incr.rs', S + 'cmd/base/'], [KEYSPACE], [('counter update', D + 'cmd/simple/incr.rs')],
  TPL, SYM + TRUST)
p('C34', 'List commands push, pop and select the right elements in order',
  'LPUSH and RPUSH (and their X forms) add their arguments one by one at the right end and reply the new length, LPOP and RPOP '
  'remove and return up to the requested number from their end in order, and LLEN and LRANGE report the length and exactly the '
  'elements between two possibly negative indexes.',
  ['inputs', 'histories'], 'all lists, counts, indexes and elements', 'Index arithmetic has many boundary cases; tests sample few.',
  [D + 'cmd/deque/', S + 'cmd/list/', D + 'data_type/deque.rs'], [KEYSPACE], [('list operations', D + 'cmd/deque/')], TPL, SYM + TRUST)
p('C35', 'Hash commands read and write exactly the named fields',
  'HSET, HSETNX, HDEL and HINCRBY change exactly the fields they name, to the given values, and count as documented; HGET, '
  'HMGET, HGETALL and HEXISTS report exactly what is stored, in argument order where one is given.',
  ['inputs', 'histories'], 'all hashes, fields and values, repeated fields included', 'Repeated and missing fields combine; tests sample few.',
  [D + 'cmd/kvp/', S + 'cmd/hash/', D + 'data_type/kvp.rs'], [KEYSPACE], [('hash operations', D + 'cmd/kvp/')], TPL, SYM + TRUST)
p('C36', 'Set commands keep exact membership',
  'SADD and SREM add and remove exactly the named members and reply how many really changed; SISMEMBER, SMISMEMBER and SMEMBERS '
  'report exactly the membership, in argument order where one is given.',
  ['inputs', 'histories'], 'all sets and members, repeated arguments included', 'Repeated and present members combine; tests sample few.',
  [D + 'cmd/set/', S + 'cmd/set/', D + 'data_type/set.rs'], [KEYSPACE], [('set operations', D + 'cmd/set/')], TPL, SYM + TRUST)
p('C37', 'Sorted-set updates and ranks are exact',
  'ZADD with any combination of its options and ZREM give exactly the named members exactly the resulting scores and reply the '
  'number added, changed or removed as the options say; ZRANK and ZREVRANK reply the position of a member by score, then by '
  'byte order.',
  ['inputs', 'histories'], 'all sorted sets, scores, members and options', 'Options, equal scores and repeated members combine; tests sample few.',
  [D + 'cmd/sorted_set/', S + 'cmd/sorted_set/', D + 'data_type/sorted_set.rs'], [KEYSPACE], [('sorted-set operations', D + 'cmd/sorted_set/')],
  TPL, SYM + 'The score ZADD INCR replies is not compared. ' + TRUST)
p('C38', 'Sorted-set ranges select exactly the members inside the bounds',
  'Range queries and range removals by rank, score and member order select exactly the members inside the bounds, inclusive or '
  'exclusive as written, in the requested direction and after the requested offset and count, with scores when asked; removals '
  'delete exactly those and reply how many.',
  ['inputs', 'histories'], 'all sorted sets, bounds, directions, offsets and counts', 'Bound kinds, empty and inverted ranges, negative indexes and limits combine.',
  [D + 'cmd/sorted_set/', S + 'cmd/sorted_set/'], [KEYSPACE], [('sorted-set ranges', D + 'cmd/sorted_set/')], TPL, SYM + TRUST)
p('C39', 'String and key commands store, return and delete exactly what they name',
  'SET and its options, SETEX, PSETEX, GET, DEL and EXISTS store exactly the given value under exactly the given key, return what '
  'was stored (the previous value with GET), and delete and count exactly the named live keys.',
  ['inputs', 'histories'], 'all keys, values and options', 'Options combine with every state of the key; tests sample few.',
  [D + 'cmd/simple/', S + 'cmd/base/'], [KEYSPACE], [('string operations', D + 'cmd/simple/')], TPL, SYM + TRUST)
DIR = 'path-sensitive abstract interpretation of MIR: rules on one component with a symbolic environment'
ENVN = ('Every partition of the component over an environment whose answers are unknown (every outcome of each awaited call, bytes of '
        'unknown content and length), loops followed for up to the stated number of rounds. ')
p('C07', 'Each request on a connection gets exactly one reply, and errors do not end it',
  'A connection answers its requests one by one and in order: each gets exactly one complete reply, its own, and nothing else is '
  'written in between. A malformed or failing command is answered with an error and the connection goes on serving; it ends only when '
  'the client ends it, on a request that cannot be framed, when writing fails, or when the connection is handed to a snapshot.',
  ['inputs', 'histories', 'fault_sequences'], 'all sequences of requests of every outcome, and failures of reading and writing',
  'Tests send one good request per connection; a missing reply, an error that closes the connection or a reply that depends on '
  'the requests before needs a sequence of requests of particular outcomes.',
  [S + 'lib.rs', S + 'cmd/mod.rs', C + 'connection/mod.rs'], [('connection', 'stream and buffer of one client', C + 'connection/mod.rs')],
  [('loop over the requests of a connection', S + 'lib.rs'), ('writing of a reply', C + 'connection/mod.rs')],
  DIR, ENVN + 'Up to three requests per connection, one of each kind of outcome. ' + TRUST)
p('C08', 'Every reply is encoded as exactly one RESP value with its payload intact',
  'Whatever a reply carries, including bytes that are not UTF-8 and line breaks in a bulk, the bytes written for it are exactly one '
  'value of the RESP protocol: the marker of its kind, the true length or element count where one is due, the payload unchanged, and '
  'the terminators. Nested arrays hold exactly their elements in order.',
  ['inputs'], 'all reply kinds, all payloads and lengths',
  'A wrong length or a converted payload only shows for particular bytes (non-UTF-8, several digits, empty).',
  [C + 'connection/mod.rs', C + 'connection/parse/frame.rs'], [],
  [('encoding of a reply', C + 'connection/mod.rs')], DIR,
  'Every kind of reply with payloads of unknown content and length; arrays up to three elements, two levels. ' + TRUST)
p('C10', 'Requests are framed exactly, however their bytes arrive',
  'A complete request is recovered with exactly its elements and consumes exactly its own bytes; a prefix of a request is never taken '
  'for a request, and nothing else is taken for one. This holds however the bytes are split over reads, so pipelined requests are '
  'neither merged, lost nor skewed, and a connection that ends inside a request is reported. Nesting and declared sizes cannot make '
  'the parser recurse or allocate beyond a fixed bound.',
  ['inputs', 'histories'], 'all request bytes, all ways to split them over reads',
  'Splits and partial lengths are unbounded; tests parse whole buffers.',
  [C + 'connection/parse/frame.rs', C + 'connection/mod.rs'], [('buffer', 'bytes received and not yet consumed', C + 'connection/mod.rs')],
  [('request parser', C + 'connection/parse/frame.rs'), ('reading of a request', C + 'connection/mod.rs')], DIR,
  'Request bytes of unknown content with every position of the end; arrays up to three elements; up to four reads and two requests. ' + TRUST)
p('C20', 'Expired keys are removed by themselves, and only those',
  'Every key with a deadline is removed after the deadline passed, without being accessed: the expiry task learns every deadline '
  '(those of a loaded snapshot too), wakes no later than the earliest one, even when an earlier one arrives while it sleeps, and '
  'removes exactly the keys whose own deadline has passed at that time. A key whose deadline was moved or taken away is not removed.',
  ['inputs', 'schedules', 'histories'], 'all sequences of deadline changes, all wake-up times',
  'Depends on the order of messages, timers and later writes; a test waits for one key.',
  [DB + 'expire.rs', DB + 'slot.rs', D + 'lib.rs'], [EXP, ('data', 'entries of the expiry index by deadline', DB + 'expire.rs')],
  [('expiry task', DB + 'expire.rs'), ('purge of a slot', DB + 'slot.rs')], DIR,
  'The purge, the index updates, the purge loop, the index scan, snapshot loading and start-up are each analysed on unknown state '
  '(indexes of up to two representative entries). ' + TRUST)
p('C26', 'Every connection holds exactly one permit until it ends',
  'The server accepts a connection only with one permit of the connection limit taken for it, and that permit is returned exactly once, '
  'when the connection ends, however it ends (client closes, error, failed write, handed to a snapshot). So the limit is never '
  'exceeded and never leaks away.',
  ['histories', 'fault_sequences'], 'all ways a connection can end, all sequences of accepts',
  'A leak is visible only after as many connections as the limit allows have ended in the particular way that leaks.',
  [S + 'lib.rs', S + 'limit.rs', S + 'cmd/syncsnapshot.rs'], [('Limit', 'semaphore of open connections', S + 'limit.rs')],
  [('accept loop', S + 'lib.rs'), ('snapshot hand-over', S + 'cmd/syncsnapshot.rs')], DIR,
  ENVN + 'Permits taken, forgotten and returned are balanced on every path of the accept loop and of a connection to its end. ' + TRUST)
p('C27', 'Neither a client nor failed accepts stop the server accepting',
  'No request, no end of a connection and no single failed accept ends the accept loop; failed accepts are retried with pauses between '
  'them and give up only after several in a row. Every accepted connection is served by a task of its own. The listener for replicas '
  'never ends, and pauses between failed accepts too.',
  ['histories', 'fault_sequences'], 'all sequences of accepted and failed accepts and connections',
  'Accept failures (descriptor exhaustion, aborted handshakes) do not occur in tests.',
  [S + 'lib.rs', DB + 'forward/connection.rs'], [], [('accept loop', S + 'lib.rs'), ('listener for replicas', DB + 'forward/connection.rs')], DIR, ENVN + TRUST)
p('C28', 'Every key maps to its Redis Cluster slot, and to that slot only',
  'The slot of a key is CRC16 (XMODEM) of its hash tag, the bytes between the first brace and the next closing one when there is at '
  'least one, else of the whole key, modulo 16384. A server has exactly these slots, each under its own number, and every command '
  'reaches a key through its slot.',
  ['inputs'], 'all keys', 'Brace placement has many corner cases and a wrong table entry affects one byte value in 256.',
  [DB + 'lib.rs', DB + 'slot.rs'], [('slots', 'table of slots', DB + 'lib.rs')],
  [('slot of a key', DB + 'lib.rs')], DIR,
  'Hash-tag selection is analysed for keys of unknown content; the parameters of the '
  'checksum are read from the compiled constant. ' + TRUST)
p('C29', 'FLUSHALL empties every slot and tells the replicas',
  'After FLUSHALL no key is left in any slot; every slot keeps its place in its write sequence, so that each replica, on receiving the '
  'one message per slot, empties that slot too and follows all later writes.',
  ['histories'], 'all states of all slots, synchronous and asynchronous variants',
  'No test combines FLUSHALL with a replica or with later writes.',
  [DB + 'slot.rs', DB + 'lib.rs', S + 'cmd/'], [KEYSPACE, SEQ], [('flush of a slot', DB + 'slot.rs')], DIR,
  'The slot table is represented by two unknown slots; the flush and its replica twin are interpreted and compared. ' + TRUST)
p('C30', 'Locks are taken in one order, and none is held while waiting',
  'Across the background tasks, the commands on all slots, the replica and the placement driver: no task takes a lock it already '
  'holds, no lock is held while its task waits for a peer, a timer or another task, no lock outlives its task, and any two kinds of '
  'lock are only ever nested in one order. So no set of tasks can wait for one another forever.',
  ['schedules'], 'all tasks, all interleavings, peers that do not answer',
  'A deadlock needs several tasks at particular points, or a peer that is silent at the wrong time.',
  [DB + 'slot.rs', DB + 'expire.rs', DB + 'lib.rs', DB + 'pd_handle/', 'component/pd/src/'],
  [('share_status', 'content of a slot behind its lock', DB + 'slot.rs')],
  [('lock guard of a slot', DB + 'slot.rs'), ('scan of the expiry index', DB + 'expire.rs'), ('link to the leader', DB + 'pd_handle/')], DIR,
  'The lock-order graph over the kinds of lock is built from every acquisition, held set and wait met by the direct rules; '
  'locks of one kind (two slots) are told apart by identity where one task takes both. ' + TRUST)
p('C31', 'RESTORE brings back exactly what DUMP gave',
  'DUMP replies nil for a missing key and otherwise a payload of the live value; RESTORE creates the key with exactly the value of '
  'its payload and the deadline it names (relative or absolute, none for zero), replaces a live key only when told to, refuses '
  'payloads that are none, and takes its options in any letter case. Every kind of value is encoded by the same layout it is '
  'decoded by.',
  ['inputs', 'histories'], 'all kinds of values, all deadlines and options, all states of the key',
  'A payload written by one layout and read by another, or a deadline taken in the wrong unit, needs particular values and options.',
  [D + 'cmd/server/', S + 'cmd/others/dump.rs', S + 'cmd/others/restore.rs', D + 'lib.rs'], [KEYSPACE, EXP],
  [('encoding of a value', D + 'cmd/server/dump.rs'), ('restoring of a value', D + 'cmd/server/restore.rs')], TPL,
  SYM + 'The codec is modelled as invertible on the value it was given; layouts are compared type by type. ' + TRUST)
p('C32', 'A snapshot is the whole of each slot at one moment',
  'A snapshot for a replica sends every requested slot the server holds, each under its own number with exactly the content and '
  'sequence number it had at one moment under its lock, and then an end marker that is sent only when nothing was lost. The server '
  'itself goes on serving. The receiver replaces the content of exactly that slot and indexes its deadlines anew.',
  ['histories', 'schedules', 'fault_sequences'], 'all states of the slots, all points at which the transfer may fail',
  'Needs a replica, writes during the fork, and transfers failing at particular points.',
  [S + 'cmd/syncsnapshot.rs', DB + 'slot.rs', DB + 'pd_handle/replica.rs'], [KEYSPACE, SEQ],
  [('snapshot process', S + 'cmd/syncsnapshot.rs'), ('loading of a snapshot', DB + 'slot.rs')], DIR,
  'Fork is modelled as a choice of parent, child or failure; the slot table is represented by two unknown slots. ' + TRUST)
F = DB + 'forward/'
R = DB + 'pd_handle/'
PD = 'component/pd/src/'
p('C21', 'What one process writes, the process that reads it reads back',
  'Everything that crosses a process boundary in binary form (replication messages and the requests on a replication link, slots of a '
  'snapshot, DUMP payloads, registrations, heartbeats and their answers) is written as a type that the receiving side reads, and every '
  'type in it is written with exactly the fields, in the order, and with the variant numbers it is read with; nothing is skipped on one '
  'side only.',
  ['inputs'], 'all types that are exchanged, all their fields and variants',
  'A field skipped or reordered on one side shows up only when two processes exchange a value in which it matters; no test runs two processes.',
  [D + 'lib.rs', DB + 'slot/replica_update.rs', F + 'connection.rs', R + 'replica.rs', R + 'mod.rs', S + 'cmd/syncsnapshot.rs', PD + 'cmd.rs',
   C + 'pd_message.rs'], [],
  [('serialization of replication messages', F + 'connection.rs'), ('transfer of a snapshot', S + 'cmd/syncsnapshot.rs')],
  'query over the compiled serialize and deserialize implementations: agreement of both layouts, field by field, for every exchanged type',
  'Reads the generated implementations of every exchanged type from generic MIR and compares what they write with what they read; hand-written '
  'implementations are followed to the container they delegate to. The binary format itself is trusted.')
p('C22', 'A follower neither skips nor repeats a write, and refetches what it misses',
  'A follower installs a slot from its leader only when it was received whole, each slot under its own '
  'number. It applies every write it receives to the slot the write names, in order; a write ahead of the '
  'slot\'s sequence makes it fetch that slot before anything else is applied to it, and writes the slot already contains are dropped. '
  'Nothing is applied to a slot while its content is being fetched, and a fetch that fails leaves it as it was, to be fetched again when the '
  'next gap shows.',
  ['histories', 'schedules', 'fault_sequences'], 'all sequences of writes, gaps, transfers, and failures at any point of a transfer',
  'Needs two servers, a transfer, writes arriving during it and failures in the middle; no test starts a replica.',
  [R + 'replica.rs', DB + 'slot.rs', DB + 'slot/replica_update.rs'], [SEQ, ('Inner', 'state shared by the tasks of a replica', R + 'replica.rs')],
  [('fetching of slots', R + 'replica.rs'), ('application of received writes', R + 'replica.rs')], DIR,
  ENVN + 'Up to two received slots per transfer and two writes per round. Writes of the leader between the registration of the replica and '
  'the transfer are covered by the gap rule only. ' + TRUST)
p('C23', 'Every write reaches every connected replica once, in order',
  'A replica that connects is registered before it is served; from then on every message of every slot is put into the queue of every '
  'registered replica exactly once and in order, and written to its connection as it is. A replica whose connection is gone is removed '
  'without affecting the others; one that could not be sent a write is sent nothing after it. On the other side every message is taken '
  'from the connection once and in order and handed on, until the connection is lost.',
  ['histories', 'schedules', 'fault_sequences'], 'all sequences of messages, connecting and failing replicas',
  'A message lost when another replica disconnects, or repeated after an error, needs several replicas and a failure at the right moment.',
  [F + 'mod.rs', F + 'connection.rs', R + 'replica.rs'], [('connections', 'queues of the registered replicas', F + 'connection.rs')],
  [('push to all replicas', F + 'connection.rs'), ('connection of a replica', F + 'connection.rs'), ('receiving of writes', R + 'replica.rs')],
  DIR, ENVN + 'Up to three registered replicas and three messages. ' + TRUST)
p('C24', 'The placement driver keeps one live leader per group',
  'A server that registers in a group gets a number no other server of the group has, and leads exactly when the group has no leader, else '
  'follows; the state it is told is the one recorded. A heartbeat marks exactly the server it comes from as alive and is answered with its '
  'recorded state exactly when that differs from the reported one. A leader silent for more than three seconds is replaced by the live '
  'follower that joined first, if there is one; a leader that is not silent stays, at most one server of a group leads, and the leader '
  'information of a group names its leader and the addresses it registered.',
  ['histories', 'inputs', 'schedules'], 'all states of groups and servers, all orders of registrations, heartbeats and checks',
  'Fail-over depends on several servers and elapsed time; no test covers the placement driver.',
  [PD + 'status.rs', C + 'pd_message.rs'], [('STATUS', 'groups, servers and leaders', PD + 'status.rs')],
  [('registration', PD + 'status.rs'), ('check for silent leaders', PD + 'status.rs'), ('heartbeat', PD + 'status.rs')], DIR,
  'Up to two groups and three servers in unknown states (numbers unique, recorded leader correct at the start: shown to be kept). Times '
  'below 2^62 ms. ' + TRUST)
p('C25', 'A server takes exactly the role it is told',
  'A server registers with its configured group and its own addresses, reports the state it was last told and took over, and acts on every '
  'answer: told to lead, it stops applying the writes of its old leader; told to follow another leader, it first stops applying the writes '
  'of the old one, then fetches the data and follows the writes of the new one, from its addresses; told the same leader again, it changes nothing. A '
  'state it could not take over is not reported as taken over, and does not end the heartbeats.',
  ['histories', 'fault_sequences'], 'all sequences of states told by the placement driver, failures of each exchange',
  'Role changes need a placement driver, two servers and a fail-over; no test has them.',
  [R + 'mod.rs', R + 'replica.rs'], [('status', 'role and leader of this server', R + 'mod.rs')],
  [('role change', R + 'mod.rs'), ('heartbeat', R + 'mod.rs')], DIR, ENVN + 'Two answers per connection. ' + TRUST)
p('C40', 'The placement driver answers every request with its own result and keeps serving',
  'Each request to the placement driver is carried out exactly once, on its own payload, and answered with exactly one reply: the recorded '
  'result, OK, or an error; a malformed or refused request does not end the connection, no connection and no single failed accept ends '
  'the service, failed accepts are retried with pauses, every connection is served by a task of its own, and the check for silent leaders '
  'runs, once, from the start.',
  ['histories', 'fault_sequences'], 'all sequences of requests and accepts of every outcome',
  'No test runs the placement driver.',
  [PD + 'connect.rs', PD + 'cmd.rs', PD + 'lib.rs'], [('STATUS', 'groups, servers and leaders', PD + 'status.rs')],
  [('requests of a connection', PD + 'connect.rs'), ('accept loop', PD + 'lib.rs')], DIR, ENVN + 'Two requests per connection, two connections. ' + TRUST)

p('C41', 'The access statistics of a key follow its accesses',
  'OBJECT IDLETIME tells the time since the last access to a key, to ten seconds, and OBJECT FREQ its access count: a new key starts with '
  '5; every command on a key that exists, except TTL, PTTL and OBJECT, is an access; an access counts one, up to 65535, after one is taken off for every minute since the access before it, down to 0. Asking for the '
  'statistics is not an access. RESTORE gives a key the statistics it is told. OBJECT answers an error for a key that does not exist. '
  'Noting an access changes nothing else of a value.',
  ['inputs', 'histories'], 'all times, counts and distances of accesses up to 65535 minutes',
  'Depends on the clock: minutes that wrap around, counts at their bounds; no test moves the clock.',
  [D + 'lib.rs', D + 'cmd/server/restore.rs', S + 'cmd/others/object.rs'], [('visit_log', 'last access, minute of the last decay and count in one word', D + 'lib.rs')],
  [('noting of an access', D + 'lib.rs'), ('OBJECT', S + 'cmd/others/object.rs')], DIR,
  'Exact for two moments at most 65535 minutes apart (the word keeps the minute modulo 65536). ' + TRUST)

p('C42', 'Snapshot processes are recorded and waited for',
  'A server that starts a process to send a snapshot records that process. One task waits for such processes for as long as the server '
  'runs, whatever waiting answers: it pauses between its looks, takes the record of a process that ended away and keeps the others, and never keeps '
  'the records locked while it pauses. So an ended snapshot process is always reaped and starting a snapshot never waits for another.',
  ['histories', 'fault_sequences'], 'all orders of starts, ends, signals and failing waits, up to three looks',
  'The task lives in the background; no test ends a snapshot process or makes waiting fail.',
  [DB + 'child_process.rs', S + 'cmd/syncsnapshot.rs'], [('STATUS', 'process to what it was started for', DB + 'child_process.rs')],
  [('start of a snapshot', S + 'cmd/syncsnapshot.rs'), ('end of a snapshot process', DB + 'child_process.rs')], DIR,
  'The operating system is assumed to answer as documented. ' + TRUST)

na('N01', 'A follower eventually holds what its leader holds',
   'When writes stop and the links stay up, every follower reaches the exact content of its leader within bounded time, for slots written '
   'after as well as before it joined.',
   ['histories', 'schedules', 'fault_sequences'], 'all histories of writes, joins, disconnections',
   'Needs several processes and histories of faults.', [R + 'replica.rs', DB + 'forward/'], [SEQ],
   [('link to the leader', R + 'replica.rs')],
   'Liveness over an unbounded history of several processes and of timers. What is decided of it are the safety parts on each side '
   '(C01, C02, C21, C22, C23, C25, C32); that they compose to convergence, and in bounded time, depends on the network and on timing that '
   'no static argument over one program bounds.')
na('N02', 'No acknowledged write is lost by a fail-over',
   'A write whose reply a client has seen is present on the server that becomes leader after a failure.',
   ['fault_sequences', 'histories'], 'all crash points of the leader',
   'Needs a crash of the leader between a reply and the delivery of its replication message.', [R + 'mod.rs', PD + 'status.rs'], [SEQ],
   [('fail-over', PD + 'status.rs')],
   'rudis replicates asynchronously by design, so the property does not hold and is not meant to; which writes are lost depends on how '
   'far sockets were drained when the process died, a run-time quantity outside the program text.')
na('N03', 'At most one server of a group acts as leader at any moment',
   'While the placement driver replaces a leader it believes dead, the old leader refuses writes before the new one accepts any.',
   ['fault_sequences', 'schedules'], 'all delays of heartbeats and of their answers',
   'Needs partitions and delayed messages.', [PD + 'status.rs', R + 'mod.rs'], [('leader', 'leader recorded of a group', PD + 'status.rs')],
   [('fail-over', PD + 'status.rs'), ('heartbeat', R + 'mod.rs')],
   'There is no lease or fencing in the protocol: whether two leaders overlap is a matter of clock rates and message delays. The '
   'single-process parts (one recorded leader per group, a role is taken exactly as told) are C24 and C25.')
na('N04', 'Commands on several keys take effect at one moment',
   'DEL, EXISTS and other commands on several keys, and FLUSHALL, are seen by other clients either entirely or not at all.',
   ['schedules'], 'all interleavings with other commands', 'Needs another client between two keys of one command.',
   [S + 'cmd/', DB + 'lib.rs'], [KEYSPACE], [('loop over the keys', S + 'cmd/')],
   'Not a guarantee of rudis: each slot has its own lock and commands on several slots take them one after another (C17 relies on it). '
   'Single-key atomicity is C18.')
na('N05', 'Memory and latency stay bounded under any load',
   'Queues to replicas, snapshot processes, parsed requests and the expiry index never grow beyond a bound fixed by the configuration.',
   ['inputs', 'schedules'], 'all loads', 'Needs sustained overload.', [DB + 'lib.rs', DB + 'expire.rs', DB + 'forward/'],
   [('expiration_data', 'deadlines of keys', DB + 'expire.rs')], [('queues', DB + 'lib.rs')],
   'The queues are unbounded channels and their length is a race between producer and consumer rates; no static bound exists. The bounds '
   'that are static are decided: parser recursion and allocation (C10), permits per connection (C26).')
na('N06', 'Messages survive the trip through bytes',
   'Every value of a message type is decoded from its own bytes to an equal value, whatever the sizes of its strings and collections.',
   ['inputs'], 'all values of the message types', 'Sizes near limits and unusual floats are not sampled.', [R + 'replica.rs', DB + 'forward/message.rs'],
   [KEYSPACE], [('bincode of messages', DB + 'forward/message.rs')],
   'The byte level is bincode and serde, whose code is library code outside the repository; the part that is rudis\' own (which fields are '
   'written and read, in which order, with which types at both ends) is C21.')
