#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  (One place to edit titles, statements and anchors.)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe or [], hook_needed=hook)))

NODE = "sqlitecluster/SQLiteNode.cpp"
SQL = "sqlitecluster/SQLite.cpp"
NOCLUSTER = "The stable suite never opens a database or a cluster: no test exercises any node state machine; what holds for every schedule of messages, failures and restarts cannot be sampled by a handful of scripted runs anyway."

p("C01", "All nodes commit the same transactions in the same order",
  "In a cluster whose nodes start from a common history, the committed transactions of any two nodes always agree: where both have a transaction with a given number, its content and hash are the same, and the numbers on each node run without gap or repetition. A follower commits exactly the transactions the leader committed, in the leader's order, whatever messages are delayed and whichever connections break and come back. Applying them leaves the same data on every node.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of client writes, message deliveries, disconnections, reconnections and leader changes",
  NOCLUSTER, [NODE, SQL, "sqlitecluster/SQLiteNode.h"],
  [("leader ships committed transactions in order", NODE + ":_sendOutstandingTransactions"), ("follower applies one transaction at a time, checking number and hash", NODE + ":_handleBeginTransaction/_handlePrepareTransaction/_handleCommitTransaction"), ("hash chain over all earlier transactions", SQL + ":prepare")],
  [("commit count / last hash", "position in the common history", "sqlitecluster/SQLite.h:SharedData")], ["journal tables of every node", "SELECT of user tables"])
p("C02", "Never two leaders, and a leader always had a majority",
  "A node becomes leader only after a majority of the cluster's full (non-permanent-follower) nodes was connected and approved it, with no denial. At no time do two nodes of a cluster that can talk to each other both accept writes, and a connected node does not approve a second candidate while a leader or another candidate is up. A leader that loses contact with too many full nodes to have a majority stops leading.",
  ["schedules", "fault_sequences", "configurations"], "every cluster size and priority assignment, every order of message delivery, disconnection and restart",
  NOCLUSTER, [NODE, "sqlitecluster/SQLitePeer.cpp"],
  [("majority count of logged-in full peers", NODE + ":update, _majoritySubscribed"), ("approve/deny of stand-up requests", NODE + ":_sendStandupResponse"), ("stale stand-up responses are ignored", NODE + ":_onMESSAGE StateChangeCount")],
  None, ["node state over time", "STANDUP_RESPONSE messages"])
p("C03", "The right node leads: freshest data, highest priority, never a permafollower",
  "A node never becomes leader while a connected full node has committed transactions it lacks, and a permanent follower never becomes leader. When the cluster is healthy and idle, the connected node with the highest priority ends up leading and all others end up following it, also after nodes join, leave, restart or change priority.",
  ["schedules", "configurations", "histories"], "every assignment of priorities, commit counts and start orders",
  NOCLUSTER, [NODE, "sqlitecluster/SQLitePeer.cpp"],
  [("fresher-peer check before standing up", NODE + ":update SEARCHING/WAITING"), ("higher-priority peer makes a leader stand down", NODE + ":update LEADING"), ("priority announced only once ready", NODE + ":_realPriority handling")],
  None, ["node state, leader name, priority"])
p("C04", "A leader that steps down ships everything it committed, then commits no more",
  "When a leader steps down (shutdown request, a higher-priority node taking over, or a detected lack of majority) every transaction it committed is sent to the followers still connected before it leaves, and the next leader elected from them has them all. From the moment it has left the leading state it refuses new commits, so no transaction is acknowledged that the next leader does not know.",
  ["schedules", "fault_sequences"], "every point in time at which stand-down begins relative to running commands and commits",
  NOCLUSTER, [NODE, SQL, "sqlitecluster/SQLiteCore.cpp"],
  [("commits are disabled and outstanding transactions shipped on leaving LEADING", NODE + ":_changeState"), ("commit refused unless leading", "sqlitecluster/SQLiteCore.cpp:commit"), ("COMMIT_DISABLED", SQL + ":commit")],
  None, ["commit result", "follower commit counts after stand-down"])
p("C05", "A lagging or restarted node catches up with everything and rejoins",
  "A node that was down, disconnected or newly added obtains every transaction it misses, in order, from its peers and becomes a follower with the same commit count as the leader, however many transactions it is behind and even if writes go on meanwhile. While it is still catching up it neither leads nor skips a transaction.",
  ["histories", "schedules", "fault_sequences"], "every gap size and every interleaving of catch-up with new writes, restarts and peer changes",
  NOCLUSTER, [NODE], [("synchronization responses in bounded batches", NODE + ":_queueSynchronize/_recvSynchronize"), ("choice of the peer to sync from", NODE + ":_updateSyncPeer"), ("subscription approved together with all missing commits", NODE + ":SUBSCRIBE handling")],
  None, ["commit count and hash of each node", "node state"])
p("C06", "A node whose history diverged is detected and never mixed in",
  "If a node's committed history differs from its peers' at some transaction, it is recognised as forked: no transactions are exchanged with it, its transactions are never applied on others, nor theirs on it, and it does not become leader or follower of that cluster. A node that finds itself forked from a majority of the cluster stops rather than serve.",
  ["histories", "configurations"], "every fork point and every relative length of the two histories",
  NOCLUSTER, [NODE], [("hash comparison at login and on synchronization", NODE + ":_onMESSAGE LOGIN, _queueSynchronize"), ("dies if forked from the majority", NODE + ":_dieIfForkedFromCluster")], None, ["journal contents, process exit"])
p("C07", "Transactions are atomic, serial and hash-chained; failures leave no trace",
  "Committed transactions of a database form one sequence 1,2,3,... each carrying a hash derived from the previous hash and its own statements, and concurrent handles can never commit two transactions with the same number or on the same predecessor. A transaction that is rolled back, refused, timed out or lost a conflict leaves no row, no journal entry and no change of commit count, and never prevents later transactions on any handle from committing. Within one process a transaction sees a stable snapshot plus its own writes.",
  ["schedules", "programs", "fault_sequences"], "every interleaving of transactions on several handles, every operation order on a handle, including misuse such as nested begin",
  "No stable test touches the transaction layer; lock leaks and lost serialization appear only in particular interleavings or error paths.",
  [SQL, "sqlitecluster/SQLite.h"], [("commit lock from prepare to commit/rollback", SQL + ":prepare, commit, rollback"), ("hash chain", SQL + ":prepare"), ("commit count shared by all handles", SQL + ":SharedData")],
  [("commit lock", "serializes prepare..commit", "sqlitecluster/SQLite.h")], ["journal tables", "getCommitCount/getCommittedHash", "user rows from another handle"])
p("C08", "A process crash loses nothing committed and keeps nothing uncommitted",
  "If the process is killed at any instant, a restart finds every transaction whose commit was reported, at most one further transaction whose commit was under way, and nothing of any other. After the restart the commit count, hash and journal agree with the data, so the node continues the same sequence.",
  ["crash_points", "histories"], "every crash point between and inside database operations",
  "No test kills a process; the crash points are too many to enumerate by hand.", [SQL], [("journal row and data in one SQLite transaction", SQL + ":prepare, commit"), ("commit count and hash recovered from the journal", SQL + ":initializeSharedData")], None, ["database reopened after kill"])
p("C09", "The journal returns exactly what was committed, for as long as promised",
  "Every one of the most recent N committed transactions (N the configured journal size) can be looked up by number and by range, with exactly the statements and hash it was committed with, in order, whatever number of journal tables is used and whether or not entries are stored compressed. Trimming removes only transactions older than that, only a bounded number per commit, and never stops a backlog from shrinking. Reopening the database with other journal settings changes none of this.",
  ["histories", "configurations", "inputs"], "every history length, journal-table count, journal size and reopening sequence",
  "No test opens a journal.", [SQL, "plugins/Compression.cpp"], [("rotation over journal tables", SQL + ":prepare"), ("union query over all tables", SQL + ":_getJournalQuery, getCommit, getCommits"), ("trim with limit", SQL + ":prepare")], None, ["getCommit/getCommits", "journalEntries view"])
p("C10", "Reads inside a transaction are never stale",
  "Whatever sequence of reads and writes a transaction performs, every read returns what the database would answer at that point: repeated reads may be answered from a cache but never with a result older than the transaction's own last write, a rollback, a commit or a new transaction, and never one query's or one parameter set's result for another. Queries whose answer changes by themselves (time, randomness, change counters) are always evaluated afresh.",
  ["programs", "inputs"], "every program of reads, writes, begins, commits and rollbacks over one or more handles",
  "No stable test performs a read through the transaction layer.", [SQL], [("per-transaction query cache, cleared on write/commit/rollback/begin", SQL + ":read, _writeIdempotent"), ("non-deterministic functions disable caching", SQL + ":_authorize")], None, ["results of read()"])
p("C11", "Restricted handles do only what is allowed: whitelist, noop and rewrite modes",
  "With a table/column whitelist in force a query reads only whitelisted columns and writes nothing, and other queries fail without effect. In no-op update mode, UPDATE statements change nothing and ordinary writes are skipped, while writes declared idempotent still insert and delete, and leaving the mode restores normal behaviour. With rewriting enabled, the replacement query supplied by the handler is what runs and what is replicated, never both or the original. Unreplicated local writes never appear in the replicated history.",
  ["programs", "inputs", "configurations"], "every combination and order of modes and statements",
  "No stable test uses these modes.", [SQL], [("authorizer", SQL + ":_authorize"), ("noop", SQL + ":setUpdateNoopMode, write"), ("rewrite", SQL + ":setRewriteHandler, _writeIdempotent"), ("local writes", SQL + ":writeLocalUnreplicated")], None, ["query results, row contents, journal"])
p("C12", "Queued commands are delivered once, in order, when due or timed out",
  "Every command pushed is returned by exactly one get, or removed by exactly one clear/abandon; none is lost, duplicated or invented, whatever threads push and pop. A command is never returned before its scheduled time unless it has timed out; of the commands that are due, one that has timed out comes first (earliest timeout first), otherwise the one with the earliest scheduled time, first-in-first-out among equals. A waiting consumer is woken when an available command is pushed, and abandoning far-future commands removes exactly those scheduled beyond the given limit.",
  ["schedules", "programs", "inputs"], "every sequence and interleaving of push, get, timeouts, clear, abandon and the passage of time",
  "The stable suite covers a few scenarios of the blocking queue, none of the base queue's ordering or timeouts.", ["BedrockCommandQueue.cpp", "BedrockCommandQueue.h"],
  [("ordered by scheduled time, with a parallel index by timeout", "BedrockCommandQueue.cpp:get, push, _dequeue")], None, ["push/get/clear/abandonFutureCommands/size"])
p("C13", "Rate limiting of the blocking queue blocks exactly the abusers, for a while",
  "In the blocking-commit queue an identifier is blocked exactly when the execution time charged to it within the sliding window exceeds the configured threshold, for the configured duration and no longer; charges older than the window no longer count, and other identifiers are unaffected. While blocked, its commands are refused with an error both at enqueueing and when they come up, and none is lost silently; with limiting disabled or no identifier nothing is refused. The rules hold separately for the two dimensions, the identifier and the command name. Clearing blocks lifts them at once; changed limits apply from the next charge on.",
  ["histories", "schedules", "configurations"], "every history of pushes, charges, configuration changes and passing of time",
  "The stable tests check about a dozen scripted histories with real time; window and expiry arithmetic over arbitrary histories is not settled by them.", ["BedrockBlockingCommandQueue.cpp", "BedrockBlockingCommandQueue.h"],
  [("per-identifier window of charges", "BedrockBlockingCommandQueue.cpp:recordExecutionTime"), ("block check", "BedrockBlockingCommandQueue.cpp:push, _dequeue")], None, ["push exception / 503", "command responses", "getState"])
p("C14", "Named conflict locks exclude each other and are never stuck or forgotten",
  "At most one holder of a given non-empty conflict identifier exists at any time, holders of different identifiers never wait for each other, and an empty identifier never waits. Every waiter eventually obtains the lock after the holders before it release, and the bookkeeping of unused identifiers is discarded without ever discarding one that is held or waited for.",
  ["schedules"], "every interleaving of threads acquiring and releasing any mix of more identifiers than are retained",
  "No test covers it; it is a pure concurrency property.", ["ConflictLockGuard.cpp", "ConflictLockGuard.h"], [("reference-counted map of mutexes with bounded retention", "ConflictLockGuard.cpp")], None, ["critical-section overlap", "completion"])
p("C15", "Each client command is executed at most once and answered exactly once",
  "Every request accepted from a client is answered exactly once with the result of its own execution, and its database effects are committed exactly once if the answer reports success and not at all if it reports failure. This holds across commit conflicts and retries, the blocking queue, scheduling for the future, forwarding to the leader and back, time limits, exceptions in command code, and changes of node state. A command that exceeds its time limit is answered with a timeout and leaves no effect, unless it was forwarded: then an answer that did not come back in time is reported as an error of unknown outcome, and the command is still executed at most once.",
  ["schedules", "fault_sequences", "programs"], "every interleaving of concurrent commands, every number and position of conflicts, timeouts, exceptions and state changes",
  "No stable test starts a server.", ["BedrockServer.cpp", "BedrockCore.cpp", "BedrockCommand.cpp", "sqlitecluster/SQLiteClusterMessenger.cpp"],
  [("retry loop", "BedrockServer.cpp:runCommand"), ("peek/process/commit with rollback on any failure", "BedrockCore.cpp:peekCommand, processCommand"), ("forwarding", "sqlitecluster/SQLiteClusterMessenger.cpp:runOnPeer")], None, ["client replies, rows and journal"])
p("C16", "A command waits for the commit it depends on",
  "A command that names a commit number is executed on a node only when that node has committed at least that transaction, whichever node receives it; it is neither executed earlier nor forgotten, and all commands waiting for a number run once it is reached. A client that passes on the commit number it was given in a reply therefore always reads its own writes on any node.",
  ["schedules", "histories"], "every order of arrivals and commits, several commands waiting for the same or different numbers",
  "No stable test starts a server.", ["BedrockServer.cpp"], [("map of future commits", "BedrockServer.cpp:runCommand, notifyCommit / _futureCommitCommands")], None, ["replies of dependent commands"])
p("C17", "Control commands only from trusted places; crash-causing commands are refused",
  "Administrative commands have an effect only when they arrive from the local host or on the private port; from elsewhere they are refused without effect (those that suppress or clear the command port, tell the commit hash or report a crash excepted, which any node of the cluster may send). A command known to have crashed a node is refused with an error on every node that was told, without being executed, as long as its identifying values match; commands that differ in an identifying value still run, and after too many distinct crashes of one kind the whole kind is refused. Clearing the list makes them run again.",
  ["inputs", "histories", "configurations"], "every set of reported crashes and every incoming command, for every origin",
  "No stable test starts a server.", ["BedrockServer.cpp", "BedrockCommand.cpp"], [("control command check", "BedrockServer.cpp:_isControlCommand/_isNonSecureControlCommand"), ("crash list match", "BedrockServer.cpp:_wouldCrash")], None, ["replies"])
p("C18", "The public command port is open exactly when nothing blocks it",
  "The public command port accepts connections if and only if no reason to block it is outstanding; a reason given twice has to be lifted twice, each reason is lifted only by its own removal, in any order, and attaching again after a detachment lifts all. Lifting or adding reasons from any thread at any time leaves the port in the state the outstanding reasons call for, and the control port stays usable throughout.",
  ["programs", "schedules"], "every sequence and interleaving of block/unblock for any reasons",
  "No stable test starts a server.", ["BedrockServer.cpp"], [("multiset of block reasons", "BedrockServer.cpp:blockCommandPort, unblockCommandPort")], None, ["connect() to the public port", "Status"])
p("C19", "Graceful shutdown finishes accepted work and always completes",
  "On a shutdown request the server stops accepting new work, answers every command it has already accepted (commands scheduled for the future and those whose sender did not want to wait for the result excepted), commits what it reported as done, and then exits within a bounded time; nothing reported as successful is lost and the database is left consistent. This holds whatever commands are running, queued, waiting for a commit or being forwarded, and whatever the node's role.",
  ["schedules", "histories"], "every point at which the shutdown request arrives", "No stable test starts a server.", ["BedrockServer.cpp", NODE], [("shutdown state machine", "BedrockServer.cpp:_beginShutdown, sync, postPoll"), ("queue abandonment", "BedrockServer.cpp")], None, ["replies, exit, database"])
JOBS = ["plugins/Jobs.cpp", "plugins/Jobs.h"]
p("C20", "A job is handed to one worker at a time, best job first",
  "GetJob/GetJobs return only jobs that are queued and due and match the requested name, each to one requester only until it is requeued, retried or its retry time passes; they return them in order of priority and then due time, and never more than requested. No sequence of job commands makes a job that is being run, is finished, failed, cancelled or deleted be handed out again, except where retry, failure-requeue or repetition asks for it.",
  ["histories", "programs", "schedules"], "every sequence of job commands by any number of workers and the passage of time",
  "No stable test loads the Jobs plugin.", JOBS, [("selection query over priorities", "plugins/Jobs.cpp:GetJob"), ("state update in the same transaction", "plugins/Jobs.cpp:GetJob process")], None, ["command replies and jobs table"])
p("C21", "Parent and child jobs: the parent resumes once, after all its children",
  "A parent job with unfinished children waits, its children run only after the parent has handed over, and the parent is queued again exactly when its last child has finished or been cancelled, never earlier and never twice. Finishing, cancelling, failing, deleting or retrying a job in any order keeps this; a job that is running is never put back in the queue by what happens to a child.",
  ["histories", "programs"], "every tree of jobs and every order of operations on it", "No stable test loads the Jobs plugin.", JOBS,
  [("pause/resume on finish and cancel", "plugins/Jobs.cpp:FinishJob, CancelJob, RetryJob"), ("child creation", "plugins/Jobs.cpp:CreateJob")], None, ["job states and replies"])
p("C22", "Repeating, retrying and unique jobs follow their schedule exactly",
  "A repeating job, when finished, becomes due again at the time its repeat rule gives relative to its last scheduled, started or finished time, otherwise it ends; a job with automatic retry becomes due again when its retry interval passes without an answer, a bounded number of times. RetryJob's delay or next run, its new name, priority and data are applied as given; creating a unique job that already exists returns the existing one (updated only if allowed) instead of a second. Failed commands of a worker make its jobs due again rather than losing them.",
  ["histories", "inputs"], "every repeat rule, every timing of operations, every combination of options", "No stable test loads the Jobs plugin.", JOBS,
  [("next-run computation", "plugins/Jobs.cpp:_constructNextRunDATETIME"), ("retryAfter", "plugins/Jobs.cpp:GetJob"), ("unique handling", "plugins/Jobs.cpp:CreateJob")], None, ["nextRun/state in table and replies"])
p("C23", "The cache returns the latest value written and stays within its size",
  "Reading a cache entry by exact name returns the value most recently written under it, unless it was since invalidated or evicted, and never another entry's value; a pattern read returns only an entry that matches it. Writing with an invalidation pattern removes all and only the matching entries. The total size of all entries never exceeds the configured maximum, the accounted size equals the real one, and what is evicted to make room is what was used longest ago.",
  ["histories", "inputs", "schedules"], "every sequence of reads and writes of any sizes, names and patterns, through any connection",
  "No stable test loads the Cache plugin.", ["plugins/Cache.cpp", "plugins/Cache.h"], [("size accounting by triggers", "plugins/Cache.cpp:upgradeDatabase"), ("LRU map", "plugins/Cache.cpp:LRUMap"), ("eviction loop", "plugins/Cache.cpp:process")], None, ["replies and cache tables"])
p("C24", "Ad-hoc SQL queries: reads never write, dangerous writes are refused",
  "A Query command with one reading statement returns exactly the rows SQLite would answer, and no query that only reads changes the database or the replicated history; a query that writes, of one or several statements and with or without bound parameters, is executed and replicated exactly once, so that a replica gets the same rows. A query without a terminating semicolon, one that begins with UPDATE or DELETE and nowhere mentions WHERE (unless explicitly allowed), and one that begins or ends a transaction are refused without effect, as is any query that fails part-way.",
  ["inputs", "programs"], "every query text and option", "No stable test loads the DB plugin.", ["plugins/DB.cpp", "plugins/DB.h"], [("peek runs read-only statements", "plugins/DB.cpp:peek"), ("WHERE requirement and semicolon", "plugins/DB.cpp")], None, ["replies, rows, journal"])
p("C25", "The ring buffer loses, duplicates, reorders nothing and is full only when full",
  "Any number of producers and the consumer of the lock-free ring buffer see a bounded queue: each pushed element is popped exactly once, elements of one producer come out in the order pushed, pop never returns an element that was not completely pushed. A push fails only if the buffer was full and a pop fails only if nothing was available during the call.",
  ["schedules"], "every interleaving of producers and the consumer, any capacity", "The stable tests run a few interleavings; weak-timing windows need exhaustive exploration.",
  ["libstuff/SRingBuffer.h"], [("ticketed slots", "libstuff/SRingBuffer.h:push, pop")], None, ["push/pop results"])
p("C26", "Message framing does not depend on how bytes are chunked",
  "A stream of requests or responses (each with a Content-Length or chunked) yields the same sequence of messages (method line, headers, body) however it is split into network reads, consumes exactly the bytes of each complete message and nothing of an incomplete one (only the line end closing a message without body may be consumed with the next one), and composing a message and parsing it back yields the same message. Bytes sent on a connection arrive in order, once, whatever partial sends occur.",
  ["inputs", "schedules"], "every message sequence and every split of its bytes", "The stable tests parse a few fixed messages in one piece.",
  ["libstuff/libstuff.cpp", "libstuff/SData.cpp", "libstuff/SFastBuffer.cpp", "libstuff/STCPManager.cpp"], [("incremental parse", "libstuff/libstuff.cpp:SParseHTTP"), ("consume-front buffer", "libstuff/SFastBuffer.cpp"), ("partial send/receive", "libstuff/STCPManager.cpp")], None, ["SData::deserialize result and bytes received"])
p("C27", "Synchronized queues wake their poller and lose nothing",
  "Items pushed onto a synchronized queue by any threads are popped exactly once and in order, and whenever the queue is non-empty the thread polling on it is (or will be) woken, never sleeping on a non-empty queue. Visiting or clearing the queue is atomic with respect to pushes and pops.",
  ["schedules"], "every interleaving of pushers, the poller and clear", "No test covers it; a lost wake-up needs a particular interleaving.",
  ["libstuff/SSynchronizedQueue.h"], [("pipe written on push, drained in postPoll", "libstuff/SSynchronizedQueue.h")], None, ["pop results and poll readiness"])
p("C28", "Pooled connections and database handles have one user at a time",
  "A database handle or socket obtained from a pool belongs to one user until it is returned; two users never hold the same one, no more handles than the limit exist, and a waiter gets a handle when one is returned. Sockets idle longer than the limit are closed rather than handed out, and everything returned is reusable or destroyed, never leaked.",
  ["schedules", "histories"], "every interleaving of users getting, returning and timing out", "No test covers it.",
  ["sqlitecluster/SQLitePool.cpp", "libstuff/SSocketPool.cpp", "libstuff/SMultiHostSocketPool.cpp"], [("free/in-use sets under a mutex with a condition variable", "sqlitecluster/SQLitePool.cpp"), ("idle list with timestamps", "libstuff/SSocketPool.cpp")], None, ["handles returned, number of open sockets/handles"])
p("C29", "Changing a node's priority is safe: refused if it would break the cluster",
  "A request to change a node's priority is carried out only if the new priority is valid, not already used by another node, and does not leave the cluster without enough full nodes for a majority; otherwise it is refused with an error and nothing changes. After an accepted change every connected node uses the new priority and leadership moves accordingly, without two leaders or lost transactions.",
  ["configurations", "schedules"], "every configuration of priorities and connection states, every requested value", NOCLUSTER,
  [NODE], [("validation", NODE + ":setPriority / _isPriorityChangeAllowed"), ("announcement", NODE + ":PRIORITY / reconnectAll")], None, ["result of the request and resulting states"])
p("C30", "Blocking writes really stops them, and unblocking really resumes them",
  "Between a successful request to block writes and the request to unblock, no transaction commits on that node and reads go on; a block while blocked is refused and an unblock while not blocked is reported as such, without changing the state; shutting down or detaching lifts a block. After unblocking, writes that were waiting complete and are answered; no order of these requests with detach, attach, backup or shutdown leaves the node stuck.",
  ["schedules", "programs"], "every order and interleaving of block, unblock, detach, attach, shutdown and client writes", "No stable test starts a server.",
  ["BedrockServer.cpp", SQL], [("exclusive lock held by a dedicated thread", "BedrockServer.cpp:BlockWrites/UnblockWrites"), ("lock order", SQL + ":exclusiveLockDB")], None, ["replies and commit count"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
