From f22a48ad330a50f0fd727cda92cee66be0482627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:47 +0000
Subject: [PATCH 01/25] fix: abandonFutureCommands left stale timeouts behind
 and overflowed for limits over 35 minutes

---
 BedrockCommandQueue.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/BedrockCommandQueue.cpp b/BedrockCommandQueue.cpp
index a64016b..e8e80bc 100644
--- a/BedrockCommandQueue.cpp
+++ b/BedrockCommandQueue.cpp
@@ -135,7 +135,7 @@ list<string> BedrockCommandQueue::getRequestMethodLines()
 
 void BedrockCommandQueue::abandonFutureCommands(int msInFuture)
 {
-    uint64_t timeLimit = STimeNow() + msInFuture * 1000;
+    uint64_t timeLimit = STimeNow() + msInFuture * STIME_US_PER_MS;
 
     // Lock around changes to the queue.
     unique_lock<decltype(_queueMutex)> queueLock(_queueMutex);
@@ -144,6 +144,11 @@ void BedrockCommandQueue::abandonFutureCommands(int msInFuture)
     size_t numberToErase = distance(it, _queue.end());
     if (numberToErase) {
         _queue.erase(it, _queue.end());
+
+        // Also forget their timeouts, or `_dequeue` would look for these items when they'd have timed out.
+        for (auto timeoutIt = _lookupByTimeout.begin(); timeoutIt != _lookupByTimeout.end();) {
+            timeoutIt = (timeoutIt->second >= timeLimit) ? _lookupByTimeout.erase(timeoutIt) : next(timeoutIt);
+        }
         SINFO("Erased " << numberToErase << " commands scheduled more than " << msInFuture << "ms in the future.");
     }
 }
-- 
2.43.0


From f908721ae67ca2eaabfa58c52ba56c392d0e2e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:34 +0000
Subject: [PATCH 02/25] fix: SRingBuffer::push reported a full buffer when its
 write index had been overtaken

---
 libstuff/SRingBuffer.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libstuff/SRingBuffer.h b/libstuff/SRingBuffer.h
index 5f9adfa..9e6e378 100644
--- a/libstuff/SRingBuffer.h
+++ b/libstuff/SRingBuffer.h
@@ -36,7 +36,14 @@ public:
 
         while (true) {
             if (currentWriteIndex - readIndex.load(memory_order_acquire) >= C) {
-                return false;
+                // Other producers and the consumer may have moved on since we loaded our write index. That makes it
+                // meaningless to compare with the current read index, so we're only full if it hasn't changed.
+                const size_t latestWriteIndex = writeIndex.load(memory_order_acquire);
+                if (latestWriteIndex == currentWriteIndex) {
+                    return false;
+                }
+                currentWriteIndex = latestWriteIndex;
+                continue;
             }
             if (writeIndex.compare_exchange_weak(currentWriteIndex, currentWriteIndex + 1, memory_order_acq_rel, memory_order_relaxed)) {
                 break;
-- 
2.43.0


From 403769cafabd1c545666324cc017ab301523dcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:59 +0000
Subject: [PATCH 03/25] fix: beginTransaction releases the commit lock when no
 transaction was begun

An EXCLUSIVE beginTransaction on a handle already inside a transaction, or whose BEGIN failed, left the commit lock
held, so every other handle waited forever.
---
 sqlitecluster/SQLite.cpp | 41 ++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index 4b4585b..fa36bfd 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -516,22 +516,6 @@ SQLite::TRANSACTION_TYPE SQLite::getLastTransactionType()
 
 bool SQLite::beginTransaction(SQLite::TRANSACTION_TYPE type, bool beginOnly)
 {
-    _lastTransactionType = type;
-    _transactionTimer.start("BEGIN_TRANSACTION");
-    if (type == TRANSACTION_TYPE::EXCLUSIVE) {
-        if (isSyncThread) {
-            // Blocking the sync thread has catastrophic results (forking) and so we either get this quickly, or we fail the transaction.
-            if (!_sharedData.commitLock.try_lock_for(5s)) {
-                SWARN("Failed to acquire commit lock in sync thread exclusive transaction!");
-                STHROW("512 Internal Lock Timeout");
-            }
-        } else {
-            _sharedData.commitLock.lock();
-        }
-        _sharedData._commitLockTimer.start("EXCLUSIVE");
-        _mutexLocked = true;
-    }
-
     // The most likely case for hitting this is that we forgot to roll back a transaction when we were finished with it
     // during the last use of this DB handle. In that case, `_insideTransaction` is likely true, and possibly
     // _uncommittedHash or _uncommittedQuery is set. Rollback should put this DB handle back into a usable state,
@@ -550,6 +534,22 @@ bool SQLite::beginTransaction(SQLite::TRANSACTION_TYPE type, bool beginOnly)
         STHROW("Attempted to begin transaction while in invalid state: _uncommittedQuery not empty");
     }
 
+    _lastTransactionType = type;
+    _transactionTimer.start("BEGIN_TRANSACTION");
+    if (type == TRANSACTION_TYPE::EXCLUSIVE) {
+        if (isSyncThread) {
+            // Blocking the sync thread has catastrophic results (forking) and so we either get this quickly, or we fail the transaction.
+            if (!_sharedData.commitLock.try_lock_for(5s)) {
+                SWARN("Failed to acquire commit lock in sync thread exclusive transaction!");
+                STHROW("512 Internal Lock Timeout");
+            }
+        } else {
+            _sharedData.commitLock.lock();
+        }
+        _sharedData._commitLockTimer.start("EXCLUSIVE");
+        _mutexLocked = true;
+    }
+
     // We actively track transaction counts incrementing and decrementing to log the number of active open transactions at any given moment.
     _sharedData.openTransactionCount++;
 
@@ -560,6 +560,15 @@ bool SQLite::beginTransaction(SQLite::TRANSACTION_TYPE type, bool beginOnly)
 
     string beginQuery = (beginOnly && _hctree) ? "BEGIN" : "BEGIN CONCURRENT";
     _insideTransaction = !SQuery(_db, beginQuery);
+    if (!_insideTransaction) {
+        // There's no transaction to commit or roll back, so nothing else is going to release what we acquired for it.
+        _sharedData.openTransactionCount--;
+        if (_mutexLocked) {
+            _mutexLocked = false;
+            _sharedData._commitLockTimer.stop();
+            _sharedData.commitLock.unlock();
+        }
+    }
 
     _queryCache.clear();
     _tablesUsed.clear();
-- 
2.43.0


From 850d6907d2b294bacbb9c3dca7ab21bfa2348672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:59 +0000
Subject: [PATCH 04/25] fix: don't serve time and random functions from the
 query cache

unixepoch(), current_timestamp and the like were treated as deterministic, so a second identical read in a transaction
returned the first one's value.
---
 sqlitecluster/SQLite.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index fa36bfd..51683cb 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -1461,6 +1461,13 @@ int SQLite::_authorize(int actionCode, const char* detail1, const char* detail2,
             !strcmp(detail2, "datetime") ||
             !strcmp(detail2, "julianday") ||
             !strcmp(detail2, "strftime") ||
+            !strcmp(detail2, "unixepoch") ||
+            !strcmp(detail2, "timediff") ||
+            !strcmp(detail2, "current_timestamp") ||
+            !strcmp(detail2, "current_date") ||
+            !strcmp(detail2, "current_time") ||
+            !strcmp(detail2, "randomblob") ||
+            !strcmp(detail2, "total_changes") ||
             !strcmp(detail2, "changes") ||
             !strcmp(detail2, "last_insert_rowid") ||
             !strcmp(detail2, "sqlite_version")
-- 
2.43.0


From 26c6c52010d282920db6609ff4418cdaf50776b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:59 +0000
Subject: [PATCH 05/25] fix: an interrupted write no longer leaves its handle
 marked as writing

_checkInterruptErrors throws on a timeout or abort, and every later read calling random() etc. on the handle was denied.
---
 sqlitecluster/SQLite.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index 51683cb..3b080ab 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -914,9 +914,9 @@ bool SQLite::_writeIdempotent(const string& query, const map<string, Parameter>&
     }
 
     _writeElapsed += STimeNow() - before;
+    _currentlyWriting = false;
     _checkInterruptErrors("SQLite::write"s);
     if (resultCode) {
-        _currentlyWriting = false;
         return false;
     }
 
@@ -931,7 +931,6 @@ bool SQLite::_writeIdempotent(const string& query, const map<string, Parameter>&
         _uncommittedQuery += expandedSql;
     }
 
-    _currentlyWriting = false;
     return true;
 }
 
-- 
2.43.0


From b5e969580d71e1c45de5853f402099ad9522f4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:45 +0000
Subject: [PATCH 06/25] fix: destroying a handle inside a transaction releases
 the commit lock

~SQLite only rolled back when something had been written, so a handle destroyed inside an EXCLUSIVE transaction (or a
prepared empty one) left the commit lock held and every other handle waiting.
---
 sqlitecluster/SQLite.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index 3b080ab..6373c27 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -462,7 +462,7 @@ string SQLite::_getJournalQuery(const vector<string>& journalNames, const list<s
 SQLite::~SQLite()
 {
     // First, rollback any incomplete transaction.
-    if (!_uncommittedQuery.empty()) {
+    if (_insideTransaction) {
         SINFO("Rolling back in destructor.");
         rollback();
         SINFO("Rollback in destructor complete.");
-- 
2.43.0


From fa3033c777b3b56ba7a102e1f645f911ac91f2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:18 +0000
Subject: [PATCH 07/25] fix: ship a leader's last transactions before it closes
 its connections on shutdown

---
 sqlitecluster/SQLiteNode.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlitecluster/SQLiteNode.cpp b/sqlitecluster/SQLiteNode.cpp
index 94f674c..91753ad 100644
--- a/sqlitecluster/SQLiteNode.cpp
+++ b/sqlitecluster/SQLiteNode.cpp
@@ -870,6 +870,10 @@ bool SQLiteNode::update()
                 // Standdown complete
                 SINFO("STANDDOWN complete, SEARCHING");
                 if (_isShuttingDown) {
+                    // A transaction may have been committed since we sent the outstanding ones above. Nothing can be sent once
+                    // the sockets are shut down, so those have to go out now, and no more may be committed.
+                    _db.setCommitEnabled(false);
+                    _sendOutstandingTransactions();
                     for (const auto& peer : _peerList) {
                         peer->shutdownSocket();
                     }
-- 
2.43.0


From e2d4f0db8d740dc0f1dc33c120952b7145cd98ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:18 +0000
Subject: [PATCH 08/25] fix: a node connected only to permafollowers spun
 between WAITING and SEARCHING

---
 sqlitecluster/SQLiteNode.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/sqlitecluster/SQLiteNode.cpp b/sqlitecluster/SQLiteNode.cpp
index 91753ad..c5f1719 100644
--- a/sqlitecluster/SQLiteNode.cpp
+++ b/sqlitecluster/SQLiteNode.cpp
@@ -674,12 +674,30 @@ bool SQLiteNode::update()
                 }
             }
 
-            // If there are no logged in peers, then go back to SEARCHING.
             if (!highestPriorityPeer) {
-                // Not connected to any other peers
-                SHMMM("Configured to have peers but can't connect to any, re-SEARCHING.");
-                _changeState(SQLiteNodeState::SEARCHING);
-                return true; // Re-update
+                // If there are no logged in peers, then go back to SEARCHING.
+                if (none_of(_peerList.begin(), _peerList.end(), [](const SQLitePeer* peer) -> bool {
+                    return peer->loggedIn && !peer->forked;
+                })) {
+                    // Not connected to any other peers
+                    SHMMM("Configured to have peers but can't connect to any, re-SEARCHING.");
+                    _changeState(SQLiteNodeState::SEARCHING);
+                    return true; // Re-update
+                }
+
+                // If every one of our peers is a permafollower, there's nobody else who could lead, and nobody to ask.
+                if (_priority > 0 && all_of(_peerList.begin(), _peerList.end(), [](const SQLitePeer* peer) -> bool {
+                    return peer->permaFollower && peer->state != SQLiteNodeState::LEADING;
+                })) {
+                    SINFO("No full peers configured, STANDINGUP");
+                    _changeState(SQLiteNodeState::STANDINGUP);
+                    return true; // Re-update
+                }
+
+                // We're only connected to permafollowers. SEARCHING would bring us straight back here without ever polling,
+                // so wait for a full peer.
+                SDEBUG("Only connected to permafollowers.");
+                break;
             }
             SASSERT(highestPriorityPeer);
             SASSERT(freshestPeer);
-- 
2.43.0


From ffa67e376561fdc1854fe8904fcc0cb7ebe6299a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:51 +0000
Subject: [PATCH 09/25] fix: don't finish standing up when a peer has commits
 we don't have

---
 sqlitecluster/SQLiteNode.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sqlitecluster/SQLiteNode.cpp b/sqlitecluster/SQLiteNode.cpp
index c5f1719..2d32fcf 100644
--- a/sqlitecluster/SQLiteNode.cpp
+++ b/sqlitecluster/SQLiteNode.cpp
@@ -779,6 +779,13 @@ bool SQLiteNode::update()
                         // Connected and logged in.
                         numLoggedInFullPeers++;
 
+                        // It may have gotten commits that we don't have since we started standing up (e.g., by synchronizing).
+                        if (!peer->forked && peer->commitCount > _db.getCommitCount()) {
+                            PHMMM("Has more commits than us while STANDINGUP, cancel and RE-SEARCH");
+                            _changeState(SQLiteNodeState::SEARCHING);
+                            return true; // Re-update
+                        }
+
                         // Has it responded yet?
                         if (peer->standupResponse == SQLitePeer::Response::NONE) {
                             // This peer hasn't yet responded. We do nothing with it in this case, maybe it will have responded by the next check.
-- 
2.43.0


From a72149e3abc0d1b7f56512c05ee073492258f70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:51 +0000
Subject: [PATCH 10/25] fix: a node that is still starting up could be demoted
 below quorum

---
 sqlitecluster/SQLiteNode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlitecluster/SQLiteNode.cpp b/sqlitecluster/SQLiteNode.cpp
index 2d32fcf..5e9a748 100644
--- a/sqlitecluster/SQLiteNode.cpp
+++ b/sqlitecluster/SQLiteNode.cpp
@@ -2553,7 +2553,7 @@ int SQLiteNode::setPriority(int newPriority)
     // If demoting self to permafollower, ensure the remaining full peers still
     // satisfy quorum. Minimum full peers required is ceil(totalClusterSize / 2):
     // a 6-node cluster needs ≥3, a 4-node cluster needs ≥2, etc.
-    if (newPriority == 0 && _priority > 0) {
+    if (newPriority == 0 && _configuredPriority > 0) {
         const int totalClusterSize = static_cast<int>(_peerList.size()) + 1;
         const int minFullPeersForQuorum = (totalClusterSize + 1) / 2;
         if (otherFullPeers < minFullPeersForQuorum) {
-- 
2.43.0


From 99bd38f349133d790facbd86c8e7f31cc0a4f9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:12 +0000
Subject: [PATCH 11/25] fix: a node demoted to permafollower kept standing up
 or leading

---
 sqlitecluster/SQLiteNode.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sqlitecluster/SQLiteNode.cpp b/sqlitecluster/SQLiteNode.cpp
index 5e9a748..135a34b 100644
--- a/sqlitecluster/SQLiteNode.cpp
+++ b/sqlitecluster/SQLiteNode.cpp
@@ -770,6 +770,11 @@ bool SQLiteNode::update()
                 _changeState(SQLiteNodeState::SEARCHING);
                 return true; // Re-update
             }
+            if (_priority == 0) {
+                SINFO("Demoted to permafollower while standing up, setting state to SEARCHING");
+                _changeState(SQLiteNodeState::SEARCHING);
+                return true; // Re-update
+            }
 
             for (auto peer : _peerList) {
                 // Check this peer; if not logged in, tacit approval
@@ -852,6 +857,8 @@ bool SQLiteNode::update()
                 string standDownReason;
                 if (_priority == 1) {
                     standDownReason = "Priority changed to 1, standing down.";
+                } else if (_priority == 0 && !_peerList.empty()) {
+                    standDownReason = "Demoted to permafollower, standing down.";
                 } else if (_isShuttingDown) {
                     // Graceful shutdown. Set priority 1 and stand down so we'll re-connect to the new leader and finish
                     // up our commands.
-- 
2.43.0


From a14912acfa71d154a7cf4ee4c35dec6ba667b708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:35 +0000
Subject: [PATCH 12/25] fix: a node about to shut down (priority 1) could stand
 up again

---
 sqlitecluster/SQLiteNode.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sqlitecluster/SQLiteNode.cpp b/sqlitecluster/SQLiteNode.cpp
index 135a34b..7fa08f7 100644
--- a/sqlitecluster/SQLiteNode.cpp
+++ b/sqlitecluster/SQLiteNode.cpp
@@ -686,7 +686,7 @@ bool SQLiteNode::update()
                 }
 
                 // If every one of our peers is a permafollower, there's nobody else who could lead, and nobody to ask.
-                if (_priority > 0 && all_of(_peerList.begin(), _peerList.end(), [](const SQLitePeer* peer) -> bool {
+                if (_priority > 1 && all_of(_peerList.begin(), _peerList.end(), [](const SQLitePeer* peer) -> bool {
                     return peer->permaFollower && peer->state != SQLiteNodeState::LEADING;
                 })) {
                     SINFO("No full peers configured, STANDINGUP");
@@ -728,10 +728,10 @@ bool SQLiteNode::update()
 
             // No leader and we're in sync, perhaps everybody is waiting for us
             // to stand up?  If we're higher than the highest priority, are using
-            // a real priority and are not a permafollower, and are connected to
+            // a real priority, are not a permafollower or about to shut down (priority 1), and are connected to
             // enough full peers to achieve quorum, we should be leader.
             if (!currentLeader && numLoggedInFullPeers * 2 >= numFullPeers &&
-                _priority > 0 && _priority > highestPriorityPeer->priority) {
+                _priority > 1 && _priority > highestPriorityPeer->priority) {
                 // Yep -- time for us to stand up -- clear everyone's
                 // last approval status as they're about to send them.
                 SINFO("No leader and we're highest priority (over " << highestPriorityPeer->name << "), STANDINGUP");
@@ -770,8 +770,8 @@ bool SQLiteNode::update()
                 _changeState(SQLiteNodeState::SEARCHING);
                 return true; // Re-update
             }
-            if (_priority == 0) {
-                SINFO("Demoted to permafollower while standing up, setting state to SEARCHING");
+            if (_priority <= 1) {
+                SINFO("Priority changed to " << _priority << " while standing up, setting state to SEARCHING");
                 _changeState(SQLiteNodeState::SEARCHING);
                 return true; // Re-update
             }
-- 
2.43.0


From 5021b358e1b8857da1511cc9a724ab4ae84664e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:06 +0000
Subject: [PATCH 13/25] fix: changing a priority during subscription left the
 lower priority node leading

---
 sqlitecluster/SQLiteNode.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sqlitecluster/SQLiteNode.cpp b/sqlitecluster/SQLiteNode.cpp
index 7fa08f7..ac057d8 100644
--- a/sqlitecluster/SQLiteNode.cpp
+++ b/sqlitecluster/SQLiteNode.cpp
@@ -2533,7 +2533,7 @@ int SQLiteNode::setPriority(int newPriority)
 
     // Single pass over the peer list to gather everything we need:
     //   - otherFullPeers: count of non-permafollower peers (used for quorum check on demotion)
-    //   - higherPriorityFollowingPeer: a peer currently FOLLOWING us with priority > newPriority
+    //   - higherPriorityFollowingPeer: a peer currently FOLLOWING (or SUBSCRIBING to) us with priority > newPriority
     //     (used below to force a stand-down if we end up no longer the highest-priority node)
     SQLitePeer* higherPriorityFollowingPeer = nullptr;
     int otherFullPeers = 0;
@@ -2552,7 +2552,7 @@ int SQLiteNode::setPriority(int newPriority)
         if (newPriority > 0 && peer->priority == newPriority) {
             STHROW("409 Priority " + to_string(newPriority) + " already in use by " + peer->name);
         }
-        if (peer->priority > newPriority && peer->state == SQLiteNodeState::FOLLOWING) {
+        if (peer->priority > newPriority && (peer->state == SQLiteNodeState::FOLLOWING || peer->state == SQLiteNodeState::SUBSCRIBING)) {
             higherPriorityFollowingPeer = peer;
         }
     }
@@ -2604,7 +2604,7 @@ int SQLiteNode::setPriority(int newPriority)
         SINFO("Forcing state transition to STANDINGDOWN because peer '" << higherPriorityFollowingPeer->name
               << "' has higher priority (" << higherPriorityFollowingPeer->priority << " > " << newPriority << ").");
         _changeState(SQLiteNodeState::STANDINGDOWN);
-    } else if (_state == SQLiteNodeState::FOLLOWING && _leadPeer) {
+    } else if ((_state == SQLiteNodeState::FOLLOWING || _state == SQLiteNodeState::SUBSCRIBING) && _leadPeer) {
         auto leadPeer = _leadPeer.load();
         if (leadPeer->loggedIn &&
             leadPeer->state == SQLiteNodeState::LEADING &&
-- 
2.43.0


From 6ca339d3953b73a29c808013f96d0a28e8cfab32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:12 +0000
Subject: [PATCH 14/25] fix: cancelling the last pending child of a running job
 requeued the job

---
 plugins/Jobs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/Jobs.cpp b/plugins/Jobs.cpp
index 5fdd67a..182f350 100644
--- a/plugins/Jobs.cpp
+++ b/plugins/Jobs.cpp
@@ -1359,7 +1359,7 @@ void BedrockJobsCommand::process(SQLite& db)
         }
         if (SToInt64(result[0][0]) == 0) {
             SINFO("Cancelled last QUEUED child, resuming the parent: " << safeParentJobID);
-            if (!db.writeIdempotent("UPDATE jobs SET state='QUEUED' WHERE jobID=" + safeParentJobID + ";")) {
+            if (!db.writeIdempotent("UPDATE jobs SET state='QUEUED' WHERE jobID=" + safeParentJobID + " AND state='PAUSED';")) {
                 STHROW("502 Failed to update job data");
             }
         }
-- 
2.43.0


From 1676cafedbf4e8b474af30cc996584e67f933c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:12 +0000
Subject: [PATCH 15/25] fix: a SCHEDULED job with retryAfter could not be
 finished after an update or a manual run

---
 plugins/Jobs.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/plugins/Jobs.cpp b/plugins/Jobs.cpp
index 182f350..5ced39d 100644
--- a/plugins/Jobs.cpp
+++ b/plugins/Jobs.cpp
@@ -1050,7 +1050,7 @@ void BedrockJobsCommand::process(SQLite& db)
 
         // Verify there is a job like this
         SQResult result;
-        if (!db.read("SELECT jobID, nextRun, lastRun, JSON_EXTRACT(data, '$.mockRequest') "
+        if (!db.read("SELECT jobID, nextRun, lastRun, JSON_EXTRACT(data, '$.mockRequest'), JSON_EXTRACT(data, '$.originalNextRun') "
                      "FROM jobs "
                      "WHERE jobID=" + SQ(request.calc64("jobID")) + ";",
                      result)) {
@@ -1064,11 +1064,18 @@ void BedrockJobsCommand::process(SQLite& db)
         const string& lastRun = result[0][2];
         mockRequest = result[0][3] == "1";
 
+        const string originalNextRun = result[0][4];
+
         // Preserve the jobs mockRequest attribute so it is not overwritten by data updates.
-        const string newData = mockRequest
+        string newData = mockRequest
             ? db.read("SELECT IIF(JSON_VALID(" + SQ(request["data"]) + "), JSON_SET(" + SQ(request["data"]) + ", '$.mockRequest', JSON('true')), '{}');")
             : db.read("SELECT IIF(JSON_VALID(" + SQ(request["data"]) + "), JSON_REMOVE(" + SQ(request["data"]) + ", '$.mockRequest'), '{}');");
 
+        // Same for originalNextRun (set by GetJob(s)), FinishJob and RetryJob need it to reschedule the job.
+        if (!originalNextRun.empty()) {
+            newData = db.read("SELECT JSON_SET(" + SQ(newData) + ", '$.originalNextRun', " + SQ(originalNextRun) + ");");
+        }
+
         // Passed next run takes priority over the one computed via the repeat feature
         string newNextRun;
         if (request["nextRun"].empty()) {
@@ -1257,7 +1264,8 @@ void BedrockJobsCommand::process(SQLite& db)
             // Except for jobs with 'retryAfter' + 'repeat' based on `SCHEDULED`. With 'retryAfter', in GetJob we updated 'nextRun'
             // to a failure check interval, eg 5 minutes. To account for this here when finishing the job, we use
             // 'originalNextRun' from the 'data' to get back the originally scheduled time which was 'nextRun' when the job ran.
-            if (!retryAfter.empty() && SToUpper(repeat).find("SCHEDULED") != string::npos) {
+            // It's not always there: GetJob doesn't set it for "manual" jobs, or for jobs that weren't repeating yet.
+            if (!retryAfter.empty() && !originalDataNextRun.empty() && SToUpper(repeat).find("SCHEDULED") != string::npos) {
                 lastScheduled = originalDataNextRun;
             }
             safeNewNextRun = _constructNextRunDATETIME(db, lastScheduled, lastRun, repeat);
-- 
2.43.0


From 1b0119671ae134fceb98c1d0d0010c9a1fa47f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:12 +0000
Subject: [PATCH 16/25] fix: a Query could begin or end a transaction on a
 handle

---
 sqlitecluster/SQLite.cpp | 9 +++++++++
 sqlitecluster/SQLite.h   | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index 6373c27..f8ced47 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -1441,6 +1441,10 @@ int SQLite::_sqliteAuthorizerCallback(void* pUserData, int actionCode, const cha
 
 int SQLite::_authorize(int actionCode, const char* detail1, const char* detail2, const char* detail3, const char* detail4)
 {
+    if (_denyTransactionControl && (actionCode == SQLITE_TRANSACTION || actionCode == SQLITE_SAVEPOINT)) {
+        return SQLITE_DENY;
+    }
+
     // If we've enabled re-writing, see if we need to re-write this query.
     if (_enableRewrite && !_currentlyRunningRewritten && (*_rewriteHandler)(actionCode, detail1, _rewrittenQuery)) {
         // Deny the original query, we'll re-run on the re-written version.
@@ -1637,6 +1641,9 @@ int SQLite::getPreparedStatements(const string& query, list<sqlite3_stmt*>& stat
     // statements). It starts at the beginning of the query.
     const char* pzTail = query.c_str();
 
+    // `BEGIN`, `COMMIT` and the like would end our own transaction (or start one we don't know about), so don't prepare them.
+    _denyTransactionControl = true;
+
     // Now loop as long as pzTail doesn't point at a null terminator.
     while (*pzTail != 0) {
         // Run prepare on the query.
@@ -1649,11 +1656,13 @@ int SQLite::getPreparedStatements(const string& query, list<sqlite3_stmt*>& stat
 
         // If it was an errror, return early. We only generate more statements if the preceding ones succeed.
         if (result != SQLITE_OK) {
+            _denyTransactionControl = false;
             return result;
         }
     }
 
     // If we made it through the whole thing, we're done.
+    _denyTransactionControl = false;
     return SQLITE_OK;
 }
 
diff --git a/sqlitecluster/SQLite.h b/sqlitecluster/SQLite.h
index 2b12027..eb1eb7b 100644
--- a/sqlitecluster/SQLite.h
+++ b/sqlitecluster/SQLite.h
@@ -556,6 +556,9 @@ private:
     // Causes the current query to skip re-write checking if it's already a re-written query.
     bool _currentlyRunningRewritten = false;
 
+    // Set while `getPreparedStatements` runs: a query given by a client must not begin or end a transaction on our handle.
+    bool _denyTransactionControl{false};
+
     // Callback to trace internal sqlite state (used for logging normalized queries).
     static int _sqliteTraceCallback(unsigned int traceCode, void* c, void* p, void* x);
 
-- 
2.43.0


From 213674c5eaa4fb9ce391ebf3077ed5f7c07b5d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:12 +0000
Subject: [PATCH 17/25] fix: overwriting a cache entry left its old size in the
 size of the cache

---
 plugins/Cache.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/plugins/Cache.cpp b/plugins/Cache.cpp
index 1247660..37d98e3 100644
--- a/plugins/Cache.cpp
+++ b/plugins/Cache.cpp
@@ -147,9 +147,7 @@ void BedrockPlugin_Cache::upgradeDatabase(SQLite& db)
         SASSERT(db.write("INSERT INTO cacheSize VALUES ( 0 );"));
     }
 
-    // Add the triggers to track the cache size.  (Enable recursive triggers so
-    // INSERT OR REPLACE triggers a delete when replacing.)
-    SASSERT(db.write("PRAGMA recursive_triggers = 1;"));
+    // Add the triggers to track the cache size.
     SASSERT(db.write("CREATE TRIGGER IF NOT EXISTS cacheOnInsert AFTER INSERT ON cache "
                      "BEGIN "
                      "UPDATE cacheSize SET size = size + LENGTH( NEW.value ); "
@@ -288,9 +286,12 @@ void BedrockCacheCommand::process(SQLite& db)
 
         // Insert the new entry
         const string& safeValue = SQ(valueHeader.empty() ? request.content : valueHeader);
-        if (!db.write("INSERT OR REPLACE INTO cache ( name, value ) "
+        // This is an upsert (and not a REPLACE) because REPLACE only runs the delete trigger on handles with recursive
+        // triggers enabled, leaving the size of the old value in `cacheSize` otherwise.
+        if (!db.write("INSERT INTO cache ( name, value ) "
                       "VALUES( " +
-                      SQ(name) + ", " + safeValue + " );")) {
+                      SQ(name) + ", " + safeValue + " ) "
+                      "ON CONFLICT ( name ) DO UPDATE SET value = excluded.value;")) {
             STHROW("502 Query failed (inserting)");
         }
 
-- 
2.43.0


From c2ffc1ccad63cc2b5354e308eedbff73c284fe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:12 +0000
Subject: [PATCH 18/25] fix: the size of the cache counted characters instead
 of bytes

---
 plugins/Cache.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugins/Cache.cpp b/plugins/Cache.cpp
index 37d98e3..68e586b 100644
--- a/plugins/Cache.cpp
+++ b/plugins/Cache.cpp
@@ -285,7 +285,8 @@ void BedrockCacheCommand::process(SQLite& db)
         }
 
         // Insert the new entry
-        const string& safeValue = SQ(valueHeader.empty() ? request.content : valueHeader);
+        // It's stored as a blob, so that the triggers count its bytes (the LENGTH of a text is its number of characters).
+        const string& safeValue = "CAST( " + SQ(valueHeader.empty() ? request.content : valueHeader) + " AS BLOB )";
         // This is an upsert (and not a REPLACE) because REPLACE only runs the delete trigger on handles with recursive
         // triggers enabled, leaving the size of the old value in `cacheSize` otherwise.
         if (!db.write("INSERT INTO cache ( name, value ) "
-- 
2.43.0


From c466b1dab3033790cc252ab41c2cb2bcfe9a8652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:12 +0000
Subject: [PATCH 19/25] fix: a rolled back write to the cache forgot the order
 of use of the entries it had evicted

---
 plugins/Cache.cpp | 21 +++++++++++++++++++++
 plugins/Cache.h   |  3 +++
 2 files changed, 24 insertions(+)

diff --git a/plugins/Cache.cpp b/plugins/Cache.cpp
index 68e586b..b6ca95a 100644
--- a/plugins/Cache.cpp
+++ b/plugins/Cache.cpp
@@ -89,6 +89,19 @@ pair<string, bool> BedrockPlugin_Cache::LRUMap::popLRU()
     return make_pair(nameCopy, true);
 }
 
+void BedrockPlugin_Cache::LRUMap::restoreLRU(const list<string>& names)
+{
+    lock_guard<decltype(_mutex)> lock(_mutex);
+    for (auto it = names.rbegin(); it != names.rend(); ++it) {
+        if (_lruMap.find(*it) == _lruMap.end()) {
+            Entry* entry = new Entry;
+            entry->name = *it;
+            entry->mapIt = _lruMap.insert(pair<string, Entry*>(*it, entry)).first;
+            entry->listIt = _lruList.insert(_lruList.begin(), entry);
+        }
+    }
+}
+
 int64_t BedrockPlugin_Cache::initCacheSize(const string& cacheString)
 {
     // Check the configuration
@@ -270,6 +283,7 @@ void BedrockCacheCommand::process(SQLite& db)
         }
 
         // Clear out room for the new object
+        list<string> evicted;
         while (SToInt64(db.read("SELECT size FROM cacheSize;")) + contentSize > plugin()._maxCacheSize) {
             // Find the least recently used (LRU) item if there is one.  (If the server was recently restarted,
             // its LRU might not be fully populated.)
@@ -277,6 +291,9 @@ void BedrockCacheCommand::process(SQLite& db)
             const string& name = (popResult.second ? popResult.first : db.read("SELECT name FROM cache LIMIT 1"));
             SASSERT(!name.empty());
             SINFO("Deleting " << response["name"] << " from the cache");
+            if (popResult.second && !db.read("SELECT 1 FROM cache WHERE name=" + SQ(name) + ";").empty()) {
+                evicted.push_back(name);
+            }
 
             // Delete it
             if (!db.write("DELETE FROM cache WHERE name=" + SQ(name) + ";")) {
@@ -284,6 +301,10 @@ void BedrockCacheCommand::process(SQLite& db)
             }
         }
 
+        // This transaction may still be rolled back, in which case these are still the ones to evict first. If it isn't,
+        // they'll be skipped the next time we need room.
+        plugin()._lruMap.restoreLRU(evicted);
+
         // Insert the new entry
         // It's stored as a blob, so that the triggers count its bytes (the LENGTH of a text is its number of characters).
         const string& safeValue = "CAST( " + SQ(valueHeader.empty() ? request.content : valueHeader) + " AS BLOB )";
diff --git a/plugins/Cache.h b/plugins/Cache.h
index 903ba35..18a2a71 100644
--- a/plugins/Cache.h
+++ b/plugins/Cache.h
@@ -32,6 +32,9 @@ public:
         // Remove the name that is the least recently used (LRU)
         pair<string, bool> popLRU();
 
+        // Put back names that popLRU() returned, in that order, as the least recently used ones
+        void restoreLRU(const list<string>& names);
+
 private:
         // A single entry being tracked
         struct Entry
-- 
2.43.0


From 00d97efa24e6d722154679423bf22d9dc2f35aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:08 +0000
Subject: [PATCH 20/25] fix: a request that arrived together with another one
 waited until more data arrived

---
 BedrockServer.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index 26d9ed1..63a3de0 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -2272,6 +2272,10 @@ void BedrockServer::handleSocket(Socket&& socket, bool fromControlPort, bool fro
         SInitialize(threadName);
         SINFO("[performance] Socket thread starting");
 
+        // Whether the last pass took a request from the buffer. If so, the next one may already be in there, received
+        // together with the last, and we need to look at it before waiting for more data that may never come.
+        bool mayHaveBufferedRequest = false;
+
         // This outer loop just runs until the entire socket life cycle is done, meaning it deserializes a command,
         // waits for it to get processed, deserializes another, etc, until the socket gets closed.
         // This whole block is largely duplicated from `postPoll` and modified to work on a single non-blocking socket.
@@ -2289,7 +2293,9 @@ void BedrockServer::handleSocket(Socket&& socket, bool fromControlPort, bool fro
 
             // As long as `poll` returns 0 we've timed out, indicating that we're still waiting for something to happen. In
             // that case, we'll loop again *unless* we're shutting down.
-            while (!(pollResult = poll(&pollStruct, 1, 1'000))) {
+            const bool checkBuffer = mayHaveBufferedRequest && !socket.recvBuffer.empty();
+            mayHaveBufferedRequest = false;
+            while (!checkBuffer && !(pollResult = poll(&pollStruct, 1, 1'000))) {
                 if (_shutdownState != RUNNING) {
                     SINFO("Socket thread exiting because no data and shutting down.");
                     socket.shutdown(Socket::CLOSED);
@@ -2298,7 +2304,7 @@ void BedrockServer::handleSocket(Socket&& socket, bool fromControlPort, bool fro
             }
 
             // If the above loop didn't close the socket due to inactivity at shutdown, let's handle the activity.
-            if (socket.state != STCPManager::Socket::CLOSED) {
+            if (socket.state != STCPManager::Socket::CLOSED && !checkBuffer) {
                 if (pollResult < 0) {
                     // This is an exceptional case, we'll just kill the socket if this happens and let the client reconnect.
                     SINFO("Poll failed: " << strerror(errno));
@@ -2332,6 +2338,7 @@ void BedrockServer::handleSocket(Socket&& socket, bool fromControlPort, bool fro
                     if (socket.recvBuffer.startsWithHTTPRequest()) {
                         requestSize = request.deserialize(socket.recvBuffer);
                         socket.recvBuffer.consumeFront(requestSize);
+                        mayHaveBufferedRequest = requestSize > 0;
                     }
 
                     // If this socket was accepted from the public command port, and that's supposed to be closed now, set
-- 
2.43.0


From ca066784bf0c715808049d3a823162b83eef6435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:08 +0000
Subject: [PATCH 21/25] fix: a command that was committed was run again when
 the node stopped leading at that moment

---
 BedrockServer.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index 63a3de0..2894b7f 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -778,7 +778,8 @@ void BedrockServer::runCommand(unique_ptr<BedrockCommand>&& _command, bool isBlo
                             }
                             commitSuccess = core.commit(*_syncNode, transactionID, transactionHash, command->getMethodName(), enableOnPrepareNotifications, onPrepareHandler, timeToCommit, &command->shouldAbort);
 
-                            if (getState() != SQLiteNodeState::LEADING) {
+                            // If the commit succeeded, the command is done, whatever we've become since. It would run twice if we retried.
+                            if (!commitSuccess && getState() != SQLiteNodeState::LEADING) {
                                 SINFO("Stopped leading while trying to commit, will retry.");
 
                                 // Jump back to the top of the main loop but skip the check that would push this to the blocking commit queue.
@@ -794,8 +795,8 @@ void BedrockServer::runCommand(unique_ptr<BedrockCommand>&& _command, bool isBlo
                             // impossible inside a worker thread.
                             _syncNode->notifyCommit();
                             _conflictManager.recordTables(command->request.methodLine, db.getTablesUsed());
-                            // So we must still be leading, and at this point our commit has succeeded, let's
-                            // mark it as complete. We add the currentCommit count here as well.
+                            // At this point our commit has succeeded, let's mark it as complete. We add the
+                            // currentCommit count here as well.
                             command->response["commitCount"] = to_string(db.getCommitCount());
                             command->complete = true;
                         } else if (!core.isTimedOut(command, &db, this)) {
-- 
2.43.0


From ac4d7248d5c7d3c2ec850e9a57384ae58203903d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:08 +0000
Subject: [PATCH 22/25] fix: after attaching, connections were still closed
 because the command port had been blocked before detaching

---
 BedrockServer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index 2894b7f..d44e38a 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -997,6 +997,7 @@ void BedrockServer::_resetServer()
     if (_commandPortBlockReasons.size()) {
         SWARN("Clearing leftover command port blocks in resetServer (" << _commandPortBlockReasons.size() << " blocks remaining).");
         _commandPortBlockReasons.clear();
+        _isCommandPortLikelyBlocked = false;
     }
     _syncLoopShouldBeRunning = true;
     atomic_store(&_syncNode, shared_ptr<SQLiteNode>(nullptr));
-- 
2.43.0


From 69dd5c09bd3b8b8311fccad4fd079fdbcb6a7435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:08 +0000
Subject: [PATCH 23/25] fix: blocking writes left the node stuck when it was
 detached, detaching or shutting down

---
 BedrockServer.cpp | 68 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 24 deletions(-)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index d44e38a..6e6bd35 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -1675,6 +1675,17 @@ mutex __quiesceLock;
 atomic<bool> __quiesceShouldUnlock(false);
 thread* __quiesceThread = nullptr;
 
+// Ends the current block on writes. There must be one, and the caller must hold `__quiesceLock`.
+static void __unblockWrites()
+{
+    __quiesceShouldUnlock = true;
+    SINFO("[quiesce] Joining __quiesceThread");
+    __quiesceThread->join();
+    SINFO("[quiesce] __quiesceThread joined");
+    delete __quiesceThread;
+    __quiesceThread = nullptr;
+}
+
 void BedrockServer::_control(unique_ptr<BedrockCommand>& command)
 {
     SINFO("Received control command: " << command->request.methodLine);
@@ -1811,28 +1822,30 @@ void BedrockServer::_control(unique_ptr<BedrockCommand>& command)
     } else if (SIEquals(command->request.methodLine, "BlockWrites")) {
         atomic<bool> locked(false);
         lock_guard lock(__quiesceLock);
+        shared_ptr<SQLitePool> dbPoolCopy = _dbPool;
         if (__quiesceThread) {
             response.methodLine = "400 Already Blocked";
+        } else if (!dbPoolCopy || _shutdownState.load() != RUNNING) {
+            // Without a database there's nothing to lock (and nothing that would ever tell us it was locked), and when
+            // shutting down or detaching, the lock would keep the node from ever finishing.
+            response.methodLine = "500 Not running";
         } else {
-            __quiesceThread = new thread([&]() {
-                shared_ptr<SQLitePool> dbPoolCopy = _dbPool;
-                if (dbPoolCopy) {
-                    SQLiteScopedHandle dbScope(*_dbPool, _dbPool->getIndex());
-                    SQLite& db = dbScope.db();
-                    SINFO("[quiesce] Exclusive locking DB");
-                    db.exclusiveLockDB();
-                    SINFO("[quiesce] Exclusive locked DB");
-                    locked = true;
-                    while (true) {
-                        if (__quiesceShouldUnlock) {
-                            db.exclusiveUnlockDB();
-                            __quiesceShouldUnlock = false;
-                            return;
-                        }
-
-                        // Wait 10ms for the next check.
-                        usleep(10'000);
+            __quiesceThread = new thread([&locked, dbPoolCopy]() {
+                SQLiteScopedHandle dbScope(*dbPoolCopy, dbPoolCopy->getIndex());
+                SQLite& db = dbScope.db();
+                SINFO("[quiesce] Exclusive locking DB");
+                db.exclusiveLockDB();
+                SINFO("[quiesce] Exclusive locked DB");
+                locked = true;
+                while (true) {
+                    if (__quiesceShouldUnlock) {
+                        db.exclusiveUnlockDB();
+                        __quiesceShouldUnlock = false;
+                        return;
                     }
+
+                    // Wait 10ms for the next check.
+                    usleep(10'000);
                 }
             });
 
@@ -1850,12 +1863,7 @@ void BedrockServer::_control(unique_ptr<BedrockCommand>& command)
         if (!__quiesceThread) {
             response.methodLine = "200 Not Blocked";
         } else {
-            __quiesceShouldUnlock = true;
-            SINFO("[quiesce] Joining __quiesceThread");
-            __quiesceThread->join();
-            SINFO("[quiesce] __quiesceThread joined");
-            delete __quiesceThread;
-            __quiesceThread = nullptr;
+            __unblockWrites();
             response.methodLine = "200 Unblocked";
         }
     } else if (SIEquals(command->request.methodLine, "SetMaxSocketThreads")) {
@@ -1983,6 +1991,18 @@ void BedrockServer::_beginShutdown(const string& reason, bool detach)
             _portPluginMap.clear();
             _shutdownState.store(START_SHUTDOWN);
         }
+
+        // If writes are blocked, stop blocking them. The node can't change its state while they are (see
+        // SQLiteNode::_changeState), so it would never finish shutting down, and after a shutdown nobody could unblock
+        // them. `BlockWrites` won't block them again, as we're not RUNNING anymore.
+        {
+            lock_guard<mutex> lock(__quiesceLock);
+            if (__quiesceThread) {
+                SWARN("[quiesce] Unblocking writes, as we're shutting down.");
+                __unblockWrites();
+            }
+        }
+
         SQLiteNodeState currentState = SQLiteNodeState::UNKNOWN;
         auto syncNodeCopy = atomic_load(&_syncNode);
         if (syncNodeCopy) {
-- 
2.43.0


From 2649f38ac7a37f37f723b9ce1facc3ab25f0a000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:08 +0000
Subject: [PATCH 24/25] fix: a command whose time was up was sent to the leader
 with a practically infinite timeout

---
 sqlitecluster/SQLiteClusterMessenger.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sqlitecluster/SQLiteClusterMessenger.cpp b/sqlitecluster/SQLiteClusterMessenger.cpp
index b20cdf2..ffca8b6 100644
--- a/sqlitecluster/SQLiteClusterMessenger.cpp
+++ b/sqlitecluster/SQLiteClusterMessenger.cpp
@@ -142,7 +142,14 @@ bool SQLiteClusterMessenger::_sendCommandOnSocket(SHTTPSManager::Socket& socket,
 
     // Compute the remaining time left before timeout, and set the timeout for the escalated command to match.
     // Note that internally this is stored in microseconds, but over the wire is sent in milliseconds.
-    request["timeout"] = to_string((command.timeout() - STimeNow()) / 1000);
+    // If there's no time left (the difference would wrap around to a timeout of centuries), there's nothing to send. The
+    // caller will see that the command has timed out when it looks at it again.
+    const uint64_t now = STimeNow();
+    if (command.timeout() <= now) {
+        SINFO("[HTTPESC] Command timed out before it could be sent.");
+        return false;
+    }
+    request["timeout"] = to_string((command.timeout() - now) / 1000);
 
     // If the command has https requests, we serialize them to escalate. In this case we also check if the command has data
     // that needs serialization, and if so, we serialize that as well.
-- 
2.43.0


From 3f68f4bb6dfa8eddb7cefd0ff6e25ace99285535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:50 +0000
Subject: [PATCH 25/25] fix: keep trying to tell a node that logs in which
 commands crash servers

The peer doesn't open its command port until it leads or follows, so the single attempt
made the moment it logs in was refused and the node never learned of them.
---
 BedrockServer.cpp | 25 +++++++++++++++++++++----
 BedrockServer.h   |  4 ++++
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index 6e6bd35..ef46c74 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -1708,6 +1708,7 @@ void BedrockServer::_control(unique_ptr<BedrockCommand>& command)
     } else if (SIEquals(command->request.methodLine, "ClearCrashCommands")) {
         unique_lock<decltype(_crashCommandMutex)> lock(_crashCommandMutex);
         _crashCommands.clear();
+        (*_crashCommandsClearCount)++;
     } else if (SIEquals(command->request.methodLine, "ConflictReport")) {
         response.content = _conflictManager.generateReport();
     } else if (SIEquals(command->request.methodLine, "Detach")) {
@@ -2058,7 +2059,7 @@ void BedrockServer::broadcastCommand(const SData& command, const string& peerNam
 
 void BedrockServer::onNodeLogin(SQLitePeer* peer)
 {
-    list<unique_ptr<BedrockCommand>> crashCommandsToSend;
+    list<SData> crashCommandsToSend;
     shared_lock<decltype(_crashCommandMutex)> lock(_crashCommandMutex);
     for (const auto& p : _crashCommands) {
         for (const auto& table : p.second) {
@@ -2069,7 +2070,7 @@ void BedrockServer::onNodeLogin(SQLitePeer* peer)
             for (const auto& fields : table) {
                 crashCommand->crashIdentifyingValues.insert(fields.first);
             }
-            crashCommandsToSend.push_back(make_unique<BedrockCommand>(_generateCrashMessage(crashCommand), nullptr));
+            crashCommandsToSend.push_back(_generateCrashMessage(crashCommand));
         }
     }
 
@@ -2077,8 +2078,24 @@ void BedrockServer::onNodeLogin(SQLitePeer* peer)
         auto _clusterMessengerCopy = _clusterMessenger;
         auto peerName = peer->name;
         if (_clusterMessengerCopy) {
-            thread([command = move(peerCommand), _clusterMessengerCopy, peerName]() {
-                _clusterMessengerCopy->runOnPeer(*command, peerName);
+            // The peer has only just logged in, and doesn't open its command port until it's leading or following, so keep
+            // trying for a minute until it's there to be told, unless the list is cleared. Between attempts we keep neither the
+            // messenger (and its node) nor a command alive, so that this doesn't delay a shutdown.
+            thread([request = move(peerCommand), weakMessenger = weak_ptr<SQLiteClusterMessenger>(_clusterMessengerCopy), peerName,
+                    clearCount = _crashCommandsClearCount, clearCountNow = _crashCommandsClearCount->load()]() {
+                for (int attempt = 0; attempt < 120 && *clearCount == clearCountNow; attempt++) {
+                    {
+                        auto messenger = weakMessenger.lock();
+                        if (!messenger) {
+                            return;
+                        }
+                        BedrockCommand command(SQLiteCommand(SData(request)), nullptr);
+                        if (messenger->runOnPeer(command, peerName)) {
+                            return;
+                        }
+                    }
+                    usleep(500'000);
+                }
             }).detach();
         }
     }
diff --git a/BedrockServer.h b/BedrockServer.h
index 654081c..e8afdf5 100644
--- a/BedrockServer.h
+++ b/BedrockServer.h
@@ -433,6 +433,10 @@ private:
     // particular command for it count as a match likely to cause a crash.
     map<string, set<STable>> _crashCommands;
 
+    // Counts how often the list above has been cleared. Shared with the threads that tell a new peer about the commands on
+    // it (which may outlive us), so that they don't go on doing that once they're no longer on the list.
+    shared_ptr<atomic<uint64_t>> _crashCommandsClearCount = make_shared<atomic<uint64_t>>(0);
+
     // Returns whether or not the command was a status or control command. If it was, it will have already been handled
     // and responded to upon return
     bool _handleIfStatusOrControlCommand(unique_ptr<BedrockCommand>& command);
-- 
2.43.0

