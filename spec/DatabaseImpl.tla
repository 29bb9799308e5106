---------------------------- MODULE DatabaseImpl ----------------------------
(* SQLite.cpp's commit protocol: several handles of one file share a count, a hash, the prepared and committed transactions
   and the commit lock; the file itself (journal and data) survives a crash, which may come anywhere.  A transaction reads
   one cell and sets another from it.  Handles meet optimistically: COMMIT refuses a transaction whose cells changed since
   its snapshot.  MISTAKE "none", or one of: "unlockEarly" (lock released before the count is moved), "countEarly" (number
   and hash taken before the lock), "noRelease" (rollback keeps the lock), "enabledEarly" (commits-enabled looked at before
   the lock), "popAll" (uncommitted transactions handed out), "dirty" (no conflict check), "split" (journal row written
   outside the transaction), "beginLeak" (a refused begin keeps the lock).                                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Handles, Cells, MaxTx, MaxCrash, MISTAKE
VARIABLES journal, data,                                  \* the file
          count, hash, prepared, committed, lock, enabled, disabler,  \* shared
          pc, tx, snap, my, popped, made, crashes, serial
disk == <<journal, data>>
shared == <<count, hash, prepared, committed, lock, enabled, disabler>>
vars == <<disk, shared, pc, tx, snap, my, popped, made, crashes, serial>>
NoTx == [id |-> 0, from |-> 0, to |-> 0, read |-> 0, n |-> 0, hash |-> <<>>, excl |-> FALSE, sawOn |-> TRUE]
Init == /\ journal = <<>> /\ data = [c \in Cells |-> 0] /\ count = 0 /\ hash = <<>> /\ prepared = <<>> /\ committed = {}
        /\ lock = 0 /\ enabled = TRUE /\ disabler = "on" /\ pc = [h \in Handles |-> "idle"] /\ tx = [h \in Handles |-> NoTx]
        /\ snap = [h \in Handles |-> data] /\ my = [h \in Handles |-> 0] /\ popped = {} /\ made = 0 /\ crashes = 0 /\ serial = <<>>
Go(h, p) == pc' = [pc EXCEPT ![h] = p]
Free(h) == IF lock = h THEN 0 ELSE lock
Begin(h) ==
    /\ pc[h] = "idle" /\ made < MaxTx /\ made' = made + 1
    /\ \E c, d \in Cells, x \in BOOLEAN :
         /\ x => lock = 0
         /\ lock' = IF x THEN h ELSE lock
         /\ tx' = [tx EXCEPT ![h] = [NoTx EXCEPT !.id = made + 1, !.from = c, !.to = d, !.read = data[c], !.excl = x]]
    /\ snap' = [snap EXCEPT ![h] = data]
    /\ Go(h, "open")
    /\ UNCHANGED <<disk, count, hash, prepared, committed, enabled, disabler, my, popped, crashes, serial>>
\* BEGIN fails on an exclusive begin
BeginFails(h) ==
    /\ pc[h] = "idle" /\ lock = 0 /\ made < MaxTx /\ made' = made + 1
    /\ lock' = IF MISTAKE = "beginLeak" THEN h ELSE 0
    /\ UNCHANGED <<disk, count, hash, prepared, committed, enabled, disabler, pc, tx, snap, my, popped, crashes, serial>>
Lock(h) ==
    /\ pc[h] = "open" /\ (lock = 0 \/ lock = h) /\ lock' = h
    /\ tx' = [tx EXCEPT ![h].n = count + 1, ![h].hash = hash, ![h].sawOn = enabled]
    /\ Go(h, "locked")
    /\ UNCHANGED <<disk, count, hash, prepared, committed, enabled, disabler, snap, my, popped, made, crashes, serial>>
EarlyCount(h) ==
    /\ MISTAKE = "countEarly" /\ pc[h] = "open" /\ tx[h].n = 0
    /\ tx' = [tx EXCEPT ![h].n = count + 1, ![h].hash = hash]
    /\ Go(h, "wait")
    /\ UNCHANGED <<disk, shared, snap, my, popped, made, crashes, serial>>
LateLock(h) ==
    /\ pc[h] = "wait" /\ lock = 0 /\ lock' = h /\ Go(h, "locked")
    /\ UNCHANGED <<disk, count, hash, prepared, committed, enabled, disabler, tx, snap, my, popped, made, crashes, serial>>
EarlyEnabled(h) ==
    /\ MISTAKE = "enabledEarly" /\ pc[h] = "open" /\ tx[h].n = 0 /\ enabled
    /\ tx' = [tx EXCEPT ![h].n = -1] /\ Go(h, "waiton")
    /\ UNCHANGED <<disk, shared, snap, my, popped, made, crashes, serial>>
LateEnabled(h) ==
    /\ pc[h] = "waiton" /\ (lock = 0 \/ lock = h) /\ lock' = h /\ tx' = [tx EXCEPT ![h].n = count + 1, ![h].hash = hash] /\ Go(h, "locked")
    /\ UNCHANGED <<disk, count, hash, prepared, committed, enabled, disabler, snap, my, popped, made, crashes, serial>>
\* the prepared entry: number, and hash over the previous one and the statements
Write(h) ==
    /\ pc[h] = "locked"
    /\ LET e == Append(tx[h].hash, tx[h].id) IN
       /\ prepared' = (tx[h].n :> [id |-> tx[h].id, hash |-> e]) @@ prepared
       /\ tx' = [tx EXCEPT ![h].hash = e]
       /\ journal' = IF MISTAKE = "split" THEN Append(journal, [n |-> tx[h].n, id |-> tx[h].id, hash |-> e]) ELSE journal
    /\ Go(h, "prepared")
    /\ UNCHANGED <<data, count, hash, committed, lock, enabled, disabler, snap, my, popped, made, crashes, serial>>
Stale(h) == MISTAKE # "dirty" /\ (data[tx[h].from] # snap[h][tx[h].from] \/ data[tx[h].to] # snap[h][tx[h].to])
Commit(h) ==
    /\ pc[h] = "prepared"
    /\ IF (~enabled /\ MISTAKE # "enabledEarly") \/ Stale(h) THEN Go(h, "lost") /\ UNCHANGED <<disk, serial>>
       ELSE /\ journal' = IF MISTAKE = "split" THEN journal ELSE Append(journal, [n |-> tx[h].n, id |-> tx[h].id, hash |-> tx[h].hash])
            /\ data' = [data EXCEPT ![tx[h].to] = tx[h].read + 1]
            /\ serial' = Append(serial, [id |-> tx[h].id, saw |-> tx[h].read, was |-> data[tx[h].from], on |-> disabler # "off"])
            /\ Go(h, IF MISTAKE = "unlockEarly" THEN "unlockfirst" ELSE "written")
    /\ UNCHANGED <<shared, tx, snap, my, popped, made, crashes>>
UnlockFirst(h) ==
    /\ pc[h] = "unlockfirst" /\ lock' = 0 /\ Go(h, "written")
    /\ UNCHANGED <<disk, count, hash, prepared, committed, enabled, disabler, tx, snap, my, popped, made, crashes, serial>>
Increment(h) ==
    /\ pc[h] = "written" /\ count' = count + 1 /\ hash' = tx[h].hash
    /\ IF count + 1 \in DOMAIN prepared
       THEN /\ committed' = committed \cup {[n |-> count + 1, id |-> prepared[count + 1].id, hash |-> prepared[count + 1].hash]}
            /\ prepared' = [x \in DOMAIN prepared \ {count + 1} |-> prepared[x]]
       ELSE UNCHANGED <<committed, prepared>>
    /\ Go(h, "moved")
    /\ UNCHANGED <<disk, lock, enabled, disabler, tx, snap, my, popped, made, crashes, serial>>
Unlock(h) ==
    /\ pc[h] = "moved" /\ lock' = Free(h) /\ Go(h, "idle") /\ tx' = [tx EXCEPT ![h] = NoTx]
    /\ UNCHANGED <<disk, count, hash, prepared, committed, enabled, disabler, snap, my, popped, made, crashes, serial>>
Rollback(h) ==
    /\ pc[h] \in {"open", "locked", "prepared", "lost"}
    /\ lock' = IF MISTAKE = "noRelease" THEN lock ELSE Free(h)
    /\ Go(h, "idle") /\ tx' = [tx EXCEPT ![h] = NoTx]
    /\ UNCHANGED <<disk, count, hash, prepared, committed, enabled, disabler, snap, my, popped, made, crashes, serial>>
\* what the sync thread sends on: at any time
Pop ==
    /\ popped' = popped \cup committed \cup (IF MISTAKE = "popAll" THEN {[n |-> x, id |-> prepared[x].id, hash |-> prepared[x].hash] : x \in DOMAIN prepared} ELSE {})
    /\ committed # {} \/ MISTAKE = "popAll"
    /\ committed' = {}
    /\ UNCHANGED <<disk, count, hash, prepared, lock, enabled, disabler, pc, tx, snap, my, made, crashes, serial>>
\* setCommitEnabled(false): takes the lock to set it; once it has returned nothing more is committed
Disable ==
    /\ disabler = "on" /\ lock = 0 /\ enabled' = FALSE /\ disabler' = "off"
    /\ UNCHANGED <<disk, count, hash, prepared, committed, lock, pc, tx, snap, my, popped, made, crashes, serial>>
Crash ==
    /\ crashes < MaxCrash /\ crashes' = crashes + 1
    /\ count' = (IF journal = <<>> THEN 0 ELSE journal[Len(journal)].n) /\ hash' = (IF journal = <<>> THEN <<>> ELSE journal[Len(journal)].hash)
    /\ prepared' = <<>> /\ committed' = {} /\ lock' = 0 /\ enabled' = TRUE /\ disabler' = "on"
    /\ pc' = [h \in Handles |-> "idle"] /\ tx' = [h \in Handles |-> NoTx] /\ UNCHANGED <<disk, snap, my, popped, made, serial>>
Next == Crash \/ Pop \/ Disable \/ \E h \in Handles : \/ Begin(h) \/ BeginFails(h) \/ Lock(h) \/ EarlyCount(h) \/ LateLock(h) \/ EarlyEnabled(h) \/ LateEnabled(h)
                                                      \/ Write(h) \/ Commit(h) \/ UnlockFirst(h) \/ Increment(h) \/ Unlock(h) \/ Rollback(h)
Act(h) == Lock(h) \/ LateLock(h) \/ LateEnabled(h) \/ Write(h) \/ Commit(h) \/ UnlockFirst(h) \/ Increment(h) \/ Unlock(h) \/ (pc[h] = "lost" /\ Rollback(h))
Spec == Init /\ [][Next]_vars /\ \A h \in Handles : SF_vars(Lock(h)) /\ SF_vars(LateLock(h)) /\ WF_vars(Act(h))
\* ---- what must hold
Chain == \A i \in DOMAIN journal : journal[i].n = i /\ journal[i].hash = [k \in 1 .. i |-> journal[k].id]
Moving == \E h \in Handles : pc[h] \in {"written", "unlockfirst"}
InStep == ~Moving => count = Len(journal) /\ hash = (IF journal = <<>> THEN <<>> ELSE journal[Len(journal)].hash)
Owner == \A h \in Handles : pc[h] \in {"locked", "prepared", "written", "moved"} => lock = h
SentIsStored == \A p \in popped \cup committed : p.n \in DOMAIN journal /\ journal[p.n].id = p.id /\ journal[p.n].hash = p.hash
AllSent == ~Moving /\ crashes = 0 => {p.n : p \in popped \cup committed} = 1 .. Len(journal)
Serial == /\ Len(serial) = Len(journal) \/ MISTAKE = "split"
          /\ \A i \in DOMAIN serial : serial[i].saw = serial[i].was /\ i <= Len(journal) /\ journal[i].id = serial[i].id
NoneAfter == \A i \in DOMAIN serial : serial[i].on
Holder == lock # 0 => pc[lock] # "idle"
Finishes == \A h \in Handles : pc[h] # "idle" ~> pc[h] = "idle"
=============================================================================
