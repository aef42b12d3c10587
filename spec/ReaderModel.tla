----------------------------- MODULE ReaderModel -----------------------------
(* Design model of BufferedAsynchronousReader: a worker thread fills a ring of *)
(* Blocks blocks of B bytes from a source that delivers 1..B bytes per call,   *)
(* ends or fails; the main thread reads 0..B bytes at a time and may use the   *)
(* returned memory until its next read; it may destroy the reader at any time. *)
(* The first block is mirrored behind the ring so that every read is one piece.*)
(* The byte at position p of the stream has the value p.  Critical sections    *)
(* are steps; sleeping on a condition variable ends only by a notification.    *)
EXTENDS Naturals, Integers, Sequences, TLC
CONSTANTS B, L, Blocks, Free, Silent       \* the worker calls the source when Free blocks are free; Silent: it ends without notifying
VARIABLES mem, db, de, eof, term, exc, src, wpc, got, mpc, want, cons, held, res
vars == <<mem, db, de, eof, term, exc, src, wpc, got, mpc, want, cons, held, res>>
Ring == Blocks * B
Used == IF db <= de THEN de - db ELSE Ring - (db - de)
NoBlock == [a |-> 0, n |-> 0, p |-> 0]
Init == /\ mem = [i \in 0 .. Ring + B - 1 |-> -1] /\ db = 0 /\ de = 0 /\ eof = FALSE /\ term = FALSE /\ exc = FALSE
        /\ src = 0 /\ wpc = "check" /\ got = 0 /\ mpc = "idle" /\ want = 0 /\ cons = 0 /\ held = NoBlock /\ res = "none"
WakeWorker == IF wpc = "asleep" THEN "check" ELSE wpc
WakeMain == IF mpc = "asleep" THEN "check" ELSE mpc
MainVars == <<db, want, cons, held, res, term>>
WCheck == /\ wpc = "check"
          /\ wpc' = (IF term THEN "done" ELSE IF Ring - Used >= Free * B THEN "calling" ELSE "asleep")
          /\ UNCHANGED <<mem, de, eof, exc, src, got, mpc>> /\ UNCHANGED MainVars
(* the source writes without the lock *)
WSource == /\ wpc = "calling"
           /\ \/ \E n \in 1 .. B : src + n <= L /\ mem' = [i \in DOMAIN mem |-> IF i \in de .. de + n - 1 THEN src + i - de ELSE mem[i]] /\ src' = src + n /\ got' = n
              \/ src = L /\ got' = 0 /\ UNCHANGED <<mem, src>>
              \/ got' = -1 /\ UNCHANGED <<mem, src>>
           /\ wpc' = "commit" /\ UNCHANGED <<de, eof, exc, mpc>> /\ UNCHANGED MainVars
WCommit == /\ wpc = "commit"
           /\ IF got = -1 THEN exc' = TRUE /\ wpc' = "done" /\ mpc' = (IF Silent THEN mpc ELSE WakeMain) /\ UNCHANGED <<mem, de, eof>>
              ELSE IF term THEN wpc' = "done" /\ UNCHANGED <<mem, de, eof, exc, mpc>>
              ELSE IF got = 0 THEN eof' = TRUE /\ wpc' = "done" /\ mpc' = (IF Silent THEN mpc ELSE WakeMain) /\ UNCHANGED <<mem, de, exc>>
              ELSE LET raw == de + got  nde == IF raw >= Ring THEN raw - Ring ELSE raw
                       m1 == IF raw >= Ring THEN [i \in DOMAIN mem |-> IF i < nde THEN mem[Ring + i] ELSE mem[i]] ELSE mem
                       (* the part of the new data that lies in the first block is mirrored *)
                       top == IF raw < B THEN raw ELSE B
                       m2 == IF de < B THEN [i \in DOMAIN mem |-> IF i \in Ring + de .. Ring + top - 1 THEN m1[i - Ring] ELSE m1[i]] ELSE m1 IN
                   mem' = m2 /\ de' = nde /\ wpc' = "check" /\ mpc' = WakeMain /\ UNCHANGED <<eof, exc>>
           /\ UNCHANGED <<src, got>> /\ UNCHANGED MainVars
Worker == WCheck \/ WSource \/ WCommit
WorkerVars == <<mem, de, eof, exc, src, got>>
(* calling read invalidates what the previous read returned *)
MCall == /\ mpc = "idle" /\ \E s \in 0 .. B : want' = s
         /\ mpc' = "check" /\ held' = NoBlock /\ UNCHANGED <<db, cons, term, res, wpc>> /\ UNCHANGED WorkerVars
MCheck == /\ mpc = "check"
          /\ IF exc THEN mpc' = "idle" /\ res' = "throw" /\ UNCHANGED <<db, cons, held, wpc>>
             ELSE IF Used >= want THEN /\ held' = [a |-> db, n |-> want, p |-> cons] /\ cons' = cons + want /\ db' = (IF db + want >= Ring THEN db + want - Ring ELSE db + want)
                                       /\ wpc' = WakeWorker /\ mpc' = "idle" /\ res' = "data"
             ELSE IF eof THEN mpc' = "idle" /\ res' = "null" /\ UNCHANGED <<db, cons, held, wpc>>
             ELSE mpc' = "asleep" /\ UNCHANGED <<db, cons, held, wpc, res>>
          /\ UNCHANGED <<want, term>> /\ UNCHANGED WorkerVars
MDestroy == /\ mpc = "idle" /\ term' = TRUE /\ wpc' = WakeWorker /\ mpc' = "join" /\ held' = NoBlock /\ UNCHANGED <<db, want, cons, res>> /\ UNCHANGED WorkerVars
MJoin == mpc = "join" /\ wpc = "done" /\ mpc' = "gone" /\ UNCHANGED <<db, want, cons, held, res, term, wpc>> /\ UNCHANGED WorkerVars
Main == MCall \/ MCheck \/ MDestroy \/ MJoin
Next == Worker \/ Main
Spec == Init /\ [][Next]_vars /\ WF_vars(Worker) /\ WF_vars(MCheck) /\ WF_vars(MJoin)
(* what was returned is the next piece of the stream and stays so until the next call *)
Content == \A i \in 0 .. held.n - 1 : mem[held.a + i] = held.p + i
Bounds == Used <= Ring - B /\ db < Ring /\ de < Ring
(* null only if the stream is too short *)
Null == (mpc = "idle" /\ res = "null") => (eof /\ cons + want > src /\ src = L)
Ahead == src <= cons + Ring
Answered == (mpc = "asleep") ~> (mpc # "asleep")
Ends == (mpc = "join") ~> (mpc = "gone")
=============================================================================
