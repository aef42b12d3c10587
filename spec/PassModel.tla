------------------------------ MODULE PassModel ------------------------------
(* The ordered reader: a worker unpacks blocks in advance, the main thread waits *)
(* until it is known whether the file is sorted, then scans it once or once per  *)
(* kind of element.  Every data block carries one element, identified by its     *)
(* position.                                                                     *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt
CONSTANTS MaxLen, Cap, Signal        \* Signal: the worker tells that there is no header even if the file ends or is corrupt
VARIABLES file, cb, wpos, wst, queue, info, sorted, mst, todo, out
vars == <<file, cb, wpos, wst, queue, info, sorted, mst, todo, out>>
Kinds == {"n", "w", "r"}
Order(k) == CASE k = "n" -> 1 [] k = "w" -> 2 [] k = "r" -> 3
DataIdx(f) == {i \in DOMAIN f : f[i] \in Kinds}
SortedFile(f) == \A i, j \in DataIdx(f) : i < j => Order(f[i]) <= Order(f[j])
Files == {f \in UNION {[1 .. k -> Kinds \cup {"header", "sorted", "bad", "other"}] : k \in 0 .. MaxLen} :
            /\ \A i \in DOMAIN f : f[i] = "sorted" => SortedFile(f)
            /\ Cardinality({i \in DOMAIN f : f[i] \in {"bad", "other"}}) <= 1}
(* where unpacking fails: a bad block, or a header that is not the first of the data and header blocks *)
Fails(f) == {i \in DOMAIN f : f[i] = "bad" \/ (f[i] \in {"header", "sorted"} /\ \E j \in 1 .. i - 1 : f[j] \in Kinds \cup {"header", "sorted"})}
Init == /\ file \in Files /\ cb \in SUBSET Kinds \ {{}} /\ wpos = 1 /\ wst = "run" /\ queue = << >> /\ info = FALSE /\ sorted = FALSE
        /\ mst = "wait" /\ todo = << >> /\ out = << >>
Worker == /\ wst = "run" /\ Len(queue) < Cap
          /\ IF wpos > Len(file) THEN wst' = "eof" /\ info' = (info \/ Signal) /\ UNCHANGED <<queue, sorted, wpos>>
             ELSE LET b == file[wpos] IN
                  IF wpos \in Fails(file) THEN wst' = "error" /\ info' = (info \/ Signal) /\ UNCHANGED <<queue, sorted, wpos>>
                  ELSE /\ wpos' = wpos + 1 /\ UNCHANGED wst
                       /\ IF b \in Kinds THEN info' = TRUE /\ queue' = Append(queue, wpos) /\ UNCHANGED sorted
                          ELSE IF b = "other" THEN UNCHANGED <<queue, info, sorted>>
                          ELSE info' = TRUE /\ sorted' = (b = "sorted") /\ UNCHANGED queue
          /\ UNCHANGED <<file, cb, mst, todo, out>>
Passes == LET each == SelectSeq(<<"n", "w", "r">>, LAMBDA k : k \in cb) IN [i \in DOMAIN each |-> {each[i]}]
Wait == mst = "wait" /\ info /\ mst' = "read" /\ todo' = (IF sorted THEN <<cb>> ELSE Passes) /\ UNCHANGED <<file, cb, wpos, wst, queue, info, sorted, out>>
Read == /\ mst = "read"
        /\ \/ /\ wst = "error" /\ mst' = "error" /\ UNCHANGED <<wpos, wst, queue, info, sorted, todo, out>>
           \/ /\ queue # << >> /\ queue' = Tail(queue) /\ out' = (IF file[Head(queue)] \in todo[1] THEN Append(out, Head(queue)) ELSE out)
              /\ UNCHANGED <<wpos, wst, info, sorted, mst, todo>>
           \/ /\ queue = << >> /\ wst = "eof" /\ todo' = Tail(todo)
              /\ IF Len(todo) = 1 THEN mst' = "done" /\ UNCHANGED <<wpos, wst, info, sorted>>
                 ELSE mst' = mst /\ wpos' = 1 /\ wst' = "run" /\ info' = FALSE /\ sorted' = FALSE         \* start again from the beginning
              /\ UNCHANGED <<queue, out>>
        /\ UNCHANGED <<file, cb>>
Next == Worker \/ Wait \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Worker) /\ WF_vars(Wait) /\ WF_vars(Read)
Expected == LET All(k) == IF k \in cb THEN SelectSeq([i \in 1 .. Len(file) |-> i], LAMBDA i : file[i] = k) ELSE << >> IN All("n") \o All("w") \o All("r")
Complete == mst = "done" => out = Expected /\ Fails(file) = {}
InOrder == IsPrefix(out, Expected)
Finishes == <>(mst \in {"done", "error"})
=============================================================================
