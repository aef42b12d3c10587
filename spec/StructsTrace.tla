---------------------------- MODULE StructsTrace ----------------------------
(* Is a recorded history of the container classes a behaviour of Structs?      *)
EXTENDS Structs, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)

Step(e) ==
    CASE e.op = "scenario" -> st' = EmptyStore
      [] e.op = "keys" -> st' = [st EXCEPT !.keys = e.n]
      [] e.op = "q_new" -> st' = QNew(e.q, e.cnt) /\ (QObsOK(st'.q[e.q], e) = TRUE)
      [] e.op = "q_push" -> QPushPre(e.q, e.id, e.key) /\ st' = QPush(e.q, e.id, e.key) /\ (QObsOK(st'.q[e.q], e) = TRUE)
      [] e.op = "q_pop" -> QPopPre(e.q) /\ QPopOK(e.q, e.id, e.key) /\ st' = QPop(e.q, e.id) /\ (QObsOK(st'.q[e.q], e) = TRUE)
      [] e.op = "q_dec" -> QKeyPre(e.q, e.id, e.key) /\ e.res = (e.key < st.q[e.q].m[e.id]) /\ st' = QDec(e.q, e.id, e.key) /\ (QObsOK(st'.q[e.q], e) = TRUE)
      [] e.op = "q_inc" -> QKeyPre(e.q, e.id, e.key) /\ e.res = (e.key > st.q[e.q].m[e.id]) /\ st' = QInc(e.q, e.id, e.key) /\ (QObsOK(st'.q[e.q], e) = TRUE)
      [] e.op = "q_clear" -> QHas(e.q) /\ st' = QClear(e.q) /\ (QObsOK(st'.q[e.q], e) = TRUE)
      [] e.op = "q_copy" -> QHas(e.r) /\ st' = QCopy(e.q, e.r) /\ (QObsOK(st'.q[e.q], e) = TRUE)
      [] e.op = "q_swap" -> QHas(e.q) /\ QHas(e.r) /\ st' = QSwap(e.q, e.r) /\ (QObsOK(st'.q[e.q], e) = TRUE)
      [] e.op = "q_obs" -> st' = st /\ (QObsOK(st.q[e.q], e) = TRUE)
      [] e.op = "q_pushq" -> (QPushAllPre(e.q, e.kv) = TRUE) /\ st' = QPushAll(e.q, e.kv) /\ (QBigObsOK(st'.q[e.q], e) = TRUE)
      [] e.op = "q_popq" -> QHas(e.q) /\ (QPopAllOK(e.q, e.ids, e.keys) = TRUE) /\ st' = QPopAll(e.q, e.ids) /\ (QBigObsOK(st'.q[e.q], e) = TRUE)
      [] e.op = "q_keyq" -> (QKeyAllPre(e.q, e.kv) = TRUE) /\ ToSet(e.chg) = QChanged(e.q, e.kv, e.dec) /\ st' = QKeyAll(e.q, e.kv, e.dec) /\ (QBigObsOK(st'.q[e.q], e) = TRUE)
      [] e.op = "s_new" -> st' = SNew(e.s, e.cnt) /\ (SObsOK(st'.s[e.s], e) = TRUE)
      [] e.op = "s_push" -> SPushPre(e.s, {e.id}) /\ st' = SPush(e.s, {e.id}) /\ (SObsOK(st'.s[e.s], e) = TRUE)
      [] e.op = "s_pushq" -> SPushPre(e.s, ToSet(e.ids)) /\ st' = SPush(e.s, ToSet(e.ids)) /\ (SObsOK(st'.s[e.s], e) = TRUE)
      [] e.op = "s_pop" -> SHas(e.s) /\ SPopOK(e.s, e.id) /\ st' = SPop(e.s, {e.id}) /\ (SObsOK(st'.s[e.s], e) = TRUE)
      [] e.op = "s_popq" -> SHas(e.s) /\ (SPopsOK(e.s, e.ids) = TRUE) /\ st' = SPop(e.s, ToSet(e.ids)) /\ (SObsOK(st'.s[e.s], e) = TRUE)
      [] e.op = "s_clear" -> SHas(e.s) /\ st' = SClear(e.s) /\ (SObsOK(st'.s[e.s], e) = TRUE)
      [] e.op = "s_copy" -> SHas(e.r) /\ st' = SCopy(e.s, e.r) /\ (SObsOK(st'.s[e.s], e) = TRUE)
      [] e.op = "s_obs" -> st' = st /\ (SObsOK(st.s[e.s], e) = TRUE)
      [] e.op = "b_new" -> BNewOK(e.cnt, e.v, ToSet(e.m)) /\ st' = BPut(e.b, BVal(e.cnt, ToSet(e.m))) /\ (BObsOK(st'.b[e.b], e) = TRUE)
      [] e.op = "b_make" -> st' = BPut(e.b, BVal(e.cnt, ToSet(e.list))) /\ (BObsOK(st'.b[e.b], e) = TRUE)
      [] e.op = "b_bit" -> BHas(e.b) /\ e.x \in Range1(st.b[e.b].n) /\ st' = BPut(e.b, BVal(st.b[e.b].n, BBit(e.b, e.o, e.x))) /\ (BObsOK(st'.b[e.b], e) = TRUE)
      [] e.op = "b_all" -> BHas(e.b) /\ st' = BPut(e.b, BVal(st.b[e.b].n, BAll(e.b, e.o))) /\ (BObsOK(st'.b[e.b], e) = TRUE)
      [] e.op = "b_resize" -> BHas(e.b) /\ BResizeOK(e.b, e.cnt, e.v, ToSet(e.m)) /\ st' = BPut(e.b, BVal(e.cnt, ToSet(e.m))) /\ (BObsOK(st'.b[e.b], e) = TRUE)
      [] e.op = "b_grow" -> BHas(e.b) /\ BGrowOK(e.b, e.x, e.v, e.n, ToSet(e.m)) /\ st' = BPut(e.b, BVal(e.n, ToSet(e.m))) /\ (BObsOK(st'.b[e.b], e) = TRUE)
      [] e.op = "b_in" -> BHas(e.b) /\ BHas(e.c) /\ st.b[e.b].n = st.b[e.c].n /\ e.same
                          /\ st' = BPut(e.b, BVal(st.b[e.b].n, BOp(e.o, st.b[e.b].m, st.b[e.c].m))) /\ (BObsOK(st'.b[e.b], e) = TRUE)
      [] e.op = "b_bin" -> BHas(e.b) /\ BHas(e.c) /\ st.b[e.b].n = st.b[e.c].n
                          /\ st' = BPut(e.d, BVal(st.b[e.b].n, BOp(e.o, st.b[e.b].m, st.b[e.c].m))) /\ (BObsOK(st'.b[e.d], e) = TRUE)
      [] e.op = "b_inv" -> BHas(e.b) /\ st' = BPut(e.d, BVal(st.b[e.b].n, Range1(st.b[e.b].n) \ st.b[e.b].m)) /\ (BObsOK(st'.b[e.d], e) = TRUE)
      [] e.op = "b_copy" -> BHas(e.b) /\
             st' = (CASE e.how \in {"ctor", "assign"} -> BPut(e.d, st.b[e.b])
                     \* a moved-from vector may only be assigned to
                     [] e.how \in {"move", "moveassign"} -> [st EXCEPT !.b = Put(Restrict(st.b, DOMAIN st.b \ {e.b}), e.d, st.b[e.b])]
                     [] e.how = "swap" -> [st EXCEPT !.b = Put(Put(st.b, e.d, st.b[e.b]), e.b, st.b[e.d])])
             /\ (BObsOK(st'.b[e.d], e) = TRUE)
      [] e.op = "b_obs" -> st' = st /\ (BObsOK(st.b[e.b], e) = TRUE)
      [] e.op = "b_cmp" -> st' = st /\ (BCmpOK(e.list, e.r) = TRUE)
      [] e.op = "m_new" -> ToSet(e.list) \subseteq Range1(e.n) /\ st' = XNew(e.x, e.n, e.list)
      [] e.op = "m_all" -> st' = st /\ (XAllOK(st.x[e.x], e) = TRUE)
      [] e.op = "f_new" -> st' = FPut(e.f, [n |-> e.n, m |-> {}])
      [] e.op = "f_set" -> st' = FPut(e.f, [st.f[e.f] EXCEPT !.m = @ \cup {e.x}])
      [] e.op = "f_rst1" -> st' = FPut(e.f, [st.f[e.f] EXCEPT !.m = @ \ {e.x}])
      [] e.op = "f_rst" -> st' = IF e.k > 0 THEN FPut(e.f, [st.f[e.f] EXCEPT !.m = {}]) ELSE st
      [] e.op = "f_obs" -> st' = st /\ ToSet(e.m) = st.f[e.f].m

Init == st = EmptyStore /\ l = 1
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<st, l>>
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>)
=============================================================================
