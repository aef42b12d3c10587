-------------------------------- MODULE IoTrace --------------------------------
(* Recorded histories of the input and output classes. *)
EXTENDS Io, Json, IOUtils
VARIABLES l,
    files,      \* name -> bytes
    ds, ofd,    \* data source -> open file (0: closed), open file -> [data, pos]
    fn,         \* read function object -> open file
    rs,         \* reader -> [bs, n, end, pos, held, thrown]
    tm          \* tag map -> [ks, vs]
vars == <<l, files, ds, ofd, fn, rs, tm>>
T == ndJsonDeserialize(IOEnv.TRACE)
E == T[l]
Empty == [j \in {} |-> 0]
Put(f, i, x) == [j \in DOMAIN f \cup {i} |-> IF j = i THEN x ELSE f[j]]
Del(f, i) == [j \in DOMAIN f \ {i} |-> f[j]]
Has(f) == f \in DOMAIN files
Stored(f, bytes) == IF CanSave(f, bytes) /\ f # "FULL" THEN files' = Put(files, f, bytes) ELSE UNCHANGED files
Rest == <<ds, ofd, fn, rs, tm>>
Save(bytes) == (E.ok = CanSave(E.f, bytes)) /\ Stored(E.f, bytes) /\ UNCHANGED Rest
Pure(p) == p = TRUE /\ UNCHANGED <<files, ds, ofd, fn, rs, tm>>
(* the operations of a FileDataSource on open file o *)
NewO == Cardinality(DOMAIN ofd) + 1
ReadO(o, e) == IF ofd[o].pos = -1 THEN ~e.ok /\ UNCHANGED ofd ELSE
               /\ o # 0 /\ e.ok /\ LET left == Drop(ofd[o].data, ofd[o].pos) IN
                  /\ e.r = Len(e.raw) /\ e.r <= e.k /\ e.raw = Prefix(left, e.r) /\ (e.k > 0 /\ left # << >> => e.r > 0)
               /\ ofd' = [ofd EXCEPT ![o].pos = @ + e.r]
Files ==
    CASE E.op = "v_save" -> Save(E.raw)
      [] E.op = "v_load" -> Pure(IF Has(E.f) /\ Len(files[E.f]) % E.sz = 0 THEN E.ok /\ E.raw = files[E.f] ELSE ~E.ok)
      [] E.op = "v_loadv" -> Pure(IF Has(E.f) /\ Len(files[E.f]) = E.sz THEN E.ok /\ E.raw = files[E.f] ELSE ~E.ok)
      [] E.op = "s_save" -> Save(EncStrings(E.v))
      [] E.op = "s_load" -> Pure(IF Has(E.f) THEN E.ok /\ LET d == DecStrings(files[E.f], << >>) IN
                                     IF files[E.f] = << >> \/ files[E.f][Len(files[E.f])] = 0 THEN E.v = d ELSE Prefix(E.v, Len(d)) = d /\ Len(E.v) <= Len(d) + 1 ELSE ~E.ok)
      [] E.op = "b_save" -> Save(EncBits(E.v))
      [] E.op = "b_load" -> Pure(IF Has(E.f) /\ BitFileOK(files[E.f]) THEN E.ok /\ E.v = DecBits(files[E.f]) /\ E.pop = Ones(E.v) ELSE ~E.ok)
      [] E.op = "b_stream" -> Pure(E.ok /\ E.r = E.v /\ E.pop = Ones(E.v) /\ E.left = 0)
      [] E.op = "w_stream" -> Pure(/\ E.file = E.raw \o E.raw /\ E.okv = (E.cut >= Len(E.raw)) /\ E.okr = (E.cut >= 2 * Len(E.raw))
                                   /\ E.vals = Prefix(E.raw, IF E.cut < Len(E.raw) THEN (E.cut \div E.sz) * E.sz ELSE Len(E.raw)) /\ (E.okr => E.vec = E.raw))
      [] E.op = "x_save" -> Save(E.raw)
      [] E.op = "x_load" -> Pure(IF Has(E.f) THEN E.ok /\ E.raw = files[E.f] /\ E.size = Len(E.raw) ELSE ~E.ok)
      [] E.op = "f_put" -> files' = Put(files, E.f, E.raw) /\ UNCHANGED Rest
      [] E.op = "f_cut" -> files' = Put(files, E.f, IF Has(E.f) THEN Prefix(files[E.f], E.k) ELSE << >>) /\ UNCHANGED Rest
      [] E.op = "f_add" -> files' = Put(files, E.f, (IF Has(E.f) THEN files[E.f] ELSE << >>) \o E.raw) /\ UNCHANGED Rest
      [] E.op = "f_del" -> files' = Del(files, E.f) /\ UNCHANGED Rest
Sources ==
    CASE E.op = "d_new" -> ds' = Put(ds, E.i, 0) /\ UNCHANGED <<files, ofd, fn, rs, tm>>
      (* a directory can be opened but not read *)
      [] E.op = "d_open" /\ E.f = "DIR" -> (IF E.ok THEN ofd' = Put(ofd, NewO, [data |-> << >>, pos |-> -1]) /\ ds' = Put(ds, E.i, NewO) ELSE UNCHANGED <<ofd, ds>>) /\ UNCHANGED <<files, fn, rs, tm>>
      [] E.op = "d_open" -> /\ E.ok = Has(E.f)
                            /\ IF E.ok THEN ofd' = Put(ofd, NewO, [data |-> files[E.f], pos |-> 0]) /\ ds' = Put(ds, E.i, NewO) ELSE UNCHANGED <<ofd, ds>>
                            /\ UNCHANGED <<files, fn, rs, tm>>
      [] E.op = "d_read" -> (IF ds[E.i] = 0 THEN ~E.ok /\ UNCHANGED ofd ELSE ReadO(ds[E.i], E)) /\ UNCHANGED <<files, ds, fn, rs, tm>>
      [] E.op = "d_fn" -> fn' = Put(fn, E.j, ds[E.i]) /\ UNCHANGED <<files, ds, ofd, rs, tm>>
      [] E.op = "d_call" -> ReadO(fn[E.j], E) /\ UNCHANGED <<files, ds, fn, rs, tm>>
      [] E.op = "d_size" -> Pure(IF ds[E.i] # 0 /\ ofd[ds[E.i]].pos = -1 THEN TRUE ELSE E.ok /\ E.s = IF ds[E.i] = 0 THEN 0 ELSE Len(ofd[ds[E.i]].data))
      [] E.op = "d_rewind" -> (IF ds[E.i] = 0 THEN ~E.ok /\ UNCHANGED ofd ELSE IF ofd[ds[E.i]].pos = -1 THEN UNCHANGED ofd ELSE E.ok /\ ofd' = [ofd EXCEPT ![ds[E.i]].pos = 0]) /\ UNCHANGED <<files, ds, fn, rs, tm>>
      [] E.op = "d_close" -> ds' = Put(ds, E.i, 0) /\ UNCHANGED <<files, ofd, fn, rs, tm>>
      [] E.op = "d_move" -> ds' = (IF E.i = E.j THEN ds ELSE [Put(ds, E.i, ds[E.j]) EXCEPT ![E.j] = 0]) /\ UNCHANGED <<files, ofd, fn, rs, tm>>
      [] E.op = "d_del" -> ds' = Del(ds, E.i) /\ UNCHANGED <<files, ofd, fn, rs, tm>>
      (* no descriptor is leaked and none is closed early *)
      [] E.op = "d_count" -> Pure(E.n = Cardinality({ds[i] : i \in DOMAIN ds} \ {0}))
NoPiece == [p |-> 0, n |-> 0]
Readers ==
    CASE E.op = "r_new" -> rs' = Put(rs, E.i, [bs |-> E.bs, n |-> FoldSeq(LAMBDA x, y : x + y, 0, E.chunks), end |-> E.end, pos |-> 0, held |-> NoPiece, thrown |-> FALSE])
      [] E.op = "r_read" -> LET r == rs[E.i] IN
            IF E.n > r.bs THEN E.out = "error" /\ rs' = [rs EXCEPT ![E.i].held = NoPiece]
            ELSE (CASE E.out = "data" -> ~r.thrown /\ r.pos + E.n <= r.n /\ E.raw = Piece(r.pos, E.n) /\ rs' = [rs EXCEPT ![E.i].pos = @ + E.n, ![E.i].held = [p |-> r.pos, n |-> E.n]]
                   (* the stream is too short *)
                   [] E.out = "null" -> ~E.ort /\ r.end = "eof" /\ r.pos + E.n > r.n /\ rs' = [rs EXCEPT ![E.i].held = NoPiece]
                   [] E.out = "error" -> E.ort /\ r.end = "eof" /\ r.pos + E.n > r.n /\ rs' = [rs EXCEPT ![E.i].held = NoPiece]
                   (* the failure of the source is reported as soon as it is known, and from then on *)
                   [] E.out = "source" -> r.end = "throw" /\ rs' = [rs EXCEPT ![E.i].held = NoPiece, ![E.i].thrown = TRUE])
      [] E.op = "r_hold" -> E.raw = Piece(rs[E.i].held.p, rs[E.i].held.n) /\ UNCHANGED rs
      [] E.op = "r_move" -> rs' = Put(Del(rs, E.j), E.i, rs[E.j])
      (* the source is asked for at most one block, never again after it ended, and by nobody once the reader is gone *)
      [] E.op = "r_del" -> (\A k \in DOMAIN E.asked : E.asked[k] <= rs[E.i].bs) /\ E.after = 0 /\ Len(E.asked) <= Len(E.given) + 1 /\ rs' = Del(rs, E.i)
Tags ==
    CASE E.op = "t_new" -> tm' = Put(tm, E.i, [ks |-> << >>, vs |-> << >>])
      [] E.op = "t_build" -> tm' = Put(tm, E.i, [ks |-> E.ks, vs |-> E.vs])
      [] E.op = "t_clear" -> tm' = Put(tm, E.i, [ks |-> << >>, vs |-> << >>])
      [] E.op = "t_get" -> LET c == {j \in DOMAIN tm[E.i].ks : tm[E.i].ks[j] = E.k} IN (IF c = {} THEN ~E.found ELSE E.found /\ \E j \in c : tm[E.i].vs[j] = E.v) = TRUE /\ UNCHANGED tm
      [] E.op = "t_all" -> (/\ E.size = Len(tm[E.i].ks) /\ E.empty = (tm[E.i].ks = << >>) /\ SameBag(Pairs(E.ks, E.vs), Pairs(tm[E.i].ks, tm[E.i].vs))) = TRUE /\ UNCHANGED tm
Step == LET c == E.op IN
    IF c = "scenario" THEN files' = Empty /\ ds' = Empty /\ ofd' = Empty /\ fn' = Empty /\ rs' = Empty /\ tm' = Empty
    ELSE IF c = "p_varint" THEN Pure(VarintOK(E)) ELSE IF c = "p_zigzag" THEN Pure(E.y = ZigZag(E.x)) ELSE IF c = "p_msg" THEN Pure(MsgOK(E))
    ELSE IF c \in {"t_new", "t_build", "t_clear", "t_get", "t_all"} THEN Tags /\ UNCHANGED <<files, ds, ofd, fn, rs>>
    ELSE IF c \in {"r_new", "r_read", "r_hold", "r_move", "r_del"} THEN Readers /\ UNCHANGED <<files, ds, ofd, fn, tm>>
    ELSE IF c \in {"d_new", "d_open", "d_read", "d_fn", "d_call", "d_size", "d_rewind", "d_close", "d_move", "d_del", "d_count"} THEN Sources
    ELSE Files
Init == l = 1 /\ files = Empty /\ ds = Empty /\ ofd = Empty /\ fn = Empty /\ rs = Empty /\ tm = Empty
Next == l <= Len(T) /\ Step /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>)
=============================================================================
