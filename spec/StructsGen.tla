----------------------------- MODULE StructsGen -----------------------------
(* Histories of the container classes for replay into the real code: TLC      *)
(* simulates Structs with random arguments whose preconditions hold.           *)
EXTENDS Structs, Json, IOUtils
VARIABLES hist, k
Depth == atoi(IOEnv.DEPTH)
MaxN == atoi(IOEnv.MAXN)
Focus == IOEnv.FOCUS
R(S) == RandomElement(IF k >= 0 THEN S ELSE {})
Str(x) == ToString(x)
RECURSIVE Join(_)
Join(s) == IF s = << >> THEN "" ELSE Str(Head(s)) \o " " \o Join(Tail(s))
Lst(s) == Str(Len(s)) \o " " \o Join(s)
Do(line, s2) == st' = s2 /\ hist' = Append(hist, line)
L1(op, a) == op \o " " \o Str(a)
L2(op, a, b) == L1(op, a) \o " " \o Str(b)
L3(op, a, b, c) == L2(op, a, b) \o " " \o Str(c)

(* ---- MinIDQueue: two or three queues *)
KeyCount == 6
QStep ==
    \E q \in {R(0 .. 2)}, r \in {R(0 .. 2)}, what \in {R(1 .. 20)}, n \in {R(0 .. MaxN)}, kk \in {R(0 .. KeyCount - 1)} :
    IF ~QHas(q) \/ what = 20 THEN Do(L2("q_new", q, n), QNew(q, n))
    ELSE LET v == st.q[q]  in == DOMAIN v.m  out == Range1(v.n) \ in IN
      CASE what <= 7 /\ out # {} -> \E id \in {R(out)} : Do(L3("q_push", q, id, kk), QPush(q, id, kk))
        [] what \in 8 .. 11 /\ in # {} -> \E id \in {R(QMin(v.m))} : Do(L1("q_pop", q), QPop(q, id))
        [] what \in 12 .. 14 /\ in # {} -> \E id \in {R(in)} : Do(L3("q_dec", q, id, kk), QDec(q, id, kk))
        [] what \in 15 .. 17 /\ in # {} -> \E id \in {R(in)} : Do(L3("q_inc", q, id, kk), QInc(q, id, kk))
        [] what = 18 /\ QHas(r) -> IF kk = 0 THEN Do(L2("q_copy", q, r), QCopy(q, r)) ELSE IF kk = 1 THEN Do(L2("q_assign", q, r), QCopy(q, r)) ELSE Do(L2("q_swap", q, r), QSwap(q, r))
        [] what = 19 /\ kk = 0 -> Do(L1("q_clear", q), QClear(q))
        [] OTHER -> UNCHANGED <<st, hist>>
(* A pop may return any minimum: the generator guesses one, and the script is cut where the real queue may differ.
   Keys of equal elements make the guess wrong, so the generator keeps keys distinct within a queue unless Ties. *)

(* ---- IDSetMinQueue *)
SStep ==
    \E s \in {R(0 .. 1)}, r \in {R(0 .. 1)}, what \in {R(1 .. 20)}, n \in {R(0 .. MaxN)} :
    IF ~SHas(s) \/ what = 20 THEN Do(L2("s_new", s, n), SNew(s, n))
    ELSE LET v == st.s[s] IN
      CASE what <= 10 /\ v.n > 0 -> \E id \in {R(Range1(v.n))} : Do(L2("s_push", s, id), SPush(s, {id}))
        [] what \in 11 .. 16 -> Do(L1("s_pop", s), SPop(s, {SMin(v.m)}))
        [] what = 17 /\ SHas(r) -> Do(L2(IF n % 2 = 0 THEN "s_copy" ELSE "s_assign", s, r), SCopy(s, r))
        [] what = 18 -> Do(L1("s_clear", s), SClear(s))
        [] OTHER -> UNCHANGED <<st, hist>>

(* ---- BitVector: sizes around the multiples of 64 and 512 *)
Sizes == {0, 1, 5, 63, 64, 65, 127, 128, 448, 511, 512, 513, 575, 576, 577, 1000, 1023, 1024, 1025, 1536, 1537}
Ops == {"set", "reset", "toggle", "set0", "set1", "if0", "if1"}
BStep ==
    \E b \in {R(0 .. 3)}, c \in {R(0 .. 3)}, d \in {R(0 .. 3)}, what \in {R(1 .. 24)}, n \in {R(Sizes)}, v \in {R({"0", "1", "1", "d", "u"})},
       o \in {R(Ops)}, g \in {R({"or", "and", "xor"})}, cat \in {R({"ll", "lr", "rl", "rr"})} :
    IF ~BHas(b) \/ what = 24 THEN
        LET vv == IF v = "u" THEN "0" ELSE v IN Do(L3("b_new", b, n, vv), BPut(b, BVal(n, FillWith(vv, 0, n - 1))))
    ELSE LET w == st.b[b]  fv == IF v = "u" THEN "1" ELSE v IN
      CASE what <= 6 /\ w.n > 0 -> \E x \in {R({R(Range1(w.n)), w.n - 1, 0, ((w.n - 1) \div 64) * 64})} :
                 Do("b_bit " \o Str(b) \o " " \o o \o " " \o Str(x), BPut(b, BVal(w.n, BBit(b, o, x))))
        [] what \in 7 .. 8 -> \E a \in {R({"set", "reset", "set0", "set1", "not", "not"})} : Do("b_all " \o Str(b) \o " " \o a, BPut(b, BVal(w.n, BAll(b, a))))
        [] what \in 9 .. 12 -> Do("b_resize " \o Str(b) \o " " \o Str(n) \o " " \o fv,
                 BPut(b, BVal(n, {x \in w.m : x < n} \cup FillWith(fv, w.n, n - 1))))
        [] what \in 13 .. 15 /\ BHas(c) /\ st.b[c].n = w.n -> Do("b_in " \o Str(b) \o " " \o g \o " " \o Str(c), BPut(b, BVal(w.n, BOp(g, w.m, st.b[c].m))))
        [] what \in 16 .. 17 /\ BHas(c) /\ st.b[c].n = w.n -> Do("b_bin " \o Str(d) \o " " \o Str(b) \o " " \o g \o " " \o Str(c) \o " " \o cat,
                 BPut(d, BVal(w.n, BOp(g, w.m, st.b[c].m))))
        [] what = 18 -> Do(L2("b_inv", d, b), BPut(d, BVal(w.n, Range1(w.n) \ w.m)))
        [] what = 19 -> Do(L3("b_copy", d, b, "ctor"), BPut(d, w))
        [] what = 20 -> Do(L3("b_copy", d, b, "assign"), BPut(d, w))
        [] what = 21 /\ BHas(d) -> Do(L3("b_copy", d, b, "swap"), [st EXCEPT !.b = Put(Put(st.b, d, w), b, st.b[d])])
        [] what = 22 /\ d # b -> Do(L3("b_copy", d, b, IF n % 2 = 0 THEN "move" ELSE "moveassign"), [st EXCEPT !.b = Put(Restrict(st.b, DOMAIN st.b \ {b}), d, w)])
        [] what = 23 -> LET have == SetToSeq(DOMAIN st.b) IN Do("b_cmp " \o Lst(have), st)
        [] OTHER -> UNCHANGED <<st, hist>>

Prelude == CASE Focus = "q" -> <<"keys 6 0 1 5 2147483647 2147483648 4294967295">> [] OTHER -> << >>
Init == st = [EmptyStore EXCEPT !.keys = IF Focus = "q" THEN KeyCount ELSE 0] /\ hist = Prelude /\ k = 0
Next == k < Depth /\ k' = k + 1
        /\ (CASE Focus = "q" -> QStep [] Focus = "s" -> SStep [] Focus = "b" -> BStep)
        /\ IF k' = Depth THEN PrintT(<<"HIST", ToJson(hist')>>) ELSE TRUE
Spec == Init /\ [][Next]_<<st, hist, k>>
=============================================================================
