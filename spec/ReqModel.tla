------------------------------- MODULE ReqModel ------------------------------
(* Explicit requests and their answers over enumerated services, paths, routers, *)
(* data, items (P04) and reply contents (P05). The request of Wire.tla, decoded, *)
(* gives back what was asked for; the parsed answer is what was put in.          *)
EXTENDS System, Peer

CONSTANTS Kind, Ids, Many, Show, Every

VARIABLES c, done
vars == <<c, done>>

H == Handle
Paths == UNION {[1..i -> Ids] : i \in 1..3}
Rep(n) == [i \in 1..n |-> (i * 7) % 256]
Datas == {<<>>, <<0>>, <<1, 2>>, <<255, 0, 32>>}
Items == {<<>>, <<[t |-> 32768, d |-> <<>>]>>, <<[t |-> 32769, d |-> <<1>>], [t |-> 0, d |-> <<>>]>>,
          <<[t |-> 178, d |-> <<5, 6>>], [t |-> 178, d |-> <<5, 6, 7>>], [t |-> 65535, d |-> Zeros(20)]>>}
Mr(r, v, p, d, its, form) ==
  [op |-> "mr", s |-> 0, r |-> r, svc |-> v, path |-> p, data |-> d, items |-> its, form |-> form]
Case(op, st, add, data, items, ok) ==
  [o |-> op @@ [rx |-> <<One(RRReply(H, op.svc, st, add, data, [i \in 1..Len(items) |-> Item(items[i].t, items[i].d)]))>>], ok |-> ok]

(* the request, taken apart by other means *)
Asked(op) ==
  LET e == op.r # "std"
      d == IF op.form = 3 THEN <<>> ELSE op.data
      its == IF op.form = 5 THEN op.items ELSE <<>>
      p == EncParse(RRReq(H, op.svc, op.path, e, d, its))
      q == CpfParse(From(p.data, 7))
      m == q.items[2].d
      path == PathParse(SubSeq(m, 3, 2 + 2 * m[2]))
  IN /\ p.ok /\ p.cmd = CmdRRData /\ p.h = H /\ p.st = Zero4 /\ p.ctx = Zeros(8) /\ p.opt = Zero4
     /\ SubSeq(p.data, 1, 4) = Zero4
     /\ q.exact /\ q.items[1].t = 0 /\ q.items[1].d = <<>> /\ q.items[2].t = 178
     /\ [i \in 1..Len(its) |-> [t |-> q.items[i + 2].t, d |-> q.items[i + 2].d]] = its /\ Len(q.items) = Len(its) + 2
     /\ m[1] = op.svc /\ path.ok /\ SubSeq(path.ids, 1, Len(op.path)) = op.path /\ path.n = Len(op.path)
     /\ From(m, 3 + 2 * m[2]) = d
\* 8-bit segments cannot say more (the call must fail); the ids of the Yaskawa router are bytes
OneByte(r, p) == r # "std" /\ ~Fits8(p)
Router(r, p) == IF r = "yas" /\ ~Fits8(p) THEN "8" ELSE r
ReqCases ==
  {LET op == Mr(Router(r, p), v, p, d, its, f) IN Case(op, 0, <<>>, <<>>, <<>>, ~OneByte(r, p) => Asked(op)) :
     r \in {"std", "8", "yas"}, v \in {14, 77}, p \in {q \in Paths : Len(q) # 3}, d \in {<<>>, <<3, 2, 1>>}, its \in {<<>>, <<[t |-> 32768, d |-> <<7>>]>>}, f \in {5}}
  \cup
  {LET op == Mr(Router(r, p), 14, p, <<9>>, <<>>, 4) IN Case(op, 0, <<>>, <<>>, <<>>, ~OneByte(r, p) => Asked(op)) :
     r \in {"std", "8", "yas"}, p \in Paths}
  \cup
  {LET op == Mr(r, v, <<4, 150, 3>>, d, its, f) IN Case(op, 0, <<>>, <<>>, <<>>, Asked(op)) :
     r \in {"std", "8", "yas"}, v \in {0, 1, 14, 76, 127}, d \in Datas, its \in Items, f \in {3, 4, 5}}
  \cup
  {LET op == Mr("std", 16, <<1, 1>>, Rep(n), <<>>, 4) IN Case(op, 0, <<>>, <<>>, <<>>, Asked(op)) :
     n \in {127, 128, 255, 256, 500, 511, 512, 1023, 1024}}

(* answers: what is returned is what was said *)
Adds == {<<>>, <<0>>, <<65535>>, <<1, 256, 513>>, [i \in 1..255 |-> i]}
Returned(v, st, add, d, its) ==
  LET x == RRParse(RRReply(H, v, st, add, d, [i \in 1..Len(its) |-> Item(its[i].t, its[i].d)]), v)
  IN /\ x.cls = "valid" /\ x.st = st /\ x.add = add /\ x.data = d /\ x.svc = (v % 128) + 128
     /\ [i \in 1..Len(x.items) |-> [t |-> x.items[i].t, d |-> x.items[i].d]] = its
RespCases ==
  {LET op == Mr("std", v, <<1, 1, 7>>, <<>>, <<>>, 3) IN Case(op, st, add, d, its, Returned(v, st, add, d, its)) :
     v \in {1, 14, 76, 127}, st \in {0, 1, 6, 30, 127, 128, 255}, add \in Adds, d \in Datas \cup {Rep(300)}, its \in Items}
  \cup
  {LET op == Mr("std", 14, <<1, 1, 7>>, <<>>, <<>>, 3) IN Case(op, st, <<>>, <<5>>, <<>>, Returned(14, st, <<>>, <<5>>, <<>>)) : st \in 0..255}

Cases == IF Kind = "req" THEN ReqCases ELSE RespCases

(* --------------------------------------------------------- scripts of many calls *)
Collect2(op) ==
  /\ TLCSet(2, Append(TLCGet(2), op))
  /\ IF Len(TLCGet(2)) < Many THEN TRUE
     ELSE PrintT(Script(Kind, <<SessOp(0, H)>> \o TLCGet(2))) /\ TLCSet(2, <<>>)
Init == c \in Cases /\ done = FALSE /\ TLCSet(1, 0) /\ TLCSet(2, <<>>)
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ (Show => /\ TLCSet(1, TLCGet(1) + 1) /\ (TLCGet(1) % Every = 0 => Collect2(c.o)))
Spec == Init /\ [][Next]_vars

AllOk == c.ok
=============================================================================
