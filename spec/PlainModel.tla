------------------------------ MODULE PlainModel ------------------------------
(* Histories of plain sockets: what the peer sends in pieces, interrupted or    *)
(* broken off, is asked for in other pieces; datagrams arrive before, at and    *)
(* after the end of the time limit, which changes; constructions and sendings   *)
(* fail. The model keeps account of what is under way and what was handed over. *)
EXTENDS System, Peer

CONSTANTS Socks, Kinds, Steps, Show, Every

VARIABLES so,        \* socket -> [kind, to, q (bytes under way), ended, sent]
          ops, n, given, got
vars == <<so, ops, n, given, got>>

Ip(k) == <<10, 0, 0, k + 1>>
New(k, kind, more) == [op |-> "snew", k |-> k, kind |-> kind, host |-> "10.0.0." \o ToString(k + 1), ip |-> Ip(k), port |-> 2222 + k, form |-> k % 2,
                       to |-> 20] @@ more
Do(os, so2, gv, gt) ==
  /\ n < Steps /\ n' = n + 1
  /\ ops' = ops \o os /\ so' = so2 /\ given' = given + gv /\ got' = got + gt
  /\ (Show /\ n' = Steps => /\ TLCSet(1, TLCGet(1) + 1)
        /\ (TLCGet(1) % Every = 0 => PrintT(Script("plain", ops'))))

Fresh(kind) == [kind |-> kind, to |-> 20, q |-> 0, ended |-> FALSE, sent |-> FALSE]
Making ==
  \E k \in Socks \ DOMAIN so :
    \/ \E kind \in Kinds : Do(<<New(k, kind, IF kind = "tcp" THEN [conn |-> "inprog", cto |-> 10] ELSE [z |-> 0])>>, Put(so, k, Fresh(kind)), 0, 0)
    \/ \E kind \in Kinds : \E m \in {[sockfail |-> 1]} \cup (IF kind = "bound" THEN {[bindfail |-> 1], [optfail |-> 1]} ELSE {})
                                 \cup (IF kind = "tcp" THEN {[conn |-> c, cto |-> 10] : c \in {"refused", "inprog-refused", "timeout"}} ELSE {}) :
         Do(<<New(k, kind, m)>>, so, 0, 0)

\* what a TCP peer answers to what it got; 7, 8, 9 ... tell the bytes apart
Fill(x, m) == [i \in 1..m |-> 6 + x.q + i]
Answers(x) == {<<q, m, e>> : q \in {<<>>}, m \in {0}, e \in {FALSE}}
   \cup {<<<<Data(Fill(x, 3))>>, 3, FALSE>>, <<<<Data(Fill(x, 1)), Brk("eintr"), Data(<<77>>)>>, 2, FALSE>>,
         <<<<Data(Fill(x, 1)), Brk("eof")>>, 1, TRUE>>, <<<<Data(Fill(x, 2)), Brk("rst")>>, 2, TRUE>>, <<<<Brk("eof")>>, 0, TRUE>>}
Telling ==
  \E k \in DOMAIN so : so[k].kind = "tcp" /\ ~so[k].ended /\
    LET x == so[k] IN
    \/ \E a \in Answers(x), t \in {<<>>, <<[k |-> "ok", chunk |-> 1]>>, <<[k |-> "eintr", after |-> 1]>>} :
         Do(<<[op |-> "ssend", k |-> k, b |-> <<1, 2, 3>>, tx |-> t, rx |-> <<a[1]>>]>>, Put(so, k, [x EXCEPT !.q = @ + a[2], !.ended = a[3]]), a[2], 0)
    \/ \E f \in {0, 1} : Do(<<[op |-> "ssend", k |-> k, b |-> <<1, 2, 3>>, rx |-> <<>>, tx |-> <<[k |-> "fail", after |-> f, errno |-> 32]>>]>>, so, 0, 0)
Asking ==
  \E k \in DOMAIN so : so[k].kind = "tcp" /\
    \E m \in {0, 1, 2, 4} : LET x == so[k] IN
      Do(<<[op |-> "srecv", k |-> k, n |-> m]>>, Put(so, k, [x EXCEPT !.q = @ - Min(m, @)]), 0, Min(m, x.q))

Limits == \E k \in DOMAIN so : \E to \in {1, 20, 1500} : to # so[k].to /\ Do(<<[op |-> "sto", k |-> k, to |-> to]>>, Put(so, k, [so[k] EXCEPT !.to = to]), 0, 0)
Ending == \E k \in DOMAIN so : Do(<<[op |-> "sdel", k |-> k]>>, [x \in DOMAIN so \ {k} |-> so[x]], 0, 0)

Sending == \E k \in DOMAIN so : so[k].kind = "udp" /\
    \E m \in {0, 3} : \E bad \in BOOLEAN :
      Do(<<[op |-> "ssend", k |-> k, b |-> SubSeq(<<1, 2, 3>>, 1, m)] @@ (IF bad THEN [tx |-> <<[k |-> "fail", errno |-> 101]>>] ELSE [z |-> 0])>>,
         Put(so, k, [so[k] EXCEPT !.sent = @ \/ ~bad]), 0, 0)
Dg(x, k, at, b, more) == [at |-> at, port |-> IF x.kind = "bound" THEN 2222 + k ELSE 0, b |-> b, ip |-> <<10, 9, 8, 7>>, from |-> 513] @@ more
Hearing ==
  \E k \in DOMAIN so : so[k].kind \in {"udp", "bound"} /\ (so[k].kind = "bound" \/ so[k].sent) /\
    LET x == so[k]
        u == 10 * x.to
    IN \E m \in {0, 2, 65535}, fr \in {0, 1} :
       \E ds \in {<<>>} \cup {<<Dg(x, k, at, <<5, 6, 7>>, [z |-> 0])>> : at \in {0, u - 1, u, u + 1}}
                 \cup {<<Dg(x, k, 0, <<>>, [z |-> 0])>>, <<Dg(x, k, 0, <<4>>, [z |-> 0]), Dg(x, k, 1, <<3>>, [z |-> 0])>>,
                       <<Dg(x, k, 0, <<>>, [err |-> "ECONNREFUSED"]), Dg(x, k, 0, <<8, 9>>, [z |-> 0])>>} :
         Do(<<[op |-> "srecv", k |-> k, n |-> m, from |-> fr, dg |-> ds]>>, so, 0, 0)

Init == so = EmptyFn /\ ops = <<>> /\ n = 0 /\ given = 0 /\ got = 0 /\ TLCSet(1, 0)
Next == Making \/ Telling \/ Asking \/ Limits \/ Ending \/ Sending \/ Hearing
Spec == Init /\ [][Next]_vars

\* nothing is handed over that was not given, and what is under way is the rest (of the sockets that live)
NothingInvented == got <= given
RECURSIVE Under(_)
Under(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN so[k].q + Under(S \ {k})
AllAccounted == Under(DOMAIN so) + got <= given
=============================================================================
