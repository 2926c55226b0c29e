------------------------------- MODULE SockModel -----------------------------
(* Histories of sessions, requests, connections, handling and discoveries in    *)
(* which any system call may fail: connecting (refused at once, later, never),  *)
(* the first or second socket, an option, bind, a send (at once or half way),   *)
(* a receive (end, reset, silence, half an answer). The model keeps account of  *)
(* what is open; the code is asked after every call and at the end.             *)
EXTENDS System, Peer

CONSTANTS Sessions, Conns, Steps, Show, Every

VARIABLES up,        \* session -> "up" | "lost" (its object exists)
          io,        \* connection -> "live" | "gone" | "doubt"
          held, mgr, ops, n, ledger
vars == <<up, io, held, mgr, ops, n, ledger>>

H(s) == <<1, 2, 3, s + 4>>
T2O(c) == <<33, 34, 35, c>>
P == [prio |-> 10, ticks |-> 5, vendor |-> 342, oserial |-> <<9, 8, 7, 6>>, mult |-> 0, o2tRPI |-> <<16, 39, 0, 0>>,
      t2oRPI |-> <<16, 39, 0, 0>>, o2tP |-> <<2, 66, 0, 0>>, t2oP |-> <<2, 66, 0, 0>>, trig |-> 1, o2tRT |-> 0, t2oRT |-> 0,
      path |-> <<32, 4, 36, 1>>, o2tId |-> <<1, 1, 1, 1>>, t2oId |-> <<2, 2, 2, 2>>]
OpenData(c) == <<17, 18, 19, c>> \o T2O(c) \o <<1, c, 86, 1, 9, 8, 7, 6>> \o <<16, 39, 0, 0>> \o <<16, 39, 0, 0>> \o <<0, 0>>

\* how an exchange may end: an answer, or not; and how sending it may
Broken(b) == {<<Brk("eof")>>, <<Brk("rst")>>, <<Brk("tmo")>>, Cut(b, 10) \o <<Brk("rst")>>, Cut(b, 24) \o <<Brk("eof")>>}
Unsendable == {<<[k |-> "fail", after |-> 0]>>, <<[k |-> "fail", after |-> 12]>>}
NoFault == [z |-> 0]
SockFaults == {[sockfail |-> 1], [sockfail |-> 2], [bindfail |-> 1], [optfail |-> 1], [optfail |-> 2], [optfail |-> 3]}

Do(os, up2, io2, held2, mgr2, what) ==
  /\ n < Steps /\ n' = n + 1
  /\ ops' = ops \o os /\ up' = up2 /\ io' = io2 /\ held' = held2 /\ mgr' = mgr2
  /\ ledger' = Append(ledger, what)
  /\ (Show /\ n' = Steps => /\ TLCSet(1, TLCGet(1) + 1)
        /\ (TLCGet(1) % Every = 0 => PrintT(Script("sockets", ops' \o <<SessOp(90, Handle), PlainOp(90, Handle)>>))))

(* ---------------------------------------------------------------- sessions *)
Sess(s, more) == [op |-> "sess", s |-> s, host |-> "10.0.0.1", ip |-> <<10, 0, 0, 1>>, port |-> 44818, to |-> 100] @@ more
RegReply(s, st) == Encaps(CmdRegister, H(s), st, <<1, 0, 0, 0>>)
NewSession ==
  \E s \in Sessions \ DOMAIN up :
    \/ \E c \in {"ok", "inprog"} : Do(<<Sess(s, [conn |-> c, rx |-> <<One(RegReply(s, Zero4))>>])>>, Put(up, s, "up"), io, held, mgr, "sess")
    \/ \E m \in {[conn |-> "refused"], [conn |-> "inprog-refused"], [conn |-> "timeout"], [sockfail |-> 1], [optfail |-> 1]}
               \cup {[rx |-> <<q>>] : q \in Broken(RegReply(s, Zero4)) \cup {One(RegReply(s, <<1, 0, 0, 0>>)), One(SubSeq(RegReply(s, Zero4), 1, 24))}}
               \cup {[tx |-> t, rx |-> <<One(RegReply(s, Zero4))>>] : t \in Unsendable} :
         Do(<<Sess(s, m)>>, up, io, held, mgr, "no sess")
Drop == \E s \in DOMAIN up : \E t \in {<<>>} \cup Unsendable :
          Do(<<[op |-> "unsess", s |-> s, tx |-> t]>>, [x \in DOMAIN up \ {s} |-> up[x]], io, held, mgr, "unsess")
Ask == \E s \in DOMAIN up :
         LET r == RRReply(H(s), 14, 0, <<>>, <<7, 6, 5>>, <<>>)
             o == [op |-> "mr", s |-> s, r |-> "std", svc |-> 14, path |-> <<1, 1, 7>>, data |-> <<>>, items |-> <<>>, form |-> 3]
         IN \/ Do(<<o @@ [rx |-> <<One(r)>>]>>, up, io, held, mgr, "mr")
            \/ \E q \in Broken(r) : Do(<<o @@ [rx |-> <<q>>]>>, Put(up, s, "lost"), io, held, mgr, "mr")
            \/ \E t \in Unsendable : Do(<<o @@ [tx |-> t, rx |-> <<One(r)>>]>>, Put(up, s, "lost"), io, held, mgr, "mr")

(* -------------------------------------------------------------- connections *)
Open(c, s, m) == [op |-> "open", s |-> s, c |-> c, large |-> 0, p |-> P] @@ m
OpenReply(c, s, st) == RRReply(H(s), 84, st, <<>>, IF st = 0 THEN OpenData(c) ELSE <<>>, <<>>)
Opening ==
  \E c \in Conns \ DOMAIN io, s \in DOMAIN up :
    \/ Do(<<Open(c, s, [rx |-> <<One(OpenReply(c, s, 0))>>])>>, up, Put(io, c, IF up[s] = "up" THEN "live" ELSE "doubt"), held, TRUE, "open")
    \/ \E m \in {[rx |-> <<One(OpenReply(c, s, 1))>>]} \cup {[rx |-> <<q>>] : q \in Broken(OpenReply(c, s, 0))}
                \cup {f @@ [rx |-> <<One(OpenReply(c, s, 0))>>] : f \in SockFaults}
                \cup {[tx |-> t, rx |-> <<One(OpenReply(c, s, 0))>>] : t \in Unsendable} :
         Do(<<Open(c, s, m)>>, IF "rx" \in DOMAIN m /\ Len(m.rx[1]) > 0 /\ ("k" \in DOMAIN m.rx[1][Len(m.rx[1])] \/ "tx" \in DOMAIN m)
                                 THEN Put(up, s, "lost") ELSE up,
              Put(io, c, "doubt"), held, TRUE, "open?")
Closing ==
  \E c \in DOMAIN io, s \in DOMAIN up :
    /\ io[c] = "live"
    /\ LET r == RRReply(H(s), 78, 0, <<>>, <<>>, <<>>)
           o == [op |-> "close", s |-> s, c |-> c]
       IN \/ Do(<<o @@ [rx |-> <<One(r)>>]>>, up, Put(io, c, "gone"), held, TRUE, "close")
          \/ \E m \in {[rx |-> <<One(RRReply(H(s), 78, 1, <<>>, <<>>, <<>>))>>], [rx |-> <<<<Brk("rst")>>>>], [tx |-> <<[k |-> "fail", after |-> 0]>>]} :
               Do(<<o @@ m>>, Put(up, s, IF "tx" \in DOMAIN m \/ Len(m.rx[1]) = 0 \/ "k" \in DOMAIN m.rx[1][1] THEN "lost" ELSE up[s]),
                    Put(io, c, "doubt"), held, TRUE, "close?")
Holding == \/ \E c \in DOMAIN io : io[c] = "live" /\ c \notin held
                 /\ Do(<<[op |-> "hold", c |-> c]>>, up, io, held \cup {c}, mgr, "hold")
           \/ \E c \in held : Do(<<[op |-> "drop", c |-> c]>>, up, io, held \ {c}, mgr, "drop")
Handling == DOMAIN io # {} /\ \E u \in {0, 41} :
              Do(<<[op |-> "adv", u |-> u], [op |-> "handle", to |-> 0]>>, up,
                   [c \in DOMAIN io |-> IF u = 41 THEN "gone" ELSE io[c]], held, TRUE, "handle")
Manager == mgr /\ \E x \in {[op |-> "mgr", r |-> "std"], [op |-> "delmgr"]} :
             Do(<<x>>, up, [c \in DOMAIN io |-> "gone"], held, x.op = "mgr", x.op)
Discovering ==
  \E m \in {NoFault, [sockfail |-> 1], [optfail |-> 1]} :
    Do(<<[op |-> "disc", host |-> "10.0.0.255", ip |-> <<10, 0, 0, 255>>, port |-> 44818, to |-> 20, dg |-> <<>>] @@ m>>,
                          up, io, held, mgr, "disc")

Init == /\ up = (0 :> "up") /\ io = EmptyFn /\ held = {} /\ mgr = FALSE /\ n = 0 /\ ledger = <<"sess">>
        /\ ops = <<Sess(0, [rx |-> <<One(RegReply(0, Zero4))>>])>> /\ TLCSet(1, 0)
Next == NewSession \/ Drop \/ Ask \/ Opening \/ Closing \/ Holding \/ Handling \/ Manager \/ Discovering
Spec == Init /\ [][Next]_vars

(* the account: sessions made less sessions dropped; connections only with a manager *)
Count(x) == Cardinality({i \in 1..Len(ledger) : ledger[i] = x})
SessionsBalance == Cardinality(DOMAIN up) = Count("sess") - Count("unsess")
NoOrphans == (\E c \in DOMAIN io : io[c] = "live") => mgr
=============================================================================
