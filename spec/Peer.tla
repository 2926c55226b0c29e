-------------------------------- MODULE Peer --------------------------------
(* What a peer says, and scripts made of it: the environment of System.tla    *)
(* as values, for the models that enumerate behaviours (see DESIGN.md). A     *)
(* script is a list of calls; rx are the answers of the peer to the requests  *)
(* the call makes, in order, each a list of stream elements.                  *)
EXTENDS Wire, Json

Handle == <<1, 2, 3, 4>>

\* an answer to an explicit request
RRRaw(h, body) == Encaps(CmdRRData, h, Zero4, body)
RRReply(h, svc, st, add, data, items) ==
  RRRaw(h, Zeros(6) \o PackCpf(<<Item(0, <<>>),
    Item(178, <<(svc % 128) + 128, 0, st, Len(add)>> \o Flat([i \in 1..Len(add) |-> LE2(add[i])]) \o data)>> \o items))

\* stream elements
Data(b)    == [d |-> b]
Brk(k)     == [k |-> k]
One(b)     == <<Data(b)>>
Cut(b, n)  == IF n = 0 THEN <<>> ELSE <<Data(SubSeq(b, 1, n))>>
TwoAt(b, n, mid) == Cut(b, n) \o mid \o (IF n = Len(b) THEN <<>> ELSE <<Data(From(b, n + 1))>>)

\* calls
SessOp(s, h) ==
  [op |-> "sess", s |-> s, host |-> "10.0.0.1", ip |-> <<10, 0, 0, 1>>, port |-> 44818, to |-> 100,
   rx |-> <<One(Encaps(CmdRegister, h, Zero4, <<1, 0, 0, 0>>))>>]
\* an ordinary request that is answered
PlainOp(s, h) ==
  [op |-> "mr", s |-> s, r |-> "std", svc |-> 14, path |-> <<1, 1, 7>>, data |-> <<>>, items |-> <<>>, form |-> 3,
   rx |-> <<One(RRReply(h, 14, 0, <<>>, <<7, 6, 5>>, <<>>))>>]

Script(fam, ops) == "SCRIPT " \o ToJson([fam |-> fam, rnd |-> 257, ops |-> ops])

\* Single calls collected into scripts of so many (TLC's register 2; one worker)
Collected(fam, op, many) ==
  /\ TLCSet(2, Append(TLCGet(2), op))
  /\ IF Len(TLCGet(2)) < many THEN TRUE
     ELSE PrintT(Script(fam, TLCGet(2))) /\ TLCSet(2, <<>>)
=============================================================================
