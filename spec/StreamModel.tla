----------------------------- MODULE StreamModel -----------------------------
(* One request, its bytes and those of the answer in all the ways a stream can *)
(* bring them: every cut, pauses, interruptions, the end of the connection, a   *)
(* reset or silence at every position, partial and failing sends; then          *)
(* another request. The reader is Take/TakePacket of Wire.tla.                   *)
EXTENDS System, Peer

CONSTANTS Cuts, Breaks,   \* how many
          Waits0,         \* pauses of the peer (units)
          Sends, Show, Every

H == Handle
VARIABLES k, els, pos, cuts, brk, fin, tx
vars == <<k, els, pos, cuts, brk, fin, tx>>

\* an answer with content, one without, a registration
Kinds == {"mr", "empty", "raw", "sess"}
Call0 ==
  CASE k = "mr"    -> [op |-> "mr", s |-> 0, r |-> "std", svc |-> 14, path |-> <<1, 1, 7>>, data |-> <<>>, items |-> <<>>, form |-> 3]
    [] k = "empty" -> [op |-> "raw", s |-> 0, cmd |-> 4, h |-> H, st |-> Zero4, data |-> <<>>]
    [] k = "raw"   -> [op |-> "raw", s |-> 0, cmd |-> 100, h |-> H, st |-> Zero4, data |-> <<1, 2, 3>>]
    [] k = "sess"  -> [op |-> "sess", s |-> 2, host |-> "10.0.0.3", ip |-> <<10, 0, 0, 3>>, port |-> 44818, to |-> 100]
Packet ==
  CASE k = "mr"    -> RRReply(H, 14, 0, <<5>>, <<1, 2, 3, 4>>, <<>>)
    [] k = "empty" -> Encaps(4, H, Zero4, <<>>)
    [] k = "raw"   -> Encaps(100, H, Zero4, <<9, 8, 7>>)
    [] k = "sess"  -> Encaps(CmdRegister, H, Zero4, <<1, 0, 0, 0>>)
Request ==
  CASE k = "mr"    -> RRReq(H, 14, <<1, 1, 7>>, FALSE, <<>>, <<>>)
    [] k = "empty" -> Encaps(4, H, Zero4, <<>>)
    [] k = "raw"   -> Encaps(100, H, Zero4, <<1, 2, 3>>)
    [] k = "sess"  -> RegisterReq
N == Len(Packet)

Init == /\ k \in Kinds
        /\ els = <<>> /\ pos = 0 /\ cuts = 0 /\ brk = 0 /\ fin = "no"
        /\ tx \in {<<>>} \cup (IF Sends THEN {<<[k |-> "ok", chunk |-> c]>> : c \in 1..Len(Request)}
                                           \cup {<<[k |-> "eintr", after |-> c]>> : c \in 0..Len(Request) - 1}
                                           \cup {<<[k |-> "fail", after |-> c]>> : c \in 0..Len(Request) - 1} ELSE {})
        /\ TLCSet(1, 0)

Plain == tx = <<>>
Failing == ~Plain /\ tx[1].k = "fail"
Piece == /\ fin = "no" /\ ~Failing /\ pos < N
         /\ \E to \in (IF Plain /\ cuts < Cuts THEN pos + 1..N ELSE {N}), w \in (IF Plain THEN Waits0 ELSE {0}) :
              /\ els' = Append(els, [d |-> SubSeq(Packet, pos + 1, to)] @@ (IF w = 0 THEN [z |-> 0] ELSE [w |-> w]))
              /\ pos' = to
              /\ cuts' = IF to < N THEN cuts + 1 ELSE cuts
         /\ UNCHANGED <<k, brk, fin, tx>>
Interrupt == /\ fin = "no" /\ Plain /\ brk < Breaks /\ pos < N
             /\ els' = Append(els, Brk("eintr")) /\ brk' = brk + 1
             /\ UNCHANGED <<k, pos, cuts, fin, tx>>
Lost == /\ fin = "no" /\ Plain /\ pos < N
        /\ \E b \in {"eof", "rst", "tmo", "mute"} :
             /\ els' = IF b = "mute" THEN els ELSE Append(els, Brk(b))
             /\ fin' = b
        /\ UNCHANGED <<k, pos, cuts, brk, tx>>
Whole == /\ fin = "no" /\ (pos = N \/ Failing) /\ fin' = (IF Failing THEN "unsent" ELSE "whole")
         /\ UNCHANGED <<k, els, pos, cuts, brk, tx>>

Stream == [i \in 1..Len(els) |-> IF "d" \in DOMAIN els[i] THEN [k |-> "d", d |-> els[i].d] ELSE [k |-> els[i].k]]
Ops == <<SessOp(0, H)>>
       \o <<[rx |-> <<els>>] @@ (IF Plain THEN [z |-> 0] ELSE [tx |-> tx]) @@ Call0>>
       \o (IF fin = "whole" THEN <<PlainOp(0, H)>> ELSE <<>>)
       \o (IF fin = "whole" /\ k = "sess" THEN <<PlainOp(2, H)>> ELSE <<>>)
       \o <<SessOp(1, <<5, 0, 0, 1>>), PlainOp(1, <<5, 0, 0, 1>>)>>
Printed == /\ fin \in {"whole", "eof", "rst", "tmo", "mute", "unsent"}
         /\ fin' = "printed"
         /\ (Show => /\ TLCSet(1, TLCGet(1) + 1)
                     /\ TLCGet(1) % Every = 0 => PrintT(Script("seg", Ops)))
         /\ UNCHANGED <<k, els, pos, cuts, brk, tx>>
Next == Piece \/ Interrupt \/ Lost \/ Whole \/ Printed
Spec == Init /\ [][Next]_vars

\* what is read depends on the bytes alone
CutsDoNotMatter == fin = "whole" => LET t == TakePacket(Stream) IN t.ok /\ t.d = Packet /\ t.q = <<>>
\* and nothing is made up
NothingMadeUp == fin \in {"eof", "rst", "tmo", "mute"} => LET t == TakePacket(Stream) IN
  /\ ~t.ok
  /\ t.why = (IF fin \in {"eof", "rst"} THEN "end" ELSE "tmo")
=============================================================================
