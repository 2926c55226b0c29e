------------------------------ MODULE StatusModel -----------------------------
(* Histories of exchanges on sessions whose handles differ in little: the       *)
(* answers bear every kind of status and of handle (of this session, another,   *)
(* one that agrees in some bytes, none), are whole or empty, proper or not.     *)
(* Exactly the proper ones may come back as answers.                            *)
EXTENDS System, Peer

CONSTANTS Handles, Statuses, Sends, Steps, Show, Every

VARIABLES ops, n, proper, want
vars == <<ops, n, proper, want>>

Hs == <<<<1, 2, 3, 4>>, <<1, 2, 3, 5>>>>       \* the two sessions
\* name -> handle in the answer, for session s
Hd(s, x) == IF x = "own" THEN Hs[s] ELSE IF x = "other" THEN Hs[3 - s] ELSE IF x = "zero" THEN Zero4
            ELSE IF x = "low" THEN <<1, 2, 0, 0>> ELSE IF x = "high" THEN <<0, 0, 3, 4>> ELSE IF x = "msb" THEN <<1, 2, 3, Hs[s][4] + 128>>
            ELSE <<0, 2, 3, Hs[s][4]>>
St(x) == IF x = "ok" THEN Zero4 ELSE IF x = "byte1" THEN <<0, 1, 0, 0>> ELSE IF x = "byte2" THEN <<0, 0, 1, 0>> ELSE IF x = "byte3" THEN <<0, 0, 0, 128>>
         ELSE IF x = "100" THEN <<100, 0, 0, 0>> ELSE <<1, 0, 0, 0>>
Body(d) == IF d THEN Zeros(6) \o PackCpf(<<Item(0, <<>>), Item(178, <<142, 0, 0, 0, 7, 6, 5>>)>>) ELSE <<>>
Ask(s, h, st, full) == [op |-> "mr", s |-> s - 1, r |-> "std", svc |-> 14, path |-> <<1, 1, 7>>, data |-> <<>>, items |-> <<>>, form |-> 3,
                        rx |-> <<One(Encaps(CmdRRData, Hd(s, h), St(st), Body(full)))>>]
Raw(s, h, st, full) == [op |-> "raw", s |-> s - 1, cmd |-> 100, h |-> Hs[s], st |-> Zero4, data |-> <<1>>,
                        rx |-> <<One(Encaps(100, Hd(s, h), St(st), IF full THEN <<9, 9>> ELSE <<>>))>>]

Say(s, o, ok) ==
  /\ n < Steps /\ n' = n + 1 /\ ops' = Append(ops, o)
  /\ want' = Append(want, ok) /\ proper' = proper + (IF ok THEN 1 ELSE 0)
  /\ (Show /\ n' = Steps => /\ TLCSet(1, TLCGet(1) + 1)
        /\ (TLCGet(1) % Every = 0 => PrintT(Script("badst", ops' \o <<PlainOp(0, Hs[1]), PlainOp(1, Hs[2])>>))))
Next == \E s \in {1, 2}, h \in Handles, st \in Statuses, full \in BOOLEAN, k \in Sends :
          Say(s, IF k = "mr" THEN Ask(s, h, st, full) ELSE Raw(s, h, st, full), h = "own" /\ st = "ok" /\ (full \/ k = "raw"))
Init == /\ ops = <<SessOp(0, Hs[1]), SessOp(1, Hs[2])>> /\ n = 0 /\ proper = 0 /\ want = <<>> /\ TLCSet(1, 0)
Spec == Init /\ [][Next]_vars
Account == proper = Cardinality({i \in 1..n : want[i]}) /\ Len(ops) = n + 2
=============================================================================
