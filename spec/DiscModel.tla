------------------------------ MODULE DiscModel ------------------------------
(* Discoveries: every sequence of up to Answers answers from an alphabet (proper   *)
(* ones, every truncation, wrong counts, lengths, commands and statuses, other  *)
(* items) with gaps below and above the timeout.                                *)
EXTENDS System, Peer

CONSTANTS Answers, Odd,      \* answers; how many of them may be odd
          Show, Every

VARIABLES ans, odd, fin   \* ans: sequence of [gap, b, devs]: the devices a reader has to list
vars == <<ans, odd, fin>>

To == 20                  \* [ms]
IdData(v) == <<v, 1, 2, 0, 40, 1, 3, 12, 96, 4, 210, 2, 150, v, 2, 80, 48 + v>>
IdItem(v) == Item(12, <<1, 0, 0, 2, 175, 18, 192, 168, 1, v>> \o Zeros(8) \o IdData(v) \o <<3>>)
Dev(v) == [vendor |-> 256 + v, serial |-> <<210, 2, 150, v>>, name |-> <<80, 48 + v>>, ip |-> <<192, 168, 1, v>>]
Answer(items) == Encaps(CmdListIdentity, Zero4, Zero4, PackCpf(items))
Proper == {[b |-> Answer(<<IdItem(1)>>), devs |-> <<Dev(1)>>],
           [b |-> Answer(<<IdItem(2), IdItem(3)>>), devs |-> <<Dev(2), Dev(3)>>],
           [b |-> Answer(<<>>), devs |-> <<>>]}
Good1 == Answer(<<IdItem(1)>>)
WithCpf(c) == Encaps(CmdListIdentity, Zero4, Zero4, c)
Strange ==
  {[b |-> SubSeq(Good1, 1, i)] : i \in 0..Len(Good1) - 1}
  \cup {[b |-> Good1 \o <<1>>], [b |-> <<99, 0>> \o <<255, 255>> \o From(Good1, 5)]}
  \cup {[b |-> <<c, 0>> \o From(Good1, 3)] : c \in {4, 101, 111}}
  \cup {[b |-> SubSeq(Good1, 1, 8) \o <<1, 0, 0, 0>> \o From(Good1, 13)]}
  \cup {[b |-> WithCpf(LE2(n) \o PackItem(IdItem(1)))] : n \in {0, 2, 65535}}
  \cup {[b |-> WithCpf(LE2(1) \o LE2(12) \o LE2(n) \o IdItem(1).d)] : n \in {0, 17, Len(IdItem(1).d) - 1, Len(IdItem(1).d) + 1, 65535}}
  \cup {[b |-> Answer(<<Item(t, IdItem(1).d)>>)] : t \in {0, 13, 134, 178, 268}}
  \cup {[b |-> Answer(<<Item(134, <<1, 2, 3>>), IdItem(4)>>), devs |-> <<Dev(4)>>], [b |-> Answer(<<Item(0, <<>>), IdItem(5), Item(0, <<>>)>>), devs |-> <<Dev(5)>>]}
  \cup {[b |-> Answer(<<Item(12, SubSeq(IdItem(1).d, 1, n)), IdItem(6)>>), devs |-> <<>>, dontcare |-> TRUE] : n \in {0, 18, 33, 34}}
Gaps == {0, 10 * To - 20, 10 * To + 20}

Init == ans = <<>> /\ odd = 0 /\ fin = FALSE /\ TLCSet(1, 0)
More == /\ ~fin /\ Len(ans) < Answers
        /\ \E g \in Gaps :
             \/ \E p \in Proper : ans' = Append(ans, p @@ [gap |-> g]) /\ odd' = odd
             \/ /\ odd < Odd /\ odd' = odd + 1
                /\ \E p \in Strange : ans' = Append(ans, p @@ [gap |-> g] @@ [devs |-> <<>>])
        /\ UNCHANGED fin
RECURSIVE At(_)
At(i) == IF i = 0 THEN 0 ELSE At(i - 1) + ans[i].gap
Net == [i \in 1..Len(ans) |-> [at |-> At(i), port |-> 0, b |-> ans[i].b]]
DiscOp(ds) == [op |-> "disc", host |-> "255.255.255.255", ip |-> <<255, 255, 255, 255>>, port |-> 44818, to |-> To, dg |-> ds]
\* ... and once more, with one device
Finish == /\ ~fin /\ ans # <<>> /\ fin' = TRUE
          /\ (Show => /\ TLCSet(1, TLCGet(1) + 1)
                      /\ TLCGet(1) % Every = 0 => PrintT(Script("disc", <<DiscOp(Net), [op |-> "adv", u |-> 5000],
                                                                          DiscOp(<<[at |-> 5, port |-> 0, b |-> Good1]>>)>>)))
          /\ UNCHANGED <<ans, odd>>
Next == More \/ Finish
Spec == Init /\ [][Next]_vars

\* Every device of a proper answer is listed, in order, up to the first silence
Heard == {i \in 1..Len(ans) : \A j \in 1..i : ans[j].gap <= 10 * To}
Expected == Flat([i \in 1..Cardinality(Heard) |-> ans[i].devs])
Result == Collect(Net, <<>>, 0, 10 * To, 0)
Musts == SelectSeq(Result.devs, LAMBDA d : d.must)
ListsAll ==
  (\A i \in Heard : ~Fld(ans[i], "dontcare", FALSE)) =>
    /\ Len(Musts) = Len(Expected)
    /\ \A i \in 1..Len(Musts) : SameDev(Expected[i], Musts[i].v)
\* nothing is made up: what may be listed was said in an identity item
InventsNone == \A i \in 1..Len(Result.devs) : Result.devs[i].v.vendor \in 257..262
EndsInTime == Result.t = At(Cardinality(Heard)) + 10 * To
=============================================================================
