------------------------------- MODULE LogModel ------------------------------
(* The logger: every history of so many steps out of setting the level, setting *)
(* the appender, beginning a message (possibly inside another one: a stack) and *)
(* ending the innermost. A message is begun, grows, and is written or not when  *)
(* it ends. The printed scripts have the same nesting.                          *)
EXTENDS System, Peer

CONSTANTS Levels, MsgLevels, Appenders, Steps, Starts, Show, Every

VARIABLES log0, lvl, app, stack, ops, n, out, hist
vars == <<log0, lvl, app, stack, ops, n, out, hist>>

Digits(k) == IF k < 10 THEN <<48 + k>> ELSE <<48 + (k \div 10), 48 + (k % 10)>>
Text(k, l) == <<109>> \o Digits(k) \o <<45>> \o Digits(l)
Parts(k, l) == <<<<109>>, k, <<45>>, l>>

Init == /\ log0 \in Starts
        /\ lvl = (IF log0 = "trace" THEN 5 ELSE IF log0 = "default" THEN 3 ELSE 0)
        /\ app = 1 /\ stack = <<>> /\ n = 0 /\ out = <<>> /\ hist = <<>>
        /\ ops = <<[op |-> "appender", ap |-> 1]>> /\ TLCSet(1, 0)

\* a call goes where it is made: into the innermost message, or to the top
Put1(o, h) ==
  /\ hist' = Append(hist, h)
  /\ IF stack = <<>> THEN ops' = Append(ops, o) /\ stack' = stack
     ELSE ops' = ops /\ stack' = [stack EXCEPT ![Len(stack)].in = Append(@, o)]
SetLevel(l) == Put1([op |-> "loglevel", lvl |-> l], <<"level", l>>) /\ lvl' = l /\ UNCHANGED <<app, out>>
SetApp(a) == Put1([op |-> "appender", ap |-> a], <<"app", a>>) /\ app' = a /\ UNCHANGED <<lvl, out>>
Begin(l) == /\ stack' = Append(stack, [k |-> n, lvl |-> l, in |-> <<>>])
            /\ hist' = Append(hist, <<"begin", n, l>>)
            /\ UNCHANGED <<lvl, app, out, ops>>
End == /\ stack # <<>>
       /\ LET m == stack[Len(stack)]
              o == [op |-> "log", lvl |-> m.lvl, parts |-> Parts(m.k, m.lvl), text |-> Text(m.k, m.lvl), in |-> m.in]
              rest == SubSeq(stack, 1, Len(stack) - 1)
          IN /\ out' = IF Logged([lvl |-> lvl, app |-> app], m) THEN Append(out, <<m.k, app>>) ELSE out
             /\ hist' = Append(hist, <<"end", m.k>>)
             /\ IF rest = <<>> THEN ops' = Append(ops, o) /\ stack' = rest
                ELSE ops' = ops /\ stack' = [rest EXCEPT ![Len(rest)].in = Append(@, o)]
       /\ UNCHANGED <<lvl, app>>
\* every begun message ends
Room == n + Len(stack) < Steps
Next == /\ n < Steps /\ n' = n + 1 /\ UNCHANGED log0
        /\ \/ Room /\ \E l \in Levels : SetLevel(l)
           \/ Room /\ \E a \in Appenders : SetApp(a)
           \/ n + Len(stack) + 2 <= Steps /\ \E l \in MsgLevels : Begin(l)
           \/ End
        /\ ((Show /\ n' = Steps) => /\ TLCSet(1, TLCGet(1) + 1)
              /\ (TLCGet(1) % Every = 0 => PrintT("SCRIPT " \o ToJson([fam |-> "logger", rnd |-> 257, log |-> log0, ops |-> ops']))))
Spec == Init /\ [][Next]_vars

(* From the history alone: a message is written exactly once, when it ends, iff  *)
(* its level was enabled by the last setting before; to the last appender set.   *)
Ends == {i \in 1..Len(hist) : hist[i][1] = "end"}
LastOf(kind, i, dflt) ==
  LET js == {j \in 1..i : hist[j][1] = kind}
  IN IF js = {} THEN dflt ELSE hist[CHOOSE j \in js : \A m \in js : m <= j][2]
LevelOf(k) == hist[CHOOSE j \in 1..Len(hist) : hist[j][1] = "begin" /\ hist[j][2] = k][3]
First == IF log0 = "trace" THEN 5 ELSE IF log0 = "default" THEN 3 ELSE 0
Wanted(i) == LevelOf(hist[i][2]) <= LastOf("level", i, First)
WrittenWhenEnabled ==
  out = [j \in 1..Cardinality({i \in Ends : Wanted(i)}) |->
           LET q == CHOOSE i \in Ends : Wanted(i) /\ Cardinality({m \in Ends : m <= i /\ Wanted(m)}) = j
           IN <<hist[q][2], LastOf("app", q, 1)>>]
OffIsOff == \A i \in Ends : LastOf("level", i, First) = 0 => <<hist[i][2], LastOf("app", i, 1)>> \notin SetOf(out)
=============================================================================
