----------------------------- MODULE Conformance -----------------------------
(* Checks recorded executions of the implementation against System.tla: every *)
(* script is one behaviour, replayed event by event.                          *)
EXTENDS System, Json, IOUtils

Scripts == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Scripts)

VARIABLES sid, l, st, bad
vars == <<sid, l, st, bad>>

Init == /\ sid \in 1..N
        /\ l = 1
        /\ st = InitState(Scripts[sid])
        /\ bad = {}

Inv(x) == UniqueT2O(x) /\ HandleGiven(x) /\ SeqWithCnt(x) /\ TimersSane(x)

\* (the quantifiers over one value have TLC compute it once)
Next == /\ bad = {}
        /\ l <= Len(Scripts[sid].ev)
        /\ \E r \in {Step(st, Scripts[sid].ev[l])} :
           \E b \in {IF r.bad = {} /\ ~r.st.lax /\ ~Inv(r.st) THEN {"INV"}
                     ELSE IF r.bad = {} /\ (l = Len(Scripts[sid].ev)) # (Scripts[sid].ev[l].e = "fin") THEN {"P06"}   \* cut short
                     ELSE r.bad} :
              /\ st' = r.st
              /\ bad' = b
              /\ (b # {} => PrintT(<<"REJECT", Scripts[sid].id, l, b>>))
              /\ (b = {} /\ l = Len(Scripts[sid].ev) => PrintT(<<"ACCEPT", Scripts[sid].id, r.st.lax>>))
        /\ l' = l + 1
        /\ UNCHANGED sid

Spec == Init /\ [][Next]_vars
=============================================================================
