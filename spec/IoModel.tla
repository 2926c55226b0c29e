------------------------------- MODULE IoModel -------------------------------
(* Implicit connections over time: every sequence of passes, arriving data,   *)
(* closes, opens and listeners from a finite menu, up to Steps of them, with   *)
(* times around the intervals and timeouts that matter. The behaviour is that  *)
(* of IoConn.tla; Judge states what it must satisfy over a whole history, by    *)
(* its own bookkeeping of ages. States equal in everything but absolute time    *)
(* and history are explored once; each transition is printed as a script.       *)
EXTENDS IoConn, Peer, SequencesExt

CONSTANTS Conns,   \* the connections that may be opened: 0, 1, 2, 3
          First,   \* those that are open from the start
          Advs,    \* times that may pass before a call
          Waits,   \* [ms] how long a pass may wait
          Dgs,     \* how many datagrams may arrive during a pass
          Progs,   \* what a listener may do: "close", "handle", "open", "data", "listen"
          Steps, Show, Fams,
          Every, Nth \* scripts: the Nth of every Every transitions

VARIABLES st,      \* [conns, net, now, log, on]
          gh,      \* for each open connection: [opened, recv, prod, n], by the history alone
          ops, n, last
vars == <<st, gh, ops, n, last>>

(* --------------------------------------------------------- the connections *)
\* times in units of 100 microseconds
Cfg(c) ==
  CASE c = 0 -> [o2t |-> 10, t2o |-> 10, fix |-> 1, hdr |-> 0, seqd |-> 1]    \* timeout 40
    [] c = 1 -> [o2t |-> 25, t2o |-> 15, fix |-> 0, hdr |-> 1, seqd |-> 0]    \* timeout 60
    [] c = 2 -> [o2t |-> 0, t2o |-> 10, fix |-> 1, hdr |-> 1, seqd |-> 1]     \* produces in every pass
    [] c = 3 -> [o2t |-> 10, t2o |-> 10, fix |-> 1, hdr |-> 0, seqd |-> 1]    \* with the id of 0
T2O(c) == IF c \in {0, 3} THEN <<33, 34, 35, 0>> ELSE <<33, 34, 35, c>>
O2T(c) == <<17, 18, 19, c>>
Ncp(c) == <<2, IF Cfg(c).fix = 1 THEN 64 ELSE 66, 0, 0>>
P(c) == [prio |-> 10, ticks |-> 5, vendor |-> 342, oserial |-> <<9, 8, 7, 6>>, mult |-> 0, o2tRPI |-> <<16, 39, 0, 0>>,
         t2oRPI |-> <<16, 39, 0, 0>>, o2tP |-> Ncp(c), t2oP |-> Ncp(c), trig |-> Cfg(c).seqd, o2tRT |-> Cfg(c).hdr,
         t2oRT |-> Cfg(c).hdr, path |-> <<32, 4, 36, 1>>, o2tId |-> <<1, 1, 1, 1>>, t2oId |-> <<2, 2, 2, 2>>]
Micro(u) == LE2(100 * u) \o <<0, 0>>
OpenData(c) == O2T(c) \o T2O(c) \o <<1, c, 86, 1, 9, 8, 7, 6>> \o Micro(Cfg(c).o2t) \o Micro(Cfg(c).t2o) \o <<0, 0>>
OpenOp(c) == [op |-> "open", s |-> 0, c |-> c, large |-> 0, p |-> P(c), rx |-> <<One(RRReply(Handle, 84, 0, <<>>, OpenData(c), <<>>))>>]
CloseOp(c) == [op |-> "close", s |-> 0, c |-> c, rx |-> <<One(RRReply(Handle, 78, 0, <<>>, <<>>, <<>>))>>]
ListenOp(c, k, g) == [op |-> "relisten", c |-> c, k |-> k, g |-> g]
DataOp(c, k) == [op |-> "setdata", c |-> c, b |-> [i \in 1..k |-> 5]]

\* what may arrive for connection c: proper data, data of a wrong size, for nobody, no datagram at all
Body(c, k) == (IF Cfg(c).seqd = 1 THEN <<7, 0>> ELSE <<>>) \o (IF Cfg(c).hdr = 1 THEN <<1, 0, 0, 0>> ELSE <<>>) \o [i \in 1..k |-> 6]
Dg(c, kind, at) ==
  [at |-> at, c |-> c, kind |-> kind,
   b |-> CASE kind = "ok" -> IoDatagram(T2O(c), 3, Body(c, 2))
           [] kind = "size" -> IoDatagram(T2O(c), 3, Body(c, 3))
           [] kind = "short" -> IoDatagram(T2O(c), 3, <<7>>)
           [] kind = "nobody" -> IoDatagram(<<33, 34, 36, c>>, 3, Body(c, 2))
           [] kind = "junk" -> <<2, 0, 2, 128, 8>>]
Valid(d) == d.kind = "ok" \/ (d.kind = "size" /\ Cfg(d.c).fix = 0)

(* --------------------------------------------------------------- behaviour *)
\* All of these give the set of the states that may follow (in which order the connections
\* are looked at is up to the code). on: what the listener k of c does when next called.
NoProg == [k |-> "none"]
Ev(s, e) == [s EXCEPT !.log = Append(@, e)]
Live(s) == {c \in DOMAIN s.conns : s.conns[c].live}

DoOpen(s, c) ==
  IF \E d \in Live(s) : T2O(d) = T2O(c) THEN {s}
  ELSE LET r == FwdOpenParse(OpenData(c))
           x == NewConn(P(c), FALSE, r, s.now, [known |-> FALSE], Listens(1))
       IN {Ev([s EXCEPT !.conns = (c :> x) @@ @], [k |-> "open", c |-> c, t |-> s.now])}
DoClose(s, c) == IF c \in Live(s) THEN {Ev([s EXCEPT !.conns[c] = Closed(@)], [k |-> "close", c |-> c, t |-> s.now])} ELSE {s}
DoData(s, c, k) == IF c \in DOMAIN s.conns THEN {[s EXCEPT !.conns[c].data = [i \in 1..k |-> 5]]} ELSE {s}

DoListen(s, c, k, g) == IF c \in DOMAIN s.conns THEN {[s EXCEPT !.conns[c].listen = [@ EXCEPT ![k] = g]]} ELSE {s}

RECURSIVE Pass(_, _), Arrive(_, _), Tick(_, _), TickOne(_, _), Fire(_, _, _)
Fire(s, c, k) ==
  IF s.on.k # k \/ s.on.c # c \/ s.conns[c].listen[k] = 0 THEN {s}
  ELSE LET x == s.on.x
           s1 == [s EXCEPT !.on = NoProg]
       IN CASE x.op = "close"   -> DoClose(s1, x.c)
            [] x.op = "open"    -> IF x.c \in DOMAIN s1.conns THEN {s1} ELSE DoOpen(s1, x.c)
            [] x.op = "setdata" -> DoData(s1, x.c, Len(x.b))
            [] x.op = "handle"  -> Pass(s1, 0)
            [] x.op = "relisten" -> DoListen(s1, x.c, x.k, x.g)

Arrive(s, limit) ==
  IF s.net = <<>> THEN {s}
  ELSE IF Head(s.net).at > Max(limit, s.now) THEN {s}
  ELSE LET d == Head(s.net)
           s1 == [s EXCEPT !.net = Tail(@), !.now = Max(@, d.at)]
           to == {c \in Live(s) : d.kind # "junk" /\ IoParse(d.b).ok /\ T2O(c) = IoParse(d.b).id}
       IN IF to = {} THEN Arrive(s1, limit)
          ELSE LET c == CHOOSE x \in to : TRUE
                   r == RecvData(s.conns[c], IoParse(d.b).data)
               IN IF ~r.ok THEN Arrive(s1, limit)
                  ELSE UNION {Arrive(s2, limit) : s2 \in
                         Fire(Ev([s1 EXCEPT !.conns[c] = Received(@, s1.now)], [k |-> "recv", c |-> c, t |-> s1.now, b |-> r.b]), c, "recv")}

TickOne(s, c) ==
  LET x == s.conns[c] IN
  IF ~x.live THEN {s}
  ELSE IF Expired(x, s.now)
  THEN IF x.closing THEN {[s EXCEPT !.conns[c] = Closed(@)]}
       ELSE {IF s2.conns[c].live THEN [s2 EXCEPT !.conns[c] = Closed(@)] ELSE s2 :
               s2 \in Fire(Ev([s EXCEPT !.conns[c].closing = TRUE], [k |-> "timeout", c |-> c, t |-> s.now]), c, "close")}
  ELSE IF Due(x, s.now)
  THEN {LET s3 == [s2 EXCEPT !.conns[c] = Numbered(@)] IN
        IF s3.conns[c].live /\ Sendable(s3.conns[c]) THEN Ev(s3, [k |-> "packet", c |-> c, t |-> s3.now, n |-> s3.conns[c].seq]) ELSE s3
        : s2 \in Fire(Ev([s EXCEPT !.conns[c] = Began(@, s.now)], [k |-> "send", c |-> c, t |-> s.now]), c, "send")}
  ELSE {[s EXCEPT !.conns[c] = Waited(@, s.now)]}

Tick(s, todo) ==
  IF todo = {} THEN {s}
  ELSE UNION {UNION {Tick(s2, todo \ {c}) : s2 \in TickOne(s, c)} : c \in todo}

Pass(s, to) ==
  LET end == s.now + 10 * to IN
  {Ev(s3, [k |-> "pass", t |-> s3.now]) :
     s3 \in UNION {LET s2 == [s1 EXCEPT !.now = Max(@, end)] IN Tick(s2, Live(s2)) : s1 \in Arrive(s, end)}}

(* ------------------------------------------------------- the history's judge *)
\* g: [c -> [opened, recv, prod, n]] of the open connections; the events of one step after it
Api(c)   == Cfg(c).o2t
Limit(c) == 4 * Cfg(c).t2o
Off(g, c) == [x \in DOMAIN g \ {c} |-> g[x]]
JudgeEv(g, e) ==
  CASE e.k = "open" -> [ok |-> e.c \notin DOMAIN g /\ \A d \in DOMAIN g : T2O(d) # T2O(e.c),
                        g |-> (e.c :> [opened |-> e.t, recv |-> e.t, prod |-> e.t, n |-> 0]) @@ g]
    \* (also of a connection that its close listener is told about)
    [] e.k = "close" -> [ok |-> TRUE, g |-> Off(g, e.c)]
    \* P08: only an open connection hears of data
    [] e.k = "recv" -> [ok |-> e.c \in DOMAIN g, g |-> IF e.c \in DOMAIN g THEN [g EXCEPT ![e.c].recv = e.t] ELSE g]
    \* P10: closed by timeout only after more silence than the multiple of the interval
    [] e.k = "timeout" -> [ok |-> e.c \in DOMAIN g /\ e.t - g[e.c].recv > Limit(e.c), g |-> Off(g, e.c)]
    \* P11: production no sooner than the interval
    [] e.k = "send" -> [ok |-> e.c \in DOMAIN g /\ e.t - g[e.c].prod >= Api(e.c),
                        g |-> IF e.c \in DOMAIN g THEN [g EXCEPT ![e.c].prod = e.t] ELSE g]
    \* ... in order
    [] e.k = "packet" -> [ok |-> e.c \in DOMAIN g /\ e.n > g[e.c].n,
                          g |-> IF e.c \in DOMAIN g THEN [g EXCEPT ![e.c].n = e.n] ELSE g]
    \* and after a pass nothing is overdue
    [] e.k = "pass" -> [ok |-> \A c \in DOMAIN g : g[c].opened < e.t =>
                                 /\ e.t - g[c].recv <= Limit(c)
                                 /\ Api(c) > 0 => e.t - g[c].prod < Api(c), g |-> g]
RECURSIVE Judge(_, _)
Judge(g, es) ==
  IF es = <<>> THEN [ok |-> TRUE, g |-> g]
  ELSE LET j == JudgeEv(g, Head(es)) IN IF ~j.ok THEN [ok |-> FALSE, e |-> Head(es)] ELSE Judge(j.g, Tail(es))
\* P08: all data for connections that stay open is delivered, in the order of arrival
Wanted(s, ds) == SelectSeq(ds, LAMBDA d : Valid(d) /\ \E c \in Live(s) : T2O(c) = T2O(d.c))
Delivered(s, s2, ds) ==
  (\A i \in 1..Len(s2.log) : s2.log[i].k \notin {"open", "close", "timeout"}) =>
     LET r == SelectSeq(s2.log, LAMBDA e : e.k = "recv")
         w == Wanted(s, ds)
     IN Len(r) = Len(w) /\ \A i \in 1..Len(w) : T2O(r[i].c) = T2O(w[i].c)

(* ------------------------------------------------------------------- steps *)
Begin == <<SessOp(0, Handle)>> \o SetToSeq({OpenOp(c) : c \in First})
         \o SetToSeq({DataOp(c, 2) : c \in First})
Blank == [conns |-> [c \in {} |-> 0], net |-> <<>>, now |-> 0, log |-> <<>>, on |-> NoProg]
RECURSIVE OpenAll(_, _)
OpenAll(s, cs) == IF cs = {} THEN s ELSE LET c == CHOOSE x \in cs : TRUE
                                             s1 == CHOOSE x \in DoOpen(s, c) : TRUE
                                         IN OpenAll(CHOOSE x \in DoData(s1, c, 2) : TRUE, cs \ {c})
Init == /\ st = [OpenAll(Blank, First) EXCEPT !.log = <<>>]
        /\ gh = [c \in First |-> [opened |-> 0, recv |-> 0, prod |-> 0, n |-> 0]]
        /\ ops = Begin /\ n = 0 /\ last = "none" /\ TLCSet(1, 0)

After(add, nexts, ds, what, fam) ==
  /\ n < Steps
  /\ \E s2 \in nexts :
       LET j == Judge(gh, s2.log) IN
       /\ Assert(j.ok, <<"the history is wrong", s2.log, gh>>)
       /\ Assert(Delivered(st, s2, ds), <<"not all delivered", s2.log, ds>>)
       /\ st' = [s2 EXCEPT !.log = <<>>]
       /\ gh' = j.g
  /\ ops' = ops \o add
  /\ n' = n + 1
  /\ last' = what
  /\ Show => /\ TLCSet(1, TLCGet(1) + 1)
             /\ TLCGet(1) % Every = Nth % Every => PrintT(Script(fam, ops'))

Kinds == {"ok", "size", "short", "nobody", "junk"}
Ats(to) == IF to = 0 THEN {0} ELSE {0, 15}
Arrivals(to) ==
  LET one == {<<Dg(c, k, at)>> : c \in First, k \in Kinds, at \in Ats(to)} IN
  {<<>>} \cup (IF Dgs >= 1 THEN one ELSE {})
         \cup (IF Dgs >= 2 THEN {a \o b : a \in {x \in one : x[1].at = 0}, b \in {x \in one : x[1].kind = "ok"}} ELSE {})
Shown(ds) == [i \in 1..Len(ds) |-> [at |-> ds[i].at, b |-> ds[i].b]]
Adv(u) == IF u = 0 THEN <<>> ELSE <<[op |-> "adv", u |-> u]>>
FamOf(k) == IF st.on.k # "none" /\ "reentry" \in Fams THEN "reentry"
            ELSE IF k \in Fams THEN k ELSE CHOOSE f \in Fams : TRUE

Handling ==
  \E u \in Advs, to \in Waits : \E ds \in Arrivals(to) :
    LET s == [st EXCEPT !.now = @ + u]
        at == s.now
        s1 == [s EXCEPT !.net = [i \in 1..Len(ds) |-> [ds[i] EXCEPT !.at = @ + at]]]
    IN After(Adv(u) \o <<[op |-> "handle", to |-> to, dg |-> Shown(ds)]>>, Pass(s1, to), ds, "handle",
             FamOf(IF ds = <<>> THEN "watchdog" ELSE IF ds[1].kind = "junk" THEN "garbage" ELSE "route"))
Closing == \E c \in DOMAIN st.conns : After(<<CloseOp(c), [op |-> "hasopen"]>>, DoClose(st, c), <<>>, "close", FamOf("close"))
\* (what a listener is to open is for it alone)
Reserved == UNION {LET x == ops[i].do[1][1] IN IF x.op = "open" THEN {x.c} ELSE {} : i \in {j \in 1..Len(ops) : ops[j].op = "on"}}
Opening == \E c \in Conns \ (DOMAIN st.conns \cup Reserved) : After(<<OpenOp(c)>>, DoOpen(st, c), <<>>, "open", FamOf("close"))
Setting == last # "data" /\ \E c \in Live(st), k \in {1, 2} :
             Len(st.conns[c].data) # k /\ After(<<DataOp(c, k)>>, DoData(st, c, k), <<>>, "data", FamOf("fixsize"))
Does == (IF "close" \in Progs THEN {CloseOp(c) : c \in First} ELSE {})
        \cup (IF "handle" \in Progs THEN {[op |-> "handle", to |-> 0]} ELSE {})
        \cup (IF "open" \in Progs THEN {OpenOp(c) : c \in Conns \ DOMAIN st.conns} ELSE {})
        \cup (IF "listen" \in Progs THEN {ListenOp(c, k, 3) : c \in First, k \in {"recv", "send", "close"}} ELSE {})
        \cup (IF "data" \in Progs THEN {DataOp(c, 2) : c \in First} ELSE {})
Listening == st.on.k = "none" /\ Progs # {} /\ last # "on" /\ \E c \in Live(st), k \in {"recv", "send", "close"}, x \in Does :
   /\ \A i \in 1..Len(ops) : ops[i].op # "on"
   /\ After(<<[op |-> "on", c |-> c, k |-> k, do |-> <<<<x>>>>]>>, {[st EXCEPT !.on = [k |-> k, c |-> c, x |-> x]]}, <<>>, "on", "reentry")

\* another listener, or none
Relistening == "listen" \in Progs /\ last # "listen" /\ \E c \in Live(st), k \in {"recv", "send", "close"}, g \in {0, 2} :
   /\ st.conns[c].listen[k] # g
   /\ After(<<ListenOp(c, k, g)>>, DoListen(st, c, k, g), <<>>, "listen", FamOf("reentry"))

Next == Handling \/ Closing \/ Opening \/ Setting \/ Listening \/ Relistening
Spec == Init /\ [][Next]_vars

\* what matters of a state
Age(t, cap) == Min(st.now - t, cap)
Rel(c) == LET x == st.conns[c] IN
  IF ~x.live THEN <<"closed">>
  ELSE <<Min(x.timer + (st.now - x.lastTick), Api(c)), Age(x.lastRecv, Limit(c) + 1), Len(x.data), Min(x.seq, 2), x.listen,
         IF c \in DOMAIN gh THEN <<Age(gh[c].recv, Limit(c) + 1), Age(gh[c].prod, Api(c))>> ELSE <<>>>>
View == <<[c \in DOMAIN st.conns |-> Rel(c)], st.on, n, \E i \in 1..Len(ops) : ops[i].op = "on", last \in {"on", "data"}, last = "listen">>
=============================================================================
