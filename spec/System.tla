-------------------------------- MODULE System -------------------------------
(* The whole library as a deterministic monitor over the events observable at *)
(* its boundary: the calls of the user and what they return, the listeners    *)
(* called, the bytes sent and received, time. Step(s, e) is the state after   *)
(* event e in state s, or the set of the properties that e breaks.            *)
(*                                                                            *)
(* The environment (peer, network, user) is unconstrained: everything in      *)
(* `call`, `rx` and the datagrams handed over with a call is input.           *)
EXTENDS Objects, IoConn, Discovery, Codec, Plain

SysOk(s)       == [st |-> s, bad |-> {}]
SysBad(s, ids) == [st |-> s, bad |-> ids]
Put(f, k, v)   == (k :> v) @@ f
EmptyFn        == [x \in {} |-> 0]

InitState(script) ==
  [stack |-> <<>>, sess |-> EmptyFn, conns |-> EmptyFn, files |-> EmptyFn, params |-> EmptyFn, socks |-> EmptyFn,
   mgr |-> [on |-> FALSE, eight |-> FALSE, opens |-> 0], net |-> <<>>, now |-> 0, cost |-> Fld(script, "cost", 0),
   usedSer |-> {}, usedO2T |-> {}, usedT2O |-> {}, lax |-> FALSE, ended |-> FALSE,
   lvl |-> IF Fld(script, "log", "off") = "trace" THEN 5 ELSE IF Fld(script, "log", "off") = "default" THEN 3 ELSE 0,
   app |-> 0,
   faultG |-> EmptyFn]   \* fault managers: which listener they have

Top(s)        == Last(s.stack)
PopF(s)       == [s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
SetTop(s, f)  == [s EXCEPT !.stack[Len(s.stack)] = f]
PushF(s, f)   == [s EXCEPT !.stack = Append(@, f)]
Depth(s)      == Len(s.stack)
LiveConns(s)  == {c \in DOMAIN s.conns : s.conns[c].live}
Visible(s)    == {c \in DOMAIN s.conns : s.conns[c].live \/ s.conns[c].held}

PlainOps == {"snew", "sto", "ssend", "srecv", "sdel"}

(* ------------------------------------------------------------- attribution *)
OpProps(op) ==
  CASE op \in {"sess", "unsess", "end"} -> {"P01"}
    [] op \in {"mr", "raw"} -> {"P04", "P05"}
    [] op \in {"open", "burn"} -> {"P07"}
    [] op = "close" -> {"P13"}
    [] op \in {"file", "fsync"} -> {"P15"}
    [] op \in {"begin", "xfer"} -> {"P14"}
    [] op \in {"param", "update", "pget", "plocal"} -> {"P16"}
    [] op \in {"peng", "scale"} -> {"P18"}
    [] op \in {"ident", "ilocal"} -> {"P17"}
    [] op \in {"dpi", "dpinew", "dpilisten", "dpicmd", "dpiobj", "dpicode"} -> {"P20"}
    [] op = "disc" -> {"P19"}
    [] op = "buf" -> {"P21"}
    [] op \in {"epath", "epathx", "cpf", "cpfx", "factory", "enc", "encx", "mrx", "fox", "ncp", "ncpseq", "eq", "fresh"} -> {"P22"}
    [] op \in {"appender", "loglevel", "log", "console"} -> {"P23"}
    [] op \in PlainOps \cup {"ep"} -> {"P25"}
    [] op = "pump" -> {"P11"}
    [] op = "handle" -> {"P08", "P10", "P11", "P12", "P13"}
    [] OTHER -> {"P13"}

\* a wrong reaction to the last outcome
ReactProps(f) ==
  IF f.hist = <<>> THEN OpProps(f.op)
  ELSE LET o == Last(f.hist) IN
    OpProps(f.op) \cup
    (CASE o.cls = "norecv" -> {"P02"}
       [] o.cls \in {"status", "handle"} -> {"P03"}
       [] o.cls = "malformed" -> {"P05"}
       [] o.cls \in {"valid", "odd"} -> IF f.parts > 1 THEN {"P02", "P05"} ELSE {"P05"}
       [] OTHER -> {})

(* ------------------------------------------------------------------ datagrams *)
RECURSIVE InsertDg(_, _)
InsertDg(net, d) ==
  IF net = <<>> \/ Last(net).at <= d.at THEN Append(net, d)
  ELSE Append(InsertDg(SubSeq(net, 1, Len(net) - 1), d), Last(net))
RECURSIVE AddDgs(_, _, _)
AddDgs(net, ds, t) ==
  IF ds = <<>> THEN net
  ELSE AddDgs(InsertDg(net, [at |-> t + Head(ds).at, port |-> Fld(Head(ds), "port", 2222), b |-> Head(ds).b,
                             ip |-> Fld(Head(ds), "ip", <<10, 0, 0, 1>>), from |-> Fld(Head(ds), "from", 2222),
                             err |-> Fld(Head(ds), "err", "")]),
              Tail(ds), t)

(* ---------------------------------------------------------------- sessions *)
\* [h, idx, ip, host, port, to, q (bytes not yet read), state, tmo]
\*  state: "up", "dead" (the peer is gone), "doubt" (a request has failed half way)
NewSess(a, idx) ==
  [h |-> Zero4, idx |-> idx, ip |-> a.ip, host |-> a.host, port |-> a.port, to |-> 10 * Fld(a, "to", 1000),
   q |-> <<>>, state |-> "up", odd |-> FALSE]

\* The outcome of a request: svc -1 is a raw packet with command cmd, -2 the registration
Outcome(ss, req, t) ==
  IF ~t.ok THEN [cls |-> "norecv", why |-> t.why]
  ELSE LET p == t.d IN
    IF EncStatus(p) # Zero4 THEN [cls |-> "status"]
    ELSE IF ss.h # Zero4 /\ EncHandle(p) # ss.h THEN [cls |-> "handle"]
    ELSE IF req.svc = -2 THEN [cls |-> IF EncCmd(p) = CmdRegister /\ EncLen(p) = 4 /\ EncHandle(p) # Zero4
                                       THEN "valid" ELSE "odd", p |-> p]
    ELSE IF req.svc = -1 THEN [cls |-> IF EncCmd(p) = req.cmd THEN "valid" ELSE "odd", p |-> p]
    ELSE RRParse(p, req.svc)

ProgSess(a, hist) ==
  IF hist = <<>> THEN Req(-2, RegisterReq)
  ELSE IF ~Good(hist[1]) THEN Throw(None, None)
  ELSE Done([h |-> EncHandle(hist[1].p), port |-> a.port, host |-> a.host], None)

(* ---------------------------------------------------------------- Forward Open *)
IsLarge(a) == Fld(a, "large", 0) # 0
OpenSvc(a) == IF IsLarge(a) THEN 91 ELSE 84
CloseSvc   == 78
OpenDataAt(s)  == 43 + Len(EPath(<<6, 1>>, s.mgr.eight))
O2TGen(a)  == NcpType(Fld(a.p, "o2tP", Zero4), IsLarge(a)) = 1
T2OGen(a)  == NcpType(Fld(a.p, "t2oP", Zero4), IsLarge(a)) = 2
\* the request as sent: identifiers and the serial number are the library's choice
OpenIds(s, a, b) ==
  LET i == OpenDataAt(s) IN
  [serial |-> SubSeq(b, i + 10, i + 11),
   o2t |-> IF O2TGen(a) THEN SubSeq(b, i + 2, i + 5) ELSE Fld(a.p, "o2tId", Zero4),
   t2o |-> IF T2OGen(a) THEN SubSeq(b, i + 6, i + 9) ELSE Fld(a.p, "t2oId", Zero4)]
OpenReqBytes(s, h, a, ids) ==
  RRReq(h, OpenSvc(a), <<6, 1>>, s.mgr.eight, FwdOpenData(a.p, IsLarge(a), ids.o2t, ids.t2o, ids.serial), <<>>)
OpenReqOk(s, h, a, b) ==
  /\ Len(b) >= OpenDataAt(s) + 11
  /\ LET ids == OpenIds(s, a, b) IN
       /\ b = OpenReqBytes(s, h, a, ids)
       /\ ids.serial \notin s.usedSer
       /\ O2TGen(a) => ids.o2t \notin s.usedO2T
       /\ T2OGen(a) => ids.t2o \notin s.usedT2O

\* the connection the answer creates
OpenResult(s, a, o, listen) ==
  IF ~Good(o) THEN [k |-> "throw"]
  ELSE IF o.st # 0 THEN [k |-> "refused"]
  ELSE LET r == FwdOpenParse(o.data) IN
    IF ~r.ok THEN [k |-> "throw"]
    ELSE IF \E c \in LiveConns(s) : s.conns[c].t2o = r.t2o THEN [k |-> "dup"]
    ELSE [k |-> "open", c |-> NewConn(a.p, IsLarge(a), r, s.now, Dest(o.items, s.sess[a.s].ip), listen)]

\* the listeners that the user gives it: all of them, none, or those of these kinds
FirstListeners(a) ==
  IF Fld(a, "nolisten", 0) = 1 THEN Listens(0)
  ELSE IF "lis" \in DOMAIN a THEN [k \in {"recv", "send", "close"} |-> IF k \in SetOf(a.lis) THEN 1 ELSE 0]
  ELSE Listens(1)

ProgOpen(s, a, hist) ==
  IF hist = <<>> THEN Req(OpenSvc(a), <<>>)
  ELSE LET r == OpenResult(s, a, hist[1], FirstListeners(a)) IN
    CASE r.k = "throw" -> Throw(None, None)
      [] r.k = "open"  -> Done([got |-> TRUE], None)
      [] OTHER         -> Done([got |-> FALSE], None)

\* n opens that the peer refuses
ProgBurn(s, a, hist) ==
  IF Len(hist) = a.n THEN Done(None, None)
  ELSE IF hist # <<>> /\ ~(Good(Last(hist)) /\ Last(hist).st # 0) THEN Throw(None, None)
  ELSE Req(OpenSvc(a), <<>>)

ProgClose(s, a, h, hist) ==
  IF hist = <<>>
  THEN IF a.c \notin LiveConns(s) THEN Done(None, None)
       ELSE [Req(CloseSvc, RRReq(h, CloseSvc, <<6, 1>>, s.mgr.eight, FwdCloseData(s.conns[a.c]), <<>>))
             EXCEPT !.skip = s.conns[a.c].closing]
  ELSE IF ~Good(hist[1]) THEN Throw(None, None) ELSE Done(None, None)

(* -------------------------------------------------------------- all programs *)
ObjOf(s, op, a) ==
  CASE op \in {"begin", "xfer", "fsync"} -> s.files[a.f]
    [] op = "update" -> s.params[a.p]
    [] OTHER -> None

\* programs that need no exchange
ProgLocal(s, op, a) ==
  CASE op \in CodecOps -> LET x == Expect(op, a) IN [k |-> "done", ok |-> x.ok, r |-> x.r, x |-> None]
    [] op = "dpicode" -> IF a.code \in DOMAIN DpiCodes
                         THEN Done(DpiCodes[a.code], None) ELSE Throw(None, None)
    [] op = "pget"    -> Done(ParamR(a, s.params[a.p]), None)
    \* (a connection may be there or not while its close listener runs)
    [] op = "hasopen" -> IF LiveConns(s) # {} /\ \A c \in LiveConns(s) : s.conns[c].closing THEN Done(None, None)
                         ELSE Done([v |-> LiveConns(s) # {}], None)
    [] op \in {"setdata", "hold", "relisten"} ->
         \* a connection closed during this handling pass may still be there
         IF a.c \notin Visible(s) /\ Depth(s) > 0 THEN Done(None, None) ELSE Done([got |-> a.c \in Visible(s)], None)
    [] op = "console" -> Done(None, None)
    [] OTHER -> Done(None, None)

\* is a message of this level written (to a listening appender)?
Logged(s, a) == s.lvl # 0 /\ a.lvl <= s.lvl /\ s.app # 0

ProgOf(s, f) ==
  LET a == f.a
      h == IF "s" \in DOMAIN a /\ a.s \in DOMAIN s.sess THEN s.sess[a.s].h ELSE Zero4
  IN CASE f.op = "sess"  -> IF f.conn = "no" THEN [k |-> "conn"]
                            ELSE IF f.conn = "fail" THEN Throw(None, None) ELSE ProgSess(a, f.hist)
       [] f.op = "unsess" -> IF f.hist = <<>> /\ a.s \in DOMAIN s.sess
                             THEN Req(-3, UnregisterReq(h)) ELSE Done(None, None)
       [] f.op = "open"  -> ProgOpen(s, a, f.hist)
       [] f.op = "burn"  -> ProgBurn(s, a, f.hist)
       [] f.op = "close" -> ProgClose(s, a, h, f.hist)
       [] f.op \in RequestOps -> Prog(f.op, a, ObjOf(s, f.op, a), h, f.hist)
       [] f.op \in {"handle", "disc", "end", "pump", "srecv"} -> [k |-> f.op]
       [] f.op = "snew" -> IF a.kind = "tcp" /\ f.conn = "no" THEN [k |-> "conn"]
                           ELSE IF f.conn = "fail" THEN Throw(None, None) ELSE Done(SnewR(a), None)
       [] f.op = "sto"  -> Done([rto |-> a.to], None)
       [] f.op = "ssend" -> IF f.hist = <<>> /\ a.k \in DOMAIN s.socks /\ (s.socks[a.k].kind # "tcp" \/ a.b # <<>>)
                            THEN Req(-4, a.b) ELSE Done(None, None)
       [] f.op = "log" -> Done(None, None)
       [] OTHER -> ProgLocal(s, f.op, a)

(* ------------------------------------------------------------------- calls *)
StepCall(s, e) ==
  LET a == e.a
      s0 == [s EXCEPT !.net = IF "dg" \in DOMAIN a THEN AddDgs(@, a.dg, e.t) ELSE @]
      f0 == [k |-> "op", op |-> e.op, a |-> a, t0 |-> e.t, hist |-> <<>>, phase |-> "run", i |-> 0, parts |-> 0,
             odd |-> FALSE, tx |-> <<>>, txt |-> e.t, wait |-> 0, conn |-> "no", stale |-> FALSE,
             \* handling: the tick phase, the connections to look at, what must be sent next
             tick |-> FALSE, tickT |-> 0, todo |-> {}, await |-> <<>>, awaitc |-> 0, fresh |-> {},
             failed |-> FALSE, req |-> None, p |-> None, left |-> {}]
      f1 == IF e.op = "end" THEN [f0 EXCEPT !.left = DOMAIN s.sess] ELSE f0
      s1 == IF e.op \in {"open", "close", "handle", "hasopen", "burn", "pump"} /\ ~s0.mgr.on
            THEN [s0 EXCEPT !.mgr = [on |-> TRUE, eight |-> FALSE, opens |-> 0]] ELSE s0
      s2 == IF e.op \in {"open", "burn"} THEN [s1 EXCEPT !.mgr.opens = @ + Fld(a, "n", 1)] ELSE s1
      okPlace == Depth(s) = 0 \/ Top(s).k = "cb" \/ (Top(s).k = "op" /\ Top(s).op = "log")
  IN IF ~okPlace THEN SysBad(s, {"P13"})
     ELSE SysOk(PushF(s2, [f1 EXCEPT !.p = ProgOf(s2, f1)]))

StepConn(s, e) ==
  LET f == Top(s) IN
  IF Depth(s) = 0 \/ f.k # "op" THEN SysBad(s, {"P01"})
  ELSE IF f.op \notin {"sess", "snew"} \/ f.conn # "no" \/ e.ip # f.a.ip \/ e.port # f.a.port
  THEN SysBad(s, {"P01"} \cup OpProps(f.op))
  ELSE IF f.op = "snew" /\ f.a.kind # "tcp" THEN SysBad(s, {"P25"})
  ELSE LET c == Fld(f.a, "conn", "ok")
           f1 == [f EXCEPT !.conn = IF c \in {"ok", "inprog"} THEN "yes" ELSE "fail"]
           s1 == IF f.op = "snew" THEN [s EXCEPT !.socks = Put(@, f.a.k, [NewPlain(f.a) EXCEPT !.idx = e.s])]
                 ELSE [s EXCEPT !.sess = Put(@, f.a.s, NewSess(f.a, e.s))]
       IN SysOk(SetTop(IF f1.conn = "yes" THEN s1 ELSE s, [f1 EXCEPT !.p = ProgOf(s1, f1)]))

(* ---------------------------------------------------------------- requests *)
\* the fault planned for the i-th request of the operation
Fault(f) == IF "tx" \in DOMAIN f.a /\ f.i + 1 <= Len(f.a.tx) THEN f.a.tx[f.i + 1] ELSE [k |-> "ok"]
FaultCuts(f, n) == LET x == Fault(f) IN Fld(x, "k", "ok") = "fail" /\ Fld(x, "after", 0) < n

TxProps(f, b, h) ==
  OpProps(f.op) \cup {"P04"} \cup (IF Len(b) >= 8 /\ SubSeq(b, 5, 8) # h THEN {"P01"} ELSE {})

StepTxEnd(s, e, f) ==
  LET ks == {k \in f.left : s.sess[k].idx = e.s /\ e.b = UnregisterReq(s.sess[k].h)} IN
  IF ks = {} THEN SysBad(s, {"P01"})
  ELSE SysOk(SetTop(s, [f EXCEPT !.left = @ \ ks, !.phase = "rx"]))

StepTx(s, e) ==
  IF Depth(s) = 0 \/ Top(s).k # "op" THEN SysBad(s, {"P04", "P13"})
  ELSE LET f == Top(s) IN
    IF f.phase # "run" THEN SysBad(s, {"P04"} \cup OpProps(f.op))
    ELSE IF f.op = "end" THEN StepTxEnd(s, e, f)
    ELSE IF f.p.k # "req" THEN SysBad(s, OpProps(f.op) \cup ReactProps(f) \cup {"P04"})
    ELSE IF f.op = "ssend" THEN
      LET x == s.socks[f.a.k]
          cut == FaultCuts(f, Len(f.a.b))
          want == IF cut THEN SubSeq(f.a.b, 1, Fault(f).after) ELSE f.a.b
      IN IF x.kind = "tcp" /\ e.s = x.idx /\ e.b = want THEN SysOk(SetTop(s, [f EXCEPT !.phase = IF cut THEN "cut" ELSE "rx"]))
         ELSE SysBad(s, {"P25"})
    ELSE LET ss == s.sess[f.a.s]
             isOpen == f.op \in {"open", "burn"}
             \* (for the length; what the library chooses is checked below)
             full == IF isOpen
                     THEN OpenReqBytes(s, ss.h, f.a, [serial |-> <<0, 0>>, o2t |-> Zero4, t2o |-> Zero4]) ELSE f.p.b
             cut == FaultCuts(f, Len(full))
             want == IF cut THEN SubSeq(full, 1, Fault(f).after) ELSE full
             known == IF isOpen THEN Min(Len(want), OpenDataAt(s) + 1) ELSE Len(want)
             right == /\ e.s = ss.idx
                      /\ IF isOpen /\ ~cut THEN OpenReqOk(s, ss.h, f.a, e.b)
                         ELSE Len(e.b) = Len(want) /\ SubSeq(e.b, 1, known) = SubSeq(want, 1, known)
             s1 == IF isOpen /\ ~cut /\ right
                   THEN LET ids == OpenIds(s, f.a, e.b) IN
                        [s EXCEPT !.usedSer = @ \cup {ids.serial},
                                  !.usedO2T = IF O2TGen(f.a) THEN @ \cup {ids.o2t} ELSE @,
                                  !.usedT2O = IF T2OGen(f.a) THEN @ \cup {ids.t2o} ELSE @]
                   ELSE s
         IN IF ~right THEN SysBad(s, TxProps(f, e.b, ss.h))
            ELSE SysOk(SetTop(s1, [f EXCEPT !.phase = IF cut THEN "cut" ELSE "rx", !.txt = e.t, !.req = f.p]))

\* the time the peer takes for the elements of its answer
RECURSIVE Waits(_)
Waits(q) == IF q = <<>> THEN 0 ELSE Fld(Head(q), "w", 0) + Waits(Tail(q))

\* the peer's answer to the request
StepRx(s, e) ==
  IF Depth(s) = 0 \/ Top(s).k # "op" THEN SysBad(s, {"P04"})
  ELSE LET f == Top(s) IN
    IF f.op = "end" THEN SysOk(SetTop(s, [f EXCEPT !.phase = "run"]))
    ELSE IF f.op = "unsess" THEN SysOk(SetTop(s, [f EXCEPT !.phase = "run", !.hist = <<[cls |-> "sent"]>>,
                                                          !.p = Done(None, None)]))
    ELSE IF f.op = "ssend"
    THEN SysOk(SetTop([s EXCEPT !.socks[f.a.k].q = @ \o e.q],
                      [f EXCEPT !.phase = "run", !.hist = <<[cls |-> "sent"]>>,
                                !.p = IF f.phase = "cut" THEN Throw(None, None) ELSE Done(None, None)]))
    ELSE LET ss == s.sess[f.a.s]
             cut == f.phase = "cut"
             \* bytes left over from an earlier request that timed out are not the answer to this one
             stale == ss.q # <<>> /\ Head(ss.q).k = "d"
             t == IF stale THEN TakePacket(e.q) ELSE TakePacket(ss.q \o e.q)
             o == IF cut THEN [cls |-> "sendfail"] ELSE Outcome(ss, f.req, t)
             ss1 == IF cut THEN [ss EXCEPT !.state = "doubt"]
                    ELSE [ss EXCEPT !.q = t.q,
                                    !.state = IF t.ok THEN @ ELSE IF t.why = "end" THEN "dead" ELSE "doubt"]
             s1 == [s EXCEPT !.sess = Put(@, f.a.s, ss1)]
             f1 == [f EXCEPT !.phase = "run", !.i = @ + 1, !.hist = Append(@, o), !.parts = Len(e.q), !.wait = Waits(e.q),
                             !.odd = @ \/ o.cls = "odd", !.stale = stale]
         IN SysOk(SetTop(s1, [f1 EXCEPT !.p = ProgOf(s1, f1)]))

(* ----------------------------------------------------------- handling: receive *)
\* Takes the datagrams that arrived up to `limit` (or, if auto, all that a handling
\* pass has to take) until one has to be delivered to a listener.
RECURSIVE Drain(_, _, _)
Drain(s, limit, auto) ==
  IF s.net = <<>> THEN [s |-> s, found |-> FALSE]
  ELSE LET d == Head(s.net)
           lim == IF auto THEN Max(limit, s.now) ELSE limit
       IN IF d.at > lim THEN [s |-> s, found |-> FALSE]
          ELSE LET t == Max(s.now, d.at) + s.cost
                   s1 == [s EXCEPT !.net = Tail(@), !.now = t]
                   io == IoParse(d.b)
                   to == IF io.ok /\ d.port = 2222 THEN {c \in LiveConns(s) : s.conns[c].t2o = io.id} ELSE {}
               IN IF d.port # 2222 THEN Drain([s EXCEPT !.net = Tail(@)], limit, auto)
                  ELSE IF to = {} THEN Drain(s1, limit, auto)
                  ELSE LET c == CHOOSE x \in to : TRUE
                           r == RecvData(s.conns[c], io.data)
                       IN IF ~r.ok THEN Drain(s1, limit, auto)
                          ELSE LET s2 == [s1 EXCEPT !.conns[c] = Received(@, t)] IN
                            IF s.conns[c].listen.recv # 0 THEN [s |-> s2, found |-> TRUE, c |-> c, r |-> r, at |-> d.at, usual |-> io.usual]
                            ELSE Drain(s2, limit, auto)

StepRecv(s, e) ==
  LET f == Top(s) IN
  IF f.k # "op" THEN SysBad(s, {"P08"})
  ELSE IF f.op # "handle" \/ f.tick THEN SysBad(s, {"P08", "P12"})
  ELSE LET d == Drain(s, e.t, FALSE) IN
    IF ~d.found THEN SysBad(s, {"P08", "P12", "P09"})
    ELSE IF d.at > Max(f.t0 + 10 * f.a.to, s.now) THEN SysBad(s, {"P11"})
    ELSE IF d.c # e.c \/ d.r.hdr # e.hdr \/ d.r.seq # e.seq \/ d.r.b # e.b THEN SysBad(s, {"P08", "P09"})
    ELSE IF d.s.now # e.t THEN SysBad(s, {"P08"})
    ELSE IF Fld(e, "g", 1) # s.conns[e.c].listen.recv THEN SysBad(s, {"P08", "P13"})
    ELSE SysOk(PushF(d.s, [k |-> "cb", cb |-> "recv", c |-> e.c]))

(* -------------------------------------------------------------- handling: tick *)
\* Entering the tick phase at time t: all datagrams of the waiting phase must be done
EnterTick(s, t) ==
  LET f == Top(s) IN
  IF f.tick THEN [ok |-> TRUE, s |-> s, ids |-> {}]
  ELSE LET d == Drain(s, f.t0 + 10 * f.a.to - 11, TRUE)
           deadline == f.t0 + 10 * f.a.to
       IN IF d.found THEN [ok |-> FALSE, s |-> s, ids |-> {"P08"} \cup (IF ~d.usual THEN {"P12"} ELSE {})]
          ELSE IF t < d.s.now \/ t < deadline - 10 \/ t > Max(deadline, d.s.now)
          THEN [ok |-> FALSE, s |-> s, ids |-> {"P10", "P11"}]
          ELSE [ok |-> TRUE, ids |-> {},
                s |-> SetTop([d.s EXCEPT !.now = t], [f EXCEPT !.tick = TRUE, !.tickT = t, !.todo = LiveConns(d.s)])]

IsHandle(s) == Depth(s) > 0 /\ Top(s).k = "op" /\ Top(s).op = "handle"

StepSend(s, e) ==
  IF ~IsHandle(s) THEN SysBad(s, {"P11"})
  ELSE LET t == EnterTick(s, e.t) IN
    IF ~t.ok THEN SysBad(s, t.ids)
    ELSE LET s1 == t.s
             f == Top(s1)
         IN IF f.await # <<>> /\ s1.conns[f.awaitc].live THEN SysBad(s, {"P11", "P09"})
            ELSE IF e.c \notin f.todo \/ e.c \notin LiveConns(s1) THEN SysBad(s, {"P11", "P13"})
            ELSE LET c == s1.conns[e.c] IN
              IF Expired(c, e.t) THEN SysBad(s, {"P10"})
              ELSE IF Fld(e, "g", 1) # c.listen.send THEN SysBad(s, {"P11", "P13"})
              ELSE IF ~Due(c, e.t) THEN SysBad(s, {"P11"})
              ELSE IF e.b # c.data THEN SysBad(s, {"P11"})
              ELSE SysOk(PushF(SetTop([s1 EXCEPT !.conns[e.c] = Began(c, e.t)],
                                      [f EXCEPT !.todo = @ \ {e.c}, !.await = <<>>]),
                               [k |-> "cb", cb |-> "send", c |-> e.c]))

StepClose(s, e) ==
  IF ~IsHandle(s) THEN SysBad(s, {"P10", "P13"})
  ELSE LET t == EnterTick(s, e.t) IN
    IF ~t.ok THEN SysBad(s, t.ids)
    ELSE LET s1 == t.s
             f == Top(s1)
         IN IF f.await # <<>> /\ s1.conns[f.awaitc].live THEN SysBad(s, {"P11", "P09"})
            ELSE IF e.c \notin f.todo \/ e.c \notin LiveConns(s1) THEN SysBad(s, {"P10", "P13"})
            ELSE IF ~Expired(s1.conns[e.c], e.t) \/ s1.conns[e.c].closing THEN SysBad(s, {"P10"})
            ELSE IF Fld(e, "g", 1) # s1.conns[e.c].listen.close THEN SysBad(s, {"P10", "P13"})
            ELSE SysOk(PushF(SetTop([s1 EXCEPT !.conns[e.c].closing = TRUE],
                                    [f EXCEPT !.todo = @ \ {e.c}, !.await = <<>>]),
                             [k |-> "cb", cb |-> "close", c |-> e.c]))

\* the network refuses the datagram
SendFails(e) == Fld(e, "fail", 0) = 1

StepUdp(s, e) ==
  IF Depth(s) = 0 \/ Top(s).k # "op" THEN SysBad(s, {"P11"})
  ELSE IF Top(s).op = "disc"
  THEN LET f == Top(s) IN
       IF f.phase = "run" /\ e.ip = f.a.ip /\ e.port = f.a.port /\ e.b = ListIdentityReq
       THEN SysOk(SetTop(s, [f EXCEPT !.phase = "sent", !.failed = SendFails(e)]))
       ELSE SysBad(s, {"P19"})
  ELSE IF Top(s).op = "ssend"
  THEN LET f == Top(s)
           x == s.socks[f.a.k]
       IN IF f.p.k = "req" /\ x.kind # "tcp" /\ e.ip = x.ip /\ e.port = x.port /\ e.b = f.a.b
          THEN SysOk(SetTop([s EXCEPT !.socks = [k \in DOMAIN @ |-> [@[k] EXCEPT !.last = k = f.a.k \/ (@ /\ SendFails(e))]]],
                            [f EXCEPT !.hist = <<[cls |-> "sent"]>>,
                                      !.p = IF SendFails(e) THEN Throw(None, None) ELSE Done(None, None)]))
          ELSE SysBad(s, {"P25"})
  ELSE IF Top(s).op # "handle" THEN SysBad(s, {"P11"} \cup OpProps(Top(s).op))
  ELSE LET t == EnterTick(s, e.t) IN
    IF ~t.ok THEN SysBad(s, t.ids)
    ELSE LET s1 == t.s
             f == Top(s1)
             to(c) == ~c.dest.known \/ (e.ip = c.dest.ip /\ e.port = c.dest.port)
         IN IF f.await # <<>>
            THEN IF e.b = f.await /\ to(s1.conns[f.awaitc])
                 THEN SysOk(SetTop(s1, [f EXCEPT !.await = <<>>, !.failed = @ \/ SendFails(e)]))
                 ELSE SysBad(s, IF e.b = f.await THEN {"P07", "P11"} ELSE {"P11"})
            ELSE \* a connection without a send listener produces silently
              LET can == {k \in f.todo : /\ s1.conns[k].live /\ s1.conns[k].listen.send = 0
                                         /\ ~Expired(s1.conns[k], e.t) /\ Due(s1.conns[k], e.t)
                                         /\ Sendable(s1.conns[k])
                                         /\ e.b = Datagram(Produced(s1.conns[k], e.t)) /\ to(s1.conns[k])}
              IN IF can = {} THEN SysBad(s, {"P11", "P09"})
                 ELSE LET k == CHOOSE x \in can : TRUE IN
                      SysOk(SetTop([s1 EXCEPT !.conns[k] = Produced(@, e.t)],
                                   [f EXCEPT !.todo = @ \ {k}, !.failed = @ \/ SendFails(e)]))

\* the end of a handling pass: the connections not heard of must have had nothing to do
RetHandle(s, e) ==
  LET t == EnterTick(s, e.t) IN
  IF ~t.ok THEN SysBad(s, t.ids)
  ELSE LET s1 == t.s
           f == Top(s1)
           rest == {k \in f.todo : s1.conns[k].live}
           \* A listener of another connection may have taken time, and it is up to the code which
           \* connection it looks at first: what was overdue or due when the pass began is certain.
           over == {k \in rest : Expired(s1.conns[k], f.tickT)}
           gone == over \cup {k \in rest : /\ Expired(s1.conns[k], e.t)
                                          /\ (s1.conns[k].listen.close = 0 \/ s1.conns[k].closing)
                                          /\ ("live" \in DOMAIN e => k \notin SetOf(e.live))}
           mute == {k \in rest \ gone : Due(s1.conns[k], f.tickT) /\ (s1.conns[k].listen.send # 0 \/ Sendable(s1.conns[k]))}
       IN IF f.await # <<>> /\ s1.conns[f.awaitc].live THEN SysBad(s, {"P11", "P09"})
          ELSE IF \E k \in over : s1.conns[k].listen.close # 0 /\ ~s1.conns[k].closing THEN SysBad(s, {"P10"})
          ELSE IF mute # {} THEN SysBad(s, {"P11"})
          ELSE SysOk(PopF([s1 EXCEPT !.conns =
                 [k \in DOMAIN @ |-> IF k \in gone THEN Closed(@[k])
                                     ELSE IF k \in rest
                                     THEN IF Due(@[k], f.tickT) THEN Produced(@[k], e.t) ELSE Waited(@[k], e.t)
                                     ELSE @[k]]]))

StepCbEnd(s, e) ==
  IF Depth(s) = 0 \/ Top(s).k # "cb" THEN SysBad(s, {"P13"})
  ELSE IF Top(s).cb # e.k \/ Top(s).c # e.c THEN SysBad(s, {"P13"})
  ELSE IF e.k \in {"file", "fault"}
  THEN IF e.b # Top(s).b THEN SysBad(s, {"P14"})
       ELSE LET f == Last(PopF(s).stack) IN
            \* (the session may have been used meanwhile)
            SysOk(SetTop(PopF(s), [f EXCEPT !.p = IF @.k = "req" THEN ProgOf(PopF(s), f) ELSE @]))
  ELSE LET c == e.c
           s1 == PopF(s)
           f == Top(s1)
       IN CASE e.k = "recv" -> SysOk(s1)
            [] e.k = "send" ->
                 LET s2 == [s1 EXCEPT !.conns[c] = Numbered([@ EXCEPT !.data = e.b])]
                     c2 == s2.conns[c]
                 IN SysOk(SetTop(s2, [f EXCEPT !.await = IF Sendable(c2) THEN Datagram(c2) ELSE <<>>, !.awaitc = c]))
            [] e.k = "close" -> SysOk([s1 EXCEPT !.conns[c] = IF @.live THEN Closed(@) ELSE @])

(* --------------------------------------------------------- listeners of objects *)
StepCb(s, e) ==
  IF Depth(s) = 0 THEN SysBad(s, {"P13"})
  ELSE CASE e.k = "recv"  -> StepRecv(s, e)
         [] e.k = "send"  -> StepSend(s, e)
         [] e.k = "close" -> StepClose(s, e)
         [] OTHER ->
              LET f == Top(s) IN
              IF f.k # "op" THEN SysBad(s, {"P23", "P14", "P20"})
              ELSE IF e.k = "log"
              THEN IF /\ f.op = "log" /\ f.hist = <<>> /\ Logged(s, f.a)
                      /\ e.ap = s.app /\ e.lvl = f.a.lvl /\ e.b = f.a.text
                   THEN SysOk(SetTop(s, [f EXCEPT !.hist = Append(@, [cls |-> "cb"]), !.p = Done(None, None)]))
                   ELSE SysBad(s, {"P23"})
              ELSE IF f.p.k # "cb" THEN SysBad(s, ReactProps(f))
              ELSE IF e.k = "fault" /\ Fld(e, "g", 1) # (IF "m" \in DOMAIN f.a THEN s.faultG[f.a.m] ELSE 1) THEN SysBad(s, {"P20", "P13"})
              ELSE IF \E x \in DOMAIN f.p.c : x \notin DOMAIN e \/ e[x] # f.p.c[x] THEN SysBad(s, ReactProps(f))
              ELSE LET f1 == [f EXCEPT !.hist = Append(@, [cls |-> "cb"])]
                       p == ProgOf(s, f1)
                   IN IF e.k = "file"
                      \* the upload is over before the listener is called, which may use the file at once
                      THEN SysOk(PushF(SetTop([s EXCEPT !.files = Put(@, f.a.f, p.x)],
                                              [f1 EXCEPT !.p = [p EXCEPT !.r = [x \in DOMAIN @ \ {"state"} |-> @[x]]]]),
                                       [k |-> "cb", cb |-> "file", c |-> f.a.f, b |-> e.b]))
                      ELSE SysOk(PushF(SetTop(s, [f1 EXCEPT !.p = p]), [k |-> "cb", cb |-> e.k, c |-> Fld(f.a, "m", 0), b |-> <<>>]))

(* ------------------------------------------------------------------- returns *)
SameR(want, r) == \A x \in DOMAIN want : x = "z" \/ (x \in DOMAIN r /\ r[x] = want[x])

\* the state after a completed operation
Effect(s, f, e) ==
  LET a == f.a
      x == f.p.x
  IN CASE f.op = "sess" -> IF e.ok THEN [s EXCEPT !.sess = Put(@, a.s, [@[a.s] EXCEPT !.h = e.r.h, !.odd = f.odd])]
                           ELSE [s EXCEPT !.sess = [k \in DOMAIN @ \ {a.s} |-> @[k]]]
       [] f.op = "unsess" -> [s EXCEPT !.sess = [k \in DOMAIN @ \ {a.s} |-> @[k]]]
       [] f.op = "open" ->
            IF ~e.ok THEN s
            ELSE LET r == OpenResult(s, a, f.hist[1], FirstListeners(a)) IN
                 IF r.k # "open" THEN s
                 ELSE [s EXCEPT !.conns = Put(@, a.c, r.c),
                                \* (with no connection nobody listens: what has come until now is lost)
                                !.net = IF LiveConns(s) = {} THEN SelectSeq(@, LAMBDA d : d.port # 2222 \/ d.at > e.t) ELSE @]
       [] f.op = "close" -> IF e.ok /\ a.c \in LiveConns(s) THEN [s EXCEPT !.conns[a.c] = Closed(@)] ELSE s
       [] f.op \in {"file", "begin", "xfer", "fsync"} ->
            IF (f.op = "file" /\ ~e.ok) \/ (f.hist # <<>> /\ Last(f.hist).cls = "cb") THEN s ELSE [s EXCEPT !.files = Put(@, a.f, x)]
       [] f.op \in {"param", "update"} ->
            IF f.op = "param" /\ ~e.ok THEN s ELSE [s EXCEPT !.params = Put(@, a.p, x)]
       [] f.op = "setdata" -> IF a.c \in Visible(s) THEN [s EXCEPT !.conns[a.c].data = a.b] ELSE s
       [] f.op = "dpinew" -> [s EXCEPT !.faultG = Put(@, a.m, 1)]
       [] f.op = "dpilisten" -> [s EXCEPT !.faultG = Put(@, a.m, a.g)]
       [] f.op = "relisten" ->
            IF a.c \notin Visible(s) THEN s
            ELSE LET s1 == [s EXCEPT !.conns[a.c].listen = [@ EXCEPT ![a.k] = a.g]]
                     \* with a pass under way it is up to the code whether the connection had its turn
                     busy == \E i \in 1..Len(s.stack) : /\ s.stack[i].k = "op" /\ s.stack[i].op = "handle"
                                                        /\ s.stack[i].tick /\ a.c \in s.stack[i].todo
                 IN [s1 EXCEPT !.lax = @ \/ s.conns[a.c].closing
                                         \/ (busy /\ (s.conns[a.c].listen[a.k] = 0) # (a.g = 0))]
       [] f.op = "hold" -> IF e.r.got THEN [s EXCEPT !.conns[a.c].held = TRUE] ELSE s
       [] f.op = "drop" -> IF a.c \in DOMAIN s.conns THEN [s EXCEPT !.conns[a.c].held = FALSE] ELSE s
       [] f.op \in {"mgr", "delmgr"} ->
            [s EXCEPT !.conns = [k \in DOMAIN @ |-> Closed(@[k])], !.net = SelectSeq(@, LAMBDA d : d.at > e.t),
                      !.mgr = [on |-> f.op = "mgr", eight |-> Fld(a, "r", "std") = "8", opens |-> 0]]
       [] f.op = "sto" -> [s EXCEPT !.socks[a.k].to = 10 * a.to]
       [] f.op = "sdel" -> [s EXCEPT !.socks = [k \in DOMAIN @ \ {a.k} |-> @[k]],
                                     !.net = IF a.k \in DOMAIN s.socks /\ s.socks[a.k].last
                                             THEN SelectSeq(@, LAMBDA d : d.port # 0) ELSE @]
       [] f.op = "loglevel" -> [s EXCEPT !.lvl = a.lvl]
       [] f.op = "appender" -> [s EXCEPT !.app = a.ap]
       [] OTHER -> s

\* what may be asked of the manager at any time
LiveOk(s, e) ==
  IF "live" \notin DOMAIN e THEN TRUE
  ELSE SetOf(e.live) = Visible(s) /\ e.has = (LiveConns(s) # {})

\* checks of results that are not a plain comparison
RetSpecial(s, f, e) ==
  CASE f.op = "buf" -> e.ok /\ BufOk(f.a, e.r)
    [] f.op = "peng" ->
         LET x == s.params[f.a.p]
             v(b) == ValOf(b, f.a.ty)
         IN /\ e.ok /\ NearEng(x, v(x.val), e.r.eval)
            /\ x.full => /\ NearEng(x, v(x.min), e.r.emin) /\ NearEng(x, v(x.max), e.r.emax)
                         /\ NearEng(x, v(x.def), e.r.edef)
    [] f.op = "scale" ->
         LET a == f.a
             x == [scal |-> a.scal # 0, mul |-> a.mul, div |-> a.div, base |-> a.base, off |-> a.off, prec |-> a.prec]
             v(b) == Frac(ZBytes(b), <<1>>)                     \* of 8 bytes
             k == IF a.ty = "f32" THEN 6 ELSE 9
             set(b, r, re) == NearBack(x, v(b), r, k, 1) /\ (r.m # <<>> => NearEng(x, ObsFrac(r), re))
         IN /\ e.ok /\ NearEng(x, v(a.v), e.r.eng) /\ NearBack(x, v(a.v), e.r.back, 9, 0)
            /\ (Invertible(x) /\ a.noset = 0) => /\ set(a.v, e.r.min, e.r.emin)
                                /\ set(a.v2, e.r.max, e.r.emax)
                                /\ set(a.v3, e.r.def, e.r.edef)
    [] f.op = "console" -> e.ok /\ e.r.b = f.a.want
    [] f.op = "adv" -> e.ok /\ e.t = f.t0 + f.a.u
    [] OTHER -> TRUE

Std2(e) == e.ex \in {"none", "system", "runtime"}

\* when signals arrive during an operation
Signals(f) == LET o == Fld(f.a, "sig", <<>>) IN [i \in DOMAIN o |-> f.t0 + o[i]]
RetDisc(s, e, f) ==
  LET net0 == SelectSeq(s.net, LAMBDA d : d.port = 0)
      c1 == Collect(net0, <<>>, f.t0, 10 * f.a.to, s.cost)
      c2 == Collect(net0, Signals(f), f.t0, 10 * f.a.to, s.cost)
      by(c) == Explains(c.devs, e.r.devs) /\ e.t \in (c.t - 10)..(c.t + 10)
  IN IF Fld(f.a, "sockfail", 0) = 1 \/ Fld(f.a, "optfail", 0) = 1 \/ f.failed
     THEN IF e.ok THEN SysBad(s, {"P19"}) ELSE SysOk(PopF(s))
     ELSE IF ~e.ok \/ f.phase # "sent" THEN SysBad(s, {"P19"})
     ELSE IF ~by(c1) /\ ~by(c2) THEN SysBad(s, {"P19"})
     ELSE SysOk(PopF([s EXCEPT !.net = SelectSeq(@, LAMBDA d : d.port # 0)]))

\* a request that was not sent: allowed if it could not be, or need not be
Unsent(s, f, e) ==
  \/ ~e.ok /\ f.a.s \in DOMAIN s.sess /\ s.sess[f.a.s].state # "up"
  \/ ~e.ok /\ Fld(Fault(f), "k", "ok") = "fail" /\ Fld(Fault(f), "after", 0) = 0
  \/ ~e.ok /\ f.p.opt
  \/ e.ok /\ f.p.skip
  \/ f.op = "unsess" /\ (s.sess[f.a.s].state # "up" \/ Fld(Fault(f), "k", "ok") = "fail")

\* when a TCP connection is established, or has failed to be
ConnTime(f) == LET c == Fld(f.a, "conn", "ok") IN
  CASE f.conn = "fail" /\ c = "timeout" -> 10 * Fld(f.a, IF f.op = "sess" THEN "to" ELSE "cto", 1000)
    [] c \in {"inprog", "inprog-refused"} -> Fld(f.a, "cw", 0)
    [] OTHER -> 0
AtTime(t, want) == t \in (want - 10)..(want + 10)

\* silence is noticed after the receive timeout; nothing else takes time but waiting for the peer
TimeOk(s, f, e) ==
  IF f.op = "sess" /\ f.conn = "fail" THEN AtTime(e.t, f.t0 + ConnTime(f))
  ELSE IF f.hist = <<>> \/ "s" \notin DOMAIN f.a THEN TRUE
  ELSE IF f.a.s \notin DOMAIN s.sess THEN TRUE
  ELSE LET o == Last(f.hist) to == s.sess[f.a.s].to IN
    IF o.cls = "norecv" /\ o.why = "tmo" THEN e.t \in (f.txt + to - 10)..(f.txt + f.wait + 2 * to + 10)
    ELSE e.t <= f.txt + f.wait + to

PlannedFailure(a) == Fld(a, "sockfail", 0) # 0 \/ Fld(a, "bindfail", 0) # 0 \/ Fld(a, "optfail", 0) # 0 \/ Fld(a, "callfail", 0) # 0

\* the sockets used directly
MustFail(a) == \/ Fld(a, "sockfail", 0) = 1
               \/ a.kind = "bound" /\ (Fld(a, "bindfail", 0) = 1 \/ Fld(a, "optfail", 0) = 1)
RetSnew(s, e, f) ==
  LET a == f.a
      gone == [s EXCEPT !.socks = [k \in DOMAIN @ \ {a.k} |-> @[k]]]
      x == IF a.kind = "tcp" THEN s.socks[a.k] ELSE NewPlain(a)
  IN IF MustFail(a) THEN IF e.ok \/ f.conn # "no" THEN SysBad(s, {"P25"}) ELSE SysOk(PopF(gone))
     ELSE IF ~e.ok /\ PlannedFailure(a) THEN SysOk(PopF(gone))
     ELSE IF f.p.k # "done" \/ ~AtTime(e.t, f.t0 + ConnTime(f)) THEN SysBad(s, {"P25"})
     ELSE IF e.ok # f.p.ok \/ (e.ok /\ ~SameR(f.p.r, e.r)) THEN SysBad(s, {"P25"})
     ELSE SysOk(PopF(IF e.ok THEN [s EXCEPT !.socks = Put(@, a.k, x)] ELSE gone))

FromView(d) == [host |-> Dec(d.ip[1]) \o "." \o Dec(d.ip[2]) \o "." \o Dec(d.ip[3]) \o "." \o Dec(d.ip[4]),
                port |-> d.port, ip |-> d.ip, aport |-> d.port, inet |-> TRUE]
RetSrecv(s, e, f) ==
  LET x == s.socks[f.a.k]
      w1 == IF x.kind = "tcp" THEN RecvTcp(x, f.a.n, s.net, f.t0) ELSE RecvUdp(x, f.a.n, s.net, <<>>, f.t0, s.cost)
      w2 == IF x.kind = "tcp" THEN w1 ELSE RecvUdp(x, f.a.n, s.net, Signals(f), f.t0, s.cost)
      by(w) == /\ e.ok = w.ok /\ AtTime(e.t, w.at)
               /\ e.ok => e.r.b = w.b /\ (Fld(f.a, "from", 0) = 0 \/ e.r.from = FromView(w))
      w == IF by(w1) /\ (e.t = w1.at \/ ~by(w2) \/ e.t # w2.at) THEN w1 ELSE w2
  IN IF ~by(w) THEN SysBad(s, {"P25"})
     ELSE SysOk(PopF([s EXCEPT !.net = w.net, !.socks[f.a.k] = w.x]))

RetSsend(s, e, f) ==
  LET x == s.socks[f.a.k]
      cannot == Fld(Fault(f), "k", "ok") = "fail" /\ (x.kind # "tcp" \/ (Fld(Fault(f), "after", 0) = 0 /\ f.a.b # <<>>))
  IN IF ~x.up THEN SysOk(PopF(s))
     ELSE IF f.p.k = "req" THEN IF ~e.ok /\ cannot THEN SysOk(PopF(s)) ELSE SysBad(s, {"P25"})
     ELSE IF f.p.k # "done" \/ e.ok # f.p.ok \/ ~AtTime(e.t, f.t0) THEN SysBad(s, {"P25"})
     ELSE SysOk(PopF(s))

\* many handling passes, in each of which the one connection produces
RECURSIVE SumN(_)
SumN(runs) == IF runs = <<>> THEN 0 ELSE Head(runs).n + SumN(Tail(runs))
RetPump(s, e, f) ==
  LET k == CHOOSE x \in LiveConns(s) : TRUE
      c == s.conns[k]
      a == f.a
      n == IF Sendable(c) THEN a.n ELSE 0
      plain == Cardinality(LiveConns(s)) = 1 /\ c.listen.send = 0 /\ c.o2tApi <= 10 * a.to - 10 /\ ~Expired(c, f.t0 + 10 * a.n * a.to)
  IN IF ~plain THEN SysOk([s EXCEPT !.lax = TRUE])
     ELSE IF ~e.ok THEN SysBad(s, {"P12", "P06"})
     ELSE IF SumN(e.r.runs) # n \/ e.r.sent # n \/ ~PumpOk(c, e.r.runs, a.to) THEN SysBad(s, {"P11", "P09"})
     ELSE IF e.t \notin (f.t0 + a.n * (10 * a.to - 10))..(f.t0 + a.n * 10 * a.to) THEN SysBad(s, {"P11"})
     ELSE SysOk(PopF([s EXCEPT !.conns[k] = [Ahead(c, a.n) EXCEPT !.timer = 0, !.lastTick = e.t]]))

StepRetOp(s, e, f) ==
  LET fin(s1) == LET s2 == PopF(s1) IN
        IF s2.lax \/ LiveOk(s2, e) THEN SysOk(s2) ELSE SysBad(s, {"P13", "P07", "P10"})
      \* the call failed
      unsure == LET s2 == PopF(IF f.op \in {"sess", "unsess"} THEN Effect(s, [f EXCEPT !.p = Throw(None, None)], e) ELSE s)
                \* (no connection comes into being or is lost by a failing call)
                IN IF s2.lax \/ LiveOk(s2, e) THEN SysOk(s2) ELSE SysBad(s, {"P13", "P07", "P10"})
  IN
  IF ~Std2(e) THEN SysBad(s, {"P06"} \cup OpProps(f.op))
  ELSE IF f.op = "handle" THEN
    \* (a datagram that could not be sent is lost like any other)
    IF ~e.ok THEN SysBad(s, {"P12", "P06"} \cup (IF f.failed THEN {"P11"} ELSE {}))
    ELSE LET r == RetHandle(s, e) IN
      IF r.bad # {} THEN r ELSE IF LiveOk(r.st, e) THEN r ELSE SysBad(s, {"P10", "P13"})
  ELSE IF f.op = "disc" THEN RetDisc(s, e, f)
  ELSE IF f.op = "snew" THEN RetSnew(s, e, f)
  ELSE IF f.op = "srecv" THEN RetSrecv(s, e, f)
  ELSE IF f.op = "ssend" THEN RetSsend(s, e, f)
  ELSE IF f.op = "pump" THEN RetPump(s, e, f)
  ELSE IF f.op = "end" THEN
    IF \E k \in f.left : s.sess[k].state = "up" THEN SysBad(s, {"P01"})
    ELSE IF ~e.ok \/ e.has \/ e.live # <<>> THEN SysBad(s, {"P13"})
    ELSE IF e.tcp # 0 \/ e.udp # 0 THEN SysBad(s, {"P24"})
    ELSE SysOk([PopF(s) EXCEPT !.ended = TRUE])
  ELSE IF ~e.ok /\ (f.odd \/ PlannedFailure(f.a)) THEN unsure
  ELSE IF f.p.k = "conn" THEN SysBad(s, {"P01"})
  ELSE IF f.p.k = "req" THEN
    IF Unsent(s, f, e) THEN IF f.op \in {"sess", "unsess"} THEN fin(Effect(s, [f EXCEPT !.p = Throw(None, None)], e)) ELSE unsure
    ELSE SysBad(s, ReactProps(f) \cup OpProps(f.op) \cup {"P04"})
  \* a message is written when it ends, if its level is enabled then
  ELSE IF f.op = "log" /\ f.hist = <<>> /\ Logged(s, f.a) THEN SysBad(s, {"P23"})
  ELSE IF f.p.k # "done" THEN SysBad(s, ReactProps(f))
  ELSE IF f.op = "cpfx" /\ Len(f.a.b) = 1 THEN fin(s)                    \* half a count: either reaction is fine
  ELSE IF f.op = "buf" \/ f.op = "peng" \/ f.op = "scale" \/ f.op = "console" \/ f.op = "adv" THEN
    IF RetSpecial(s, f, e) THEN fin(s) ELSE SysBad(s, OpProps(f.op))
  ELSE IF f.stale /\ e.ok /\ ~(f.p.ok /\ SameR(f.p.r, e.r)) THEN SysBad(s, {"P03stale"})
  ELSE IF e.ok # f.p.ok
  THEN IF ~e.ok /\ "s" \in DOMAIN f.a /\ f.a.s \in DOMAIN s.sess /\ s.sess[f.a.s].state = "doubt" THEN unsure
       ELSE SysBad(s, ReactProps(f))
  ELSE IF ~SameR(f.p.r, e.r) THEN SysBad(s, ReactProps(f))
  ELSE IF ~TimeOk(s, f, e) THEN SysBad(s, IF f.hist = <<>> THEN {"P01"} ELSE {"P02"})
  ELSE fin(Effect(s, f, e))

\* between calls there is one TCP socket for each session (a session that has lost its connection may
\* have closed it already), a UDP socket for each connection, and no more that receive than were opened
SocketsOk(s, e) ==
  IF "tcp" \notin DOMAIN e \/ s.ended THEN TRUE
  ELSE LET tcp == Cardinality({k \in DOMAIN s.socks : s.socks[k].kind = "tcp"})
           udp == Cardinality(DOMAIN s.socks) - tcp
       IN /\ e.tcp - tcp \in Cardinality({k \in DOMAIN s.sess : s.sess[k].state = "up"})..Cardinality(DOMAIN s.sess)
          /\ e.udp - udp \in 0..(s.mgr.opens + Cardinality(Visible(s)))

StepRet(s, e) ==
  IF Depth(s) = 0 THEN SysBad(s, {"P13"})
  ELSE IF Top(s).k # "op" THEN SysBad(s, {"P13"})
  ELSE IF Top(s).op # e.op THEN SysBad(s, {"P13"})
  ELSE LET r == StepRetOp(s, e, Top(s)) IN
       IF r.bad # {} \/ r.st.lax \/ SocketsOk(r.st, e) THEN r ELSE SysBad(s, {"P24"} \cup OpProps(e.op))

(* ------------------------------------------------------------------ one event *)
RECURSIVE OpenOps(_)
OpenOps(k) == IF k = <<>> THEN {} ELSE (IF Head(k).k = "op" THEN OpProps(Head(k).op) ELSE {}) \cup OpenOps(Tail(k))

Step(s, e) ==
  CASE e.e = "crash" -> SysBad(s, {"P06"} \cup OpenOps(s.stack))
    [] e.e = "fin" -> IF e.fds # 0 \/ e.bad # 0 THEN SysBad(s, {"P24"})
                        ELSE IF ~s.lax /\ (~s.ended \/ Depth(s) # 0) THEN SysBad(s, {"P13"}) ELSE SysOk(s)
    [] OTHER ->
       IF s.lax THEN SysOk(s)
       ELSE LET r == CASE e.e = "call" -> StepCall(s, e)
                       [] e.e = "conn" -> StepConn(s, e)
                       [] e.e = "tx" -> StepTx(s, e)
                       [] e.e = "rx" -> StepRx(s, e)
                       [] e.e = "udp" -> StepUdp(s, e)
                       [] e.e = "cb" -> StepCb(s, e)
                       [] e.e = "cbend" -> StepCbEnd(s, e)
                       [] e.e = "ret" -> StepRet(s, e)
            IN IF r.bad # {}
               THEN IF Depth(s) > 0 /\ Top(s).k = "op" /\ Top(s).stale /\ r.bad # {"P03stale"}
                    THEN SysOk([s EXCEPT !.lax = TRUE])   \* after bytes that belong to no request all but a wrong answer is fine
                    ELSE r
               ELSE IF "t" \in DOMAIN e /\ r.st.now < e.t THEN [r EXCEPT !.st.now = e.t] ELSE r

(* ---------------------------------------------- invariants of the monitor state *)
UniqueT2O(s)   == \A c, d \in LiveConns(s) : s.conns[c].t2o = s.conns[d].t2o => c = d
HandleGiven(s) == \A k \in DOMAIN s.sess : s.sess[k].h = Zero4 => Depth(s) > 0 \/ s.sess[k].odd
SeqWithCnt(s)  == \A c \in DOMAIN s.conns : s.conns[c].seqd => s.conns[c].cnt = s.conns[c].seq % 65536
TimersSane(s)  == \A c \in DOMAIN s.conns : s.conns[c].lastTick <= s.now /\ s.conns[c].lastRecv <= s.now
=============================================================================
