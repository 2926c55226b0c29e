------------------------------ MODULE ProgModel ------------------------------
(* Every client side program of Objects.tla and System.tla against every      *)
(* sequence of answers from a finite alphabet: proper answers in several      *)
(* forms, every truncation of their data, refusals, answers to somebody else, *)
(* malformed packets, silence, a closed connection, a failing send. TLC       *)
(* checks the design (the invariants at the end) and prints each complete     *)
(* behaviour as a script, which is then run by the real code.                 *)
EXTENDS System, Peer

CONSTANTS Cases,   \* which operations
          Devs,    \* how many answers of a behaviour may be other than plain
          Show     \* scripts wanted?

H == Handle
VARIABLES o, hist, rx, tx, nreq, dev, fin
vars == <<o, hist, rx, tx, nreq, dev, fin>>

(* ------------------------------------------------------------- the operations *)
IdentData(name) == <<75, 1, 2, 0, 40, 1, 3, 12, 96, 4, 210, 2, 150, 73, Len(name)>> \o name
ParamAllData(full, scal) ==
  <<34, 17, 4, 32, 15, 1, 2, (IF scal THEN 4 ELSE 0) + 16, 0, 195>>
  \o (IF full THEN <<2>> \o <<2, 65, 66>> \o <<1, 86>> \o <<0>> \o <<1, 0>> \o <<255, 127>> \o <<8, 0>>
                   \o (IF scal THEN <<2, 0, 4, 0, 1, 0, 255, 255, 0, 0, 0, 0, 0, 0, 0, 0, 2>> ELSE <<>>) ELSE <<>>)

OpenP == [prio |-> 10, ticks |-> 5, vendor |-> 342, oserial |-> <<9, 8, 7, 6>>, mult |-> 1, o2tRPI |-> <<16, 39, 0, 0>>,
          t2oRPI |-> <<16, 39, 0, 0>>, o2tP |-> <<4, 66, 0, 0>>, t2oP |-> <<4, 66, 0, 0>>, trig |-> 1, o2tRT |-> 1,
          t2oRT |-> 0, path |-> <<32, 4, 36, 1>>, o2tId |-> <<1, 1, 1, 1>>, t2oId |-> <<2, 2, 2, 2>>]
OpenAns(t2o) == <<17, 18, 19, 20>> \o t2o \o <<1, 0, 86, 1, 9, 8, 7, 6>> \o <<16, 39, 0, 0, 32, 78, 0, 0>> \o <<1, 0, 5, 6>>

NoX == [z |-> 0]
Case(nm) ==
  CASE nm = "mr" -> [op |-> "mr", fam |-> "resp", x |-> NoX, pre |-> <<>>, post |-> <<>>,
          a |-> [s |-> 0, r |-> "std", svc |-> 14, path |-> <<4, 100, 3>>, data |-> <<>>, items |-> <<>>, form |-> 3]]
    [] nm = "mr16" -> [op |-> "mr", fam |-> "resp", x |-> NoX, pre |-> <<>>, post |-> <<>>,
          a |-> [s |-> 0, r |-> "8", svc |-> 16, path |-> <<4, 100, 3>>, data |-> <<1, 2, 3>>, items |-> <<>>, form |-> 4]]
    [] nm = "ident" -> [op |-> "ident", fam |-> "ident", x |-> NoX, pre |-> <<>>, post |-> <<>>, a |-> [s |-> 0, inst |-> 1]]
    [] nm = "stub" -> [op |-> "param", fam |-> "param", x |-> NoX, pre |-> <<>>,
          post |-> <<[op |-> "pget", p |-> 0, ty |-> "u16"]>>, a |-> [s |-> 0, p |-> 0, inst |-> 300, full |-> 0, ty |-> "u16"]]
    [] nm \in {"full", "scal"} -> [op |-> "param", fam |-> "param", x |-> NoX, pre |-> <<>>,
          post |-> <<[op |-> "pget", p |-> 0, ty |-> "u16"]>>, a |-> [s |-> 0, p |-> 0, inst |-> 3, full |-> 1, ty |-> "u16"]]
    [] nm = "update" -> [op |-> "update", fam |-> "param", a |-> [s |-> 0, p |-> 0, ty |-> "u16"],
          x |-> ParamAll([inst |-> 3, full |-> 1], 2, ParamAllData(TRUE, FALSE)).x,
          pre |-> <<[op |-> "param", s |-> 0, p |-> 0, inst |-> 3, full |-> 1, ty |-> "u16",
                     rx |-> <<One(RRReply(H, 14, 0, <<>>, <<2>>, <<>>)),
                              One(RRReply(H, 1, 0, <<>>, ParamAllData(TRUE, FALSE), <<>>))>>]>>,
          post |-> <<[op |-> "pget", p |-> 0, ty |-> "u16"]>>]
    [] nm \in {"dpi", "dpiclear", "dpidet"} -> [op |-> "dpi", fam |-> "dpi", x |-> NoX, pre |-> <<>>, post |-> <<>>,
          a |-> [s |-> 0, clear |-> IF nm = "dpi" THEN 0 ELSE 1, details |-> IF nm = "dpidet" THEN 1 ELSE 0]]
    [] nm = "dpicmd" -> [op |-> "dpicmd", fam |-> "dpi", x |-> NoX, pre |-> <<>>, post |-> <<>>, a |-> [s |-> 0, cmd |-> 1]]
    [] nm = "dpiobj" -> [op |-> "dpiobj", fam |-> "dpi", x |-> NoX, pre |-> <<>>, post |-> <<>>, a |-> [s |-> 0, inst |-> 2]]
    [] nm = "file" -> [op |-> "file", fam |-> "filestate", x |-> NoX, pre |-> <<>>,
          post |-> <<>>, a |-> [s |-> 0, f |-> 0, inst |-> 200]]
    [] nm = "fsync" -> [op |-> "fsync", fam |-> "filestate", x |-> NewFile(200, 2), a |-> [s |-> 0, f |-> 0],
          pre |-> <<[op |-> "file", s |-> 0, f |-> 0, inst |-> 200, rx |-> <<One(RRReply(H, 14, 0, <<>>, <<2>>, <<>>))>>]>>,
          post |-> <<[op |-> "begin", s |-> 0, f |-> 0, rx |-> <<One(RRReply(H, 75, 0, <<>>, <<1, 0, 0, 0, 9>>, <<>>))>>]>>]
    [] nm = "begin" -> [op |-> "begin", fam |-> "upload", x |-> NewFile(200, 2), a |-> [s |-> 0, f |-> 0],
          pre |-> <<[op |-> "file", s |-> 0, f |-> 0, inst |-> 200, rx |-> <<One(RRReply(H, 14, 0, <<>>, <<2>>, <<>>))>>]>>,
          post |-> <<[op |-> "xfer", s |-> 0, f |-> 0, rx |-> <<One(RRReply(H, 79, 0, <<>>, <<0, 2, 5, 0, 0>>, <<>>))>>]>>]
    [] nm = "open" -> [op |-> "open", fam |-> "fo", x |-> NoX, pre |-> <<>>,
          post |-> <<[op |-> "hasopen"], [op |-> "close", s |-> 0, c |-> 0, rx |-> <<One(RRReply(H, 78, 0, <<>>, <<>>, <<>>))>>],
                     [op |-> "hasopen"]>>,
          a |-> [s |-> 0, c |-> 0, large |-> 0, p |-> OpenP]]
    [] nm = "large" -> [op |-> "open", fam |-> "fo", x |-> NoX, pre |-> <<>>,
          post |-> <<[op |-> "hasopen"]>>, a |-> [s |-> 0, c |-> 0, large |-> 1, p |-> OpenP]]
    [] nm = "sess" -> [op |-> "sess", fam |-> "sess", x |-> NoX, pre |-> <<>>, post |-> <<>>,
          a |-> [s |-> 2, host |-> "10.0.0.2", ip |-> <<10, 0, 0, 2>>, port |-> 44818, to |-> 50]]
    [] nm = "unsess" -> [op |-> "unsess", fam |-> "sess", x |-> NoX, pre |-> <<PlainOp(0, H)>>, post |-> <<>>, a |-> [s |-> 0]]
    [] nm = "close" -> [op |-> "close", fam |-> "close", x |-> NoX, a |-> [s |-> 0, c |-> 0],
          pre |-> <<[op |-> "open", s |-> 0, c |-> 0, large |-> 0, p |-> OpenP,
                     rx |-> <<One(RRReply(H, 84, 0, <<>>, OpenAns(<<33, 34, 35, 36>>), <<>>))>>]>>,
          post |-> <<[op |-> "hasopen"], [op |-> "handle", to |-> 0],
                     [op |-> "close", s |-> 0, c |-> 0, rx |-> <<One(RRReply(H, 78, 0, <<>>, <<>>, <<>>))>>], [op |-> "hasopen"]>>]

\* proper data of the answer to request n (1, 2, ...), in several forms
Proper(nm, n) ==
  CASE nm = "mr" -> {<<1, 2, 3>>, <<>>}
    [] nm = "mr16" -> {<<>>}
    [] nm = "ident" -> {IdentData(<<80, 76, 67>>), IdentData(<<>>)}
    [] nm \in {"stub", "full", "scal"} ->
         CASE n = 1 -> {<<2>>, <<1>>}
           [] n = 2 -> {ParamAllData(nm # "stub", nm = "scal")}
           [] OTHER -> {<<n, 1>>}
    [] nm = "update" -> {<<5, 6>>}
    [] nm \in {"dpi", "dpiclear"} -> {<<7, 0>>, <<0, 0>>}
    [] nm = "dpidet" -> IF n % 4 = 1 THEN {<<7, 0>>, <<0, 0>>} ELSE {<<10 * n, 1>>}
    [] nm = "dpicmd" -> {<<>>}
    [] nm = "dpiobj" -> {[i \in 1..30 |-> IF i = 29 THEN 3 ELSE (7 * i) % 256]}
    [] nm \in {"file", "fsync"} -> {<<k>> : k \in {0, 1, 2, 3, 4, 5, 6, 255}}
    [] nm = "begin" -> {<<1, 0, 0, 0, 9>>, <<0, 1, 0, 0, 0>>}
    [] nm \in {"sess", "unsess"} -> {<<1, 0, 0, 0>>}
    [] nm = "close" -> {<<1, 0, 86, 1, 9, 8, 7, 6, 0, 0>>, <<>>}
    [] nm \in {"open", "large"} -> {OpenAns(<<33, 34, 35, 36>>), OpenAns(<<0, 0, 0, 0>>)}

(* ---------------------------------------------------------------- the answers *)
\* [e: stream elements, f: how the send of the request fails]
Ans(e)      == [e |-> e, f |-> <<>>]
Flip(h, i)  == [h EXCEPT ![i] = (@ + 128) % 256]
Plain(svc, d) == Ans(One(RRReply(H, svc, 0, <<>>, d, <<>>)))
Answers(svc, d) ==
  LET ok(x) == RRReply(H, svc, 0, <<>>, x, <<>>)
      st(p, w) == SubSeq(p, 1, 8) \o w \o From(p, 13)
      cpf(c) == RRRaw(H, Zeros(6) \o c)
      good == ok(d)
      n == Len(good)
  IN {Ans(One(ok(SubSeq(d, 1, k)))) : k \in 0..Len(d)}                      \* every truncation of the data
     \cup {Ans(One(ok(d \o <<9>>)))}
     \cup {Ans(One(RRReply(H, svc, s, <<>>, x, <<>>))) : s \in {1, 6, 8, 128, 255}, x \in {d, <<>>}}
     \cup {Ans(One(RRReply(H, svc, s, <<1, 65535>>, d, <<>>))) : s \in {0, 1}}
     \cup {Ans(One(RRReply(H, svc, 0, <<>>, d, <<Item(32768, <<0, 2, 8, 174, 0, 0, 0, 0>> \o Zeros(8))>>)))}
     \cup {Ans(One(st(good, w))) : w \in {<<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 128>>, <<105, 0, 0, 0>>}}
     \cup {Ans(One(RRReply(Flip(H, i), svc, 0, <<>>, d, <<>>))) : i \in 1..4}
     \cup {Ans(One(RRReply(Zero4, svc, 0, <<>>, d, <<>>)))}
     \cup {Ans(One(RRRaw(H, Zeros(k)))) : k \in {0, 5, 6, 7}}
     \cup {Ans(One(cpf(c))) : c \in {PackCpf(<<>>), PackCpf(<<Item(0, <<>>)>>), PackCpf(<<Item(178, <<svc + 128, 0, 0, 0>>)>>)}}
     \cup {Ans(One(cpf(PackCpf(<<Item(0, <<>>), Item(178, SubSeq(<<(svc % 128) + 128, 0, 0, 0>>, 1, k))>>)))) : k \in 0..3}
     \cup {Ans(One(cpf(PackCpf(<<Item(0, <<>>), Item(178, <<(svc % 128) + 128, 0, 0, k>> \o d)>>)))) : k \in {Len(d) \div 2 + 1, 255}}
     \cup {Ans(One(cpf(LE2(2) \o PackItem(Item(0, <<>>)) \o LE2(178) \o LE2(k) \o <<(svc % 128) + 128, 0, 0, 0>> \o d)))
             : k \in {Len(d) + 5, 65535}}
     \cup {Ans(One(RRReply(H, (svc + 1) % 128, 0, <<>>, d, <<>>))),
           Ans(One(SubSeq(LE2(112), 1, 2) \o From(good, 3)))}
     \cup {Ans(Cut(good, k) \o <<Brk(b)>>) : k \in {0, 1, 23, 24, n - 1}, b \in {"eof", "rst", "tmo"}}
     \cup {[e |-> <<>>, f |-> <<[k |-> "fail", after |-> k]>>] : k \in {0, 1, 24, 40}}

\* the answers to a registration (d: its data)
RegPlain(d) == Ans(One(Encaps(CmdRegister, H, Zero4, d)))
RegAnswers(d) ==
  LET good == Encaps(CmdRegister, H, Zero4, d)
      n == Len(good)
  IN {RegPlain(d)}
     \cup {Ans(One(Encaps(CmdRegister, h, st, d))) : h \in {H, Zero4, <<0, 0, 0, 1>>, <<255, 255, 255, 255>>},
              st \in {Zero4, <<1, 0, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 128>>, <<106, 0, 0, 0>>}}
     \cup {Ans(One(Encaps(c, H, Zero4, d))) : c \in {0, 4, 99, 102, 111}}
     \cup {Ans(One(Encaps(CmdRegister, H, Zero4, x))) : x \in {<<>>, <<1>>, <<2, 0, 0, 0>>, <<1, 0, 0, 0, 0>>}}
     \cup {Ans(Cut(good, k) \o <<Brk(b)>>) : k \in 0..n - 1, b \in {"eof", "rst", "tmo"}}
     \cup {Ans(TwoAt(good, k, b)) : k \in 1..n - 1, b \in {<<>>, <<Brk("eintr")>>}}
     \cup {[e |-> <<>>, f |-> <<[k |-> "fail", after |-> k]>>] : k \in {0, 1, 23, 24, 27}}
UnregAnswers ==
  {Ans(<<>>), Ans(<<Brk("eof")>>), Ans(<<Brk("rst")>>), RegPlain(<<>>)}
  \cup {[e |-> <<>>, f |-> <<[k |-> "fail", after |-> k]>>] : k \in {0, 1, 23}}
AnswersTo(svc, d) == CASE svc = -2 -> RegAnswers(d) [] svc = -3 -> UnregAnswers [] OTHER -> Answers(svc, d)
PlainTo(svc, d)   == CASE svc = -2 -> RegPlain(d) [] svc = -3 -> Ans(<<>>) [] OTHER -> Plain(svc, d)

(* ------------------------------------------------------------------ behaviour *)
Opened == [InitState([z |-> 0]) EXCEPT !.conns = 0 :>
  NewConn(OpenP, FALSE, FwdOpenParse(OpenAns(<<33, 34, 35, 36>>)), 0, [known |-> FALSE], Listens(1))]
Prg(c, hs) ==
  CASE c.op = "sess" -> ProgSess(c.a, hs)
    [] c.op = "unsess" -> IF hs = <<>> THEN Req(-3, UnregisterReq(H)) ELSE Done(None, None)
    [] c.op = "close" -> ProgClose(Opened, c.a, H, hs)
    [] c.op = "open" -> ProgOpen([InitState([z |-> 0]) EXCEPT !.sess = 0 :> [ip |-> <<10, 0, 0, 1>>]], c.a, hs)
    [] OTHER -> Prog(c.op, c.a, c.x, H, hs)
P == IF o.nm \in Cases THEN Prg(o, hist) ELSE [k |-> "none"]

Out(p, a) ==
  IF a.f # <<>> THEN [cls |-> "sendfail"]
  ELSE IF o.op = "unsess" THEN [cls |-> "sent"]
  ELSE Outcome([h |-> IF o.op = "sess" THEN Zero4 ELSE H], p, TakePacket([i \in 1..Len(a.e) |-> IF "d" \in DOMAIN a.e[i] THEN [k |-> "d", d |-> a.e[i].d]
                                                                ELSE [k |-> a.e[i].k]]))

Init == \E nm \in Cases :
          /\ o = Case(nm) @@ [nm |-> nm]
          /\ hist = <<>> /\ rx = <<>> /\ tx = <<>> /\ nreq = 0 /\ dev = 0 /\ fin = FALSE

Answer == LET p == P IN
  /\ ~fin /\ p.k = "req"
  /\ \E d \in Proper(o.nm, nreq + 1) :
     \E a \in IF dev < Devs THEN AnswersTo(p.svc, d) ELSE {PlainTo(p.svc, d)} :
       LET out == Out(p, a) IN
       /\ hist' = Append(hist, out)
       /\ rx' = Append(rx, a.e)
       /\ dev' = IF a = PlainTo(p.svc, d) THEN dev ELSE dev + 1
       /\ tx' = Append(tx, IF a.f = <<>> THEN [k |-> "ok"] ELSE Head(a.f))
  /\ nreq' = nreq + 1
  /\ UNCHANGED <<o, fin>>
Report == LET p == P IN
  /\ ~fin /\ p.k = "cb"
  /\ hist' = Append(hist, [cls |-> "cb", c |-> p.c])
  /\ UNCHANGED <<o, rx, tx, nreq, dev, fin>>

InSync == \A i \in 1..Len(hist) : hist[i].cls \notin {"norecv", "sendfail"}
Ops == <<SessOp(0, H)>> \o o.pre
       \o <<[op |-> o.op, rx |-> rx] @@ (IF \E i \in 1..Len(tx) : tx[i].k = "fail" THEN [tx |-> tx] ELSE [z |-> 0]) @@ o.a>>
       \o (IF InSync THEN o.post \o <<PlainOp(0, H)>> ELSE SelectSeq(o.post, LAMBDA x : "rx" \notin DOMAIN x))
       \o <<SessOp(1, <<5, 0, 0, 1>>), PlainOp(1, <<5, 0, 0, 1>>)>>
\* a request counts for the property its last answer is about
Fam == IF o.op # "mr" THEN o.fam
       ELSE CASE Last(hist).cls \in {"norecv", "sendfail"} -> "seg"
              [] Last(hist).cls \in {"status", "handle"} -> "badst"
              [] OTHER -> "resp"
Finish == LET p == P IN
  /\ ~fin /\ p.k = "done"
  /\ fin' = TRUE
  /\ (Show => PrintT(Script(Fam, Ops)))
  /\ UNCHANGED <<o, hist, rx, tx, nreq, dev>>

Next == Answer \/ Report \/ Finish
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ properties *)
Reqs == SelectSeq(hist, LAMBDA x : x.cls # "cb")
Cbs  == SelectSeq(hist, LAMBDA x : x.cls = "cb")
Failed == \E i \in 1..Len(Reqs) : ~Good(Reqs[i]) /\ o.op # "unsess"

\* a request that failed is the last one, and the caller learns of it
FailureIsReported ==
  /\ o.op # "unsess" => \A i \in 1..Len(Reqs) - 1 : Good(Reqs[i])
  /\ Failed => P.k = "done" /\ ~P.ok
\* no operation asks for more than it needs
MaxReq == [mr |-> 1, ident |-> 1, param |-> 6, update |-> 1, dpi |-> 41, dpicmd |-> 1, sess |-> 1, unsess |-> 1, close |-> 1,
           dpiobj |-> 1, file |-> 1, fsync |-> 1,
           begin |-> 1, open |-> 1]
Bounded == nreq <= MaxReq[o.op]
\* a refusal by the device is an exception, or an error for the listener, or the result itself
Refused == o.op \notin {"sess", "unsess"} /\ \E i \in 1..Len(Reqs) : Good(Reqs[i]) /\ Reqs[i].st # 0
RefusalIsReported ==
  Refused /\ P.k = "done" =>
    CASE o.op = "mr" -> P.ok /\ P.r.st = Reqs[1].st
      [] o.op = "begin" -> P.ok /\ Len(Cbs) = 1 /\ Cbs[1].c.st # 0 /\ Cbs[1].c.b = <<>>
      [] o.op = "open" -> P.ok /\ P.r.got = FALSE
      [] o.op = "close" -> P.ok
      [] OTHER -> ~P.ok
\* faults: one report per entry that was read, then the clearing, once, if asked for
Entries == {i \in 1..Len(Reqs) : (i - 1) % (IF o.a.details = 1 THEN 4 ELSE 1) = 0 /\ i < Len(Reqs) + 1}
DpiOrder ==
  o.op = "dpi" =>
    /\ \A i \in 1..Len(Cbs) : Cbs[i].c.num = i /\ Cbs[i].c.code = 7
    /\ Len(Cbs) <= 10
    /\ o.a.clear = 0 => nreq <= 10
\* an object is only there if its construction succeeded, and holds what was said
IdentFaithful ==
  o.op = "ident" /\ P.k = "done" /\ P.ok =>
    LET d == Reqs[1].data
        again == LE2(P.r.vendor) \o LE2(P.r.dtype) \o LE2(P.r.pcode) \o <<P.r.maj, P.r.min>> \o LE2(P.r.status)
                 \o P.r.serial \o <<Len(P.r.name)>> \o P.r.name
    IN again = SubSeq(d, 1, Len(again))
UpdateAtomic ==
  o.op = "update" /\ P.k = "done" => (IF P.ok THEN P.x.val = SubSeq(Reqs[1].data, 1, 2) ELSE P.x = o.x)
SyncAtomic ==
  o.op = "fsync" /\ P.k = "done" /\ ~P.ok => P.x.st = o.x.st
UploadBegun ==
  o.op = "begin" /\ P.k = "done" => (P.x.st = StUpload <=> ~Failed /\ ~Refused /\ Len(Cbs) = 0)
OneOutcome == o.op = "begin" => Len(Cbs) <= 1
=============================================================================
