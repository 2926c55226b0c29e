------------------------------ MODULE SigModel -------------------------------
(* Signals while the library waits: a call waits for datagrams, for the end of  *)
(* a handling pass or for a connection, and is interrupted up to Most times. It *)
(* may go on with the rest of its wait ("resume") or start the wait anew        *)
(* ("restart"); either way nothing may be lost, and it ends: at the latest its  *)
(* timeout after the last signal.                                               *)
EXTENDS System, Peer

CONSTANTS Kinds, Most, Times, Ats, Show, Every

VARIABLES kind, ds,       \* the call, and when its datagrams arrive (ascending)
          mode, sigs, now, until, left, got, done
vars == <<kind, ds, mode, sigs, now, until, left, got, done>>

To == 10                  \* [ms]
U == 10 * To
Restartable == {"udp", "bound", "disc"}
\* (what becomes of a connection in the last millisecond is left open: limits are counted in whole ones)
ArrivalsOf(k) == IF k = "conn" THEN {<<>>} \cup {<<a>> : a \in {x \in Ats : x \notin U - 10..U + 10}}
                 ELSE {<<>>} \cup {<<a>> : a \in Ats} \cup {x \in Ats \X Ats : x[2] >= x[1]}

Init == /\ kind \in Kinds /\ ds \in ArrivalsOf(kind)
        /\ mode \in (IF kind \in Restartable THEN {"resume", "restart"} ELSE {"resume"})
        /\ sigs = <<>> /\ now = 0 /\ until = U /\ left = ds /\ got = <<>> /\ done = FALSE /\ TLCSet(1, 0)

NextAt == IF left # <<>> /\ Head(left) <= until THEN Max(now, Head(left)) ELSE until
Interrupt ==
  /\ ~done /\ Len(sigs) < Most
  /\ \E t \in Times : /\ t >= now /\ t < NextAt
                      /\ sigs' = Append(sigs, t) /\ now' = t
                      /\ until' = IF mode = "restart" THEN t + U ELSE until
  /\ UNCHANGED <<kind, ds, mode, left, got, done>>
Deliver ==
  /\ ~done /\ left # <<>> /\ Head(left) <= until
  /\ now' = Max(now, Head(left)) /\ left' = Tail(left) /\ got' = Append(got, Head(left))
  /\ done' = (kind \in {"udp", "bound", "conn"})
  /\ until' = IF kind = "disc" THEN now' + U ELSE until
  /\ UNCHANGED <<kind, ds, mode, sigs>>

\* the call as a script
Ip == <<10, 0, 0, 1>>
Sock(k) == [op |-> "snew", k |-> 0, kind |-> k, host |-> "10.0.0.1", ip |-> Ip, port |-> 2222, form |-> 0, to |-> To]
IdItem(v) == Item(12, <<1, 0, 0, 2, 175, 18, 192, 168, 1, v>> \o Zeros(8) \o <<v, 1, 2, 0, 40, 1, 3, 12, 96, 4, 210, 2, 150, v, 2, 80, 48 + v>> \o <<3>>)
P == [prio |-> 10, ticks |-> 5, vendor |-> 342, oserial |-> <<9, 8, 7, 6>>, mult |-> 0, o2tRPI |-> <<16, 39, 0, 0>>,
      t2oRPI |-> <<16, 39, 0, 0>>, o2tP |-> <<2, 66, 0, 0>>, t2oP |-> <<2, 66, 0, 0>>, trig |-> 1, o2tRT |-> 0, t2oRT |-> 0,
      path |-> <<32, 4, 36, 1>>, o2tId |-> <<1, 1, 1, 1>>, t2oId |-> <<2, 2, 2, 2>>]
OpenData == <<17, 18, 19, 0>> \o <<33, 34, 35, 0>> \o <<1, 0, 86, 1, 9, 8, 7, 6>> \o LE2(50000) \o <<0, 0>> \o LE2(50000) \o <<0, 0>> \o <<0, 0>>
Opening == <<SessOp(0, Handle), [op |-> "open", s |-> 0, c |-> 0, large |-> 0, p |-> P, rx |-> <<One(RRReply(Handle, 84, 0, <<>>, OpenData, <<>>))>>],
             [op |-> "setdata", c |-> 0, b |-> <<5, 6>>]>>
Body(i) == CASE kind = "disc"   -> Encaps(CmdListIdentity, Zero4, Zero4, PackCpf(<<IdItem(i)>>))
             [] kind = "handle" -> IoDatagram(<<33, 34, 35, 0>>, i, <<i, 0, 6, 6>>)
             [] OTHER -> <<5, i>>
Dgs == [i \in 1..Len(ds) |-> [at |-> ds[i], port |-> IF kind = "bound" THEN 2222 ELSE 0, b |-> Body(i), ip |-> <<10, 9, 8, 7>>, from |-> 513]]
IoDgs == [i \in 1..Len(ds) |-> [at |-> ds[i], b |-> Body(i)]]
TheCall ==
  CASE kind \in {"udp", "bound"} ->
         <<Sock(kind)>> \o (IF kind = "udp" THEN <<[op |-> "ssend", k |-> 0, b |-> <<1>>]>> ELSE <<>>)
         \o <<[op |-> "srecv", k |-> 0, n |-> 10, from |-> 1, dg |-> Dgs, sig |-> sigs]>>
    [] kind = "disc" -> <<[op |-> "disc", host |-> "255.255.255.255", ip |-> <<255, 255, 255, 255>>, port |-> 44818, to |-> To, dg |-> Dgs, sig |-> sigs]>>
    [] kind = "handle" -> Opening \o <<[op |-> "handle", to |-> To, dg |-> IoDgs, sig |-> sigs], [op |-> "adv", u |-> 500], [op |-> "handle", to |-> 0, dg |-> <<>>]>>
    [] kind = "conn" -> <<[SessOp(0, Handle) EXCEPT !.to = To] @@ [conn |-> IF ds = <<>> \/ ds[1] > U THEN "timeout" ELSE "inprog", sig |-> sigs]
                            @@ (IF ds = <<>> \/ ds[1] > U THEN [z |-> 0] ELSE [cw |-> ds[1]])>>
Shown == Show => /\ TLCSet(1, TLCGet(1) + 1)
                 /\ TLCGet(1) % Every = 0 => PrintT(Script("signal", TheCall \o <<SessOp(90, Handle), PlainOp(90, Handle)>>))
Expire ==
  /\ ~done /\ (IF left = <<>> THEN TRUE ELSE Head(left) > until)
  /\ now' = until /\ done' = TRUE
  /\ UNCHANGED <<kind, ds, mode, sigs, until, left, got>>
Next == Interrupt \/ (Deliver /\ (done' => Shown)) \/ (Expire /\ Shown)
Spec == Init /\ [][Next]_vars

\* What an undisturbed call gets, and when it ends
RECURSIVE Calm(_, _)
Calm(l, t) ==                  \* t: when the wait began
  IF l = <<>> THEN <<>>
  ELSE IF Head(l) > t + U THEN <<>>
  ELSE <<Head(l)>> \o (IF kind \in {"udp", "bound", "conn"} THEN <<>>
                       ELSE Calm(Tail(l), IF kind = "disc" THEN Head(l) ELSE t))
NothingLost == done => Len(got) >= Len(Calm(ds, 0)) /\ SubSeq(got, 1, Len(Calm(ds, 0))) = Calm(ds, 0)
\* ... and no more, if the wait is resumed
NothingElse == done /\ mode = "resume" => got = Calm(ds, 0)
LastOf(a, b) == IF a = <<>> THEN 0 ELSE IF b = <<>> THEN Last(a) ELSE Max(Last(a), Last(b))
Ends == done => now <= (IF mode = "restart" \/ kind = "disc"
                        THEN Max(LastOf(sigs, got), IF got = <<>> THEN 0 ELSE Last(got)) ELSE 0) + U
\* The monitor's receptions give this result, in the two ways
Xs == [NewPlain(Sock(kind)) EXCEPT !.last = TRUE]
NetOf == [i \in 1..Len(ds) |-> Dgs[i] @@ [err |-> ""]]
Agrees == done /\ kind \in {"udp", "bound"} =>
  LET w == RecvUdp(Xs, 10, NetOf, IF mode = "restart" THEN sigs ELSE <<>>, 0, 0) IN
  w.ok = (got # <<>>) /\ w.at = now
AgreesDisc == done /\ kind = "disc" =>
  LET w == Collect(NetOf, IF mode = "restart" THEN sigs ELSE <<>>, 0, U, 0) IN Len(w.devs) = Len(got) /\ w.t = now
=============================================================================
