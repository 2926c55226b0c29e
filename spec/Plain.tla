-------------------------------- MODULE Plain ---------------------------------
(* The sockets as the user may use them directly, and the handling of IO       *)
(* connections over many passes at once.                                       *)
EXTENDS IoConn

(* ------------------------------------------------------------------- sockets *)
\* kind: "tcp", "udp" (gets answers to what it sent), "bound" (gets what is sent to its port)
NewPlain(a) == [kind |-> a.kind, ip |-> a.ip, host |-> a.host, port |-> a.port, to |-> 10 * Fld(a, "to", 0),
                idx |-> 0, q |-> <<>>, pre |-> <<>>, last |-> FALSE, up |-> TRUE]
SnewR(a) == [host |-> a.host, port |-> a.port, rto |-> Fld(a, "to", 0)]

\* The result of asking socket x for n bytes at time `now`, with the datagrams net on their way:
\* [ok, b, ip, port, at (when), net, x]
PlainPort(x) == IF x.kind = "bound" THEN x.port ELSE 0
RECURSIVE RecvUdp(_, _, _, _, _, _)
\* (a wait that is interrupted by a signal starts anew, or with sigs = <<>> just goes on)
RecvUdp(x, n, net, sigs, now, cost) ==
  LET is == IF x.kind = "udp" /\ ~x.last THEN {} ELSE {i \in 1..Len(net) : net[i].port = PlainPort(x)}
      i == CHOOSE i \in is : \A j \in is : i <= j
      comes == is # {} /\ (x.to = 0 \/ net[i].at <= now + x.to)
      until == IF comes THEN net[i].at ELSE now + x.to
  IN IF sigs # <<>> /\ Head(sigs) < until THEN RecvUdp(x, n, net, Tail(sigs), Max(now, Head(sigs)), cost)
     ELSE IF ~comes THEN [ok |-> FALSE, at |-> now + x.to, net |-> net, x |-> x]
     ELSE LET d == net[i]
              left == SubSeq(net, 1, i - 1) \o From(net, i + 1)
              t == Max(d.at, now) + cost
          IN IF d.err # "" THEN [ok |-> FALSE, at |-> t, net |-> left, x |-> x]
             ELSE [ok |-> TRUE, b |-> SubSeq(d.b, 1, Min(n, Len(d.b))), ip |-> d.ip, port |-> d.from, at |-> t, net |-> left, x |-> x]

RecvTcp(x, n, net, now) ==
  \* (a connection the peer has ended may refuse what is sent later)
  LET t == IF n = 0 THEN [ok |-> TRUE, d |-> <<>>, q |-> x.q] ELSE Take(x.q, n, <<>>) IN
  [ok |-> t.ok, at |-> IF ~t.ok /\ t.why = "tmo" THEN now + x.to ELSE now, net |-> net, x |-> [x EXCEPT !.q = t.q, !.up = @ /\ (t.ok \/ t.why = "tmo")],
   b |-> IF t.ok THEN t.d ELSE <<>>]

(* ----------------------------------------------------- many passes, one producer *)
\* Do these runs of datagrams come from n passes of `to` milliseconds with connection c producing in each?
\* A run: n datagrams, the first of them b; then the word at 10 grows by ds, the one at 18 by dc.
Ahead(c, n) == [c EXCEPT !.seq = @ + n, !.cnt = IF c.seqd THEN (@ + n) % 65536 ELSE @]
PassOk(dt, to) == dt \in (10 * to - 10)..(10 * to)
RECURSIVE PumpOk(_, _, _)
PumpOk(c, runs, to) ==
  IF runs = <<>> THEN TRUE
  ELSE LET x == Head(runs) IN
    /\ x.b = Datagram(Numbered(c))
    /\ ~c.dest.known \/ (x.ip = c.dest.ip /\ x.port = c.dest.port)
    /\ x.n > 1 => /\ x.ds = 1
                  /\ x.dc = (IF c.seqd THEN 1 ELSE 0)
                  /\ PassOk(x.lo, to) /\ PassOk(x.hi, to)
    /\ PassOk(x.gap, to)
    /\ PumpOk(Ahead(c, x.n), Tail(runs), to)
=============================================================================
