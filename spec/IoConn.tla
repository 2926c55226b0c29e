------------------------------- MODULE IoConn --------------------------------
(* Implicit (IO) connections: the state the connection manager keeps for one *)
(* connection and its transitions. Times are in units of 100 microseconds.   *)
EXTENDS Wire

NoSerial == <<-1, -1>>

\* ApiUnits: an API in microseconds, capped (a longer one never elapses here)
ApiCap == 4000000
ApiUnits(w) == IF w[4] >= 23 THEN ApiCap ELSE Min(ApiCap, (Num4(w) + 99) \div 100)

\* r: parsed Forward Open response; p: parameters the user asked for
\* listen: which listeners there are, [recv, send, close]: 0 = none, otherwise which one (they may be replaced)
Listens(n) == [recv |-> n, send |-> n, close |-> n]
NewConn(p, large, r, now, dest, listen) ==
  [live |-> TRUE, held |-> FALSE, listen |-> listen, closing |-> FALSE,
   o2t |-> r.o2t, t2o |-> r.t2o, serial |-> r.serial,
   vendor |-> Fld(p, "vendor", 0), oserial |-> Fld(p, "oserial", Zero4), path |-> Fld(p, "path", <<>>),
   seqd |-> HasSeq(Fld(p, "trig", 0)), o2tRT |-> Fld(p, "o2tRT", 0) # 0, t2oRT |-> Fld(p, "t2oRT", 0) # 0,
   o2tSize |-> NcpSize(Fld(p, "o2tP", Zero4), large), t2oSize |-> NcpSize(Fld(p, "t2oP", Zero4), large),
   o2tFix |-> NcpFixed(Fld(p, "o2tP", Zero4), large), t2oFix |-> NcpFixed(Fld(p, "t2oP", Zero4), large),
   o2tApi |-> ApiUnits(r.o2tApi), t2oApi |-> ApiUnits(r.t2oApi),
   mult |-> 4 * Pow2(Fld(p, "mult", 0)),
   data |-> <<>>, seq |-> 0, cnt |-> 0, timer |-> 0, lastTick |-> now, lastRecv |-> now, dest |-> dest]

(* -------------------------------------------------------- consumed data (T2O) *)
\* what the connection makes of the data item of a datagram addressed to it
RecvData(c, body) ==
  LET n1 == IF c.seqd THEN 2 ELSE 0
      n2 == n1 + (IF c.t2oRT THEN 4 ELSE 0)
  IN IF Len(body) < n2 THEN [ok |-> FALSE]
     ELSE LET d == From(body, n2 + 1) IN
       IF c.t2oFix /\ Len(d) # c.t2oSize THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, seq |-> IF c.seqd THEN U16(body, 1) ELSE 0,
             hdr |-> IF c.t2oRT THEN W4(body, n1 + 1) ELSE Zero4, b |-> d]
Received(c, now) == [c EXCEPT !.lastRecv = now]

(* -------------------------------------------------------- produced data (O2T) *)
\* the watchdog: nothing valid received for longer than multiplier x API
Expired(c, now) == now - c.lastRecv > c.mult * c.t2oApi
\* it is time to produce
Due(c, now) == c.timer + (now - c.lastTick) >= c.o2tApi
\* a handling pass without production
Waited(c, now) == [c EXCEPT !.timer = @ + (now - c.lastTick), !.lastTick = now]
\* ... and with: the timer starts again, the send listener is called, then the packet gets its numbers
Began(c, now) == [c EXCEPT !.timer = 0, !.lastTick = now]
Numbered(c) == [c EXCEPT !.seq = @ + 1, !.cnt = IF c.seqd THEN (@ + 1) % 65536 ELSE @]
Produced(c, now) == Numbered(Began(c, now))
\* data that does not fit a fixed size is not sent
Sendable(c) == ~c.o2tFix \/ Len(c.data) = c.o2tSize
Datagram(c) ==
  IoDatagram(c.o2t, c.seq,
             (IF c.seqd THEN LE2(c.cnt) ELSE <<>>) \o (IF c.o2tRT THEN LE4(1) ELSE <<>>) \o c.data)

Closed(c) == [c EXCEPT !.live = FALSE, !.closing = FALSE]

(* ------------------------------------------------------------ the target's word *)
\* where the target wants its data: [known, ip, port]
Dest(items, host) ==
  LET xs == {i \in 1..Len(items) : items[i].t = 32768} IN
  IF xs = {} THEN [known |-> TRUE, ip |-> host, port |-> 2222]
  ELSE LET d == items[CHOOSE i \in xs : \A j \in xs : i <= j].d IN
    IF Len(d) < 16 THEN [known |-> FALSE]
    ELSE [known |-> SubSeq(d, 1, 2) = <<0, 2>>,
          ip |-> IF SockAddr(d).ip = Zero4 THEN host ELSE SockAddr(d).ip, port |-> SockAddr(d).port]
=============================================================================
