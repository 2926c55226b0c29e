-------------------------------- MODULE Wire --------------------------------
(* The formats on the wire: encapsulation packets, common packet format,     *)
(* message router requests and responses, EPATHs, Forward Open/Close.        *)
EXTENDS Bytes

(* ------------------------------------------------------------ encapsulation *)
CmdListIdentity == 99      \* 0x63
CmdRegister     == 101     \* 0x65
CmdUnregister   == 102     \* 0x66
CmdRRData       == 111     \* 0x6F

Encaps(cmd, h, st, data) ==
  LE2(cmd) \o LE2(Len(data)) \o h \o st \o Zeros(8) \o Zero4 \o data

RegisterReq      == Encaps(CmdRegister, Zero4, Zero4, <<1, 0, 0, 0>>)
UnregisterReq(h) == Encaps(CmdUnregister, h, Zero4, <<>>)
ListIdentityReq  == Encaps(CmdListIdentity, Zero4, Zero4, <<>>)

\* header fields of a received packet
EncCmd(p)    == U16(p, 1)
EncLen(p)    == U16(p, 3)
EncHandle(p) == W4(p, 5)
EncStatus(p) == W4(p, 9)
EncData(p)   == From(p, 25)

\* decoding a complete byte string
EncParse(b) ==
  IF Len(b) < 24 THEN [ok |-> FALSE]
  ELSE IF Len(b) - 24 # U16(b, 3) THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, cmd |-> EncCmd(b), n |-> EncLen(b), h |-> EncHandle(b),
        st |-> EncStatus(b), ctx |-> SubSeq(b, 13, 20), opt |-> W4(b, 21), data |-> EncData(b)]

(* ------------------------------------------------------ common packet format *)
Item(t, d)   == [t |-> t, n |-> Len(d), d |-> d]
PackItem(it) == LE2(it.t) \o LE2(Len(it.d)) \o it.d
RECURSIVE PackItems(_)
PackItems(its) == IF its = <<>> THEN <<>> ELSE PackItem(Head(its)) \o PackItems(Tail(its))
PackCpf(its) == LE2(Len(its)) \o PackItems(its)

\* items of the bytes from position i on, at most n of them
RECURSIVE ItemsFrom(_, _, _)
ItemsFrom(b, i, n) ==
  IF n = 0 \/ i > Len(b) THEN [ok |-> TRUE, items |-> <<>>, next |-> i, left |-> n]
  ELSE IF i + 3 > Len(b) THEN [ok |-> FALSE, items |-> <<>>, next |-> i, left |-> n]
  ELSE LET len == U16(b, i + 2)
       IN IF i + 3 + len > Len(b) THEN [ok |-> FALSE, items |-> <<>>, next |-> i, left |-> n]
          ELSE LET rest == ItemsFrom(b, i + 4 + len, n - 1)
               IN [ok |-> rest.ok,
                   items |-> <<[t |-> U16(b, i), n |-> len, d |-> SubSeq(b, i + 4, i + 3 + len)]>> \o rest.items,
                   next |-> rest.next, left |-> rest.left]

\* ok: well formed; exact: and the announced items are all there with nothing behind them
CpfParse(b) ==
  IF Len(b) < 2 THEN [ok |-> Len(b) = 0, items |-> <<>>, exact |-> FALSE]
  ELSE LET r == ItemsFrom(b, 3, U16(b, 1))
       IN [ok |-> r.ok, items |-> r.items, exact |-> r.ok /\ r.left = 0 /\ r.next = Len(b) + 1]

(* --------------------------------------------------------------------- EPATH *)
\* path: sequence of 1..3 ids (class, instance, attribute)
Seg8(t, v)  == <<t, v % 256>>
Seg16(t, v) == <<t, 0>> \o LE2(v)
EPath(path, eight) ==
  LET seg(t8, v) == IF eight THEN Seg8(t8, v) ELSE Seg16(t8 + 1, v)
  IN CASE Len(path) = 0 -> seg(32, 0)
       [] Len(path) = 1 -> seg(32, path[1])
       [] Len(path) = 2 -> seg(32, path[1]) \o seg(36, path[2])
       [] OTHER         -> seg(32, path[1]) \o seg(36, path[2]) \o seg(48, path[3])
EPathWords(path, eight) == IF eight THEN Len(path) ELSE 2 * Len(path)
Fits8(path) == \A i \in 1..Len(path) : path[i] < 256

\* decoding a padded path: the segments in order; a missing class hides the rest
RECURSIVE PathSegs(_, _, _)
PathSegs(b, i, acc) ==
  IF i > Len(b) THEN [ok |-> TRUE, s |-> acc]
  ELSE LET t == b[i] IN
    IF t \in {32, 36, 48} THEN
      IF i + 1 > Len(b) THEN [ok |-> FALSE, s |-> acc]
      ELSE PathSegs(b, i + 2, (t :> b[i + 1]) @@ acc)
    ELSE IF t \in {33, 37, 49} THEN
      IF i + 3 > Len(b) THEN [ok |-> FALSE, s |-> acc]
      ELSE PathSegs(b, i + 4, ((t - 1) :> U16(b, i + 2)) @@ acc)
    ELSE [ok |-> FALSE, s |-> acc]
PathParse(b) ==
  LET r == PathSegs(b, 1, [x \in {} |-> 0])
      v(t) == IF t \in DOMAIN r.s THEN r.s[t] ELSE 0
      has(t) == t \in DOMAIN r.s
      n == IF ~has(32) THEN 0 ELSE IF ~has(36) THEN 1 ELSE IF ~has(48) THEN 2 ELSE 3
  IN [ok |-> r.ok, ids |-> <<v(32), v(36), v(48)>>, n |-> n]

(* ------------------------------------------------------------ message router *)
MrReq(svc, path, eight, data) ==
  <<svc, EPathWords(path, eight)>> \o EPath(path, eight) \o data

\* an explicit request on session handle h
RRReq(h, svc, path, eight, data, items) ==
  Encaps(CmdRRData, h, Zero4,
         Zero4 \o LE2(0) \o
         PackCpf(<<Item(0, <<>>), Item(178, MrReq(svc, path, eight, data))>> \o items))

MrParse(d) ==
  IF Len(d) < 4 THEN [ok |-> FALSE]
  ELSE LET n == d[4] IN
    IF 2 * n > Len(d) - 4 THEN [ok |-> FALSE]
    ELSE [ok |-> TRUE, svc |-> d[1], res |-> d[2], st |-> d[3],
          add |-> [i \in 1..n |-> U16(d, 5 + 2 * (i - 1))],
          data |-> From(d, 5 + 2 * n)]

\* What an explicit request returns for a received packet p:
\*   malformed: must fail; odd: a peer should not send it (either reaction is fine,
\*   but what is returned must be what was sent); valid: must be returned.
RRParse(p, svc) ==
  LET d == EncData(p) IN
  IF Len(d) < 6 THEN [cls |-> "malformed"]
  ELSE LET c == CpfParse(From(d, 7)) IN
    IF ~c.ok \/ Len(c.items) < 2 THEN [cls |-> "malformed"]
    ELSE LET m == MrParse(c.items[2].d) IN
      IF ~m.ok THEN [cls |-> "malformed"]
      ELSE [cls |-> IF /\ EncCmd(p) = CmdRRData
                       /\ SubSeq(d, 1, 6) = Zeros(6)
                       /\ c.exact
                       /\ c.items[1].t = 0 /\ c.items[1].n = 0 /\ c.items[2].t = 178
                       /\ m.svc = (svc % 128) + 128 /\ m.res = 0
                    THEN "valid" ELSE "odd",
            svc |-> m.svc, st |-> m.st, add |-> m.add, data |-> m.data,
            items |-> From(c.items, 3)]

(* ------------------------------------------------------------- TCP reception *)
\* A stream is a sequence of elements [k, d]: data, or eof / rst (the connection ends),
\* eintr (harmless), tmo (silence for the whole receive timeout).
\* Take(q, n): read n bytes.
RECURSIVE Take(_, _, _)
Take(q, n, got) ==
  IF n = 0 THEN [ok |-> TRUE, d |-> got, q |-> q]
  ELSE IF q = <<>> THEN [ok |-> FALSE, why |-> "tmo", d |-> got, q |-> q]
  ELSE LET e == Head(q) IN
    CASE e.k = "d" ->
           IF Len(e.d) <= n THEN Take(Tail(q), n - Len(e.d), got \o e.d)
           ELSE [ok |-> TRUE, d |-> got \o SubSeq(e.d, 1, n),
                 q |-> <<[k |-> "d", d |-> From(e.d, n + 1)]>> \o Tail(q)]
      [] e.k = "eintr" -> Take(Tail(q), n, got)
      [] e.k = "tmo"   -> [ok |-> FALSE, why |-> "tmo", d |-> got, q |-> Tail(q)]
      [] OTHER         -> [ok |-> FALSE, why |-> "end", d |-> got, q |-> q]

\* one encapsulation packet
TakePacket(q) ==
  LET h == Take(q, 24, <<>>) IN
  IF ~h.ok THEN h
  ELSE LET b == Take(h.q, U16(h.d, 3), <<>>) IN
    IF ~b.ok THEN b ELSE [ok |-> TRUE, d |-> h.d \o b.d, q |-> b.q]

(* ----------------------------------------------------------- Forward Open etc *)
\* Network connection parameters: w is the 32-bit word as four bytes
NcpLow(w)        == U16(w, 1)
NcpHigh(w)       == U16(w, 3)
NcpSize(w, lg)   == IF lg THEN NcpLow(w) ELSE NcpLow(w) % 512
NcpFlags(w, lg)  == IF lg THEN NcpHigh(w) ELSE NcpLow(w)
NcpFixed(w, lg)  == Bit(NcpFlags(w, lg), 9) = 0
NcpType(w, lg)   == (NcpFlags(w, lg) \div 8192) % 4       \* 0 null 1 multicast 2 p2p
NcpPrio(w, lg)   == (NcpFlags(w, lg) \div 1024) % 4
NcpOwner(w, lg)  == Bit(NcpFlags(w, lg), 15)

HasSeq(trig) == trig % 4 # 0          \* transport classes 1 and 3 carry a sequence count

\* the bytes added to the application data by the sequence count and the real time header
Overhead(trig, rt) == (IF HasSeq(trig) THEN 2 ELSE 0) + (IF rt # 0 THEN 4 ELSE 0)

\* params: see ConnectionParameters; ids and serial are chosen by the originator
FwdOpenData(p, large, o2tId, t2oId, serial) ==
  LET o == Add4(Fld(p, "o2tP", Zero4), Overhead(Fld(p, "trig", 0), Fld(p, "o2tRT", 0)))
      t == Add4(Fld(p, "t2oP", Zero4), Overhead(Fld(p, "trig", 0), Fld(p, "t2oRT", 0)))
      cut(w) == IF large THEN w ELSE SubSeq(w, 1, 2)
      path == Fld(p, "path", <<>>)
  IN <<Fld(p, "prio", 0), Fld(p, "ticks", 0)>> \o o2tId \o t2oId \o serial
     \o LE2(Fld(p, "vendor", 0)) \o Fld(p, "oserial", Zero4)
     \o <<Fld(p, "mult", 0), 0, 0, 0>>
     \o Fld(p, "o2tRPI", Zero4) \o cut(o) \o Fld(p, "t2oRPI", Zero4) \o cut(t)
     \o <<Fld(p, "trig", 0), (Len(path) + 1) \div 2>> \o path

FwdCloseData(c) ==
  <<0, 0>> \o c.serial \o LE2(c.vendor) \o c.oserial \o <<Len(c.path) \div 2, 0>> \o c.path

FwdOpenParse(d) ==
  IF Len(d) < 26 THEN [ok |-> FALSE]
  ELSE IF Len(d) < 26 + 2 * d[25] THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, o2t |-> W4(d, 1), t2o |-> W4(d, 5), serial |-> SubSeq(d, 9, 10),
        vendor |-> U16(d, 11), oserial |-> W4(d, 13), o2tApi |-> W4(d, 17), t2oApi |-> W4(d, 21),
        n |-> d[25], app |-> SubSeq(d, 27, 26 + 2 * d[25])]

\* socket address item: family, port and address in network order, 8 zeros
SockAddr(d) == [port |-> 256 * d[3] + d[4], ip |-> SubSeq(d, 5, 8)]

\* an IO datagram: [ok, id, data]
IoParse(b) ==
  LET c == CpfParse(b) IN
  IF ~c.ok \/ Len(c.items) < 2 THEN [ok |-> FALSE]
  ELSE IF Len(c.items[1].d) < 4 THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, id |-> W4(c.items[1].d, 1), data |-> c.items[2].d,
        usual |-> c.exact /\ Len(c.items) = 2 /\ c.items[1].t = 32770 /\ c.items[1].n = 8 /\ c.items[2].t = 177]

IoDatagram(o2t, seq, body) ==
  PackCpf(<<Item(32770, o2t \o LE4(seq)), Item(177, body)>>)

(* ------------------------------------------------------------- identity data *)
ShortStr(d, i) == \* a length byte and that many characters at position i
  IF i > Len(d) THEN [ok |-> FALSE]
  ELSE IF i + d[i] > Len(d) THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, s |-> SubSeq(d, i + 1, i + d[i]), next |-> i + d[i] + 1]
IdentityParse(d) ==
  IF Len(d) < 15 THEN [ok |-> FALSE]
  ELSE LET n == ShortStr(d, 15) IN
    IF ~n.ok THEN [ok |-> FALSE]
    ELSE [ok |-> TRUE, vendor |-> U16(d, 1), dtype |-> U16(d, 3), pcode |-> U16(d, 5),
          maj |-> d[7], min |-> d[8], status |-> U16(d, 9), serial |-> W4(d, 11), name |-> n.s]
=============================================================================
