------------------------------ MODULE CodecModel -----------------------------
(* The encoders and decoders over enumerated values, every truncation and       *)
(* single-byte changes of encodings. What is said here about the formats of     *)
(* Wire.tla (encoders and decoders are inverse, a prefix is not mistaken for    *)
(* the whole, ...) holds for every case, and the code does what Codec.tla says  *)
(* for each.                                                                    *)
EXTENDS Codec, Peer

CONSTANTS Kinds, Ids, Bad, Show, Every

VARIABLES c, done
vars == <<c, done>>

Case(o, ok) == [o |-> o, ok |-> ok]
Paths(n) == UNION {[1..i -> Ids] : i \in 0..n}
Cuts(b) == {SubSeq(b, 1, i) : i \in 0..Len(b) - 1}
Changed(b, vs) == {[b EXCEPT ![i] = v] : i \in 1..Len(b), v \in vs}
Longer(b) == {b \o <<0>>, b \o <<0, 0>>, b \o <<255, 255, 255>>}
Mangled(b) == Cuts(b) \cup Changed(b, Bad) \cup Longer(b)

(* -------------------------------------------------------------------- paths *)
Ids3(p) == [i \in 1..3 |-> IF i <= Len(p) THEN p[i] ELSE 0]
PathCase(p, e, y) ==
  LET x == PathParse(EPath(p, e))
  IN Case([op |-> "epath", path |-> p, eight |-> IF e THEN 1 ELSE 0, yas |-> y],
          (e => Fits8(p)) => x.ok /\ x.ids = Ids3(p) /\ x.n = Max(1, Len(p)) /\ Len(EPath(p, e)) = 2 * Max(EPathWords(p, e), IF e THEN 1 ELSE 2))
SomePaths == {EPath(p, e) : p \in {<<5>>, <<1, 7>>, <<4, 150, 3>>, <<32, 36, 48>>}, e \in BOOLEAN}
Segs == {<<32, 9>>, <<36, 8>>, <<48, 7>>, <<33, 0, 1, 2>>, <<37, 0, 3, 4>>, <<49, 0, 5, 6>>, <<40, 1>>, <<33, 9, 1, 2>>}
SegPaths == {Flat(q) : q \in UNION {[1..i -> Segs] : i \in 0..3}}
PathXCase(b, y) ==
  LET x == PathParse(b) IN
  Case([op |-> "epathx", b |-> b, yas |-> y], x.ok => (\A i \in 1..3 : x.ids[i] < 65536) /\ x.n \in 0..3)
PathCases == {PathCase(p, e, 0) : p \in Paths(3), e \in BOOLEAN} \cup {PathCase(p, TRUE, 1) : p \in {q \in Paths(3) : Fits8(q)}}
PathXCases == {PathXCase(b, y) : b \in UNION {Mangled(p) : p \in SomePaths} \cup SegPaths, y \in {0, 1}}

(* -------------------------------------------------------------------- items *)
Datas == {<<>>, <<0>>, <<1, 2, 3, 4>>, [i \in 1..300 |-> i % 256]}
Its == {[t |-> t, d |-> d] : t \in {0, 12, 177, 178, 32768, 32770, 65535}, d \in Datas}
CpfCase(its) ==
  LET x == CpfParse(PackCpf(its))
  IN Case([op |-> "cpf", items |-> its], x.ok /\ x.exact /\ x.items = ItemsOut(its))
SomeItems == {<<>>, <<Item(0, <<>>)>>, <<Item(0, <<>>), Item(178, <<1, 2, 3>>)>>, <<Item(32770, <<1, 0, 0, 0, 5, 0, 0, 0>>), Item(177, <<9>>), Item(32768, <<>>)>>}
CpfXCase(b) == Case([op |-> "cpfx", b |-> b], CpfParse(b).exact => PackCpf(CpfParse(b).items) = b)
CpfCases == {CpfCase(q) : q \in UNION {[1..i -> Its] : i \in 0..2}}
CpfXCases == {CpfXCase(b) : b \in UNION {Mangled(PackCpf(i)) \cup {PackCpf(i)} : i \in SomeItems}}

(* ------------------------------------------------------------------ packets *)
Words == {Zero4, <<255, 255, 255, 255>>, <<1, 2, 3, 4>>, <<0, 0, 0, 128>>}
Cmds == {0, 4, 99, 100, 101, 102, 111, 112, 114, 117}
EncCase(m, h, st, d) ==
  LET x == EncParse(Encaps(m, h, st, d))
  IN Case([op |-> "enc", cmd |-> m, h |-> h, st |-> st, data |-> d],
          x.ok /\ x.cmd = m /\ x.h = h /\ x.st = st /\ x.data = d /\ x.n = Len(d))
EncCases == {EncCase(m, h, st, d) : m \in Cmds, h \in Words, st \in {Zero4, <<1, 0, 0, 0>>, <<105, 0, 0, 0>>}, d \in Datas}
SomePackets == {Encaps(m, <<1, 2, 3, 4>>, Zero4, d) : m \in {0, 111}, d \in {<<>>, <<1, 2, 3>>}}
EncXCase(b) == Case([op |-> "encx", b |-> b],
                    EncParse(b).ok <=> (Len(b) >= 24 /\ Len(b) = 24 + b[3] + 256 * b[4]))
\* commands and statuses outside their enumerations are not decoded by value alone
EncXCases == {EncXCase(b) : b \in UNION {Mangled(p) \cup {p} : p \in SomePackets}}
FactCases == {Case([op |-> "factory", data |-> d, h |-> h, n |-> n, to |-> t],
                   EncParse(Encaps(CmdRRData, h, Zero4, Zero4 \o LE2(t) \o d)).data = Zero4 \o LE2(t) \o d) :
                d \in Datas, h \in Words, n \in Words, t \in {0, 1, 256, 65535}}

(* ---------------------------------------------------------------- responses *)
Mr(svc, st, add, d) == <<svc, 0, st, Len(add)>> \o Flat([i \in 1..Len(add) |-> LE2(add[i])]) \o d
MrXCase(b) ==
  LET x == MrParse(b) IN
  Case([op |-> "mrx", b |-> b], x.ok => Len(b) = 4 + 2 * Len(x.add) + Len(x.data) /\ SubSeq(b, 1, 4) = <<x.svc, x.res, x.st, Len(x.add)>>)
Adds == {<<>>, <<0>>, <<65535>>, <<1, 256, 513>>, [i \in 1..255 |-> i]}
MrXCases == {MrXCase(Mr(v, st, a, d)) : v \in {128, 142, 255, 14}, st \in {0, 1, 6, 255}, a \in Adds, d \in Datas}
            \cup {MrXCase(b) : b \in UNION {Mangled(Mr(142, 1, a, <<9, 8>>)) : a \in {<<>>, <<258>>, <<1, 2>>}}}
Fo(n, app) == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, n, 0>> \o app
FoXCase(b) ==
  LET x == FwdOpenParse(b) IN
  Case([op |-> "fox", b |-> b], x.ok <=> (Len(b) >= 26 /\ Len(b) >= 26 + 2 * b[25]))
FoXCases == {FoXCase(b) : b \in UNION {Mangled(f) \cup {f} : f \in {Fo(0, <<>>), Fo(1, <<1, 2>>), Fo(2, <<1, 2, 3, 4>>)}}}

(* ------------------------------------------------ connection parameters word *)
NcpCases ==
  {LET a == [op |-> "ncp", large |-> l, ct |-> ct, prio |-> pr, ty |-> ty, size |-> sz, red |-> rd]
       w == ExpNcp(a).r.v
   IN Case(a, /\ NcpSize(w, l = 1) = sz /\ NcpType(w, l = 1) = ct /\ NcpPrio(w, l = 1) = pr /\ NcpOwner(w, l = 1) = rd
              /\ NcpFixed(w, l = 1) = (ty = 0)) :
     l \in {1}, ct \in 0..3, pr \in 0..3, ty \in {0, 1}, sz \in {0, 1, 255, 256, 511, 512, 1023, 1024, 32768, 65535}, rd \in {0, 1}}
  \cup
  {LET a == [op |-> "ncp", large |-> 0, ct |-> ct, prio |-> pr, ty |-> ty, size |-> sz, red |-> rd]
       w == ExpNcp(a).r.v
   IN Case(a, /\ NcpSize(w, FALSE) = sz /\ NcpType(w, FALSE) = ct /\ NcpPrio(w, FALSE) = pr /\ NcpOwner(w, FALSE) = rd
              /\ NcpFixed(w, FALSE) = (ty = 0) /\ w[3] = 0 /\ w[4] = 0) :
     ct \in 0..3, pr \in 0..3, ty \in {0, 1}, sz \in {0, 1, 2, 127, 128, 255, 256, 257, 510, 511}, rd \in {0, 1}}

CasesOf(k) ==
  CASE k = "epath" -> PathCases [] k = "epathx" -> PathXCases [] k = "cpf" -> CpfCases [] k = "cpfx" -> CpfXCases
    [] k = "enc" -> EncCases [] k = "encx" -> EncXCases [] k = "factory" -> FactCases [] k = "mrx" -> MrXCases
    [] k = "fox" -> FoXCases [] k = "ncp" -> NcpCases

Init == /\ \E k \in Kinds : c \in CasesOf(k)
        /\ done = FALSE /\ TLCSet(1, 0) /\ TLCSet(2, <<>>)
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ (Show => /\ TLCSet(1, TLCGet(1) + 1)
                    /\ (TLCGet(1) % Every = 0 => Collected("codec", c.o, 10)))
Spec == Init /\ [][Next]_vars

AllOk == c.ok
=============================================================================
