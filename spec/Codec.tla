-------------------------------- MODULE Codec --------------------------------
(* The pure encoders and decoders: what each call must return.               *)
EXTENDS Wire

R(r)   == [ok |-> TRUE, r |-> r]
Fail   == [ok |-> FALSE, r |-> [z |-> 0]]
Unspec == [ok |-> TRUE, r |-> [z |-> 0]]

(* -------------------------------------------------------------------- Buffer *)
Widths == [u8 |-> 1, i8 |-> 1, u16 |-> 2, i16 |-> 2, u32 |-> 4, i32 |-> 4, u64 |-> 8, i64 |-> 8, f32 |-> 4, f64 |-> 8]
\* buffer: [b, pos] with pos counting the bytes read
AtOr0(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
Bytes(s, n) == [i \in 1..n |-> AtOr0(s.b, s.pos + i)]

EpBytes(v) == <<0, 2>> \o <<(v[5] \div 256) % 256, v[5] % 256>> \o SubSeq(v, 1, 4) \o Zeros(8)
BufWrite(s, t, v) ==
  [s EXCEPT !.b = @ \o
     (CASE t \in DOMAIN Widths -> v
        [] t = "bytes" -> v
        [] t = "u16v"  -> Flat([i \in 1..Len(v) |-> LE2(v[i])])
        [] t = "rev"   -> v
        [] t = "ss"    -> <<Len(v) % 256>> \o v
        [] t = "cs"    -> LE2(Len(v)) \o v
        [] t = "ep"    -> EpBytes(v))]

\* [s, v, sure]: sure is FALSE where only the amount read is specified
BufRead(s, t, n) ==
  CASE t \in DOMAIN Widths ->
         [s |-> [s EXCEPT !.pos = @ + Widths[t]], v |-> Bytes(s, Widths[t])]
    [] t = "bytes" -> [s |-> [s EXCEPT !.pos = @ + n], v |-> Bytes(s, n)]
    [] t = "u16v"  -> LET w == Bytes(s, 2 * n) IN
                      [s |-> [s EXCEPT !.pos = @ + 2 * n], v |-> [i \in 1..n |-> U16(w, 2 * i - 1)]]
    [] t = "rev"   -> [s |-> [s EXCEPT !.pos = @ + 2], v |-> Bytes(s, 2)]
    [] t = "ss"    -> LET k == Bytes(s, 1)[1]
                          s1 == [s EXCEPT !.pos = @ + 1]
                      IN [s |-> [s1 EXCEPT !.pos = @ + k], v |-> Bytes(s1, k)]
    [] t = "cs"    -> LET k == U16(Bytes(s, 2), 1)
                          s1 == [s EXCEPT !.pos = @ + 2]
                      IN [s |-> [s1 EXCEPT !.pos = @ + k], v |-> Bytes(s1, k)]
    [] t = "ep"    -> LET w == Bytes(s, 16) IN
                      [s |-> [s EXCEPT !.pos = @ + 16],
                       v |-> SubSeq(w, 5, 8) \o SubSeq(w, 5, 8) \o <<256 * w[3] + w[4]>>]

Within(s) == s.pos <= Len(s.b)
\* do the observed results res explain the steps from buffer s on?
\* A read past the end must leave the buffer invalid, what it yields is not specified.
RECURSIVE BufRun(_, _, _, _)
BufRun(s, steps, res, i) ==
  IF i > Len(steps) THEN [ok |-> TRUE, b |-> s.b]
  ELSE LET st == steps[i]
           o  == res[i]
           w  == "w" \in DOMAIN st
           rd == IF w THEN [s |-> BufWrite(s, st.w, st.v), v |-> <<>>] ELSE BufRead(s, st.r, Fld(st, "n", 0))
           s2 == rd.s
           good == /\ o.valid = Within(s2)
                   /\ o.size = Len(s2.b)
                   /\ Within(s2) => /\ o.v = rd.v
                                    /\ o.pos = s2.pos
                                    /\ o.empty = (s2.pos = Len(s2.b))
       IN IF ~good THEN [ok |-> FALSE]
          ELSE IF ~Within(s2) THEN [ok |-> TRUE, stop |-> TRUE]
          ELSE BufRun(s2, steps, res, i + 1)
BufOk(a, r) ==
  /\ Len(r.res) = Len(a.steps)
  /\ LET x == BufRun([b |-> Fld(a, "init", <<>>), pos |-> 0], a.steps, r.res, 1) IN
       x.ok /\ ("b" \in DOMAIN x => r.b = x.b)

(* --------------------------------------------------------------------- EPATH *)
Dec(n) == ToString(n)
PathText(p) ==
  CASE Len(p) = 0 -> "[classId=0]"
    [] Len(p) = 1 -> "[classId=" \o Dec(p[1]) \o "]"
    [] Len(p) = 2 -> "[classId=" \o Dec(p[1]) \o " objectId=" \o Dec(p[2]) \o "]"
    [] OTHER -> "[classId=" \o Dec(p[1]) \o " objectId=" \o Dec(p[2]) \o " attributeId=" \o Dec(p[3]) \o "]"

ExpEPath(a) ==
  LET yas == Fld(a, "yas", 0) # 0
      eight == yas \/ Fld(a, "eight", 0) # 0
  IN IF eight /\ ~Fits8(a.path) THEN Fail
     ELSE R([b |-> EPath(a.path, eight), w |-> EPathWords(a.path, eight), same |-> Len(a.path) > 0,
             str |-> PathText(a.path)])

ExpEPathX(a) ==
  LET p == PathParse(a.b) IN
  IF ~p.ok THEN Fail
  ELSE IF Fld(a, "yas", 0) # 0 /\ \E i \in 1..3 : p.ids[i] > 255 THEN Unspec
  ELSE R([ids |-> p.ids, w |-> p.n])

(* --------------------------------------------------------- packets and items *)
ItemsOut(its) == [i \in 1..Len(its) |-> [t |-> its[i].t, n |-> Len(its[i].d), d |-> its[i].d]]
ExpCpf(a)  == R([b |-> PackCpf(a.items), items |-> ItemsOut(a.items), same |-> TRUE])
ExpCpfX(a) == LET c == CpfParse(a.b) IN IF c.ok THEN R([items |-> c.items]) ELSE Fail

ExpFactory(a) ==
  R([null |-> PackItem(Item(0, <<>>)), uncon |-> PackItem(Item(178, a.data)), con |-> PackItem(Item(177, a.data)),
     seq |-> PackItem(Item(32770, a.h \o a.n)), reg |-> RegisterReq, unreg |-> UnregisterReq(a.h),
     rr |-> Encaps(CmdRRData, a.h, Zero4, Zero4 \o LE2(a.to) \o a.data), li |-> ListIdentityReq])

ExpEnc(a)  == R([b |-> Encaps(a.cmd, a.h, a.st, a.data), same |-> TRUE, n |-> Len(a.data)])
ExpEncX(a) ==
  LET p == EncParse(a.b) IN
  IF ~p.ok THEN Fail
  ELSE R([cmd |-> p.cmd, n |-> p.n, h |-> p.h, st |-> p.st, data |-> p.data, b |-> a.b])

ExpMrX(a) ==
  LET m == MrParse(a.b) IN
  IF ~m.ok THEN Fail ELSE R([svc |-> m.svc, st |-> m.st, add |-> m.add, data |-> m.data])

ExpFoX(a) ==
  LET f == FwdOpenParse(a.b) IN
  IF ~f.ok THEN Fail
  ELSE R([o2t |-> f.o2t, t2o |-> f.t2o, serial |-> U16(f.serial, 1), vendor |-> f.vendor, oserial |-> f.oserial,
          o2tApi |-> f.o2tApi, t2oApi |-> f.t2oApi, n |-> f.n, app |-> f.app])

(* ------------------------------------------------ connection parameters word *)
ExpNcp(a) ==
  LET lg == a.large # 0
      flags == a.red * 32768 + a.ct * 8192 + a.prio * 1024 + a.ty * 512
      v == IF lg THEN LE2(a.size) \o LE2(flags)
           ELSE LE2(flags + (a.size % 512)) \o <<0, 0>>
  IN R([v |-> v, ct |-> a.ct, prio |-> a.prio, ty |-> a.ty, red |-> a.red # 0,
        size |-> IF lg THEN a.size ELSE a.size % 512])

\* the word after each setter: a setter replaces its field and leaves the rest alone
FieldAt == [red |-> [at |-> 15, n |-> 2], ct |-> [at |-> 13, n |-> 4], prio |-> [at |-> 10, n |-> 4], ty |-> [at |-> 9, n |-> 2]]
NcpGet(h, f) == (h \div Pow2(FieldAt[f].at)) % FieldAt[f].n
NcpSet(h, f, v) == h - NcpGet(h, f) * Pow2(FieldAt[f].at) + v * Pow2(FieldAt[f].at)
\* w: [hi, lo], the two halves of the word
NcpWord(w) == LE2(w.lo) \o LE2(w.hi)
NcpStep(w, lg, st) ==
  IF st.f = "size" THEN [w EXCEPT !.lo = IF lg THEN st.v ELSE @ - (@ % 512) + (st.v % 512)]
  ELSE IF lg THEN [w EXCEPT !.hi = NcpSet(@, st.f, st.v)] ELSE [w EXCEPT !.lo = NcpSet(@, st.f, st.v)]
NcpView(w, lg) ==
  LET h == IF lg THEN w.hi ELSE w.lo IN
  [v |-> NcpWord(w), ct |-> NcpGet(h, "ct"), prio |-> NcpGet(h, "prio"), ty |-> NcpGet(h, "ty"), red |-> NcpGet(h, "red") = 1,
   size |-> IF lg THEN w.lo ELSE w.lo % 512]
RECURSIVE NcpRun(_, _, _)
NcpRun(w, lg, steps) ==
  IF steps = <<>> THEN <<>>
  ELSE LET x == NcpStep(w, lg, Head(steps)) IN <<NcpView(x, lg)>> \o NcpRun(x, lg, Tail(steps))
ExpNcpSeq(a) == R([res |-> NcpRun([lo |-> U16(a.v, 1), hi |-> U16(a.v, 3)], a.large # 0, a.steps)])

(* ----------------------------------------------------------------- comparison *)
\* what counts when two values are compared
EqKey(k, x) ==
  CASE k = "item" -> <<x.t, x.d>>
    [] k = "rev"  -> <<x.maj, x.min>>
    [] k = "ep"   -> <<x.host, x.port>>
    [] k \in {"path", "ypath"} -> x.p
    [] OTHER -> <<x.cmd, x.h, x.st, x.data, IF "ctx" \in DOMAIN x THEN SubSeq(x.ctx, 13, 24) ELSE Zeros(12)>>
ExpEq(a) ==
  LET e == EqKey(a.k, a.x) = EqKey(a.k, a.y)
      r == [eq |-> e, rev |-> e, self |-> TRUE]
  IN R(IF a.k \in {"item", "ep", "enc"} THEN r @@ [ne |-> ~e] ELSE r)

(* ---------------------------------------------------- objects without a device *)
ExpFresh(a) ==
  R([ss |-> <<0>>, cs |-> <<0, 0>>, sslen |-> 0, cslen |-> 0, rev |-> <<0, 0>>, item |-> Zeros(4), enc |-> Zeros(24), cpf |-> <<0, 0>>,
     path |-> 0, mr |-> [svc |-> 1, st |-> 0, add |-> <<>>, data |-> <<>>, items |-> <<>>],
     fo |-> <<0, 0>>, dpi |-> <<0, 0, 0>>])

\* an address: a host which is none leaves 0.0.0.0
EpView(host, ip, port) == [host |-> host, port |-> port, ip |-> ip, aport |-> port, inet |-> TRUE]
ExpEp(a) ==
  R([e |-> EpView(a.host, a.ip, a.port), str |-> a.host \o ":" \o Dec(a.port),
     f |-> EpView(Dec(a.ip[1]) \o "." \o Dec(a.ip[2]) \o "." \o Dec(a.ip[3]) \o "." \o Dec(a.ip[4]), a.ip, a.port),
     same |-> a.valid # 0])

ExpPLocal(a) ==
  LET z == Zeros(Widths[a.ty])
      lim == IF a.full # 0 THEN [min |-> z, max |-> z, def |-> z] ELSE [x \in {} |-> 0]
      base == [full |-> a.full # 0, inst |-> a.inst, cls |-> 15, prm |-> 0, val |-> z] @@ lim
  IN R([first |-> base @@ [scal |-> FALSE, ro |-> FALSE, type |-> 0, name |-> <<>>, units |-> <<>>, help |-> <<>>,
                           mul |-> 1, div |-> 1, base |-> 1, off |-> 0, prec |-> 0],
        second |-> base @@ [scal |-> a.scal # 0, ro |-> a.ro # 0, type |-> a.type, name |-> a.name, units |-> a.units, help |-> a.help,
                            mul |-> a.mul, div |-> a.div, base |-> a.base, off |-> a.off, prec |-> a.prec]])

ExpILocal(a) ==
  R([first |-> [vendor |-> 0, dtype |-> 0, pcode |-> 0, maj |-> 0, min |-> 0, status |-> 0, serial |-> Zero4, name |-> <<>>],
     second |-> [vendor |-> a.vendor, dtype |-> a.dtype, pcode |-> a.pcode, maj |-> a.maj, min |-> a.min, status |-> a.status,
                 serial |-> a.serial, name |-> a.name],
     inst |-> a.inst, cls |-> 1, rev |-> Dec(a.maj) \o "." \o Dec(a.min)])

(* ------------------------------------------------------------------ all of it *)
CodecOps == {"epath", "epathx", "cpf", "cpfx", "factory", "enc", "encx", "mrx", "fox", "ncp",
             "ncpseq", "eq", "fresh", "ep", "plocal", "ilocal"}
Expect(op, a) ==
  CASE op = "epath"   -> ExpEPath(a)
    [] op = "epathx"  -> ExpEPathX(a)
    [] op = "cpf"     -> ExpCpf(a)
    [] op = "cpfx"    -> ExpCpfX(a)
    [] op = "factory" -> ExpFactory(a)
    [] op = "enc"     -> ExpEnc(a)
    [] op = "encx"    -> ExpEncX(a)
    [] op = "mrx"     -> ExpMrX(a)
    [] op = "fox"     -> ExpFoX(a)
    [] op = "ncp"     -> ExpNcp(a)
    [] op = "ncpseq"  -> ExpNcpSeq(a)
    [] op = "eq"      -> ExpEq(a)
    [] op = "fresh"   -> ExpFresh(a)
    [] op = "ep"      -> ExpEp(a)
    [] op = "plocal"  -> ExpPLocal(a)
    [] op = "ilocal"  -> ExpILocal(a)
=============================================================================
