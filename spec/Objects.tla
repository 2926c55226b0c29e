------------------------------- MODULE Objects -------------------------------
(* The client side programs of the library: for every operation that talks   *)
(* to a device, what it must do next given the outcomes it has seen so far,  *)
(* and what it must report in the end.                                       *)
(*                                                                           *)
(* Prog(op, a, x, h, hist):  op, a  the operation and its arguments          *)
(*                           x      the object it works on (before)          *)
(*                           h      handle of the session                    *)
(*                           hist   outcomes so far: responses or callbacks  *)
(* is one of                                                                 *)
(*   [k |-> "req", ...]   send this request (opt: may fail instead)          *)
(*   [k |-> "cb",  ...]   call this listener                                 *)
(*   [k |-> "done", ok, r, x]  return r (or throw), the object becomes x     *)
EXTENDS Wire, DpiFaultCodes, BigNum

GetSingle == 14
GetAll    == 1
SetSingle == 16
NoItems   == <<>>

Req(svc, b)    == [k |-> "req", svc |-> svc, b |-> b, opt |-> FALSE, skip |-> FALSE]
Std(h, svc, path, data) == Req(svc, RRReq(h, svc, path, FALSE, data, NoItems))
Done(r, x)     == [k |-> "done", ok |-> TRUE, r |-> r, x |-> x]
Throw(r, x)    == [k |-> "done", ok |-> FALSE, r |-> r, x |-> x]
None           == [z |-> 0]
Call(c)        == [k |-> "cb", c |-> c]

Good(o)  == o.cls \in {"valid", "odd"}
OkSt(o)  == Good(o) /\ o.st = 0

(* ------------------------------------------------------------------ requests *)
MrPath(a)  == Fld(a, "path", <<>>)
MrData(a)  == IF Fld(a, "form", 5) >= 4 THEN Fld(a, "data", <<>>) ELSE <<>>
MrItems(a) == IF Fld(a, "form", 5) >= 5 THEN Fld(a, "items", <<>>) ELSE <<>>
MrEight(a) == Fld(a, "r", "std") # "std"

ProgMr(a, x, h, hist) ==
  IF MrEight(a) /\ ~Fits8(MrPath(a)) THEN Throw(None, x)
  ELSE IF hist = <<>> THEN Req(a.svc, RRReq(h, a.svc, MrPath(a), MrEight(a), MrData(a), MrItems(a)))
  ELSE LET o == hist[1] IN
    IF ~Good(o) THEN Throw(None, x)
    ELSE Done([svc |-> o.svc, st |-> o.st, add |-> o.add, data |-> o.data, items |-> o.items], x)

\* a packet of the caller's own making; the outcome is the received packet itself
ProgRaw(a, x, h, hist) ==
  IF hist = <<>> THEN Req(-1, Encaps(a.cmd, Fld(a, "h", Zero4), Fld(a, "st", Zero4), Fld(a, "data", <<>>)))
                      @@ [cmd |-> a.cmd]
  ELSE LET o == hist[1] IN
    IF ~Good(o) THEN Throw(None, x)
    ELSE Done([cmd |-> EncCmd(o.p), n |-> EncLen(o.p), h |-> EncHandle(o.p), st |-> EncStatus(o.p),
               data |-> EncData(o.p)], x)

(* --------------------------------------------------------------- file object *)
\* x: [inst, st, n (next packet), size, tsize, content, over (outcome reported)]
FileClass == 55
StNone == 0
StEmpty == 1
StLoaded == 2
StUpload == 5
InvalidParameter == 32

SyncTarget(code) == CASE code = 0 -> StNone
                      [] code = 1 -> StEmpty
                      [] code \in {2, 3, 5} -> StLoaded
                      [] OTHER -> -1
NewFile(inst, st) == [inst |-> inst, st |-> st, n |-> 0, size |-> Zero4, tsize |-> 0, content |-> <<>>,
                      over |-> FALSE]

\* reads the state attribute; keep is the object if that fails
ProgSync(inst, keep, h, hist) ==
  LET kept == IF "st" \in DOMAIN keep THEN [state |-> keep.st] ELSE None IN
  IF hist = <<>> THEN Std(h, GetSingle, <<FileClass, inst, 1>>, <<>>)
  ELSE LET o == hist[1] IN
    IF ~OkSt(o) \/ o.data = <<>> THEN Throw(kept, keep)
    ELSE LET t == SyncTarget(o.data[1]) IN
      IF t = -1 THEN Throw(kept, keep) ELSE Done([state |-> t], NewFile(inst, t))

FileCb(f, st, b) == Call([k |-> "file", f |-> f, st |-> st, b |-> b])

ProgBegin(a, x, h, hist) ==
  IF x.st # StLoaded THEN Done([state |-> x.st], x)
  ELSE IF hist = <<>> THEN Std(h, 75, <<FileClass, x.inst>>, <<255>>)
  ELSE LET o == hist[1] IN
    IF ~Good(o) THEN Throw(None, x)
    ELSE IF o.st # 0 \/ Len(o.data) < 5 THEN
      IF Len(hist) = 1 THEN FileCb(a.f, IF o.st # 0 THEN o.st ELSE InvalidParameter, <<>>)
      ELSE Done([state |-> StLoaded], x)
    ELSE Done([state |-> StUpload],
              [x EXCEPT !.st = StUpload, !.n = 0, !.size = W4(o.data, 1), !.tsize = o.data[5],
                        !.content = <<>>, !.over = FALSE])

\* What the answer d to the transfer request does to the upload x
\*   more: continue with x; else the upload is over with [st, b]; bad: unusable
FileStep(x, d) ==
  LET fail == [k |-> "end", st |-> InvalidParameter, b |-> <<>>] IN
  IF Len(d) < 2 THEN fail
  ELSE IF d[1] # x.n THEN fail
  ELSE CASE d[2] \in {0, 1} ->
              IF Len(d) - 2 < x.tsize THEN fail
              ELSE [k |-> "more", x |-> [x EXCEPT !.content = @ \o SubSeq(d, 3, 2 + x.tsize),
                                                  !.n = (x.n + 1) % 256]]
         [] d[2] \in {2, 4} ->
              IF Len(d) < 4 THEN fail
              ELSE LET all == x.content \o SubSeq(d, 3, Len(d) - 2) IN
                   IF x.size = LE4(Len(all)) THEN [k |-> "end", st |-> 0, b |-> all] ELSE fail
         [] OTHER -> [k |-> "bad"]

ProgXfer(a, x, h, hist) ==
  \* (an upload that is over is not continued: its outcome was reported)
  IF x.st # StUpload \/ x.over THEN Done([more |-> FALSE, state |-> x.st], x)
  ELSE IF hist = <<>> THEN Std(h, 79, <<FileClass, x.inst>>, <<x.n>>)
  ELSE LET o == hist[1] IN
    IF ~Good(o) THEN Throw(None, x)
    ELSE LET s == IF o.st # 0 THEN [k |-> "end", st |-> o.st, b |-> <<>>] ELSE FileStep(x, o.data) IN
      CASE s.k = "bad"  -> Throw(None, x)
        [] s.k = "more" -> Done([more |-> TRUE, state |-> StUpload], s.x)
        [] OTHER -> IF Len(hist) = 1 THEN FileCb(a.f, s.st, s.b)
                    ELSE Done([more |-> FALSE], [x EXCEPT !.over = TRUE])

(* ----------------------------------------------------------- parameter object *)
ParamClass == 15
Signed16(u) == IF u >= 32768 THEN u - 65536 ELSE u

BlankParam(a, n) ==
  [inst |-> a.inst, full |-> Fld(a, "full", 0) # 0, n |-> n, scal |-> FALSE, ro |-> FALSE, type |-> 0,
   name |-> <<>>, units |-> <<>>, help |-> <<>>, val |-> Zeros(n), min |-> Zeros(n), max |-> Zeros(n),
   def |-> Zeros(n), mul |-> 1, div |-> 1, base |-> 1, off |-> 0, prec |-> 0]

\* the attributes in d (Get Attributes All); scal/ro as far as they could be read
ParamAll(a, n, d) ==
  LET x0 == BlankParam(a, n)
      bad(sc) == [ok |-> FALSE, scal |-> sc, x |-> x0]
  IN IF Len(d) < n + 1 THEN bad(FALSE)
     ELSE LET i2 == n + 2 + d[n + 1] IN
       IF Len(d) < i2 + 2 THEN bad(Len(d) > i2 /\ Bit(U16(d, i2), 2) = 1)
       ELSE LET desc == U16(d, i2)
                sc == Bit(desc, 2) = 1
                x1 == [x0 EXCEPT !.val = SubSeq(d, 1, n), !.scal = sc, !.ro = Bit(desc, 4) = 1, !.type = d[i2 + 2]]
            IN IF ~x0.full THEN [ok |-> TRUE, scal |-> sc, x |-> x1]
               ELSE LET s1 == ShortStr(d, i2 + 4) IN IF ~s1.ok THEN bad(sc)
               ELSE LET s2 == ShortStr(d, s1.next) IN IF ~s2.ok THEN bad(sc)
               ELSE LET s3 == ShortStr(d, s2.next) IN IF ~s3.ok THEN bad(sc)
               ELSE LET i == s3.next
                        need == i + 3 * n - 1 + (IF sc THEN 17 ELSE 0)
                    IN IF Len(d) < need THEN bad(sc)
                       ELSE [ok |-> TRUE, scal |-> sc,
                             x |-> [x1 EXCEPT !.name = s1.s, !.units = s2.s, !.help = s3.s,
                                      !.min = SubSeq(d, i, i + n - 1), !.max = SubSeq(d, i + n, i + 2 * n - 1),
                                      !.def = SubSeq(d, i + 2 * n, i + 3 * n - 1),
                                      !.prec = IF sc THEN d[i + 3 * n + 16] ELSE 0]]

ParamSizes == [u8 |-> 1, i8 |-> 1, u16 |-> 2, i16 |-> 2, u32 |-> 4, i32 |-> 4, u64 |-> 8, i64 |-> 8, f32 |-> 4, f64 |-> 8]
ParamR(a, x) ==
  LET r == [full |-> x.full, scal |-> x.scal, ro |-> x.ro, type |-> x.type, inst |-> x.inst, cls |-> ParamClass,
            prm |-> x.inst, name |-> x.name, units |-> x.units, help |-> x.help, mul |-> x.mul, div |-> x.div,
            base |-> x.base, off |-> x.off, prec |-> x.prec]
      ty == Fld(a, "ty", "")
  IN IF ty \in DOMAIN ParamSizes /\ ParamSizes[ty] = x.n
     THEN r @@ [val |-> x.val] @@ (IF x.full THEN [min |-> x.min, max |-> x.max, def |-> x.def] ELSE None)
     ELSE r

ProgParam(a, x, h, hist) ==
  LET nil == [none |-> TRUE] IN
  IF hist = <<>> THEN Std(h, GetSingle, <<ParamClass, a.inst, 6>>, <<>>)
  ELSE IF ~OkSt(hist[1]) \/ hist[1].data = <<>> THEN Throw(None, nil)
  ELSE IF Len(hist) = 1 THEN Std(h, GetAll, <<ParamClass, a.inst>>, <<>>)
  ELSE IF ~OkSt(hist[2]) THEN Throw(None, nil)
  ELSE LET all == ParamAll(a, hist[1].data[1], hist[2].data)
           full == Fld(a, "full", 0) # 0
       \* (without all of the data, the scaling attributes may be read or not)
       IN IF ~(full /\ (all.scal \/ ~all.ok)) THEN IF all.ok THEN Done(ParamR(a, all.x), all.x) ELSE Throw(None, nil)
          ELSE LET m == Len(hist) IN
            IF m > 2 /\ ~OkSt(hist[m]) THEN Throw(None, nil)
            ELSE IF m < 6 THEN [Std(h, GetSingle, <<ParamClass, a.inst, 11 + m>>, <<>>) EXCEPT !.opt = ~all.ok]
            ELSE LET d == hist[3].data \o hist[4].data \o hist[5].data \o hist[6].data
                     x2 == [all.x EXCEPT !.mul = U16(d, 1), !.div = U16(d, 3), !.base = U16(d, 5),
                                         !.off = Signed16(U16(d, 7))]
                 IN IF Len(d) < 8 \/ ~all.ok THEN Throw(None, nil) ELSE Done(ParamR(a, x2), x2)

ProgUpdate(a, x, h, hist) ==
  IF hist = <<>> THEN Std(h, GetSingle, <<ParamClass, x.inst, 1>>, <<>>)
  ELSE LET o == hist[1] IN
    IF ~OkSt(o) \/ Len(o.data) < x.n THEN Throw(ParamR(a, x), x)
    ELSE LET x2 == [x EXCEPT !.val = SubSeq(o.data, 1, x.n)] IN Done(ParamR(a, x2), x2)

(* Engineering units: (v + off) mul base / (div 10^prec), in exact fractions.   *)
EngFrac(x, v) ==
  IF ~x.scal THEN v
  ELSE Frac(ZMul(ZMul(ZAdd(v.n, ZMul(ZInt(x.off), v.d)), BNat(x.mul)), BNat(x.base)),
            BMul(v.d, BMul(BNat(x.div), BTen(x.prec))))
\* the magnitude by which the error of a computation in floating point is judged
Scale(v, off) == Frac(Z(FALSE, BAdd(v.n.mag, BMul(BNat(Abs(off)), v.d))), v.d)
EngScale(x, v) == IF ~x.scal THEN Scale(v, 0)
                  ELSE EngFrac([x EXCEPT !.off = 0], Scale(v, x.off))
\* r (observed) is the engineering value of v; a division by zero is not specified
NearEng(x, v, r) ==
  \/ x.scal /\ x.div = 0
  \/ "m" \in DOMAIN r /\ Near(EngFrac(x, v), ObsFrac(r), EngScale(x, v), 9, 0)
\* r is v again, after a conversion there and back; cut to an integer: c = 1
Invertible(x) == ~x.scal \/ (x.div # 0 /\ x.mul # 0 /\ x.base # 0)
NearBack(x, v, r, k, c) == ~Invertible(x) \/ ("m" \in DOMAIN r /\ Near(v, ObsFrac(r), Scale(v, x.off), k, c))

(* ----------------------------------------------------------------- identity *)
ProgIdent(a, x, h, hist) ==
  IF hist = <<>> THEN Std(h, GetAll, <<1, 1>>, <<>>)
  ELSE LET o == hist[1] IN
    IF ~OkSt(o) THEN Throw(None, x)
    ELSE LET i == IdentityParse(o.data) IN
      IF ~i.ok THEN Throw(None, x)
      ELSE Done([vendor |-> i.vendor, dtype |-> i.dtype, pcode |-> i.pcode, maj |-> i.maj, min |-> i.min,
                 status |-> i.status, serial |-> i.serial, name |-> i.name, inst |-> a.inst], x)

(* ------------------------------------------------- PowerFlex 525 fault queue *)
FaultCodeParam(n) == IF n <= 3 THEN 6 + n ELSE 600 + n
FaultFreqParam(n) == 630 + n
FaultCurrParam(n) == 640 + n
FaultVoltParam(n) == 650 + n
DpiClass == 151

ProgDpiCmd(a, x, h, hist) ==
  IF hist = <<>> THEN Std(h, SetSingle, <<DpiClass, 0, 3>>, <<a.cmd>>)
  ELSE IF OkSt(hist[1]) THEN Done(None, x) ELSE Throw(None, x)

\* fault n, with the first i outcomes already explained
RECURSIVE DpiRun(_, _, _, _, _, _)
DpiRun(a, x, h, hist, n, i) ==
  LET clear(j) ==
        IF Fld(a, "clear", 0) # 0 /\ n > 1
        THEN ProgDpiCmd([cmd |-> 2], x, h, From(hist, j + 1))
        ELSE Done(None, x)
      read(prm) == Std(h, GetSingle, <<ParamClass, prm, 1>>, <<>>)
      ok(j) == OkSt(hist[j]) /\ Len(hist[j].data) >= 2
      w(j)  == U16(hist[j].data, 1)
      det   == Fld(a, "details", 0) # 0
  IN
  IF n > 10 THEN clear(i)
  ELSE IF Len(hist) = i THEN read(FaultCodeParam(n))
  ELSE IF ~ok(i + 1) THEN Throw(None, x)
  ELSE IF w(i + 1) = 0 THEN clear(i + 1)
  ELSE IF det /\ Len(hist) = i + 1 THEN read(FaultVoltParam(n))
  ELSE IF det /\ ~ok(i + 2) THEN Throw(None, x)
  ELSE IF det /\ Len(hist) = i + 2 THEN read(FaultCurrParam(n))
  ELSE IF det /\ ~ok(i + 3) THEN Throw(None, x)
  ELSE IF det /\ Len(hist) = i + 3 THEN read(FaultFreqParam(n))
  ELSE IF det /\ ~ok(i + 4) THEN Throw(None, x)
  ELSE IF w(i + 1) \notin DOMAIN DpiCodes THEN Throw(None, x)
  ELSE LET j == i + (IF det THEN 4 ELSE 1)
           f == DpiCodes[w(i + 1)]
       IN IF Len(hist) = j
          THEN Call([k |-> "fault", num |-> n, code |-> w(i + 1), ty |-> f.ty, text |-> f.text, desc |-> f.desc,
                     volt |-> IF det THEN 1000 * w(i + 2) ELSE 0,
                     cur  |-> IF det THEN 10 * w(i + 3) ELSE 0,
                     freq |-> IF det THEN 10 * w(i + 4) ELSE 0])
          ELSE DpiRun(a, x, h, hist, n + 1, j + 1)

ProgDpiObj(a, x, h, hist) ==
  IF hist = <<>> THEN Std(h, GetSingle, <<DpiClass, a.inst, 0>>, <<>>)
  ELSE LET o == hist[1] IN
    IF ~OkSt(o) \/ Len(o.data) < 30 THEN Throw(None, x)
    ELSE LET d == o.data IN
      Done([code |-> U16(d, 1), port |-> d[3], dev |-> d[4], text |-> SubSeq(d, 5, 20), timer |-> SubSeq(d, 21, 28),
            valid |-> Bit(d[29], 0) = 1, real |-> Bit(d[29], 1) = 1], x)

(* ------------------------------------------------------------------ all of it *)
RequestOps == {"mr", "raw", "file", "begin", "xfer", "fsync", "param", "update", "ident", "dpi", "dpicmd", "dpiobj"}
Prog(op, a, x, h, hist) ==
  CASE op = "mr"     -> ProgMr(a, x, h, hist)
    [] op = "raw"    -> ProgRaw(a, x, h, hist)
    [] op = "file"   -> ProgSync(a.inst, [none |-> TRUE], h, hist)
    [] op = "fsync"  -> ProgSync(x.inst, x, h, hist)
    [] op = "begin"  -> ProgBegin(a, x, h, hist)
    [] op = "xfer"   -> ProgXfer(a, x, h, hist)
    [] op = "param"  -> ProgParam(a, x, h, hist)
    [] op = "update" -> ProgUpdate(a, x, h, hist)
    [] op = "ident"  -> ProgIdent(a, x, h, hist)
    [] op = "dpi"    -> DpiRun(a, x, h, hist, 1, 0)
    [] op = "dpicmd" -> ProgDpiCmd(a, x, h, hist)
    [] op = "dpiobj" -> ProgDpiObj(a, x, h, hist)
=============================================================================
