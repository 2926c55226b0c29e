------------------------------- MODULE FileModel ------------------------------
(* Uploads of a file object: every announcement, every sequence of transfer   *)
(* answers of an alphabet (right and wrong packet numbers, types, payload      *)
(* lengths, statuses), mixed with synchronisations and further begins.         *)
(* The behaviour is that of Objects.tla; the invariants judge the history.     *)
EXTENDS System, Peer

CONSTANTS Sizes, TSizes,  \* what may be announced
          Devs,           \* how many answers may be other than proper
          Extra,          \* calls after the end of an upload, and others in between
          Steps, Show, Every

H == Handle
VARIABLES x, ops, n, dev, got, pk, last
vars == <<x, ops, n, dev, got, pk, last>>

(* ------------------------------------------------------------------ answers *)
\* the device's file; packet k holds bytes k*t+1 .. (k+1)*t of it
Content(size) == [i \in 1..size |-> (100 + 7 * i) % 256]
Pack(size, t, k) == SubSeq(Content(size), k * t + 1, Min(size, (k + 1) * t))
SizeNow == Num4(x.size)
K == Len(pk)                                      \* packets taken (not those that threw)
Final(size, t, k) == (k + 1) * t >= size
Kind(size, t, k) == IF Final(size, t, k) THEN (IF k = 0 THEN 2 ELSE 4) ELSE IF k = 0 THEN 0 ELSE 1
Proper == LET size == SizeNow  t == x.tsize IN
  [st |-> 0, d |-> <<K % 256, Kind(size, t, K)>> \o Pack(size, t, K) \o (IF Final(size, t, K) THEN <<1, 2>> ELSE <<>>)]
Wrong ==
  LET size == SizeNow  t == x.tsize
      p == Pack(size, t, K)
      k == Kind(size, t, K)
      sum == IF Final(size, t, K) THEN <<1, 2>> ELSE <<>>
      pay == {SubSeq(p, 1, i) : i \in 0..Len(p)} \cup {p \o <<9>>, p \o <<9, 9>>}
  IN {[st |-> 0, d |-> <<(K + j) % 256, ty>> \o q \o sum] : j \in {0}, ty \in 0..5, q \in pay}
     \cup {[st |-> 0, d |-> <<(K + j) % 256, ty>> \o p \o s] : j \in {1, 255}, ty \in {k, 1, 4}, s \in {<<>>, sum}}
     \cup {[st |-> s, d |-> q] : s \in {1, 4, 255}, q \in {<<>>, <<K % 256, k>> \o p \o sum}}
     \cup {[st |-> 0, d |-> SubSeq(<<K % 256, k>> \o p \o sum, 1, i)] : i \in 0..(Len(p) + Len(sum) + 1)}
Reply(svc, a) == RRReply(H, svc, a.st, <<>>, a.d, <<>>)
Op(op, a) == [op |-> op, s |-> 0, f |-> 0] @@ (IF a = <<>> THEN [z |-> 0] ELSE [rx |-> <<One(a[1])>>])
Valid(a) == [cls |-> "valid", st |-> a.st, add |-> <<>>, data |-> a.d, items |-> <<>>]

(* -------------------------------------------------------------------- steps *)
Do(op, svc, ans, what) ==
  LET arg == [f |-> 0, s |-> 0]
      p0 == Prog(op, arg, x, H, <<>>)
      asks == p0.k = "req"
      p1 == IF asks THEN Prog(op, arg, x, H, <<Valid(ans)>>) ELSE p0
      calls == p1.k = "cb"
      p2 == IF calls THEN Prog(op, arg, x, H, <<Valid(ans), [cls |-> "cb", c |-> p1.c]>>) ELSE p1
  IN /\ n < Steps
     /\ x' = IF p2.ok THEN p2.x ELSE IF op = "fsync" THEN p2.x ELSE x
     /\ ops' = Append(ops, Op(op, IF asks THEN <<Reply(svc, ans)>> ELSE <<>>))
     /\ n' = n + 1
     /\ got' = IF op = "begin" /\ asks THEN <<>> ELSE IF calls THEN Append(got, p1.c) ELSE got
     /\ pk' = IF op = "begin" /\ asks THEN <<>> ELSE IF op = "xfer" /\ asks /\ p2.ok THEN Append(pk, ans) ELSE pk
     /\ last' = what
     /\ (Show => /\ TLCSet(1, TLCGet(1) + 1)
                 /\ TLCGet(1) % Every = 0 => PrintT(Script("upload", ops' \o <<PlainOp(0, H)>>)))

Init == /\ x = NewFile(200, StLoaded) /\ n = 0 /\ dev = 0 /\ got = <<>> /\ pk = <<>> /\ last = "new"
        /\ ops = <<SessOp(0, H), [op |-> "file", s |-> 0, f |-> 0, inst |-> 200, rx |-> <<One(Reply(14, [st |-> 0, d |-> <<2>>]))>>]>>
        /\ TLCSet(1, 0)

Over == x.over
Begin == (x.st = StLoaded \/ Extra)
         /\ \E size \in Sizes, t \in TSizes : Do("begin", 75, [st |-> 0, d |-> LE4(size) \o <<t>>], "begin")
         /\ UNCHANGED dev
Transfer == x.st = StUpload /\ ~x.over
            /\ \/ Do("xfer", 79, Proper, "xfer") /\ UNCHANGED dev
               \/ dev < Devs /\ (\E a \in Wrong \ {Proper} : Do("xfer", 79, a, "xfer")) /\ dev' = dev + 1
Sync == Extra /\ last # "sync" /\ (\E c \in {0, 1, 2, 4} : Do("fsync", 14, [st |-> 0, d |-> <<c>>], "sync")) /\ UNCHANGED dev
Idle == Extra /\ (x.st # StUpload \/ Over) /\ last # "idle" /\ Do("xfer", 79, [st |-> 0, d |-> <<0, 0>>], "idle") /\ UNCHANGED dev
Next == Begin \/ Transfer \/ Sync \/ Idle
Spec == Init /\ [][Next]_vars
View == <<x, n, dev, got, pk, last>>

(* --------------------------------------------------------------- properties *)
RECURSIVE Joined(_)
Joined(ps) == IF ps = <<>> THEN <<>> ELSE Joined(SubSeq(ps, 1, Len(ps) - 1)) \o
  LET d == ps[Len(ps)].d IN IF d[2] \in {2, 4} THEN SubSeq(d, 3, Len(d) - 2) ELSE From(d, 3)
\* one outcome for an upload
OneOutcomeOnly == Len(got) <= 1
\* success: exactly the bytes of packets 0, 1, 2 ... of full size and one last, as many as announced
SuccessIsComplete ==
  Over /\ got[1].st = 0 =>
    /\ \A i \in 1..Len(pk) : pk[i].st = 0 /\ Len(pk[i].d) >= 2 /\ pk[i].d[1] = i - 1
    /\ \A i \in 1..Len(pk) - 1 : pk[i].d[2] \in {0, 1} /\ Len(pk[i].d) >= 2 + x.tsize
    /\ pk[Len(pk)].d[2] \in {2, 4} /\ Len(pk[Len(pk)].d) >= 4
    /\ Len(got[1].b) = Num4(x.size)
    /\ ((\A i \in 1..Len(pk) - 1 : Len(pk[i].d) = 2 + x.tsize) => got[1].b = Joined(pk))
\* an error delivers nothing
ErrorIsEmpty == \A i \in 1..Len(got) : got[i].st # 0 => got[i].b = <<>>
\* a device that answers properly is uploaded
ProperSucceeds == Over /\ dev = 0 => got[1].st = 0 /\ got[1].b = Content(Num4(x.size))
=============================================================================
