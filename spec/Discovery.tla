------------------------------ MODULE Discovery ------------------------------
(* Device discovery: which devices the answers to a List Identity request    *)
(* announce. Garbage announces nothing and hides nobody.                     *)
EXTENDS Wire

\* device announced by the data of an identity item
DevOf(d) ==
  IF Len(d) < 18 THEN [ok |-> FALSE]
  ELSE LET i == IdentityParse(From(d, 19)) IN
    IF ~i.ok THEN [ok |-> FALSE]
    ELSE [ok |-> TRUE, usual |-> U16(d, 1) = 1 /\ SubSeq(d, 3, 4) = <<0, 2>>,
          v |-> [vendor |-> i.vendor, dtype |-> i.dtype, pcode |-> i.pcode, maj |-> i.maj, min |-> i.min,
                 status |-> i.status, serial |-> i.serial, name |-> i.name,
                 ip |-> SockAddr(From(d, 3)).ip, port |-> SockAddr(From(d, 3)).port]]

\* devices of one answer, in order; must: a proper answer, which has to be listed
DevsOf(b) ==
  IF Len(b) < 24 THEN <<>>
  ELSE LET c == CpfParse(From(b, 25)) IN
    IF ~c.ok THEN <<>>
    ELSE LET proper == /\ EncCmd(b) = CmdListIdentity /\ EncStatus(b) = Zero4
                       /\ EncLen(b) = Len(b) - 24 /\ c.exact
             one(it) == IF it.t # 12 THEN <<>>
                        ELSE LET d == DevOf(it.d) IN
                             IF d.ok THEN <<[must |-> proper /\ d.usual, v |-> d.v]>> ELSE <<>>
         IN Flat([i \in 1..Len(c.items) |-> one(c.items[i])])

\* is the list of reported devices explained by the announced ones?
SameDev(v, x) == \A f \in DOMAIN v : f \in DOMAIN x /\ x[f] = v[f]
RECURSIVE Explains(_, _)
Explains(announced, listed) ==
  IF announced = <<>> THEN listed = <<>>
  ELSE \/ /\ listed # <<>>
          /\ SameDev(Head(announced).v, Head(listed))
          /\ Explains(Tail(announced), Tail(listed))
     \/ /\ ~Head(announced).must
        /\ Explains(Tail(announced), listed)

\* Collecting: answers (sorted by arrival) are taken until silence for `to`.
\* cost: the time one reception takes. sigs: when signals interrupt the waiting,
\* which may then start anew (with <<>> it just goes on).
RECURSIVE Collect(_, _, _, _, _)
Collect(net, sigs, now, to, cost) ==
  LET comes == net # <<>> /\ Head(net).at <= now + to
      until == IF comes THEN Head(net).at ELSE now + to
  IN IF sigs # <<>> /\ Head(sigs) < until THEN Collect(net, Tail(sigs), Max(now, Head(sigs)), to, cost)
     ELSE IF ~comes THEN [devs |-> <<>>, t |-> now + to, rest |-> net]
     ELSE LET r == Collect(Tail(net), sigs, Max(now, Head(net).at) + cost, to, cost)
          IN [devs |-> DevsOf(Head(net).b) \o r.devs, t |-> r.t, rest |-> r.rest]
=============================================================================
