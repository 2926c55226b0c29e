------------------------------- MODULE BufModel ------------------------------
(* The buffer: every program of so many writes and reads over the types and     *)
(* their boundary values, from several contents.                                *)
EXTENDS Codec, Peer

CONSTANTS Inits, Types,   \* the types written
          Steps, Show, Every

VARIABLES s, init, pend, follow, fifo, steps, last
vars == <<s, init, pend, follow, fifo, steps, last>>
\* s: the buffer as Codec.tla has it. pend: what was written and not read, as long as reads
\* follow the writes. fifo: the unread bytes (two descriptions that must agree with s).

Asc(n) == [i \in 1..n |-> i]
Str(n) == [i \in 1..n |-> 32 + ((i - 1) % 90)]
Values(t) ==
  CASE t \in {"f32", "f64"} -> {Zeros(Widths[t]), Asc(Widths[t]), [Zeros(Widths[t]) EXCEPT ![Widths[t]] = 128]}
    [] t \in DOMAIN Widths -> LET w == Widths[t] IN
         {Zeros(w), [i \in 1..w |-> 255], Asc(w), [Zeros(w) EXCEPT ![w] = 128], [[i \in 1..w |-> 255] EXCEPT ![w] = 127]}
    [] t = "bytes" -> {<<>>, <<0>>, <<255, 0, 10>>}
    [] t = "u16v" -> {<<>>, <<1>>, <<65535, 256, 255>>}
    [] t = "rev" -> {<<1, 2>>, <<255, 128>>}
    [] t = "ss" -> {<<>>, <<0>>, Str(127), Str(128), Str(255)}
    [] t = "cs" -> {<<>>, <<0>>, Str(127), Str(128), Str(255), Str(256)}
    [] t = "ep" -> {<<10, 0, 255, 1, 44818>>, <<0, 1, 2, 128, 255>>}
OddReads == {<<t, 0>> : t \in {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "rev", "ss", "cs", "ep"}}
            \cup {<<"bytes", 0>>, <<"bytes", 1>>, <<"bytes", 3>>, <<"u16v", 1>>}

Contents == <<<<>>, <<0>>, <<2, 0>>, <<0, 7, 8>>>>
Init == /\ init \in {Contents[i + 1] : i \in Inits} /\ s = [b |-> init, pos |-> 0] /\ fifo = init
        /\ pend = <<>> /\ follow = (init = <<>>) /\ steps = <<>> /\ last = [k |-> "none"] /\ TLCSet(1, 0) /\ TLCSet(2, <<>>)

Write(t, v) ==
  LET s2 == BufWrite(s, t, v) IN
  /\ s' = s2
  /\ fifo' = fifo \o From(s2.b, Len(s.b) + 1)
  /\ pend' = Append(pend, <<t, v>>)
  /\ steps' = Append(steps, [w |-> t, v |-> v])
  /\ last' = [k |-> "write", t |-> t, v |-> v, b |-> From(s2.b, Len(s.b) + 1)]
  /\ UNCHANGED follow
\* reads what was written first, as what it was written
Follow == /\ follow /\ pend # <<>>
          /\ LET t == pend[1][1]
                 v == pend[1][2]
                 r == BufRead(s, t, Len(v))
             IN /\ s' = r.s /\ pend' = Tail(pend) /\ fifo' = From(fifo, r.s.pos - s.pos + 1)
                /\ steps' = Append(steps, [r |-> t, n |-> Len(v)])
                /\ last' = [k |-> "follow", t |-> t, want |-> v, v |-> r.v]
          /\ UNCHANGED follow
Read(t, n) ==
  LET r == BufRead(s, t, n)
      k == r.s.pos - s.pos
  IN /\ s' = r.s /\ fifo' = From(fifo, k + 1) /\ pend' = <<>> /\ follow' = FALSE
     /\ steps' = Append(steps, [r |-> t, n |-> n])
     /\ last' = [k |-> "read", t |-> t, taken |-> SubSeq(fifo, 1, Min(k, Len(fifo))), n |-> k, had |-> Len(fifo), v |-> r.v]

Next == /\ Len(steps) < Steps /\ Within(s) /\ UNCHANGED init
        /\ \/ \E t \in Types : \E v \in Values(t) : Write(t, v)
           \/ Follow
           \/ \E x \in OddReads : Read(x[1], x[2])
        /\ ((Show /\ (Len(steps') = Steps \/ ~Within(s'))) =>
              /\ TLCSet(1, TLCGet(1) + 1)
              /\ (TLCGet(1) % Every = 0 => Collected("buffer", [op |-> "buf", init |-> init, steps |-> steps'], 8)))
Spec == Init /\ [][Next]_vars

\* what is unread is what was put in, in order, less what was read
Fifo == Within(s) => fifo = From(s.b, s.pos + 1)
\* the values come back
RoundTrip == last.k = "follow" =>
  Within(s) /\ last.v = (IF last.t = "ep" THEN SubSeq(last.want, 1, 4) \o last.want ELSE last.want)   \* as text and as bytes
\* numbers are their bytes, least significant first; strings are preceded by their length
Encoded ==
  last.k = "write" =>
    CASE last.t \in DOMAIN Widths -> last.b = last.v /\ Len(last.b) = Widths[last.t]
      [] last.t = "ss" -> Len(last.b) = Len(last.v) + 1 /\ last.b[1] = Len(last.v)
      [] last.t = "cs" -> Len(last.b) = Len(last.v) + 2 /\ last.b[1] + 256 * last.b[2] = Len(last.v)
      [] last.t = "u16v" -> Len(last.b) = 2 * Len(last.v)
      [] last.t = "ep" -> Len(last.b) = 16
      [] OTHER -> last.b = last.v
\* a read that asks for more than there is leaves the buffer invalid, any other does not
Bounds == last.k = "read" => (Within(s) <=> last.n <= last.had)
Taken == last.k = "read" /\ Within(s) /\ (last.t \in DOMAIN Widths \/ last.t \in {"bytes", "rev"}) => last.v = last.taken
=============================================================================
