------------------------------- MODULE MEdn -------------------------------
(* The notation.  Read(cs) is the value that a text, given as the sequence of its characters, denotes: an
   independent reader of the notation, written from its definition.

   The result of reading is [s, i, v]: s is "ok" (a value, v, was read and the text goes on at i), "bad" (the
   text denotes nothing) or "any" (the notation does not say).  A value is [t, s, xs]: its kind, a canonical
   text of an atom, and the parts of a collection; the parts of a map are its keys and values, in turn.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Node(t, s, xs) == [t |-> t, s |-> s, xs |-> xs]
Nil == Node("nil", "", <<>>)
ROk(v, i) == [s |-> "ok", i |-> i, v |-> v]
RBad == [s |-> "bad", i |-> 0, v |-> Nil]
RAny == [s |-> "any", i |-> 0, v |-> Nil]

Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Lower == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
Upper == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
LHex == Digit \cup {"a", "b", "c", "d", "e", "f"}
Initial == Digit \cup Lower \cup Upper \cup {"*", "!", "_", "?", "$", "%", "&", "=", "<", ">"}
Subsequent == Initial \cup {"+", "-"}
Space == {" ", "\r", "\n", "\t", ","}
Opens == {"[", "(", "{"}
Closes == {"]", ")", "}"}
Delim == Space \cup Opens \cup Closes \cup {";", "\"", "#"}

\* The number a digit stands for.
DigitNo ==
  ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("3" :> 3) @@ ("4" :> 4) @@ ("5" :> 5) @@ ("6" :> 6) @@ ("7" :> 7) @@ ("8" :> 8) @@ ("9" :> 9)
  @@ ("a" :> 10) @@ ("b" :> 11) @@ ("c" :> 12) @@ ("d" :> 13) @@ ("e" :> 14) @@ ("f" :> 15) @@ ("g" :> 16) @@ ("h" :> 17) @@ ("i" :> 18)
  @@ ("j" :> 19) @@ ("k" :> 20) @@ ("l" :> 21) @@ ("m" :> 22) @@ ("n" :> 23) @@ ("o" :> 24) @@ ("p" :> 25) @@ ("q" :> 26) @@ ("r" :> 27)
  @@ ("s" :> 28) @@ ("t" :> 29) @@ ("u" :> 30) @@ ("v" :> 31) @@ ("w" :> 32) @@ ("x" :> 33) @@ ("y" :> 34) @@ ("z" :> 35)
  @@ ("A" :> 10) @@ ("B" :> 11) @@ ("C" :> 12) @@ ("D" :> 13) @@ ("E" :> 14) @@ ("F" :> 15) @@ ("G" :> 16) @@ ("H" :> 17) @@ ("I" :> 18)
  @@ ("J" :> 19) @@ ("K" :> 20) @@ ("L" :> 21) @@ ("M" :> 22) @@ ("N" :> 23) @@ ("O" :> 24) @@ ("P" :> 25) @@ ("Q" :> 26) @@ ("R" :> 27)
  @@ ("S" :> 28) @@ ("T" :> 29) @@ ("U" :> 30) @@ ("V" :> 31) @@ ("W" :> 32) @@ ("X" :> 33) @@ ("Y" :> 34) @@ ("Z" :> 35)

RECURSIVE Join(_)
Join(cs) == IF cs = <<>> THEN "" ELSE IF Len(cs) = 1 THEN cs[1]
            ELSE LET h == Len(cs) \div 2 IN Join(SubSeq(cs, 1, h)) \o Join(SubSeq(cs, h + 1, Len(cs)))
All(cs, C) == \A i \in DOMAIN cs : cs[i] \in C
Digits(cs) == cs # <<>> /\ All(cs, Digit)
From(cs, i) == SubSeq(cs, i, Len(cs))
\* The first position, from i on, of a character in C (or just after the end).
RECURSIVE Find(_, _, _)
Find(cs, i, C) == IF i > Len(cs) THEN i ELSE IF cs[i] \in C THEN i ELSE Find(cs, i + 1, C)
RECURSIVE Skip(_, _)
\* The first position that is neither space nor part of a comment.
Skip(cs, i) ==
  IF i > Len(cs) THEN i
  ELSE IF cs[i] \in Space THEN Skip(cs, i + 1)
  ELSE IF cs[i] = ";" THEN Skip(cs, Find(cs, i, {"\n", "\r"}))
  ELSE i

-----------------------------------------------------------------------------
\* Numbers of any size are sequences of decimal digits, the least significant first.

RECURSIVE MulAdd(_, _, _)
MulAdd(ds, m, c) ==
  IF ds = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c % 10>> \o MulAdd(<<>>, m, c \div 10))
  ELSE LET x == ds[1] * m + c IN <<x % 10>> \o MulAdd(Tail(ds), m, x \div 10)
RECURSIVE Horner(_, _, _)
Horner(cs, base, acc) == IF cs = <<>> THEN acc ELSE Horner(Tail(cs), base, MulAdd(acc, base, DigitNo[cs[1]]))
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
\* Decimal digits, the most significant first, without leading zeros.
Number10(cs, base) == Rev(Horner(cs, base, <<>>))

I64Max == <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 7>>
I64Min == <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 8>>
LeqDigits(a, b) ==
  \/ Len(a) < Len(b)
  \/ /\ Len(a) = Len(b)
     /\ \/ a = b
        \/ LET i == CHOOSE j \in DOMAIN a : a[j] # b[j] /\ \A k \in 1..(j - 1) : a[k] = b[k] IN a[i] < b[i]
ShowDigits(neg, ds) == IF ds = <<>> THEN "0" ELSE (IF neg THEN "-" ELSE "") \o Join([i \in DOMAIN ds |-> ToString(ds[i])])
Int64(neg, ds) == IF LeqDigits(ds, IF neg THEN I64Min ELSE I64Max) THEN ROk(Node("int", ShowDigits(neg, ds), <<>>), 0) ELSE RBad

SignedBody(cs) == IF cs # <<>> /\ cs[1] \in {"+", "-"} THEN Tail(cs) ELSE cs
Negative(cs) == cs # <<>> /\ cs[1] = "-"

\* A small number.
RECURSIVE SmallN(_, _)
SmallN(cs, acc) == IF cs = <<>> THEN acc ELSE SmallN(Tail(cs), acc * 10 + DigitNo[cs[1]])
Small(cs) == SmallN(cs, 0)

\* A decimal number is digits, without zeros at either end, and a power of ten.
RECURSIVE StripEnd(_)
StripEnd(ds) == IF ds # <<>> /\ ds[Len(ds)] = 0 THEN StripEnd(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds
RECURSIVE StripStart(_)
StripStart(ds) == IF ds # <<>> /\ ds[1] = 0 THEN StripStart(Tail(ds)) ELSE ds
Decimal(neg, int, frac, exp) ==
  LET all == [i \in DOMAIN (int \o frac) |-> DigitNo[(int \o frac)[i]]]
      a == StripStart(all)
      b == StripEnd(a)
      e == exp - Len(frac) + (Len(a) - Len(b))
      lead == Len(a) - Len(frac) + exp    \* where the first digit stands
  IN IF b = <<>> THEN ROk(Node("float", "0", <<>>), 0)
     ELSE IF Len(b) > 15 \/ lead > 300 \/ lead < -300 THEN RAny   \* not exactly a double
     ELSE ROk(Node("float", ShowDigits(neg, b) \o "e" \o ToString(e), <<>>), 0)

Float(cs) ==
  LET b == SignedBody(cs)
      x == Find(b, 1, {"e", "E"})
      m == SubSeq(b, 1, x - 1)
      p == Find(m, 1, {"."})
      int == SubSeq(m, 1, p - 1)
      frac == From(m, p + 1)
      ex == From(b, x + 1)
      ok == /\ Digits(int)
            /\ (p <= Len(m) => Digits(frac))
            /\ (x <= Len(b) => Digits(SignedBody(ex)))
            /\ Len(ex) < 6
  IN IF ~ok \/ (Len(int) > 1 /\ int[1] = "0") THEN RAny
     ELSE Decimal(Negative(cs), int, frac, IF x > Len(b) THEN 0 ELSE (IF Negative(ex) THEN -1 ELSE 1) * Small(SignedBody(ex)))

\* Anything that begins with a digit or a sign.
Number(cs) ==
  LET b == SignedBody(cs)
      r == Find(cs, 1, {"r"})
      base == SubSeq(cs, 1, r - 1)
  IN CASE Len(b) > 1 /\ b[Len(b)] = "N" /\ Digits(SubSeq(b, 1, Len(b) - 1)) ->
            ROk(Node("big", ShowDigits(Negative(cs), Number10(SubSeq(b, 1, Len(b) - 1), 10)), <<>>), 0)
       [] Digits(b) ->
            IF b = cs /\ Len(b) > 1 /\ b[1] = "0" THEN
              (IF \A i \in DOMAIN b : b[i] \notin {"8", "9"} THEN Int64(FALSE, Number10(b, 8)) ELSE RAny)
            ELSE Int64(Negative(cs), Number10(b, 10))
       [] Len(cs) > 2 /\ cs[1] = "0" /\ cs[2] = "x" /\ (\A i \in 3..Len(cs) : cs[i] \in DOMAIN DigitNo /\ DigitNo[cs[i]] < 16) -> Int64(FALSE, Number10(From(cs, 3), 16))
       [] r <= 3 /\ r < Len(cs) /\ Digits(base) /\ base[1] # "0" /\ Small(base) \in 2..36 /\ All(From(cs, r + 1), DOMAIN DigitNo) ->
            LET ds == From(cs, r + 1) IN
            IF \A i \in DOMAIN ds : DigitNo[ds[i]] < Small(base) THEN Int64(FALSE, Number10(ds, Small(base))) ELSE RBad
       [] OTHER -> Float(cs)

-----------------------------------------------------------------------------
\* Instants: [d, s, n], the days since 1970-01-01, the seconds of the day and the nanoseconds of the second.

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthDays(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* Days before the first of January of a year, counted from the year 0.
YearDays(y) == 365 * y + (y + 3) \div 4 - (y + 99) \div 100 + (y + 399) \div 400
RECURSIVE MonthStart(_, _)
MonthStart(y, m) == IF m = 1 THEN 0 ELSE MonthStart(y, m - 1) + MonthDays(y, m - 1)
InstNode(d, s, n) == Node("inst", ToString(d) \o ":" \o ToString(s) \o ":" \o ToString(n), <<>>)
\* Carry seconds that lie outside the day.
CarryInst(d, s, n) == IF s < 0 THEN InstNode(d - 1, s + 86400, n) ELSE IF s >= 86400 THEN InstNode(d + 1, s - 86400, n) ELSE InstNode(d, s, n)

Nanos(cs) == Small(SubSeq(cs \o <<"0", "0", "0", "0", "0", "0", "0", "0", "0">>, 1, 9))

Shape(cs, pat) == Len(cs) = Len(pat) /\ \A i \in DOMAIN cs : IF pat[i] = "9" THEN cs[i] \in Digit ELSE cs[i] = pat[i]

\* 1985-04-12T23:20:50.52+01:00
InstText(cs) ==
  \* (Years of more than four digits are printed, but cannot be written.)
  IF cs # <<>> /\ cs[1] \in {"+", "-"} THEN RAny
  ELSE IF Len(cs) < 20 \/ ~Shape(SubSeq(cs, 1, 19), <<"9","9","9","9","-","9","9","-","9","9","T","9","9",":","9","9",":","9","9">>) THEN RBad
  ELSE LET N(i, j) == Small(SubSeq(cs, i, j))
           z == Find(cs, 20, {"Z", "+", "-"})
           frac == SubSeq(cs, 21, z - 1)
           zone == From(cs, z)
           zoneOk == zone = <<"Z">> \/ (Len(zone) = 6 /\ zone[1] \in {"+", "-"} /\ Shape(Tail(zone), <<"9","9",":","9","9">>)
                                        /\ Small(SubSeq(zone, 2, 3)) < 24 /\ Small(SubSeq(zone, 5, 6)) < 60)
           off == IF zone = <<"Z">> THEN 0 ELSE (IF zone[1] = "-" THEN -1 ELSE 1) * (Small(SubSeq(zone, 2, 3)) * 3600 + Small(SubSeq(zone, 5, 6)) * 60)
           y == N(1, 4)  mo == N(6, 7)  d == N(9, 10)  h == N(12, 13)  mi == N(15, 16)  s == N(18, 19)
       IN IF ~zoneOk \/ (z > 20 /\ ~(cs[20] = "." /\ Digits(frac))) THEN RBad
          ELSE IF y = 0 \/ s = 60 THEN RAny
          ELSE IF mo \notin 1..12 \/ d < 1 \/ d > MonthDays(y, mo) \/ h > 23 \/ mi > 59 \/ s > 59 THEN RBad
          ELSE ROk(CarryInst(YearDays(y) + MonthStart(y, mo) + d - 1 - 719528, h * 3600 + mi * 60 + s - off, IF z = 20 THEN 0 ELSE Nanos(frac)), 0)

\* So many seconds, as a sequence of digits: the days and what remains.
RECURSIVE LongDiv(_, _, _)
LongDiv(ds, q, r) == IF ds = <<>> THEN <<q, r>> ELSE LET x == r * 10 + ds[1] IN LongDiv(Tail(ds), q * 10 + (x \div 86400), x % 86400)
\* A count of milliseconds (scale 3) or microseconds (scale 6).
InstCount(cs, scale) ==
  LET ds == Number10(cs, 10)
      n == Len(ds)
      secs == SubSeq(ds, 1, n - scale)
      sub == IF n > scale THEN SubSeq(ds, n - scale + 1, n) ELSE [i \in 1..(scale - n) |-> 0] \o ds
      qr == LongDiv(IF n > scale THEN secs ELSE <<>>, 0, 0)
  IN IF n - scale > 13 THEN (IF n > 19 + 1 THEN RBad ELSE RAny)    \* beyond what can be told apart from noise
     ELSE IF n - scale > 12 THEN RAny
     ELSE ROk(InstNode(qr[1], qr[2], Nanos([i \in DOMAIN sub |-> ToString(sub[i])])), 0)

-----------------------------------------------------------------------------
\* Names.

\* A namespace: initial subsequent* ("." subsequent+)*
NamespaceOk(cs) ==
  /\ cs # <<>> /\ cs[1] \in Initial
  /\ All(cs, Subsequent \cup {"."})
  /\ cs[Len(cs)] # "." /\ \A i \in 1..(Len(cs) - 1) : ~(cs[i] = "." /\ cs[i + 1] = ".")
NameOk(cs) == cs # <<>> /\ cs[1] \in Initial /\ All(cs, Subsequent)

\* A name with or without a namespace.
Named(cs, plain, spaced) ==
  LET p == Find(cs, 1, {"/"})
      ns == SubSeq(cs, 1, p - 1)
      n == From(cs, p + 1)
  IN IF p > Len(cs) THEN (IF NameOk(cs) THEN ROk(Node(plain, Join(cs), <<>>), 0) ELSE RAny)
     ELSE IF NamespaceOk(ns) /\ NameOk(n) THEN ROk(Node(spaced, Join(cs), <<>>), 0) ELSE RAny

\* The notation does not say what becomes of these at the beginning of a longer word.
Words == {<<"n", "i", "l">>, <<"t", "r", "u", "e">>, <<"f", "a", "l", "s", "e">>}
Atom(cs) ==
  CASE cs = <<"n", "i", "l">> -> ROk(Nil, 0)
    [] cs = <<"t", "r", "u", "e">> -> ROk(Node("bool", "true", <<>>), 0)
    [] cs = <<"f", "a", "l", "s", "e">> -> ROk(Node("bool", "false", <<>>), 0)
    [] \E w \in Words : Len(cs) > Len(w) /\ SubSeq(cs, 1, Len(w)) = w -> RAny
    [] cs[1] \in Digit \cup {"+", "-"} -> IF Len(cs) = 1 /\ cs[1] \notin Digit THEN RAny ELSE Number(cs)
    [] cs[1] = ":" -> Named(Tail(cs), "kw", "kwn")
    [] cs \in {<<".">>, <<".", ".", ".">>} -> ROk(Node("sym", Join(cs), <<>>), 0)
    [] cs[1] \in Initial -> Named(cs, "sym", "symn")
    [] OTHER -> IF cs[1] \in {"@", "^", "`", "~", "'", "|", "\\"} THEN RBad ELSE RAny

\* The rest of a string, from i on: the characters so far are acc.
RECURSIVE Text(_, _, _)
Text(cs, i, acc) ==
  IF i > Len(cs) THEN RBad
  ELSE CASE cs[i] = "\"" -> [s |-> "ok", i |-> i + 1, v |-> acc]
         [] cs[i] = "\\" ->
              IF i = Len(cs) THEN RBad
              ELSE (CASE cs[i + 1] \in {"\\", "\""} -> Text(cs, i + 2, Append(acc, cs[i + 1]))
                      [] cs[i + 1] = "n" -> Text(cs, i + 2, Append(acc, "\n"))
                      [] cs[i + 1] = "t" -> Text(cs, i + 2, Append(acc, "\t"))
                      [] cs[i + 1] = "r" -> Text(cs, i + 2, Append(acc, "\r"))
                      [] OTHER -> RAny)
         [] OTHER -> Text(cs, i + 1, Append(acc, cs[i]))

UuidOk(cs) ==
  /\ Len(cs) = 36
  /\ \A i \in DOMAIN cs : IF i \in {9, 14, 19, 24} THEN cs[i] = "-" ELSE cs[i] \in LHex

\* What follows "#".
Tagged(cs, i) ==
  LET e == Find(cs, i + 1, Delim)
      tag == SubSeq(cs, i + 1, e - 1)
      p == Skip(cs, e)
      e2 == Find(cs, p, Delim)
      word == SubSeq(cs, p, e2 - 1)
      plain == \A j \in e..(p - 1) : cs[j] \in Space
      Then(r) == IF r.s = "ok" THEN [r EXCEPT !.i = e2] ELSE r
  IN IF tag \in {<<"i","n","s","t">>, <<"u","u","i","d">>} THEN
       LET t == IF p <= Len(cs) /\ cs[p] = "\"" THEN Text(cs, p + 1, <<>>) ELSE RBad
           r == IF tag = <<"i","n","s","t">> THEN InstText(t.v)
                ELSE IF UuidOk(t.v) THEN ROk(Node("uuid", Join(t.v), <<>>), 0) ELSE IF Len(t.v) = 36 THEN RAny ELSE RBad
       IN IF p = e \/ ~plain \/ t.s = "any" THEN RAny ELSE IF t.s # "ok" THEN RBad
          ELSE IF \E j \in p..(t.i - 1) : cs[j] = "\\" THEN RAny
          ELSE IF r.s = "ok" THEN [r EXCEPT !.i = t.i] ELSE r
     ELSE IF ~plain \/ p = e THEN RAny
     ELSE IF tag = <<"f">> THEN
       CASE word = <<"N","a","N">> -> ROk(Node("float", "nan", <<>>), e2)
         [] word = <<"+","I","n","f","i","n","i","t","y">> -> ROk(Node("float", "inf", <<>>), e2)
         [] word = <<"-","I","n","f","i","n","i","t","y">> -> ROk(Node("float", "-inf", <<>>), e2)
         [] OTHER -> RAny
     ELSE IF tag = <<"i","n","s","t","m","i","c","r","o","s">> THEN IF Digits(word) THEN Then(InstCount(word, 6)) ELSE RAny
     ELSE IF tag = <<"i","n","s","t","m","i","l","l","i","s">> THEN IF Digits(word) THEN Then(InstCount(word, 3)) ELSE RAny
     ELSE RAny

Closing == ("[" :> "]") @@ ("(" :> ")") @@ ("{" :> "}") @@ ("#" :> "}")
Kind == ("[" :> "vec") @@ ("(" :> "list") @@ ("{" :> "map") @@ ("#" :> "set")

RECURSIVE Value(_, _)
RECURSIVE Parts(_, _, _, _)
\* The value that begins at or after i.
Value(cs, i0) ==
  LET i == Skip(cs, i0) IN
  IF i > Len(cs) \/ cs[i] \in Closes THEN RBad
  ELSE CASE cs[i] \in Opens -> Parts(cs, i + 1, cs[i], <<>>)
         [] cs[i] = "#" /\ i < Len(cs) /\ cs[i + 1] = "{" -> Parts(cs, i + 2, "#", <<>>)
         [] cs[i] = "#" -> Tagged(cs, i)
         [] cs[i] = "\"" -> LET t == Text(cs, i + 1, <<>>) IN IF t.s = "ok" THEN ROk(Node("text", Join(t.v), <<>>), t.i) ELSE [t EXCEPT !.v = Nil]
         [] OTHER -> LET e == Find(cs, i, Delim)
                         r == Atom(SubSeq(cs, i, e - 1))
                     IN IF e <= Len(cs) /\ cs[e] = "#" THEN RAny ELSE [r EXCEPT !.i = e]
Parts(cs, i0, open, acc) ==
  LET i == Skip(cs, i0) IN
  IF i > Len(cs) THEN RBad
  ELSE IF cs[i] \in Closes THEN
    (IF cs[i] # Closing[open] \/ (open = "{" /\ Len(acc) % 2 = 1) THEN RBad
     ELSE ROk(Node(Kind[open], "", acc), i + 1))
  ELSE LET r == Value(cs, i) IN IF r.s = "ok" THEN Parts(cs, r.i, open, Append(acc, r.v)) ELSE r

\* A text is one value.  (Where a part of a text is unclear, so is the text.)
Read(cs) ==
  LET r == Value(cs, 1) IN
  IF r.s = "ok" /\ Skip(cs, r.i) <= Len(cs) THEN (IF Value(cs, r.i).s = "any" THEN RAny ELSE RBad) ELSE r

\* The parts of a set are in no order, and count once.  The entries of a map are in no order either.
RECURSIVE Same(_, _)
Same(a, b) ==
  LET A == DOMAIN a.xs   B == DOMAIN b.xs   half(v) == {2 * i : i \in 1..(Len(v.xs) \div 2)}
      Entry(x, i, y, j) == Same(x.xs[i - 1], y.xs[j - 1]) /\ Same(x.xs[i], y.xs[j])
  IN /\ a.t = b.t /\ a.s = b.s
     /\ CASE a.t = "set" -> (\A i \in A : \E j \in B : Same(a.xs[i], b.xs[j])) /\ (\A j \in B : \E i \in A : Same(a.xs[i], b.xs[j]))
          [] a.t = "map" -> (\A i \in half(a) : \E j \in half(b) : Entry(a, i, b, j)) /\ (\A j \in half(b) : \E i \in half(a) : Entry(a, i, b, j))
          [] OTHER -> Len(a.xs) = Len(b.xs) /\ \A i \in A : Same(a.xs[i], b.xs[i])
\* No map has a key twice (the notation does not say which value counts).
RECURSIVE Functional(_)
Functional(v) ==
  /\ (v.t = "map" => \A i, j \in {2 * k - 1 : k \in 1..(Len(v.xs) \div 2)} : i # j => ~Same(v.xs[i], v.xs[j]))
  /\ \A i \in DOMAIN v.xs : Functional(v.xs[i])

Lab(c, l) == IF c THEN {} ELSE {l}
\* What the library must say of a text, and print the value as.
ReadLabels(op, r) ==
  LET x == Read(op.cs) IN
  (CASE x.s = "any" -> {}
     [] x.s = "bad" -> Lab(~r.ok, "edn:accepted")
     [] OTHER -> IF ~r.ok THEN {"edn:refused"} ELSE Lab(~Functional(x.v) \/ Same(x.v, r.tree), "edn:value"))
  \cup (IF ~r.ok THEN {} ELSE
          LET y == Read(r.shown)  z == Read(r.pretty)
          IN Lab(y.s = "any" \/ (y.s = "ok" /\ Same(y.v, r.tree)), "edn:shown")
             \cup Lab(z.s = "any" \/ (z.s = "ok" /\ Same(z.v, r.tree)), "edn:pretty"))
ReadCov(op, r) == {"edn:" \o Read(op.cs).s} \cup (IF r.ok THEN {"edn:" \o r.tree.t} ELSE {})
=============================================================================
