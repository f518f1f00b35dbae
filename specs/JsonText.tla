------------------------------- MODULE JsonText -------------------------------
(* The JSON text of a Go value.  A value is a tree that says what it is:       *)
(*   [k |-> "bool", b]  [k |-> "int", t] (decimal text)  [k |-> "float", lo, hi]*)
(*   [k |-> "word", t] (NaN and the infinities)  [k |-> "str", s]               *)
(*   [k |-> "bytes", s]  [k |-> "nil"]  [k |-> "to", v] (pointer, interface)    *)
(*   [k |-> "list", v]  [k |-> "struct", f] (f: [n, tag, skip, v])              *)
(*   [k |-> "map", m] (m: [k, v], both values)  [k |-> "raw", t]                *)
(* Texts are sequences of bytes.  Match(v, s, i) is the position behind the    *)
(* text of v at position i of s, or 0 if what is there does not denote v.      *)
EXTENDS Naturals, Integers, Sequences

QUOTE == 34
BSL == 92
COMMA == 44
COLON == 58
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE -1
Lit(t, s, i) == IF i >= 1 /\ i + Len(t) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(t) - 1) = t THEN i + Len(t) ELSE 0

\* ------------------------------------------------------------------ strings
HexOf(b) == IF b >= 48 /\ b <= 57 THEN b - 48 ELSE IF b >= 97 /\ b <= 102 THEN b - 87 ELSE IF b >= 65 /\ b <= 70 THEN b - 55 ELSE -1
Hex4(s, i) == IF \E j \in 0..3 : HexOf(At(s, i + j)) < 0 THEN -1
              ELSE HexOf(s[i]) * 4096 + HexOf(s[i + 1]) * 256 + HexOf(s[i + 2]) * 16 + HexOf(s[i + 3])
Utf8(r) == IF r < 128 THEN <<r>>
           ELSE IF r < 2048 THEN <<192 + (r \div 64), 128 + (r % 64)>>
           ELSE IF r < 65536 THEN <<224 + (r \div 4096), 128 + ((r \div 64) % 64), 128 + (r % 64)>>
           ELSE <<240 + (r \div 262144), 128 + ((r \div 4096) % 64), 128 + ((r \div 64) % 64), 128 + (r % 64)>>
Short(b) == CASE b = QUOTE -> 34 [] b = BSL -> 92 [] b = 47 -> 47 [] b = 98 -> 8 [] b = 102 -> 12
              [] b = 110 -> 10 [] b = 114 -> 13 [] b = 116 -> 9 [] OTHER -> -1
BadStr == [n |-> 0, t |-> <<>>]
\* from behind the opening quote: the text denoted, and the position behind the closing one
RECURSIVE StrRest(_, _, _)
StrRest(s, i, acc) ==
  LET b == At(s, i) IN
  IF b = -1 \/ b < 32 THEN BadStr
  ELSE IF b = QUOTE THEN [n |-> i + 1, t |-> acc]
  ELSE IF b # BSL THEN StrRest(s, i + 1, Append(acc, b))
  ELSE IF At(s, i + 1) = 117 THEN
         LET r == Hex4(s, i + 2) IN
         IF r < 0 THEN BadStr
         ELSE IF r >= 55296 /\ r < 56320 THEN
                LET q == IF At(s, i + 6) = BSL /\ At(s, i + 7) = 117 THEN Hex4(s, i + 8) ELSE -1 IN
                IF q < 56320 \/ q >= 57344 THEN BadStr
                ELSE StrRest(s, i + 12, acc \o Utf8(65536 + (r - 55296) * 1024 + (q - 56320)))
         ELSE StrRest(s, i + 6, acc \o Utf8(r))
  ELSE LET e == Short(At(s, i + 1)) IN IF e < 0 THEN BadStr ELSE StrRest(s, i + 2, Append(acc, e))
Str(s, i) == IF At(s, i) = QUOTE THEN StrRest(s, i + 1, <<>>) ELSE BadStr
MatchStr(t, s, i) == LET d == Str(s, i) IN IF d.n # 0 /\ d.t = t THEN d.n ELSE 0

\* the text that stands for a byte string: printable ASCII as it is (and the three common controls), others as \xNN
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
XNN(b) == <<BSL, 120, HexDigit(b \div 16), HexDigit(b % 16)>>
RECURSIVE BytesText(_)
BytesText(s) == IF s = <<>> THEN <<>>
                ELSE LET b == Head(s) IN
                     (IF b >= 128 \/ (b < 32 /\ b \notin {9, 10, 13}) THEN XNN(b) ELSE <<b>>) \o BytesText(Tail(s))

\* ------------------------------------------------------------------ numbers
Digit(b) == b >= 48 /\ b <= 57
RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF Digit(At(s, i)) THEN DigitsEnd(s, i + 1) ELSE i
RECURSIVE StripZero(_)
StripZero(d) == IF d # <<>> /\ Head(d) = 0 THEN StripZero(Tail(d)) ELSE d
RECURSIVE NatOf(_, _)
NatOf(d, acc) == IF d = <<>> THEN acc ELSE NatOf(Tail(d), acc * 10 + Head(d))
Ds(s, i, j) == [x \in 1..(j - i) |-> s[i + x - 1] - 48]
\* a number: neg, digits without leading zeros, and where the point is: 0.digits * 10^pt
BadNum == [n |-> 0, neg |-> FALSE, ds |-> <<>>, pt |-> 0]
Num(s, i) ==
  LET neg == At(s, i) = 45
      a == IF neg THEN i + 1 ELSE i
      b == DigitsEnd(s, a)
      frac == At(s, b) = 46
      c == IF frac THEN DigitsEnd(s, b + 1) ELSE b
      ex == At(s, c) \in {69, 101}
      sg == IF ex /\ At(s, c + 1) \in {43, 45} THEN 1 ELSE 0
      d == IF ex THEN DigitsEnd(s, c + 1 + sg) ELSE c
      all == Ds(s, a, b) \o (IF frac THEN Ds(s, b + 1, c) ELSE <<>>)
      st == StripZero(all)
      e == IF ~ex THEN 0 ELSE LET x == NatOf(StripZero(Ds(s, c + 1 + sg, d)), 0) IN IF At(s, c + 1) = 45 THEN -x ELSE x IN
  IF \/ b = a \/ (At(s, a) = 48 /\ b > a + 1) \/ (frac /\ c = b + 1) \/ (ex /\ d = c + 1 + sg) \/ d - c > 6
  THEN BadNum
  ELSE [n |-> d, neg |-> neg, ds |-> st, pt |-> (b - a) - (Len(all) - Len(st)) + e]
\* -1, 0, 1 for magnitudes
RECURSIVE CmpDs(_, _)
CmpDs(x, y) == IF x = <<>> /\ y = <<>> THEN 0
               ELSE LET p == IF x = <<>> THEN 0 ELSE Head(x)
                        q == IF y = <<>> THEN 0 ELSE Head(y) IN
                    IF p < q THEN -1 ELSE IF p > q THEN 1
                    ELSE CmpDs(IF x = <<>> THEN x ELSE Tail(x), IF y = <<>> THEN y ELSE Tail(y))
RECURSIVE IsZero(_)
IsZero(d) == d = <<>> \/ (Head(d) = 0 /\ IsZero(Tail(d)))
CmpMag(x, y) == IF IsZero(x.ds) \/ IsZero(y.ds) THEN CmpDs(x.ds, y.ds)
                ELSE IF x.pt < y.pt THEN -1 ELSE IF x.pt > y.pt THEN 1 ELSE CmpDs(x.ds, y.ds)
LessEq(x, y) == IF IsZero(x.ds) /\ IsZero(y.ds) THEN TRUE
                ELSE IF x.neg /\ ~y.neg THEN TRUE
                ELSE IF ~x.neg /\ y.neg THEN FALSE
                ELSE IF x.neg THEN CmpMag(x, y) >= 0 ELSE CmpMag(x, y) <= 0
\* zero counts as either sign
Norm(x) == IF IsZero(x.ds) THEN [neg |-> FALSE, ds |-> <<>>, pt |-> 0] ELSE [neg |-> x.neg, ds |-> x.ds, pt |-> x.pt]
MatchFloat(v, s, i) == LET x == Num(s, i) IN
                       IF x.n # 0 /\ LessEq(Norm(v.lo), Norm(x)) /\ LessEq(Norm(x), Norm(v.hi)) THEN x.n ELSE 0

\* ------------------------------------------------------------------ values
TrueText == <<116, 114, 117, 101>>
FalseText == <<102, 97, 108, 115, 101>>
NullText == <<110, 117, 108, 108>>
BoolText(b) == IF b THEN TrueText ELSE FalseText
\* a field is left out if it cannot be seen or encoded (skip) or is tagged "-"; the tag up to the first comma is its name
RECURSIVE UpToComma(_)
UpToComma(t) == IF t = <<>> \/ Head(t) = COMMA THEN <<>> ELSE <<Head(t)>> \o UpToComma(Tail(t))
FieldName(f) == LET t == UpToComma(f.tag) IN IF t = <<>> THEN f.n ELSE t
Visible(f) == ~f.skip /\ UpToComma(f.tag) # <<45>>
\* the text of a map key
RECURSIVE KeyText(_)
KeyText(k) == CASE k.k = "str" -> k.s [] k.k = "int" -> k.t [] k.k = "bool" -> BoolText(k.b) [] k.k = "to" -> KeyText(k.v)

RECURSIVE Match(_, _, _), MatchList(_, _, _, _), MatchFields(_, _, _, _), MatchMap(_, _, _, _)
Match(v, s, i) ==
  IF i = 0 THEN 0 ELSE
  CASE v.k = "nil" -> Lit(NullText, s, i)
    [] v.k = "bool" -> Lit(BoolText(v.b), s, i)
    [] v.k = "int" -> Lit(v.t, s, i)
    [] v.k = "raw" -> Lit(v.t, s, i)
    [] v.k = "float" -> MatchFloat(v, s, i)
    [] v.k = "word" -> MatchStr(v.t, s, i)
    [] v.k = "str" -> MatchStr(v.s, s, i)
    [] v.k = "bytes" -> MatchStr(BytesText(v.s), s, i)
    [] v.k = "to" -> Match(v.v, s, i)
    [] v.k = "list" -> IF At(s, i) = 91 THEN MatchList(v.v, s, i + 1, TRUE) ELSE 0
    [] v.k = "struct" -> IF At(s, i) = 123 THEN MatchFields(SelectSeq(v.f, Visible), s, i + 1, TRUE) ELSE 0
    [] v.k = "map" -> IF At(s, i) = 123 THEN MatchMap(v.m, s, i + 1, TRUE) ELSE 0
\* after a comma, except before the first
Sep(s, i, first) == IF i = 0 THEN 0 ELSE IF first THEN i ELSE IF At(s, i) = COMMA THEN i + 1 ELSE 0
MatchList(vs, s, i, first) ==
  IF i = 0 THEN 0
  ELSE IF vs = <<>> THEN (IF At(s, i) = 93 THEN i + 1 ELSE 0)
  ELSE MatchList(Tail(vs), s, Match(Head(vs), s, Sep(s, i, first)), FALSE)
MatchFields(fs, s, i, first) ==
  IF i = 0 THEN 0
  ELSE IF fs = <<>> THEN (IF At(s, i) = 125 THEN i + 1 ELSE 0)
  ELSE LET j == MatchStr(FieldName(Head(fs)), s, Sep(s, i, first)) IN
       IF At(s, j) # COLON THEN 0 ELSE MatchFields(Tail(fs), s, Match(Head(fs).v, s, j + 1), FALSE)
\* the entries of a map come in any order, each once
MatchMap(m, s, i, first) ==
  IF i = 0 THEN 0
  ELSE IF m = <<>> THEN (IF At(s, i) = 125 THEN i + 1 ELSE 0)
  ELSE LET d == Str(s, Sep(s, i, first))
           X == {x \in 1..Len(m) : KeyText(m[x].k) = d.t} IN
       IF d.n = 0 \/ X = {} \/ At(s, d.n) # COLON THEN 0
       ELSE LET x == CHOOSE y \in X : TRUE IN
            MatchMap(SubSeq(m, 1, x - 1) \o SubSeq(m, x + 1, Len(m)), s, Match(m[x].v, s, d.n + 1), FALSE)

\* s is the text of v and nothing else
Denotes(s, v) == Match(v, s, 1) = Len(s) + 1
=============================================================================
