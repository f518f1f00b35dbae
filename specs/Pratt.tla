------------------------------- MODULE Pratt -------------------------------
(* Expressions of operands, groups and operators with precedences. The       *)
(* grammar alone is ambiguous; precedence and associativity single out one   *)
(* tree.  Declaratively: which trees are right (Right).  As an algorithm:    *)
(* Algo, the recursion of parse.Parse with the tokens a user gives it.       *)
(*                                                                           *)
(* Tok: sequence of tokens [t |-> "num", v] or [t |-> "sym", v]; v: bytes.   *)
(* T: [infix, prefix], functions of what a token consists of.                *)
(*   infix[v]: [kind, prec, pow] - kind "in", "post" or "tern"; what follows *)
(*   an operator of kind in or tern is parsed with precedence pow            *)
(*   (= prec: left associative, prec - 1: right associative). What is        *)
(*   between the ? and the : of a tern is parsed with precedence mid; the :  *)
(*   may be an operator as well.                                             *)
(*   prefix[v]: what follows is parsed with this precedence.                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Num(v) == [k |-> "num", v |-> v]
Par(x) == [k |-> "par", x |-> x]
Pre(o, x) == [k |-> "pre", o |-> o, x |-> x]
Post(o, l) == [k |-> "post", o |-> o, l |-> l]
Bin(o, l, r) == [k |-> "in", o |-> o, l |-> l, r |-> r]
Tern(o, l, m, r) == [k |-> "tern", o |-> o, l |-> l, m |-> m, r |-> r]
Open == <<40>>
Close == <<41>>
Colon == <<58>>
IsSym(Tok, i, v) == i <= Len(Tok) /\ Tok[i].t = "sym" /\ Tok[i].v = v
IsNum(Tok, i) == i <= Len(Tok) /\ Tok[i].t = "num"
IsPre(T, Tok, i) == i <= Len(Tok) /\ Tok[i].t = "sym" /\ Tok[i].v \in DOMAIN T.prefix
IsInf(T, Tok, i) == i <= Len(Tok) /\ Tok[i].t = "sym" /\ Tok[i].v \in DOMAIN T.infix

(* -------- which trees are right -------- *)
RECURSIVE Lefts(_, _, _), RightEdge(_, _, _), Grouped(_, _), Yield(_)
\* v, after t read with precedence p, does not belong to it
Stops(T, t, v, p) == v \in DOMAIN T.infix => (LET q == T.infix[v].prec IN q <= p /\ RightEdge(T, t, q))
\* every operator whose first operand is at the very left of t binds tighter than p
Lefts(T, t, p) == IF t.k \in {"in", "post", "tern"} THEN T.infix[t.o].prec > p /\ Lefts(T, t.l, p) ELSE TRUE
\* no operator whose last operand ends t would have taken an operator of precedence q that follows
RightEdge(T, t, q) == CASE t.k \in {"in", "tern"} -> T.infix[t.o].pow >= q /\ RightEdge(T, t.r, q)
                        [] t.k = "pre" -> T.prefix[t.o] >= q /\ RightEdge(T, t.x, q)
                        [] OTHER -> TRUE
Grouped(T, t) ==
  CASE t.k = "num" -> TRUE
    [] t.k = "par" -> Grouped(T, t.x) /\ Lefts(T, t.x, 0) /\ Stops(T, t.x, Close, 0)
    [] t.k = "pre" -> Grouped(T, t.x) /\ Lefts(T, t.x, T.prefix[t.o])
    [] t.k = "post" -> Grouped(T, t.l) /\ RightEdge(T, t.l, T.infix[t.o].prec)
    [] t.k = "in" -> Grouped(T, t.l) /\ Grouped(T, t.r) /\ RightEdge(T, t.l, T.infix[t.o].prec) /\ Lefts(T, t.r, T.infix[t.o].pow)
    [] t.k = "tern" -> /\ Grouped(T, t.l) /\ Grouped(T, t.m) /\ Grouped(T, t.r) /\ RightEdge(T, t.l, T.infix[t.o].prec)
                       /\ Lefts(T, t.m, T.infix[t.o].mid) /\ Stops(T, t.m, Colon, T.infix[t.o].mid) /\ Lefts(T, t.r, T.infix[t.o].pow)
\* the tokens t stands for
Yield(t) ==
  CASE t.k = "num" -> <<t.v>>
    [] t.k = "par" -> <<Open>> \o Yield(t.x) \o <<Close>>
    [] t.k = "pre" -> <<t.o>> \o Yield(t.x)
    [] t.k = "post" -> Yield(t.l) \o <<t.o>>
    [] t.k = "in" -> Yield(t.l) \o <<t.o>> \o Yield(t.r)
    [] t.k = "tern" -> Yield(t.l) \o <<t.o>> \o Yield(t.m) \o <<Colon>> \o Yield(t.r)
    [] OTHER -> <<<<>>>>  \* nothing, which no token is
\* t is what is to be read with precedence p when the token after it is number i
Right(T, Tok, t, i, p) == /\ Grouped(T, t) /\ Lefts(T, t, p)
                          /\ (IsInf(T, Tok, i) => Stops(T, t, Tok[i].v, p))

(* -------- how it is found -------- *)
Fail == [ok |-> FALSE]
RECURSIVE Algo(_, _, _, _), More(_, _, _, _, _)
\* reads from token i on: [ok, t: the tree, i: the next token]
Algo(T, Tok, i, p) ==
  IF IsNum(Tok, i) THEN More(T, Tok, i + 1, p, Num(Tok[i].v))
  ELSE IF IsSym(Tok, i, Open)
       THEN LET x == Algo(T, Tok, i + 1, 0) IN
            IF x.ok /\ IsSym(Tok, x.i, Close) THEN More(T, Tok, x.i + 1, p, Par(x.t)) ELSE Fail
  ELSE IF IsPre(T, Tok, i)
       THEN LET x == Algo(T, Tok, i + 1, T.prefix[Tok[i].v]) IN IF x.ok THEN More(T, Tok, x.i, p, Pre(Tok[i].v, x.t)) ELSE Fail
  ELSE Fail
More(T, Tok, i, p, left) ==
  IF ~IsInf(T, Tok, i) THEN [ok |-> TRUE, t |-> left, i |-> i]
  ELSE LET v == Tok[i].v
           o == T.infix[v]
       IN IF p >= o.prec THEN [ok |-> TRUE, t |-> left, i |-> i]
          ELSE CASE o.kind = "post" -> More(T, Tok, i + 1, p, Post(v, left))
                 [] o.kind = "in" -> LET r == Algo(T, Tok, i + 1, o.pow) IN IF r.ok THEN More(T, Tok, r.i, p, Bin(v, left, r.t)) ELSE Fail
                 [] o.kind = "tern" -> LET m == Algo(T, Tok, i + 1, o.mid) IN
                                       IF ~m.ok \/ ~IsSym(Tok, m.i, Colon) THEN Fail
                                       ELSE LET r == Algo(T, Tok, m.i + 1, o.pow) IN IF r.ok THEN More(T, Tok, r.i, p, Tern(v, left, m.t, r.t)) ELSE Fail
=============================================================================
