------------------------------ MODULE MCPratt ------------------------------
(* For every sequence of tokens up to MaxLen: of all the trees the grammar   *)
(* allows for the tokens it starts with, at most one is right, and that is   *)
(* what the algorithm finds; it fails exactly if there is none.              *)
EXTENDS Pratt, TLC
CONSTANTS MaxLen, Syms, Precs,
  Mid   \* the precedence of what is between ? and :, and of : as an operator (0: it is none)
VARIABLES tok, p
N == <<110>>
S(c) == <<c>>
\* + * left associative, ^ right associative, ! postfix, ? : ternary, - infix and prefix, ~ prefix that takes everything
Tables == [infix |-> (S(43) :> [kind |-> "in", prec |-> 2, pow |-> 2]) @@ (S(42) :> [kind |-> "in", prec |-> 3, pow |-> 3])
                     @@ (S(94) :> [kind |-> "in", prec |-> 4, pow |-> 3]) @@ (S(33) :> [kind |-> "post", prec |-> 3, pow |-> 0])
                     @@ (S(63) :> [kind |-> "tern", prec |-> 1, pow |-> 0, mid |-> Mid]) @@ (S(45) :> [kind |-> "in", prec |-> 2, pow |-> 2])
                     @@ (IF Mid = 0 THEN <<>> ELSE S(58) :> [kind |-> "in", prec |-> Mid, pow |-> Mid]),
           prefix |-> (S(45) :> 3) @@ (S(126) :> 0)]
Token(c) == IF c = 110 THEN [t |-> "num", v |-> N] ELSE [t |-> "sym", v |-> S(c)]
Init == tok \in UNION {[1..n -> {Token(c) : c \in Syms}] : n \in 0..MaxLen} /\ p \in Precs
Next == UNCHANGED <<tok, p>>
Spec == Init /\ [][Next]_<<tok, p>>
T == Tables
\* all trees for the tokens i..j
RECURSIVE Trees(_, _)
Trees(i, j) ==
  IF i > j THEN {}
  ELSE (IF i = j /\ IsNum(tok, i) THEN {Num(tok[i].v)} ELSE {})
       \cup (IF IsSym(tok, i, Open) /\ IsSym(tok, j, Close) THEN {Par(x) : x \in Trees(i + 1, j - 1)} ELSE {})
       \cup (IF IsPre(T, tok, i) THEN {Pre(tok[i].v, x) : x \in Trees(i + 1, j)} ELSE {})
       \cup (IF i < j /\ IsInf(T, tok, j) /\ T.infix[tok[j].v].kind = "post" THEN {Post(tok[j].v, x) : x \in Trees(i, j - 1)} ELSE {})
       \cup UNION {IF ~IsInf(T, tok, k) THEN {}
                   ELSE IF T.infix[tok[k].v].kind = "in"
                        THEN LET L == Trees(i, k - 1) IN IF L = {} THEN {} ELSE {Bin(tok[k].v, a, b) : a \in L, b \in Trees(k + 1, j)}
                   ELSE IF T.infix[tok[k].v].kind = "tern"
                        THEN LET L == Trees(i, k - 1) IN
                             IF L = {} THEN {} ELSE UNION {IF IsSym(tok, m, Colon) THEN {Tern(tok[k].v, a, b, c) : a \in L, b \in Trees(k + 1, m - 1), c \in Trees(m + 1, j)} ELSE {} : m \in (k + 2)..(j - 1)}
                   ELSE {} : k \in (i + 1)..(j - 1)}
OneTree ==
  LET r == Algo(T, tok, 1, p)
      right == UNION {{<<n + 1, t>> : t \in {x \in Trees(1, n) : Right(T, tok, x, n + 1, p)}} : n \in 1..Len(tok)}
  IN right = IF r.ok THEN {<<r.i, r.t>>} ELSE {}
YieldOk == LET r == Algo(T, tok, 1, p) IN r.ok => Yield(r.t) = [i \in 1..(r.i - 1) |-> tok[i].v]
=============================================================================
