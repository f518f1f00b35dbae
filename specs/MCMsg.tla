-------------------------------- MODULE MCMsg --------------------------------
(* Checked on all templates up to a length: what a template denotes.          *)
EXTENDS Msg, TLC
CONSTANTS Alphabet, MaxLen
VARIABLE t
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E b \in Alphabet : t' = Append(t, b)
Spec == Init /\ [][Next]_t
a == [str |-> TRUE, key |-> <<97>>, v |-> [w |-> "text", s |-> <<123, 97, 125>>]]
b == [str |-> TRUE, key |-> <<98>>, v |-> [w |-> "json", v |-> [k |-> "int", t |-> <<49, 50>>]]]
b2 == [str |-> TRUE, key |-> <<98>>, v |-> [w |-> "bytes", s |-> <<124, 255, 98>>]]
As == {<<>>, <<a>>, <<b>>, <<a, b>>, <<b, a>>, <<a, b2, b>>, <<a, b, b2>>}
Text(v) == CASE v.w = "text" -> v.s [] v.w = "bytes" -> EscBytes(v.s) [] v.w = "json" -> v.v.t
RECURSIVE Plain(_, _)
Plain(ps, args) == IF ps = <<>> THEN <<>>
                   ELSE (IF Head(ps).p = "lit" THEN Head(ps).s ELSE Text(args[ArgOf(Head(ps).key, args)].v)) \o Plain(Tail(ps), args)
\* a template without { is its own text, whatever the arguments
Verbatim == (\A i \in 1..Len(t) : t[i] # LB) => \A x \in As : Renders(t, x, t) /\ Valid(t, x)
\* exactly one text for a valid template
One == \A x \in As : Valid(t, x) => LET o == Plain(Compile(t), x) IN Renders(t, x, o) /\ ~Renders(t, x, Append(o, 32)) /\ ~Renders(t, x, <<32>> \o o)
\* the arguments before and behind the ones that are named make no difference, their order neither (unless a name repeats)
Order == Valid(t, <<a, b>>) <=> Valid(t, <<b, a>>)
FirstWins == Valid(t, <<a, b, b2>>) => LET o == Plain(Compile(t), <<a, b>>) IN Renders(t, <<a, b, b2>>, o)
More == \A x \in As : Valid(t, x) => Valid(t, x \o <<b2>>) /\ Valid(t, x \o <<a>>)
\* a valid template can be cut at the end of any of its parts
RECURSIVE Cuts(_, _)
Cuts(s, i) == IF i > Len(s) THEN {i} ELSE LET x == Part(s, i) IN IF x.n = 0 THEN {} ELSE {x.n} \cup Cuts(s, x.n)
Concat == Valid(t, <<a, b>>) => \A i \in Cuts(t, 1) : /\ Valid(SubSeq(t, 1, i - 1), <<a, b>>) /\ Valid(SubSeq(t, i, Len(t)), <<a, b>>)
                                                      /\ Renders(t, <<a, b>>, Plain(Compile(SubSeq(t, 1, i - 1)), <<a, b>>) \o Plain(Compile(SubSeq(t, i, Len(t))), <<a, b>>))
\* an open brace that is never closed cannot be satisfied
Unclosed == (\E i \in 1..Len(t) : t[i] = LB /\ \A j \in i..Len(t) : t[j] # RB) => ~Valid(t, <<a, b>>)
=============================================================================
