------------------------------- MODULE MCJson -------------------------------
(* The relation between values and texts, checked on all small values: the    *)
(* plain rendering of a value denotes it, and no text denotes two values.     *)
EXTENDS JsonText, FiniteSets, TLC
CONSTANTS Chars, MaxLen, Rich
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<<>>} ELSE Seqs(n - 1) \cup {Append(s, x) : s \in {t \in Seqs(n - 1) : Len(t) = n - 1}, x \in Chars}
I(n) == [k |-> "int", t |-> IF n < 0 THEN <<45, 48 - n>> ELSE IF n > 9 THEN <<48 + (n \div 10), 48 + (n % 10)>> ELSE <<48 + n>>]
Leaf == {[k |-> "nil"]} \cup {[k |-> "bool", b |-> b] : b \in BOOLEAN} \cup {I(n) : n \in {0, 1, 12, -1}}
        \cup {[k |-> "str", s |-> s] : s \in Seqs(MaxLen)}
Fld(n, v) == [n |-> <<n>>, tag |-> <<>>, skip |-> FALSE, v |-> v]
Small == {[k |-> "nil"], I(1), I(12), [k |-> "str", s |-> <<>>], [k |-> "str", s |-> <<34>>]}
Nested == {[k |-> "list", v |-> v] : v \in {<<>>} \cup {<<a>> : a \in Leaf} \cup {<<a, b>> : a, b \in Small}}
          \cup {[k |-> "struct", f |-> f] : f \in {<<>>} \cup {<<Fld(65, a)>> : a \in Leaf} \cup {<<Fld(65, a), Fld(66, b)>> : a, b \in Small}}
          \cup {[k |-> "map", m |-> m] : m \in {<<[k |-> [k |-> "str", s |-> <<67>>], v |-> a], [k |-> I(1), v |-> b]>> : a, b \in Small}}
Deep == IF Rich THEN {[k |-> "list", v |-> <<a, b>>] : a \in Nested, b \in Small} ELSE {}
Values == Leaf \cup Nested \cup Deep

RECURSIVE EscText(_)
EscText(s) == IF s = <<>> THEN <<>>
              ELSE (IF Head(s) \in {34, 92} THEN <<92, Head(s)>>
                    ELSE IF Head(s) < 32 THEN <<92, 117, 48, 48, HexDigit(Head(s) \div 16), HexDigit(Head(s) % 16)>>
                    ELSE <<Head(s)>>) \o EscText(Tail(s))
Q(t) == <<34>> \o EscText(t) \o <<34>>
RECURSIVE Render(_), Join(_)
Join(ts) == IF ts = <<>> THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o <<44>> \o Join(Tail(ts))
Render(v) == CASE v.k = "nil" -> NullText [] v.k = "bool" -> BoolText(v.b) [] v.k = "int" -> v.t
               [] v.k = "str" -> Q(v.s)
               [] v.k = "list" -> <<91>> \o Join([i \in 1..Len(v.v) |-> Render(v.v[i])]) \o <<93>>
               [] v.k = "struct" -> <<123>> \o Join([i \in 1..Len(v.f) |-> Q(v.f[i].n) \o <<58>> \o Render(v.f[i].v)]) \o <<125>>
               [] v.k = "map" -> <<123>> \o Join([i \in 1..Len(v.m) |-> Q(KeyText(v.m[i].k)) \o <<58>> \o Render(v.m[i].v)]) \o <<125>>
VARIABLE x
Init == x \in Values
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
RoundTrip == Denotes(Render(x), x)
Unambiguous == \A y \in Values : Denotes(Render(x), y) => (y = x \/ (x.k \in {"map", "struct"} /\ y.k \in {"map", "struct"}))
=============================================================================
