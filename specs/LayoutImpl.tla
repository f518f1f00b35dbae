----------------------------- MODULE LayoutImpl -----------------------------
(* How the fast implementation finds a field: it walks the path, adding up   *)
(* the offsets, and goes through pointers to embedded structs; against the   *)
(* leaves that plain Go gives for the path.  A type is a sequence of fields: *)
(* a leaf, with alignment and size, a struct, or a pointer to a struct.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxFields, Kinds
\* kinds of field, by name: leaves of 1, 2 and 4 bytes, an empty one, a struct of two kinds, a pointer to such a struct
Leaf == [a |-> <<1, 1>>, b |-> <<2, 2>>, d |-> <<4, 4>>, e |-> <<1, 0>>]   \* alignment, size
Sub == [S |-> <<"a", "d">>, T |-> <<"b", "a">>, U |-> <<"a", "S">>, P |-> <<"a", "d">>, Q |-> <<"b", "a">>]
IsLeaf(k) == k \in DOMAIN Leaf
IsPtr(k) == k \in {"P", "Q"}
Up(x, al) == ((x + al - 1) \div al) * al
RECURSIVE Align(_), Size(_), AlignOf(_), SizeTo(_, _)
Align(k) == IF IsLeaf(k) THEN Leaf[k][1] ELSE IF IsPtr(k) THEN 4 ELSE AlignOf(Sub[k])
AlignOf(fs) == IF fs = <<>> THEN 1 ELSE LET a == Align(Head(fs))
                                           r == AlignOf(Tail(fs)) IN IF a > r THEN a ELSE r
\* end of the first i fields
SizeTo(fs, i) == IF i = 0 THEN 0 ELSE Up(SizeTo(fs, i - 1), Align(fs[i])) + Size(fs[i])
Size(k) == IF IsLeaf(k) THEN Leaf[k][2] ELSE IF IsPtr(k) THEN 4 ELSE Up(SizeTo(Sub[k], Len(Sub[k])), AlignOf(Sub[k]))
Offset(fs, i) == Up(SizeTo(fs, i - 1), Align(fs[i]))
RECURSIVE At(_, _)
At(fs, p) == IF Len(p) = 1 THEN fs[p[1]] ELSE At(Sub[fs[p[1]]], Tail(p))
\* all paths that reflection gives, to leaves, structs, pointers and, through these, further
RECURSIVE All(_)
All(fs) == UNION {{<<i>>} \cup (IF IsLeaf(fs[i]) THEN {} ELSE {<<i>> \o q : q \in All(Sub[fs[i]])}) : i \in DOMAIN fs}
\* the walk: offsets add up; at a pointer it starts again, in the object it points to
RECURSIVE Walk(_, _, _)
Walk(fs, p, base) == LET here == [base EXCEPT !.at = @ + Offset(fs, p[1])] IN
                     IF Len(p) = 1 THEN here
                     ELSE IF IsPtr(fs[p[1]]) THEN Walk(Sub[fs[p[1]]], Tail(p), [obj |-> Append(base.obj, here.at), at |-> 0])
                     ELSE Walk(Sub[fs[p[1]]], Tail(p), here)
Place(fs, p) == Walk(fs, p, [obj |-> <<>>, at |-> 0])
Cells(fs, p) == LET w == Place(fs, p) IN {<<w.obj, x>> : x \in w.at..(w.at + Size(At(fs, p)) - 1)}
VARIABLE fs
Init == fs = <<>>
Next == Len(fs) < MaxFields /\ \E k \in Kinds : fs' = Append(fs, k)
Spec == Init /\ [][Next]_fs
IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
\* is q within the memory of p: beneath it, and not behind a pointer
RECURSIVE Behind(_, _, _)
Behind(g, p, q) == \* q goes through a pointer at or after p
  LET k == {i \in Len(p)..(Len(q) - 1) : IsPtr(At(g, SubSeq(q, 1, i)))} IN k # {}
Disjoint == \A p, q \in All(fs) : IF IsPrefix(p, q) /\ ~Behind(fs, p, q) THEN Cells(fs, q) \subseteq Cells(fs, p)
                                 ELSE IF IsPrefix(q, p) THEN TRUE ELSE Cells(fs, p) \cap Cells(fs, q) = {}
\* everything is within its object
Within == \A p \in All(fs) : Place(fs, p).obj = <<>> => Place(fs, p).at + Size(At(fs, p)) <= Up(SizeTo(fs, Len(fs)), AlignOf(fs))
Aligned == \A p \in All(fs) : Place(fs, p).at % Align(At(fs, p)) = 0
=============================================================================
