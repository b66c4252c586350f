------------------------------- MODULE Derive -------------------------------
(***************************************************************************)
(* What the derived location traits do to a type: one recursive type with every  *)
(* shape the derives know (tuple variants whose first field is the location or    *)
(* itself located, variants and structures with named fields in any order,         *)
(* generic structures, fields through boxes, options and sequences), its values,    *)
(* where each value's location is, and what is left once locations are forgotten.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANT Depth

S(a, b) == <<a, b>>                     \* a span by its two offsets
NoSpan == <<>>
Some == {NoSpan, S(1, 2)}
New == S(7, 9)

(* values of the type: <<variant, fields...>> *)
Leaves == {<<"Leaf", s>> : s \in Some}
Seqs(ts) == {<<>>} \cup {<<t>> : t \in ts} \cup {<<t, <<"Leaf", S(1, 2)>>>> : t \in ts}
Inner(ts) == {<<"Inner", k, s>> : k \in Seqs(ts), s \in Some}
Tups == {<<"Tup", s, f>> : s \in Some, f \in BOOLEAN}
Over(ts) == {<<"Over", t, u>> : t \in Tups, u \in {<<>>, << <<"Tup", S(1, 2), TRUE>> >>, << <<"Tup", NoSpan, FALSE>>, <<"Tup", S(3, 4), FALSE>> >>}}
Grow(ts) == {<<"Pair", s, t, k>> : s \in Some, t \in ts, k \in Seqs(ts)}
            \cup {<<"Wrap", i, f>> : i \in Inner(ts), f \in BOOLEAN}
            \cup {<<"Named", f, s, m>> : f \in BOOLEAN, s \in Some, m \in {<<>>} \cup {<<t>> : t \in ts}}
            \cup {<<"Deep", o, k>> : o \in Over(ts), k \in Seqs(ts)}
            \cup {<<"Gen", s, t>> : s \in Some, t \in ts}
            \cup {<<"Twice", s, u>> : s \in Some, u \in Some}
(* shapes of many fields, whose fields are located all, not at all, or all but one, or but for one not *)
WideSize == 18
Fields == {[i \in 1..WideSize |-> <<"Tup", IF (i = k) = b THEN S(i, i + 1) ELSE NoSpan, b>>] : k \in 0..WideSize, b \in BOOLEAN}
Wides(ts) == {<<"Wide", s, fs>> : s \in Some, fs \in Fields} \cup {<<"Broad", p, fs, s>> : p \in Some, fs \in Fields, s \in Some}
             \cup {<<"Two", s, t, u>> : s \in Some, t \in ts, u \in Tups}
             \cup {<<"Many", s, k, o>> : s \in Some, k \in {<<>>, << <<>> >>} \cup {<< <<>>, <<t>>, <<>>, <<t>> >> : t \in ts}, o \in {<<>>} \cup {<< us >> : us \in {<<>>} \cup {<<u, u>> : u \in Tups}}}
RECURSIVE Upto(_)
Upto(n) == IF n = 0 THEN Leaves ELSE Leaves \cup Grow(Upto(n - 1))

(* the path to the location of a value *)
Loc(t) == CASE t[1] = "Leaf" -> t[2] [] t[1] = "Pair" -> t[2] [] t[1] = "Gen" -> t[2] [] t[1] = "Twice" -> t[2]
            [] t[1] \in {"Wide", "Two", "Many"} -> t[2] [] t[1] = "Broad" -> t[4]
            [] t[1] = "Named" -> t[3] [] t[1] = "Wrap" -> t[2][3] [] t[1] = "Deep" -> t[2][2][2]
Moved(t, s) == CASE t[1] \in {"Leaf", "Pair", "Gen", "Twice", "Wide", "Two", "Many"} -> [t EXCEPT ![2] = s]
                 [] t[1] = "Broad" -> [t EXCEPT ![4] = s]
                 [] t[1] = "Named" -> [t EXCEPT ![3] = s]
                 [] t[1] = "Wrap" -> [t EXCEPT ![2] = [@ EXCEPT ![3] = s]]
                 [] t[1] = "Deep" -> [t EXCEPT ![2] = [@ EXCEPT ![2] = [@ EXCEPT ![2] = s]]]
RECURSIVE Bare(_), Bares(_)
BareTups(us) == [i \in 1..Len(us) |-> <<"Tup", NoSpan, us[i][3]>>]
Bares(ts) == [i \in 1..Len(ts) |-> Bare(ts[i])]
Bare(t) == CASE t[1] = "Leaf" -> <<"Leaf", NoSpan>>
             [] t[1] = "Pair" -> <<"Pair", NoSpan, Bare(t[3]), Bares(t[4])>>
             [] t[1] = "Wrap" -> <<"Wrap", <<"Inner", Bares(t[2][2]), NoSpan>>, t[3]>>
             [] t[1] = "Named" -> <<"Named", t[2], NoSpan, Bares(t[4])>>
             [] t[1] = "Deep" -> <<"Deep", <<"Over", <<"Tup", NoSpan, t[2][2][3]>>, [i \in 1..Len(t[2][3]) |-> <<"Tup", NoSpan, t[2][3][i][3]>>]>>, Bares(t[3])>>
             [] t[1] = "Gen" -> <<"Gen", NoSpan, Bare(t[3])>>
             [] t[1] = "Wide" -> <<"Wide", NoSpan, BareTups(t[3])>>
             [] t[1] = "Broad" -> <<"Broad", NoSpan, BareTups(t[3]), NoSpan>>
             [] t[1] = "Two" -> <<"Two", NoSpan, Bare(t[3]), BareTups(<<t[4]>>)[1]>>
             [] t[1] = "Many" -> <<"Many", NoSpan, [i \in 1..Len(t[3]) |-> Bares(t[3][i])], [i \in 1..Len(t[4]) |-> BareTups(t[4][i])]>>
             [] t[1] = "Twice" -> <<"Twice", NoSpan, NoSpan>>

VARIABLE t
Init == t \in Upto(Depth) \cup Wides(Upto(1))
Spec == Init /\ [][FALSE]_t
Sane == /\ Loc(Moved(t, New)) = New /\ Moved(Moved(t, New), Loc(t)) = t
        /\ Loc(Bare(t)) = NoSpan /\ Bare(Bare(t)) = Bare(t) /\ Bare(Moved(t, New)) = Bare(t)
Checked == Sane /\ PrintT(ToJson([tree |-> t, loc |-> Loc(t), moved |-> Moved(t, New), bare |-> Bare(t)]))
=============================================================================
