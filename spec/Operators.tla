----------------------------- MODULE Operators -----------------------------
(***************************************************************************)
(* The operators: which spellings denote which kinds of operator, and how      *)
(* tightly the infix ones bind. Every candidate spelling and every pair of       *)
(* infix operators is a state, printed for the harness.                       *)
(***************************************************************************)
EXTENDS Parser, Json

Odd == {"", " +", "+ ", "In", "IN", "=", "**", "of", "not", "a", "+=+", "&&=", "||=", "<<<", "in ", "instance", "instanceOf", "Typeof", "=>", "++", "--"}
Candidates == Puncts \cup Reserved \cup Odd

VARIABLE op
Init == op \in {<<t>> : t \in Candidates} \cup (Infix \X Infix)
Spec == Init /\ [][FALSE]_op

(* the tokens that carry an operator are those of the tokenizer's vocabulary *)
Single(t) == [op |-> t, token |-> t \in Puncts \cup Reserved,
              binary |-> t \in DOMAIN BinPrec, logical |-> t \in DOMAIN LogPrec, assign |-> t \in AssignOps, prefix |-> t \in PrefixOps]
Pair(a, b) == [a |-> a, b |-> b, tighter |-> Prec[a] > Prec[b], same |-> Prec[a] = Prec[b]]

(* no spelling is an operator of two kinds, except that + and - are both prefix and infix *)
Disjoint == /\ DOMAIN LogPrec \cap DOMAIN BinPrec = {} /\ AssignOps \cap Infix = {} /\ PrefixOps \cap AssignOps = {}
            /\ PrefixOps \cap Infix = {"+", "-"}
            /\ \A t \in AssignOps : \E b \in DOMAIN BinPrec : t = b \o "="
Checked == Disjoint /\ PrintT(ToJson(IF Len(op) = 1 THEN Single(op[1]) ELSE Pair(op[1], op[2])))
=============================================================================
