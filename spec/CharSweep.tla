----------------------------- MODULE CharSweep -----------------------------
(***************************************************************************)
(* What a single character c means in each lexical context.  The signature of *)
(* a character is constant between consecutive break points, so printing it    *)
(* at every break point describes all 1 114 112 code points; the harness       *)
(* compares the real tokenizer with it at every one of them.                   *)
(***************************************************************************)
EXTENDS Joker, Json

Special == {5760, 8192, 8203, ZWNJ, ZWJ, LS, PS, 8239, 8287, 12288, BOM}
Ends(R) == {R[i][1] : i \in 1..Len(R)} \cup {R[i][2] + 1 : i \in 1..Len(R)}
Points == ((0..256) \cup Special \cup {c + 1 : c \in Special} \cup {55296, 57344, 65536, MaxCode + 1}
           \cup Ends(IdStartRanges) \cup Ends(IdContinueRanges))

(*   c      as a whole source *)
Lead(c) == CASE IsSurrogate(c) \/ c > MaxCode -> "-"
             [] IsWhitespace(c) -> "space"  [] IsNewline(c) -> "newline"
             [] c \in PunctFirst -> "punct" [] c \in {34, 39} -> "quote"
             [] c = 92 -> "backslash"       [] IsDecDigit(c) -> "digit"
             [] IsIdStart(c) -> "word"      [] OTHER -> "illegal"
(*   ac     c continues a word *)
Cont(c) == IF IsIdContinue(c) THEN "yes" ELSE "no"
(*   1c     c cannot touch a number *)
Touch(c) == IF (IsIdStart(c) /\ c \notin {69, 101}) \/ c = 92 THEN "id" ELSE "no"
(*   'c'    in a string *)
InStr(c) == IF IsNewline(c) THEN "newline" ELSE IF c \in {39, 92} THEN "special" ELSE "char"
(*   /c/    in a regular expression *)
InRx(c) == IF IsNewline(c) THEN "newline" ELSE IF c \in {42, 47, 91, 92} THEN "special" ELSE "char"
(*   //cb   in a line comment *)
InLine(c) == IF IsNewline(c) THEN "newline" ELSE "char"
(*   /*c*/b in a block comment: the newline flag of b, and the position of b *)
InBlock(c) == IF IsNewline(c) THEN "newline 1 2" ELSE "same 0 5"
(*   '\c'   after a backslash *)
Escaped(c) == CASE IsNewline(c) -> "none"
                [] IsOctDigit(c) -> ToString(c - 48)
                [] c \in {Ch("x"), Ch("u")} -> "error"
                [] Unescape(c) # c -> ToString(Unescape(c))
                [] OTHER -> "self"
(*   \u{c}  and  a\u{c}  as words,  '\u{c}'  in a string *)
EscStart(c) == IF IsScalar(c) /\ IsIdStart(c) THEN "yes" ELSE "no"
EscCont(c)  == IF IsScalar(c) /\ IsIdContinue(c) THEN "yes" ELSE "no"
EscStr(c)   == IF IsScalar(c) THEN "self" ELSE "63"

Signature(c) ==
    IF IsScalar(c)
    THEN <<Lead(c), Cont(c), Touch(c), InStr(c), InRx(c), InLine(c), InBlock(c), Escaped(c),
           EscStart(c), EscCont(c), EscStr(c)>>
    ELSE <<"-", "-", "-", "-", "-", "-", "-", "-", EscStart(c), EscCont(c), EscStr(c)>>

(* Sanity of the classes themselves *)
Disjoint(c) == /\ ~(IsWhitespace(c) /\ IsNewline(c))
               /\ IsIdStart(c) => IsIdContinue(c) /\ ~IsWhitespace(c) /\ ~IsNewline(c)
               /\ IsDecDigit(c) => ~IsIdStart(c) /\ IsIdContinue(c)
               /\ c \in PunctFirst => ~IsIdContinue(c) /\ ~IsWhitespace(c) /\ ~IsNewline(c)

VARIABLE cp
Init == /\ cp \in Points
        /\ LexInit /\ src = <<>> /\ closed = TRUE
Next == UNCHANGED <<cp, lexvars>>
Spec == Init /\ [][Next]_<<cp, lexvars>>
Checked == Disjoint(cp) /\ PrintT(ToJson([cp |-> cp, sig |-> Signature(cp)]))
=============================================================================
