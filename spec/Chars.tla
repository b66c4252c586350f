------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Characters are Unicode code points (integers).  This module defines the  *)
(* character classes the lexical grammar refers to, and a few helpers to    *)
(* write source text readably: Txt("abc") is the sequence of code points of *)
(* a printable-ASCII string.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, UnicodeTables

EOC == -1                                 \* "no character": end of the input

ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CodeTable == [s \in {SubSeq(ASCII, i, i) : i \in 1..95} |->
                 31 + (CHOOSE i \in 1..95 : SubSeq(ASCII, i, i) = s)]

Txt(s) == [i \in 1..Len(s) |-> CodeTable[SubSeq(s, i, i)]]
Ch(s)  == CodeTable[s]

TAB == 9   LF == 10   VT == 11   FF == 12   CR == 13   SP == 32
NBSP == 160   LS == 8232   PS == 8233   BOM == 65279   ZWNJ == 8204   ZWJ == 8205

MaxCode == 1114111

(* 11.3 Line terminators *)
IsNewline(c) == c \in {LF, CR, LS, PS}

(* 11.2 White space: TAB, VT, FF, SP, NBSP, ZWNBSP and category Zs *)
IsWhitespace(c) == \/ c \in {TAB, VT, FF, SP, NBSP, BOM, 5760, 8239, 8287, 12288}
                   \/ c \in 8192..8202

RECURSIVE InRanges(_, _, _, _)
InRanges(R, lo, hi, c) ==
    IF lo > hi THEN FALSE
    ELSE LET mid == (lo + hi) \div 2 IN
         IF c < R[mid][1] THEN InRanges(R, lo, mid - 1, c)
         ELSE IF c > R[mid][2] THEN InRanges(R, mid + 1, hi, c)
         ELSE TRUE

IsDecDigit(c) == c \in 48..57
IsOctDigit(c) == c \in 48..55
IsBinDigit(c) == c \in 48..49
IsHexDigit(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
IsRadixDigit(r, c) == CASE r = 2 -> IsBinDigit(c) [] r = 8 -> IsOctDigit(c) [] r = 16 -> IsHexDigit(c)
IsAsciiLetter(c) == c \in 65..90 \/ c \in 97..122

DigitVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE c - 55

(* 11.6 Names: ID_Start / ID_Continue plus $, _ and (continue only) ZWNJ, ZWJ *)
IsIdStart(c) ==
    IF c < 128 THEN IsAsciiLetter(c) \/ c \in {36, 95}
    ELSE InRanges(IdStartRanges, 1, Len(IdStartRanges), c)

IsIdContinue(c) ==
    IF c < 128 THEN IsAsciiLetter(c) \/ IsDecDigit(c) \/ c \in {36, 95}
    ELSE c \in {ZWNJ, ZWJ} \/ InRanges(IdContinueRanges, 1, Len(IdContinueRanges), c)

IsSurrogate(c) == c \in 55296..57343
IsScalar(c) == c \in 0..MaxCode /\ ~IsSurrogate(c)

(* 11.8.4 single-character escapes; every other character stands for itself *)
Unescape(c) == CASE c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9
                 [] c = 98 -> 8 [] c = 118 -> 11 [] c = 102 -> 12
                 [] OTHER -> c
=============================================================================
