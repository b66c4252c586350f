----------------------------- MODULE LexModels -----------------------------
(***************************************************************************)
(* The bounded input families explored for the tokenizer properties.         *)
(***************************************************************************)
EXTENDS MCJoker

Set(s) == {CodeTable[SubSeq(s, i, i)] : i \in 1..Len(s)}
Model(pre, abc, max) == [pre |-> pre, abc |-> abc, max |-> max]

(* all punctuators, then the characters that combine most *)
PunctAll(n)  == Model({<<>>}, PunctFirst \cup Set("a0 "), n)
PunctDense(n) == Model({<<>>}, Set("<>=!-+&|/."), n)
PunctMore(n) == Model({Txt(">"), Txt("<"), Txt("="), Txt("."), Txt("a-"), Txt("1."), Txt("0.")},
                      Set("<>=!-.0a"), n)

(* white space, line terminators, comments *)
Trivia(n)    == Model({<<>>, Txt("a ")}, {SP, LF, CR, LS} \cup Set("/*a"), n)
TriviaCR(n)  == Model({<<>>, Txt("/*"), Txt("//"), Txt("a")}, {LF, CR, PS, SP} \cup Set("a*/"), n)
Html(n)      == Model({<<>>, Txt("a")}, {LF} \cup Set("-><!a */"), n)
HtmlDeep(n)  == Model({Txt("<!--"), Txt("a<!-"), <<LF>> \o Txt("--"), Txt("/*") \o <<LF>> \o Txt("*/-"),
                       Txt("/**/-"), Txt("a") \o <<CR>> \o Txt("--"), <<TAB>> \o Txt("-->")},
                      {LF, CR} \cup Set("->!a */"), n)
Blanks(n)    == Model({<<>>, Txt("a")},
                      {TAB, VT, FF, SP, NBSP, BOM, 5760, 8192, 8199, 8200, 8202, 8239, 8287, 12288,
                       LF, CR, LS, PS, 133, 6158, 8203, 8204} \cup Set("a"), n)

(* numbers *)
Numbers(n)   == Model({<<>>}, Set("01789.exbo-a_ "), n)
NumberForms(n) == Model({Txt("0x"), Txt("0X"), Txt("0b"), Txt("0B"), Txt("0o"), Txt("0O"), Txt("1e"), Txt("1E+"),
                       Txt("2.5e-"), Txt("1."), Txt("."), Txt("00"), Txt("07"), Txt("08"), Txt("9.")},
                      Set("012789aAfFgGeE+-.\\ "), n)
NumberDense(n) == Model({<<>>}, Set("018.e-x"), n)

(* strings *)
Strings(n)   == Model({Txt("'"), Txt("\""), Txt("'\\"), Txt("\"a\\x"), Txt("'\\u"), Txt("'\\u{"), Txt("\"\\0")},
                      {LF, CR, LS} \cup Set("'\"\\ux{}01348fn"), n)
StringLine(n) == Model({Txt("'a\\"), Txt("'")}, {LF, CR, LS, PS} \cup Set("'\\a"), n)
StringOct(n) == Model({Txt("'\\")}, Set("013478'9"), n)
StringUni(n) == Model({Txt("'\\u{D7F"), Txt("'\\u{D80"), Txt("'\\u{DFF"), Txt("'\\u{10FFF"), Txt("'\\u{11000"), Txt("'\\uD7F"),
                       Txt("'\\uD80"), Txt("'\\udff"), Txt("'\\u{FFFFFF"), Txt("'\\u{000000000"), Txt("'\\xf")},
                      Set("0F8}'g"), n)

(* words *)
Words(n)     == Model({<<>>, Txt("\\u"), Txt("a\\u"), Txt("\\u{"), Txt("a\\u{"), Txt("\\u00"), Txt("a\\u00"), Txt("i")},
                      Set("\\u{}0619afin "), n)
WordUni(n)   == Model({Txt("\\u{1F60"), Txt("\\u{2F80"), Txt("a\\u{E010"), Txt("a\\u200"), Txt("\\u200"), Txt("a\\u{110000"),
                       Txt("\\uD80"), Txt("a\\u030"), Txt("\\u030")},
                      Set("0CcD}4x "), n)
WordChars(n) == Model({<<>>, Txt("a")},
                      {233, 955, 20013, 119964, ZWNJ, ZWJ, 769, 1632, 8472, 8494, 12443, 12295, 65279, 1114111, 0, 127, 133, 173, 8232}
                       \cup Set("a0$_#@`\\"), n)

(* regular expressions *)
RegExps(n)   == Model({Txt("/"), Txt("/["), Txt("/a/"), Txt("a/")}, {LF, LS} \cup Set("/[]\\ag*= "), n)
RegExpDense(n) == Model({Txt("/")}, {LF} \cup Set("/[]\\a"), n)
RegExpFlags(n) == Model({Txt("/a/"), Txt("/[/]/"), Txt("/=/")}, Set("gimuy0$_\\ /=."), n)

(* a bit of everything *)
Mixed(n)     == Model({<<>>}, {LF} \cup Set("a0. /*'+\\"), n)

Base == << PunctAll(2), PunctDense(3), Trivia(3), Html(3), Blanks(2), Numbers(3), NumberForms(2), Strings(2), StringOct(3),
           StringUni(2), StringLine(3), Words(2), WordUni(2), WordChars(2), RegExps(3), RegExpFlags(2), Mixed(4) >>

(* every reserved and contextual word, whole, cut, extended, capitalised, escaped *)
AllWords == {Txt(w) : w \in ReservedWords \cup ContextualWords}
Hex2(c) == LET d(x) == IF x < 10 THEN 48 + x ELSE 87 + x IN <<d(c \div 16), d(c % 16)>>
EscapeAt(w, i) == SubSeq(w, 1, i - 1) \o Txt("\\u00") \o Hex2(w[i]) \o SubSeq(w, i + 1, Len(w))
BraceAt(w, i)  == SubSeq(w, 1, i - 1) \o Txt("\\u{") \o Hex2(w[i]) \o Txt("}") \o SubSeq(w, i + 1, Len(w))
WordSeeds ==
    AllWords
    \cup {SubSeq(w, 1, Len(w) - 1) : w \in AllWords}
    \cup {w \o Txt("x") : w \in AllWords} \cup {w \o Txt("$") : w \in AllWords} \cup {w \o <<ZWJ>> : w \in AllWords}
    \cup {<<w[1] - 32>> \o Tail(w) : w \in AllWords}
    \cup {<<w[1] - 32>> \o Tail(w) \o Txt(" ") \o w : w \in AllWords}
    \cup UNION {{EscapeAt(w, i) : i \in 1..Len(w)} : w \in AllWords}
    \cup {BraceAt(w, Len(w)) : w \in AllWords}
    \cup {w \o Txt("/") \o w \o Txt("/g") : w \in AllWords}
    \cup {w \o Txt(".") \o w \o <<LF>> \o w : w \in AllWords}

(* digit strings around the rounding boundary of a double *)
Rep(x, n) == [i \in 1..n |-> x]
RoundSeeds ==
    {Txt("0b1") \o Rep(48, a) \o Rep(49, b) \o Rep(48, c) \o Rep(49, d) :
        a \in 50..53, b \in 0..2, c \in {0, 1, 5}, d \in 0..1}
    \cup {Txt("0x1") \o Rep(48, a) \o <<x>> \o Rep(48, b) \o <<y>> : a \in 11..14, x \in Set("0178F9"), b \in {0, 2, 30, 250}, y \in Set("01f")}
    \cup {Txt("0o1") \o Rep(48, a) \o <<x, y>> : a \in 15..18, x \in Set("03457"), y \in Set("0147")}
    \cup {Txt("0") \o Rep(55, a) \o <<y>> : a \in 14..24, y \in Set("01234567")}
    \cup {Txt("0x") \o Rep(48, 20) \o Txt("1"), Txt("0b") \o Rep(48, 80) \o Txt("1"), Txt("0x") \o Rep(70, 256), Txt("0x") \o Rep(70, 257)}
NumberSeeds == RoundSeeds
    \cup {Txt(x) : x \in {"9007199254740993", "1e308", "1.8e308", "2e-324", "5e-324", "4.9e-324", "1e400", "1e-400",
                          "0.1", "123456789012345678901234567890", "1e0000000000000000000001", "0e99999", "00", "000", "0.0", "09.5", "08e1",
                          "1.7976931348623157e308", "2.2250738585072011e-308", "8.5e-3.5", "1..5", "1...5", "017.5", "01e5", "0.0000001e7"}}

NoSeeds == {}
NoModels == <<>>

QuickTrivia == Base \o << Trivia(5), TriviaCR(3), Html(4), HtmlDeep(3) >>
QuickPunct  == Base \o << PunctAll(3), PunctDense(4), PunctMore(3) >>
QuickNumber == Base \o << Numbers(4), NumberForms(3), NumberDense(5) >>
QuickString == Base \o << Strings(3), StringOct(4), StringUni(3), StringLine(4) >>
QuickWord   == Base \o << Words(3), WordUni(3), WordChars(2) >>
QuickRegExp == Base \o << RegExps(4), RegExpDense(5), RegExpFlags(3) >>
QuickMixed  == Base \o << Mixed(5), Trivia(4), PunctDense(4), StringLine(4), TriviaCR(3), RegExpDense(4) >>

ThoroughTrivia == Base \o << Trivia(6), TriviaCR(5), Html(5), HtmlDeep(5), Blanks(3) >>
ThoroughPunct  == Base \o << PunctAll(4), PunctDense(5), PunctMore(4) >>
ThoroughNumber == Base \o << Numbers(5), NumberForms(4), NumberDense(7) >>
ThoroughString == Base \o << Strings(4), StringOct(6), StringUni(5), StringLine(6) >>
ThoroughWord   == Base \o << Words(4), WordUni(4), WordChars(3) >>
ThoroughRegExp == Base \o << RegExps(5), RegExpDense(7), RegExpFlags(4) >>
ThoroughMixed  == Base \o << Mixed(6), Trivia(5), PunctDense(5), StringLine(6), TriviaCR(4), RegExpDense(6), Numbers(4), Strings(3), Words(3) >>
=============================================================================
