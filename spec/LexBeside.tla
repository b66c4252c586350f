----------------------------- MODULE LexBeside -----------------------------
(***************************************************************************)
(* Lexemes side by side: every kind next to every kind, with and without     *)
(* something between them, and every lexeme before every few characters.       *)
(***************************************************************************)
EXTENDS LexModels

(* lexemes of every kind and what may stand between them, side by side: the one must not change how the other is read *)
NumberLexemes == {Txt(x) : x \in {"0", "07", "08", "1", "1.5", ".5", "1.", "1e5", "0x1F", "0b1", "0o7", "1e+5"}}
OtherLexemes  == {Txt(x) : x \in {"'s'", "\"d\"", "''", "'\\n'", "a", "if", "await", "of", "\\u0061", "a\\u{62}", "$", "#", "\\"}}
                 \cup {Txt("'\\") \o <<LF>> \o Txt("b'"), <<233>>, <<119964>>}
RegExpLexemes == {Txt(x) : x \in {"/r/", "/[/]/g", "/=/", "/\\//i"}}
BlankLexemes  == {<<SP>>, <<LF>>, <<CR, LF>>, <<CR>>, <<LS>>, Txt("//c") \o <<LF>>, Txt("/*c*/"), Txt("/*") \o <<LF>> \o Txt("*/"),
                  Txt("<!--h") \o <<LF>>, Txt("-->h") \o <<LF>>, Txt("<!--"), Txt("-->"), Txt("//")}
Lexemes   == PunctCodes \cup NumberLexemes \cup OtherLexemes \cup RegExpLexemes \cup BlankLexemes
(* one or two of a kind *)
FewLexemes == {Txt(x) : x \in {"{", ")", ".", "<", "=", "-", "++", "--", "/", "/=", ">>>=", "=>", "07", "1.", "1e5", "0x1F", "'s'", "a", "if", "\\u0061", "/r/g", "/*c*/", "-->", "<!--"}}
              \cup {<<SP>>, <<LF>>, <<CR>>, Txt("//c") \o <<LF>>, Txt("/*") \o <<LF>> \o Txt("*/"), Txt("'\\") \o <<LF>> \o Txt("b'")}
Beside(x, y) == {a \o b : a \in x, b \in y}
BesideSeeds == Beside(Lexemes, Lexemes) \cup Beside(Beside(FewLexemes, FewLexemes), FewLexemes)
(* a lexeme and any two characters *)
Followers == {LF, 233} \cup Set("<>=!-+&|/.*%^~({:,? a0e'\\#")
Followed(n) == Model(Lexemes, Followers, n)
FollowedBy == << Followed(2) >>
=============================================================================
