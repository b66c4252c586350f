------------------------------ MODULE LexPump ------------------------------
(***************************************************************************)
(* Lexemes and trivia of any length. A family is a text with a part that is   *)
(* repeated: pre, unit over and over, post. TLC runs the machine on texts of     *)
(* base, base + 1, ... repetitions. What it does with them differs by one more      *)
(* copy of something each time; the harness checks that and carries it on to      *)
(* lengths no enumeration reaches.                                          *)
(***************************************************************************)
EXTENDS LexModels

VARIABLES fam, copies
pumpvars == <<mcvars, fam, copies>>

Family(base, pre, unit, post) == [base |-> base, pre |-> pre, unit |-> unit, post |-> post]
T(pre, unit, post) == Family(2, Txt(pre), Txt(unit), Txt(post))
N(pre, unit, post) == Family(64, Txt(pre), Txt(unit), Txt(post))
Lines(pre, unit, post) == Family(2, pre, unit, post)

Families == <<
  (* words *)
  T("", "a", ""), T("", "a", " b"), T("b ", "$_", ";"), T("if", "f", "=1"), T("instanceo", "f", ""), T("get", "t", ""), T("", "\\u0061", ""), T("b\\u{", "0", "61}c"), T("a", "\\u{62}", "/c"),
  Lines(<<>>, <<233>>, <<>>), Lines(<<119964>>, <<119964, ZWJ>>, Txt(" a")), Lines(Txt("#"), Txt("a"), <<>>), T("a", "9", "\\x"), T("a", "b", "\\u0020"),
  (* numbers *)
  N("0x", "F", ""), N("0X1", "0", ";"), N("0x0", "0", "1"), N("0b", "1", " "), N("0B1", "0", "1"), N("0b", "01", ","), N("0o", "7", ""), N("0O", "70", "+"), N("0", "7", ""), N("0", "0", ""), N("0", "0", "1"), N("00", "12", ".a"),
  T("0", "8", ""), T("0", "1", "9"), T("", "1", ""), T("", "9", ".5"), T("", "10", "e5"), T("1", "0", "E-300"), T("1.", "0", ""), T("1.", "0", "1e2"), T("", "123", ".25"), T(".", "3", ""), T("0.", "0", "1"), T("0.", "0", "e1"),
  T("1e", "0", "5"), T("1e-", "0", "3"), Family(8, Txt("1E+"), Txt("9"), <<>>), Family(8, Txt("5e-"), Txt("1"), Txt(" ")), T("0e", "0", "x"), T("", "1", "a"), T("1", "2", "e"), N("0x", "A", "g"), N("0b", "0", "2"), T("1.", "5", "5\\u0061"),
  (* strings *)
  T("'", "a", "'"), T("\"", "'", "\""), T("'", "\\x41", "'"), T("'", "\\n", "' a"), T("\"", "\\\\", "\""), T("'", "\\0", "'"), T("'", "\\101", "'"), T("'\\u{", "0", "41}'"), T("'", "\\u{1F600}", "'"), T("'", "\\'", "'"),
  Lines(Txt("'"), Txt("\\") \o <<LF>>, Txt("'a")), Lines(Txt("\"b"), Txt("\\") \o <<CR, LF>>, Txt("c\"")), Lines(Txt("'"), <<128512>>, Txt("'")), T("'", "a", ""), T("'", "\\\\", "\\"), T("\"", "a", "\\u{110000}\""), T("'", "a", "\\xg'"),
  Lines(Txt("'"), Txt("a"), <<LF>>),
  (* regular expressions *)
  T("/", "a", "/g"), T("/[", "/", "]/"), T("/", "\\/", "/"), T("/a/", "g", ""), T("/a/", "gi", ";"), T("/", "[]]", "/"), T("/", "(", "/y"), T("/[", "a", "/g"), T("/", "a", ""), T("/", "\\a", "\\"), T("/a/", "\\u0067", ""), Lines(Txt("/"), Txt("b"), <<LS>>),
  (* comments and white space *)
  T("//", "x", ""), Lines(Txt("a//"), Txt("/"), <<LF>> \o Txt("b")), T("/*", "x", "*/a"), T("/*", "*", "/a"), T("/*", "* ", "*/a"), T("/*", "/", "*/"), Lines(Txt("/*"), <<LF>>, Txt("*/a")), Lines(Txt("a/*"), <<CR, LF>>, Txt("*/-->b")), T("/*", "*", ""), T("/*", "/*", " "),
  T("<!--", "-", ""), Lines(Txt("a<!--"), Txt("<"), <<CR>> \o Txt("b")), Lines(<<LF>> \o Txt("-->"), Txt(">"), <<LF>> \o Txt("b")), T("a", " ", "b"), Lines(Txt("a"), <<LF>>, Txt("b")), Lines(Txt("a"), <<CR, LF>>, Txt(" b")), Lines(<<>>, <<CR>>, Txt("a")), Lines(<<>>, <<LS>>, Txt("a")),
  Lines(<<>>, <<PS, SP>>, Txt("a")), T("", "/**/", "a"), Lines(Txt("a"), Txt("//") \o <<LF>>, Txt("b")), Lines(Txt("a"), Txt("/*") \o <<LF>> \o Txt("*/"), Txt("--> c")), Lines(<<>>, <<BOM, TAB>>, Txt("/")), Lines(Txt("a"), Txt("-->") \o <<LF>>, Txt("b")), Lines(<<LF>>, Txt("-->") \o <<LF>>, Txt("b")) >>

Copies == 0..3

PumpInit == \E i \in 1..Len(Families), k \in Copies :
              /\ fam = i /\ copies = Families[i].base + k
              /\ src = Families[i].pre \o [j \in 1..(Len(Families[i].unit) * copies) |-> Families[i].unit[1 + ((j - 1) % Len(Families[i].unit))]] \o Families[i].post
              /\ closed = TRUE /\ LexInit
              /\ env = [mod |-> 0, n |-> 0, script |-> 0]
PumpNext == LexStep({"div", "re"}) /\ UNCHANGED <<env, fam, copies>>
PumpSpec == PumpInit /\ [][PumpNext]_pumpvars

PumpOutcome == [fam |-> fam, copies |-> copies, pre |-> Families[fam].pre, unit |-> Families[fam].unit, post |-> Families[fam].post,
                ops |-> ops, toks |-> toks, err |-> Outcome.err]
PumpChecked == Terminal => /\ LexInv
                           /\ PrintT(ToJson(PumpOutcome))
=============================================================================
