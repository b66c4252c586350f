------------------------------- MODULE Joker -------------------------------
(***************************************************************************)
(* The tokenizer (crate joker) as a character-level state machine.          *)
(*                                                                          *)
(* The environment supplies source characters on demand (Extend) until it   *)
(* decides to end the input (Close); the client requests one token after    *)
(* the other, telling the lexer for each request whether a slash   *)
(* is a division operator or starts a regular expression.                    *)
(* That flag ("div" or "re") is chosen only when it matters, so `ops` records     *)
(* "any" for every token whose reading cannot depend on it.                  *)
(*                                                                          *)
(* One action = one character consumed, or one decision made on lookahead.   *)
(***************************************************************************)
EXTENDS Chars, TLC

VARIABLES
    src,      \* code points delivered so far
    closed,   \* the environment has ended the input
    p,        \* position: [o |-> offset, l |-> line, c |-> column], all from 0
    m,        \* mode and mode-local buffers
    nl,       \* a line terminator was passed since the previous token
    bol,      \* only trivia so far on this line (where --> is a comment)
    ops,      \* the operator flag of each request: "div", "re" or "any"
    toks      \* finished tokens, in order

lexvars == <<src, closed, p, m, nl, bol, ops, toks>>

-----------------------------------------------------------------------------
(* Vocabulary *)

Punctuators == <<
  <<"LBrace", "{">>, <<"RBrace", "}">>, <<"LParen", "(">>, <<"RParen", ")">>,
  <<"LBrack", "[">>, <<"RBrack", "]">>, <<"Dot", ".">>, <<"Ellipsis", "...">>,
  <<"Semi", ";">>, <<"Comma", ",">>, <<"LAngle", "<">>, <<"RAngle", ">">>,
  <<"LEq", "<=">>, <<"GEq", ">=">>, <<"Eq", "==">>, <<"NEq", "!=">>,
  <<"StrictEq", "===">>, <<"StrictNEq", "!==">>, <<"Plus", "+">>, <<"Minus", "-">>,
  <<"Star", "*">>, <<"Mod", "%">>, <<"Slash", "/">>, <<"Inc", "++">>, <<"Dec", "--">>,
  <<"LShift", "<<">>, <<"RShift", ">>">>, <<"URShift", ">>>">>, <<"BitAnd", "&">>,
  <<"BitOr", "|">>, <<"BitXor", "^">>, <<"Bang", "!">>, <<"Tilde", "~">>,
  <<"LogicalAnd", "&&">>, <<"LogicalOr", "||">>, <<"Question", "?">>, <<"Colon", ":">>,
  <<"Assign", "=">>, <<"PlusAssign", "+=">>, <<"MinusAssign", "-=">>, <<"StarAssign", "*=">>,
  <<"SlashAssign", "/=">>, <<"ModAssign", "%=">>, <<"LShiftAssign", "<<=">>,
  <<"RShiftAssign", ">>=">>, <<"URShiftAssign", ">>>=">>, <<"BitAndAssign", "&=">>,
  <<"BitOrAssign", "|=">>, <<"BitXorAssign", "^=">>, <<"Arrow", "=>">> >>

PunctCodes == {Txt(Punctuators[i][2]) : i \in 1..Len(Punctuators)}
PunctName  == [q \in PunctCodes |->
                 Punctuators[CHOOSE i \in 1..Len(Punctuators) : Txt(Punctuators[i][2]) = q][1]]
PunctFirst == {Head(q) : q \in PunctCodes}

LineOpener  == Txt("//")
BlockOpener == Txt("/*")
HtmlOpener  == Txt("<!--")
HtmlCloser  == Txt("-->")
Openers     == PunctCodes \cup {LineOpener, BlockOpener, HtmlOpener, HtmlCloser}
ProperPrefixes == UNION {{SubSeq(q, 1, n) : n \in 1..(Len(q) - 1)} : q \in Openers}

ReservedWords == {"null", "true", "false", "break", "case", "catch", "class", "const",
  "continue", "debugger", "default", "delete", "do", "else", "export", "extends",
  "finally", "for", "function", "if", "import", "in", "instanceof", "new", "return",
  "super", "switch", "this", "throw", "try", "typeof", "var", "void", "while", "with", "enum"}
ContextualWords == {"arguments", "eval", "yield", "await", "implements", "interface", "let",
  "package", "private", "protected", "public", "static", "async", "from", "of", "get", "set", "target"}
ReservedOf   == [q \in {Txt(w) : w \in ReservedWords} |-> CHOOSE w \in ReservedWords : Txt(w) = q]
ContextualOf == [q \in {Txt(w) : w \in ContextualWords} |-> CHOOSE w \in ContextualWords : Txt(w) = q]

-----------------------------------------------------------------------------
(* Reading *)

Peek(k) == IF p.o + k <= Len(src) THEN src[p.o + k] ELSE EOC
Avail   == Len(src) - p.o
Have(k) == closed \/ Avail >= k
Window  == SubSeq(src, p.o + 1, IF p.o + 4 < Len(src) THEN p.o + 4 ELSE Len(src))
Ahead(q) == Avail >= Len(q) /\ SubSeq(src, p.o + 1, p.o + Len(q)) = q

(* A line ends after LF, LS, PS, and after a CR that no LF follows. *)
After(q) ==
    LET c == src[q.o + 1]
        d == IF q.o + 2 <= Len(src) THEN src[q.o + 2] ELSE EOC
    IN  IF c \in {LF, LS, PS} \/ (c = CR /\ d # LF)
        THEN [o |-> q.o + 1, l |-> q.l + 1, c |-> 0]
        ELSE [o |-> q.o + 1, l |-> q.l, c |-> q.c + 1]

RECURSIVE AfterN(_, _)
AfterN(q, n) == IF n = 0 THEN q ELSE AfterN(After(q), n - 1)
Eat(n) == p' = AfterN(p, n)

(* How many characters of lookahead the next step needs. *)
Need ==
    CASE m.mode = "gap" ->
           IF Avail = 0 THEN 1
           ELSE IF Window[1] = CR THEN 2
           ELSE IF Window \in ProperPrefixes THEN Len(Window) + 1
           ELSE 1
      [] m.mode = "line"  -> 1
      [] m.mode = "block" -> 2
      [] m.mode = "esc"   -> IF Peek(1) = CR THEN 2 ELSE 1
      [] m.mode = "num"   -> IF Peek(1) = 48 THEN 2 ELSE 1
      [] m.mode \in {"eof", "err"} -> 0
      [] OTHER -> 1

Terminal == m.mode \in {"eof", "err"}
Ready    == ~Terminal /\ Have(Need)

-----------------------------------------------------------------------------
(* Finishing: tokens and errors *)

Span(q) == [s |-> m.at, e |-> q]

Finish(tok, q) ==                          \* emit a token whose text ends at q
    /\ toks' = Append(toks, [k |-> tok.k, v |-> tok.v, s |-> m.at, e |-> q, n |-> nl])
    /\ m' = [mode |-> "gap"]
    /\ nl' = FALSE
    /\ UNCHANGED <<bol, ops>>

RECURSIVE Class(_)
Class(mm) ==                               \* the kind of lexeme being read
    CASE mm.mode = "gap" -> "gap"
      [] mm.mode \in {"line", "block"} -> "comment"
      [] mm.mode \in {"str", "esc", "oct"} -> "string"
      [] mm.mode \in {"hex", "uesc", "brace"} -> Class(mm.ret)
      [] mm.mode \in {"word", "wesc"} -> IF mm.rx # <<>> THEN "regexp" ELSE "word"
      [] mm.mode \in {"rx", "rxesc", "rxclass", "rxclassesc"} -> "regexp"
      [] OTHER -> "number"

Fail(kind, arg) ==
    /\ m' = [mode |-> "err", kind |-> kind, arg |-> arg, in |-> Class(m)]
    /\ UNCHANGED <<p, nl, bol, ops, toks>>

Goto(newm) == m' = newm /\ UNCHANGED <<nl, bol, ops, toks>>
Step(newm, n) == Goto(newm) /\ Eat(n)

WordToken(text, had) ==                    \* precondition: not an escaped reserved word
    IF text \in DOMAIN ReservedOf THEN [k |-> "W", v |-> ReservedOf[text]]
    ELSE IF ~had /\ text \in DOMAIN ContextualOf THEN [k |-> "A", v |-> ContextualOf[text]]
    ELSE [k |-> "I", v |-> text]

-----------------------------------------------------------------------------
(* Between tokens *)

Begin(newmode) == [mode |-> newmode, at |-> p]

TokenStart(newm, n) ==                     \* a token starts here, whatever the operator flag
    /\ m' = newm
    /\ bol' = FALSE
    /\ ops' = Append(ops, "any")
    /\ UNCHANGED <<nl, toks>>
    /\ Eat(n)

PunctToken(q) ==
    LET end == AfterN(p, Len(q)) IN
    /\ toks' = Append(toks, [k |-> "P", v |-> PunctName[q], s |-> p, e |-> end, n |-> nl])
    /\ p' = end
    /\ m' = [mode |-> "gap"]
    /\ nl' = FALSE
    /\ bol' = FALSE

LongestPunct ==
    LET cands == {q \in PunctCodes : Ahead(q)}
    IN  CHOOSE q \in cands : \A r \in cands : Len(r) <= Len(q)

SkipWhitespace == /\ IsWhitespace(Peek(1)) /\ Step(m, 1)
SkipNewline    == /\ IsNewline(Peek(1))
                  /\ nl' = TRUE /\ bol' = TRUE /\ Eat(1) /\ UNCHANGED <<m, ops, toks>>
OpenLineComment  == Ahead(LineOpener) /\ Step([mode |-> "line"], 2)
OpenBlockComment == Ahead(BlockOpener) /\ Step([mode |-> "block", nl |-> FALSE], 2)
OpenHtmlComment  == Ahead(HtmlOpener) /\ Step([mode |-> "line"], 4)
OpenHtmlClose    == bol /\ Ahead(HtmlCloser) /\ Step([mode |-> "line"], 3)

AtComment == \/ Ahead(LineOpener) \/ Ahead(BlockOpener) \/ Ahead(HtmlOpener)
             \/ (bol /\ Ahead(HtmlCloser))
AtNumber  == IsDecDigit(Peek(1)) \/ (Peek(1) = 46 /\ IsDecDigit(Peek(2)))
AtSlash   == Peek(1) = 47 /\ ~AtComment

ReadSlash(opset) ==
    /\ AtSlash
    /\ \E o \in opset :
         /\ ops' = Append(ops, o)
         /\ IF o = "div" THEN PunctToken(LongestPunct)
            ELSE /\ m' = [mode |-> "rx", at |-> p, pat |-> <<>>]
                 /\ bol' = FALSE
                 /\ Eat(1)
                 /\ UNCHANGED <<nl, toks>>

ReadPunct ==
    /\ Peek(1) \in PunctFirst /\ ~AtComment /\ ~AtSlash /\ ~AtNumber
    /\ ops' = Append(ops, "any")
    /\ PunctToken(LongestPunct)

StartString == Peek(1) \in {34, 39}
               /\ TokenStart([mode |-> "str", at |-> p, q |-> Peek(1),
                              source |-> <<Peek(1)>>, value |-> <<>>], 1)
StartNumber == AtNumber /\ TokenStart(Begin("num"), 0)
StartWord   == /\ IsIdStart(Peek(1)) \/ Peek(1) = 92
               /\ TokenStart([mode |-> "word", at |-> p, text |-> <<>>, had |-> FALSE, rx |-> <<>>], 0)
ReadEOF     == /\ Peek(1) = EOC
               /\ toks' = Append(toks, [k |-> "E", v |-> "EOF", s |-> p, e |-> p, n |-> nl])
               /\ m' = [mode |-> "eof"] /\ bol' = FALSE /\ ops' = Append(ops, "any")
               /\ UNCHANGED <<p, nl>>

Recognised(c) == \/ c = EOC \/ IsWhitespace(c) \/ IsNewline(c) \/ c \in PunctFirst
                 \/ c \in {34, 39, 92} \/ IsDecDigit(c) \/ IsIdStart(c)
Illegal == /\ ~Recognised(Peek(1))
           /\ m' = [mode |-> "err", kind |-> "IllegalChar", arg |-> Peek(1), in |-> "gap"]
           /\ bol' = FALSE /\ ops' = Append(ops, "any") /\ UNCHANGED <<p, nl, toks>>

Gap(opset) ==
    /\ m.mode = "gap"
    /\ \/ SkipWhitespace \/ SkipNewline
       \/ OpenLineComment \/ OpenBlockComment \/ OpenHtmlComment \/ OpenHtmlClose
       \/ ReadSlash(opset) \/ ReadPunct \/ StartString \/ StartNumber \/ StartWord
       \/ ReadEOF \/ Illegal

LineComment ==
    /\ m.mode = "line"
    /\ IF Peek(1) = EOC \/ IsNewline(Peek(1))
       THEN Step([mode |-> "gap"], 0)
       ELSE Step(m, 1)

BlockComment ==
    /\ m.mode = "block"
    /\ IF Peek(2) = EOC THEN Fail("UnterminatedComment", EOC)
       ELSE IF Ahead(Txt("*/"))
       THEN /\ m' = [mode |-> "gap"] /\ Eat(2)
            /\ nl' = (nl \/ m.nl) /\ bol' = (bol \/ m.nl) /\ UNCHANGED <<ops, toks>>
       ELSE Step([m EXCEPT !.nl = @ \/ IsNewline(Peek(1))], 1)

-----------------------------------------------------------------------------
(* Strings *)

StringChar ==
    /\ m.mode = "str"
    /\ LET c == Peek(1) IN
       IF c = EOC \/ IsNewline(c) THEN Fail("UnterminatedString", c)
       ELSE IF c = m.q
       THEN /\ Eat(1)
            /\ Finish([k |-> "S", v |-> <<Append(m.source, c), m.value>>], After(p))
       ELSE IF c = 92 THEN Step([m EXCEPT !.mode = "esc", !.source = Append(@, c)], 1)
       ELSE Step([m EXCEPT !.source = Append(@, c), !.value = Append(@, c)], 1)

StringEscape ==
    /\ m.mode = "esc"
    /\ LET c == Peek(1) IN
       IF c = EOC THEN Step([m EXCEPT !.mode = "str"], 0)
       ELSE IF IsOctDigit(c) THEN Step([mode |-> "oct", ret |-> m, code |-> 0, n |-> 0], 0)
       ELSE IF c = Ch("x")
       THEN Step([mode |-> "hex", left |-> 2, code |-> 0,
                  ret |-> [m EXCEPT !.source = Append(@, c)]], 1)
       ELSE IF c = Ch("u")
       THEN Step([mode |-> "uesc", ret |-> [m EXCEPT !.source = Append(@, c)]], 1)
       ELSE IF c = CR /\ Peek(2) = LF
       THEN Step([m EXCEPT !.mode = "str", !.source = @ \o <<CR, LF>>], 2)
       ELSE IF IsNewline(c)
       THEN Step([m EXCEPT !.mode = "str", !.source = Append(@, c)], 1)
       ELSE Step([m EXCEPT !.mode = "str", !.source = Append(@, c), !.value = Append(@, Unescape(c))], 1)

OctalEscape ==                             \* at most three digits, at most 255
    /\ m.mode = "oct"
    /\ LET c == Peek(1) IN
       IF m.n < 3 /\ IsOctDigit(c) /\ m.code * 8 + DigitVal(c) <= 255
       THEN Step([m EXCEPT !.n = @ + 1, !.code = @ * 8 + DigitVal(c),
                           !.ret.source = Append(@, c)], 1)
       ELSE Step([m.ret EXCEPT !.mode = "str", !.value = Append(@, m.code)], 0)

(* The end of a \x.. or \u escape, in a string (ret.mode = "esc") or a word ("wesc"). *)
EndEscape(ret, code, n) ==
    IF ret.mode = "esc"
    THEN Step([ret EXCEPT !.mode = "str",
                          !.value = Append(@, IF IsScalar(code) THEN code ELSE 63)], n)
    ELSE IF IsScalar(code) /\ (IsIdStart(code) \/ (ret.text # <<>> /\ IsIdContinue(code)))
    THEN Step([ret EXCEPT !.mode = "word", !.text = Append(@, code)], n)
    ELSE Fail("IllegalUnicode", code)

Spell(ret, c) == IF ret.mode = "esc" THEN [ret EXCEPT !.source = Append(@, c)] ELSE ret
Saturate(n) == IF n > MaxCode THEN MaxCode + 1 ELSE n

HexEscape ==                               \* a fixed number of hex digits
    /\ m.mode = "hex"
    /\ LET c == Peek(1) code == m.code * 16 + DigitVal(c) IN
       IF c = EOC THEN Fail("MissingHexDigits", EOC)
       ELSE IF ~IsHexDigit(c) THEN Fail("InvalidDigit", c)
       ELSE IF m.left = 1 THEN EndEscape(Spell(m.ret, c), code, 1)
       ELSE Step([m EXCEPT !.left = @ - 1, !.code = code, !.ret = Spell(@, c)], 1)

UnicodeEscape ==
    /\ m.mode = "uesc"
    /\ IF Peek(1) = Ch("{")
       THEN Step([mode |-> "brace", ret |-> Spell(m.ret, Peek(1)), code |-> 0, n |-> 0], 1)
       ELSE Step([mode |-> "hex", left |-> 4, code |-> 0, ret |-> m.ret], 0)

BraceEscape ==                             \* \u{ at least one hex digit }
    /\ m.mode = "brace"
    /\ LET c == Peek(1) IN
       IF c = EOC THEN Fail("MissingHexDigits", EOC)
       ELSE IF m.n > 0 /\ c = Ch("}") THEN EndEscape(Spell(m.ret, c), m.code, 1)
       ELSE IF ~IsHexDigit(c) THEN Fail("InvalidDigit", c)
       ELSE Step([m EXCEPT !.n = 1, !.code = Saturate(@ * 16 + DigitVal(c)), !.ret = Spell(@, c)], 1)

-----------------------------------------------------------------------------
(* Words, and the flags of a regular expression (rx = <<pattern>>, or <<>>) *)

WordChar ==
    /\ m.mode = "word"
    /\ LET c == Peek(1) IN
       IF c = 92 THEN Step([m EXCEPT !.mode = "wesc", !.had = TRUE], 1)
       ELSE IF c # EOC /\ IsIdContinue(c) THEN Step([m EXCEPT !.text = Append(@, c)], 1)
       ELSE IF m.rx # <<>> THEN Finish([k |-> "R", v |-> <<m.rx[1], m.text>>], p) /\ UNCHANGED p
       ELSE IF m.had /\ m.text \in DOMAIN ReservedOf
       THEN Fail("ReservedWordWithEscapes", ReservedOf[m.text])
       ELSE Finish(WordToken(m.text, m.had), p) /\ UNCHANGED p

WordEscape ==
    /\ m.mode = "wesc"
    /\ IF Peek(1) = Ch("u") THEN Step([mode |-> "uesc", ret |-> m], 1)
       ELSE Fail("IncompleteWordEscape", Peek(1))

-----------------------------------------------------------------------------
(* Regular expressions *)

RegExpChar ==
    /\ m.mode = "rx"
    /\ LET c == Peek(1) IN
       IF c = EOC \/ IsNewline(c) THEN Fail("UnterminatedRegExp", c)
       ELSE IF c = 47
       THEN Step([mode |-> "word", at |-> m.at, text |-> <<>>, had |-> FALSE, rx |-> <<m.pat>>], 1)
       ELSE Step([m EXCEPT !.mode = CASE c = 92 -> "rxesc" [] c = 91 -> "rxclass" [] OTHER -> "rx",
                           !.pat = Append(@, c)], 1)

RegExpEscape ==
    /\ m.mode \in {"rxesc", "rxclassesc"}
    /\ LET c == Peek(1) IN
       IF c = EOC \/ IsNewline(c) THEN Fail("UnterminatedRegExp", c)
       ELSE Step([m EXCEPT !.mode = IF @ = "rxesc" THEN "rx" ELSE "rxclass", !.pat = Append(@, c)], 1)

RegExpClass ==
    /\ m.mode = "rxclass"
    /\ LET c == Peek(1) IN
       IF c = EOC \/ IsNewline(c) THEN Fail("UnterminatedRegExp", c)
       ELSE Step([m EXCEPT !.mode = CASE c = 92 -> "rxclassesc" [] c = 93 -> "rx" [] OTHER -> "rxclass",
                           !.pat = Append(@, c)], 1)

-----------------------------------------------------------------------------
(* Numbers *)

(* --- the mathematical value, as canonical data --- *)

RECURSIVE StripZeros(_)
StripZeros(s) == IF s # <<>> /\ Head(s) \in {0, 48} THEN StripZeros(Tail(s)) ELSE s

RECURSIVE ExpVal(_, _)
ExpVal(s, acc) == IF s = <<>> \/ acc > 99999 THEN (IF acc > 99999 THEN 99999 ELSE acc)
                  ELSE ExpVal(Tail(s), acc * 10 + DigitVal(Head(s)))

(* digits d (no leading zeros) times ten to the e *)
Decimal(int, frac, exp) ==
    LET d == StripZeros(int \o frac)
        x == IF exp = <<>> THEN 0 ELSE ExpVal(exp[3], 0)
    IN  <<"dec", d, (IF exp # <<>> /\ exp[2] = "-" THEN -x ELSE x) - Len(frac)>>

RECURSIVE BitsOf(_, _, _)
BitsOf(s, w, acc) ==                       \* w = bits per digit
    IF s = <<>> THEN acc
    ELSE LET v == DigitVal(Head(s)) IN
         BitsOf(Tail(s), w, acc \o [i \in 1..w |-> (v \div (2 ^ (w - i))) % 2])

RECURSIVE Increment(_)
Increment(b) == IF b = <<>> THEN <<1>>
                ELSE IF b[Len(b)] = 0 THEN [b EXCEPT ![Len(b)] = 1]
                ELSE Append(Increment(SubSeq(b, 1, Len(b) - 1)), 0)

(* Round a bit string to 53 significant bits, ties to even: bits times two to the e *)
Round53(bits) ==
    IF Len(bits) <= 53 THEN <<"bin", bits, 0>>
    ELSE LET keep == SubSeq(bits, 1, 53)
             rest == SubSeq(bits, 54, Len(bits))
             half == rest[1] = 1
             more == \E i \in 2..Len(rest) : rest[i] = 1
             up   == half /\ (more \/ keep[53] = 1)
         IN  <<"bin", IF up THEN Increment(keep) ELSE keep, Len(rest)>>

BitWidth(r) == CASE r = 2 -> 1 [] r = 8 -> 3 [] r = 16 -> 4

NumberToken(v) ==
    [k |-> "N",
     v |-> <<v, CASE v[1] = "DecimalInt" -> Decimal(v[2], <<>>, v[3])
                  [] v[1] = "RadixInt"   -> Round53(StripZeros(BitsOf(v[4], BitWidth(v[2]), <<>>)))
                  [] v[1] = "Float"      -> Decimal(IF v[2] = <<>> THEN <<>> ELSE v[2][1], v[3], v[4])>>]

(* --- the machine --- *)

NumberStart ==
    /\ m.mode = "num"
    /\ LET c == Peek(1) d == Peek(2)
           radix(r, cc, miss) == Step([mode |-> "rad0", at |-> m.at, r |-> r, cc |-> cc, miss |-> miss], 2)
       IN CASE c = 46 -> Step([mode |-> "frac", at |-> m.at, int |-> <<>>, frac |-> <<>>], 1)
            [] c = 48 /\ d = Ch("x") -> radix(16, "l", "MissingHexDigits")
            [] c = 48 /\ d = Ch("X") -> radix(16, "u", "MissingHexDigits")
            [] c = 48 /\ d = Ch("o") -> radix(8, "l", "MissingOctalDigits")
            [] c = 48 /\ d = Ch("O") -> radix(8, "u", "MissingOctalDigits")
            [] c = 48 /\ d = Ch("b") -> radix(2, "l", "MissingBinaryDigits")
            [] c = 48 /\ d = Ch("B") -> radix(2, "u", "MissingBinaryDigits")
            [] OTHER -> Step([mode |-> "int", at |-> m.at, int |-> <<>>], 0)

RadixFirst ==
    /\ m.mode = "rad0"
    /\ LET c == Peek(1) IN
       IF c = EOC THEN Fail(m.miss, EOC)
       ELSE IF ~IsRadixDigit(m.r, c) THEN Fail("InvalidDigit", c)
       ELSE Step([mode |-> "rad", at |-> m.at, r |-> m.r, cc |-> m.cc, ds |-> <<c>>], 1)

NumEnd(v) == [mode |-> "numend", at |-> m.at, v |-> v]

RadixDigits ==
    /\ m.mode = "rad"
    /\ LET c == Peek(1) IN
       IF c # EOC /\ IsRadixDigit(m.r, c) THEN Step([m EXCEPT !.ds = Append(@, c)], 1)
       ELSE Step(NumEnd(<<"RadixInt", m.r, m.cc, m.ds>>), 0)

LegacyOctal(ds) == Len(ds) > 1 /\ ds[1] = 48 /\ \A i \in 2..Len(ds) : IsOctDigit(ds[i])

IntDigits ==
    /\ m.mode = "int"
    /\ LET c == Peek(1) IN
       IF IsDecDigit(c) THEN Step([m EXCEPT !.int = Append(@, c)], 1)
       ELSE IF LegacyOctal(m.int) THEN Step(NumEnd(<<"RadixInt", 8, "legacy", m.int>>), 0)
       ELSE IF c = 46 THEN Step([mode |-> "frac", at |-> m.at, int |-> <<m.int>>, frac |-> <<>>], 1)
       ELSE Step([mode |-> "exp", at |-> m.at, int |-> <<m.int>>, frac |-> <<>>], 0)

FracDigits ==
    /\ m.mode = "frac"
    /\ LET c == Peek(1) IN
       IF IsDecDigit(c) THEN Step([m EXCEPT !.frac = Append(@, c)], 1)
       ELSE Step([mode |-> "exp", at |-> m.at, int |-> m.int, frac |-> <<m.frac>>], 0)

WithExp(x) == IF m.frac = <<>> THEN <<"DecimalInt", m.int[1], x>>
              ELSE <<"Float", m.int, m.frac[1], x>>

ExpStart ==
    /\ m.mode = "exp"
    /\ LET c == Peek(1) IN
       IF c \in {Ch("e"), Ch("E")}
       THEN Step([mode |-> "expsign", at |-> m.at, int |-> m.int, frac |-> m.frac,
                  cc |-> IF c = Ch("e") THEN "l" ELSE "u"], 1)
       ELSE Step(NumEnd(WithExp(<<>>)), 0)

ExpSign ==
    /\ m.mode = "expsign"
    /\ LET c == Peek(1) sign == CASE c = 43 -> "+" [] c = 45 -> "-" [] OTHER -> ""
       IN Step([mode |-> "expfirst", at |-> m.at, int |-> m.int, frac |-> m.frac,
                cc |-> m.cc, sign |-> sign, ds |-> <<>>], IF sign = "" THEN 0 ELSE 1)

ExpDigits ==
    /\ m.mode \in {"expfirst", "expdigits"}
    /\ LET c == Peek(1) IN
       IF IsDecDigit(c) THEN Step([m EXCEPT !.mode = "expdigits", !.ds = Append(@, c)], 1)
       ELSE IF m.mode = "expfirst" THEN Fail("MissingExponent", c)
       ELSE Step(NumEnd(WithExp(<<m.cc, m.sign, m.ds>>)), 0)

NumberEnd ==                               \* no word or digit may touch the end of a number
    /\ m.mode = "numend"
    /\ LET c == Peek(1) IN
       IF c = 92 \/ (c # EOC /\ IsIdStart(c)) THEN Fail("IdAfterNumber", c)
       ELSE IF IsDecDigit(c) THEN Fail("DigitAfterNumber", c)
       ELSE Finish(NumberToken(m.v), p) /\ UNCHANGED p

-----------------------------------------------------------------------------

LexInit == /\ p = [o |-> 0, l |-> 0, c |-> 0]
           /\ m = [mode |-> "gap"]
           /\ nl = FALSE /\ bol = TRUE
           /\ ops = <<>> /\ toks = <<>>

LexStep(opset) ==
    /\ Ready
    /\ \/ Gap(opset) \/ LineComment \/ BlockComment
       \/ StringChar \/ StringEscape \/ OctalEscape \/ HexEscape \/ UnicodeEscape \/ BraceEscape
       \/ WordChar \/ WordEscape
       \/ RegExpChar \/ RegExpEscape \/ RegExpClass
       \/ NumberStart \/ RadixFirst \/ RadixDigits \/ IntDigits \/ FracDigits
       \/ ExpStart \/ ExpSign \/ ExpDigits \/ NumberEnd
    /\ UNCHANGED <<src, closed>>

Extend(c) == /\ ~closed /\ ~Terminal /\ ~Have(Need)
             /\ src' = Append(src, c)
             /\ UNCHANGED <<closed, p, m, nl, bol, ops, toks>>

Close == /\ ~closed /\ ~Terminal /\ ~Have(Need)
         /\ closed' = TRUE
         /\ UNCHANGED <<src, p, m, nl, bol, ops, toks>>

-----------------------------------------------------------------------------
(* What the machine is supposed to guarantee, stated without the machine *)

Text(a, b) == SubSeq(src, a + 1, b)        \* the characters at offsets a..b-1

HasNewline(a, b) == \E i \in (a + 1)..b : IsNewline(src[i])

(* Declarative line and column of an offset *)
LineEnds(o) == {i \in 1..o : \/ src[i] \in {LF, LS, PS}
                             \/ (src[i] = CR /\ ~(i < Len(src) /\ src[i + 1] = LF))}
LineOf(o) == Cardinality(LineEnds(o))
ColOf(o)  == o - (IF LineEnds(o) = {} THEN 0 ELSE CHOOSE i \in LineEnds(o) : \A j \in LineEnds(o) : j <= i)
PosnOK(q) == q.l = LineOf(q.o) /\ q.c = ColOf(q.o)

InvPosn == /\ PosnOK(p)
           /\ \A i \in 1..Len(toks) : PosnOK(toks[i].s) /\ PosnOK(toks[i].e)

PrevEnd(i) == IF i = 1 THEN 0 ELSE toks[i - 1].e.o

InvTiling == \A i \in 1..Len(toks) :
    LET t == toks[i] IN
    /\ PrevEnd(i) <= t.s.o
    /\ IF t.k = "E" THEN i = Len(toks) /\ t.s = t.e /\ t.e.o = Len(src)
       ELSE t.s.o < t.e.o /\ t.e.o <= p.o

InvNewlineFlag == \A i \in 1..Len(toks) : toks[i].n = HasNewline(PrevEnd(i), toks[i].s.o)

(* A gap is a sequence of white space, line terminators and comments; the line  *)
(* comment forms end before the first line terminator.                           *)
LineEnd(a, b) == LET S == {i \in a..b : i = b \/ IsNewline(src[i + 1])}
                 IN CHOOSE i \in S : \A j \in S : i <= j
StartsAt(q, a, b) == a + Len(q) <= b /\ Text(a, a + Len(q)) = q
RECURSIVE TriviaFrom(_, _, _)
TriviaFrom(a, b, fresh) ==
    IF a = b THEN TRUE
    ELSE LET c == src[a + 1] IN
    IF IsWhitespace(c) THEN TriviaFrom(a + 1, b, fresh)
    ELSE IF IsNewline(c) THEN TriviaFrom(a + 1, b, TRUE)
    ELSE IF StartsAt(LineOpener, a, b) \/ StartsAt(HtmlOpener, a, b)
            \/ (fresh /\ StartsAt(HtmlCloser, a, b)) THEN TriviaFrom(LineEnd(a, b), b, fresh)
    ELSE IF StartsAt(BlockOpener, a, b)
         THEN LET ends == {i \in (a + 4)..b : Text(i - 2, i) = Txt("*/")}
              IN  /\ ends # {}
                  /\ LET e == CHOOSE i \in ends : \A j \in ends : i <= j
                     IN TriviaFrom(e, b, fresh \/ HasNewline(a, e))
    ELSE FALSE
InvTrivia == \A i \in 1..Len(toks) : TriviaFrom(PrevEnd(i), toks[i].s.o, i = 1)

(* Maximal munch *)
InvMunch == \A i \in 1..Len(toks) : toks[i].k = "P" =>
    LET t == toks[i] IN
    /\ PunctName[Text(t.s.o, t.e.o)] = t.v
    /\ \A q \in PunctCodes : Len(q) > t.e.o - t.s.o => ~StartsAt(q, t.s.o, Len(src))

(* Source fidelity: every token's text can be rebuilt from what the token carries *)
ExpText(x) == IF x = <<>> THEN <<>>
              ELSE <<IF x[1] = "l" THEN Ch("e") ELSE Ch("E")>> \o Txt(x[2]) \o x[3]
RadixPrefix(r, cc) ==
    IF cc = "legacy" THEN <<>>
    ELSE Txt(CASE r = 16 -> IF cc = "l" THEN "0x" ELSE "0X"
               [] r = 8  -> IF cc = "l" THEN "0o" ELSE "0O"
               [] r = 2  -> IF cc = "l" THEN "0b" ELSE "0B")
NumText(v) == CASE v[1] = "DecimalInt" -> v[2] \o ExpText(v[3])
                [] v[1] = "RadixInt"   -> RadixPrefix(v[2], v[3]) \o v[4]
                [] v[1] = "Float" -> (IF v[2] = <<>> THEN <<>> ELSE v[2][1]) \o <<46>> \o v[3] \o ExpText(v[4])
NoBackslash(s) == \A i \in 1..Len(s) : s[i] # 92
InvFidelity == \A i \in 1..Len(toks) :
    LET t == toks[i] x == Text(t.s.o, t.e.o) IN
    CASE t.k = "N" -> NumText(t.v[1]) = x
      [] t.k = "S" -> /\ t.v[1] = x
                      /\ NoBackslash(x) => t.v[2] = SubSeq(x, 2, Len(x) - 1)
      [] t.k = "R" -> /\ x[1] = 47
                      /\ LET pat == t.v[1] IN
                         /\ SubSeq(x, 2, Len(pat) + 1) = pat
                         /\ x[Len(pat) + 2] = 47
                         /\ NoBackslash(t.v[2]) /\ (NoBackslash(SubSeq(x, Len(pat) + 3, Len(x)))
                                                     => t.v[2] = SubSeq(x, Len(pat) + 3, Len(x)))
      [] t.k \in {"W", "A"} -> Txt(t.v) = x
      [] t.k = "I" -> /\ NoBackslash(x) => (t.v = x /\ x \notin DOMAIN ReservedOf \cup DOMAIN ContextualOf)
                      /\ t.v # <<>> /\ IsIdStart(t.v[1]) /\ \A j \in 1..Len(t.v) : IsIdContinue(t.v[j])
                      /\ t.v \notin DOMAIN ReservedOf
      [] OTHER -> TRUE

(* No token can absorb or touch what follows a number *)
InvNumberEnd == \A i \in 1..Len(toks) : toks[i].k = "N" /\ toks[i].e.o < Len(src) =>
    LET c == src[toks[i].e.o + 1] IN ~IsIdStart(c) /\ ~IsDecDigit(c) /\ c # 92

LexInv == InvPosn /\ InvTiling /\ InvNewlineFlag /\ InvTrivia /\ InvMunch /\ InvFidelity /\ InvNumberEnd

(* Progress: every step that neither extends nor ends the input moves towards a  *)
(* terminal state (so tokenization terminates on every finite input).            *)
Progress == [][ \/ src' # src \/ closed' # closed
                \/ p'.o > p.o
                \/ Len(toks') > Len(toks)
                \/ m'.mode \in {"eof", "err"}
                \/ (p'.o = p.o /\ <<m.mode, m'.mode>> \in
                     {<<"line", "gap">>, <<"gap", "word">>, <<"gap", "num">>,
                      <<"num", "int">>, <<"int", "exp">>, <<"int", "numend">>, <<"frac", "exp">>,
                      <<"rad", "numend">>, <<"exp", "numend">>, <<"expsign", "expfirst">>,
                      <<"expdigits", "numend">>, <<"esc", "str">>, <<"esc", "oct">>, <<"oct", "str">>,
                      <<"uesc", "hex">>}) ]_lexvars
=============================================================================
