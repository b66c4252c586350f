-------------------------------- MODULE Parts --------------------------------
(***************************************************************************)
(* The small vocabulary of crate joker (and the errors of crate unjson): what   *)
(* a client may ask about names, literals, tokens, spans and errors without      *)
(* tokenizing anything. Every question, with its answer, is a state.           *)
(***************************************************************************)
EXTENDS Joker, Json, SequencesExt

CONSTANT Large      \* more questions

Pick(small, more) == IF Large THEN small \cup more ELSE small

-----------------------------------------------------------------------------
(* Names: a name is its spelling. Some spellings are contextual words.         *)

AllWords == ReservedWords \cup ContextualWords
Near(w) == {SubSeq(w, 1, Len(w) - 1), w \o "x", w \o " ", "x" \o w, w \o w, SubSeq(w, 2, Len(w))}
Spellings == AllWords \cup UNION {Near(w) : w \in AllWords}
             \cup {"", "a", "$", "_", "LET", "Let", "lEt", "as", "use", "undefined", "constructor", "NaN", "let\\", "\\u006cet"}
NameOf(s) == IF s \in ContextualWords THEN <<"atom", s>> ELSE <<"string", s>>
Names == {[q |-> "name", text |-> s, name |-> NameOf(s)] : s \in Spellings}
NamePairs == LET some == ContextualWords \cup {"a", "if", "lets", ""} IN
             {[q |-> "names", a |-> s, b |-> t, same |-> s = t] : s \in some, t \in some}

-----------------------------------------------------------------------------
(* Number sources: what a source denotes is what the tokenizer makes of it.     *)

DigitStrings(digits, n) == UNION {[1..k -> digits] : k \in 1..n}
Deep(ds) == Pick(ds, {d \o d \o d \o d \o d \o d \o d : d \in ds})
Ints  == Deep(DigitStrings({48, 49, 57}, 3))
Exps  == {<<>>} \cup {<<e, s, d>> : e \in {"l", "u"}, s \in {"", "+", "-"}, d \in {<<48>>, <<53>>, <<48, 50>>, <<51, 48, 57>>, <<51, 50, 52>>}}
FewExps == {<<>>, <<"l", "", <<53>>>>, <<"u", "-", <<51, 50, 52>>>>, <<"l", "+", <<51, 48, 56>>>>}
Cases(r) == IF r = 8 THEN {"l", "u", "legacy"} ELSE {"l", "u"}
SomeDigits(r) == CASE r = 2 -> {48, 49} [] r = 8 -> {48, 49, 55} [] r = 16 -> {48, 57, 97, 70}
Sources == {<<"DecimalInt", d, x>> : d \in Ints, x \in Exps}
           \cup UNION {{<<"RadixInt", r, c, d>> : c \in Cases(r), d \in Deep(DigitStrings(SomeDigits(r), 4))} : r \in {2, 8, 16}}
           \cup {<<"Float", i, f, x>> : i \in {<<>>} \cup {<<d>> : d \in DigitStrings({48, 49, 57}, 2)}, f \in {<<>>} \cup DigitStrings({48, 53}, 3), x \in FewExps}
Denotes(v) == NumberToken(v).v[2]
Meaningful(v) == v[1] # "Float" \/ v[2] # <<>> \/ v[3] # <<>>
Numbers == {[q |-> "source", source |-> v, value |-> Denotes(v)] : v \in {s \in Sources : Meaningful(s)}}

-----------------------------------------------------------------------------
(* Literals compare by what they denote: a number by its value, a string by its  *)
(* characters, a regular expression by its pattern and the bag of its flags.     *)

Count(x, s) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == \A x \in ToSet(s) \cup ToSet(t) : Count(x, s) = Count(x, t)
NumberLits == {<<"number", v, s>> : v \in {"0", "1", "255", "1e300", "0.1", "0.10000000000000001", "4294967296", "4294967297"}, s \in {"", "1", "255"}}
Chosen == {<<"string", v, s>> : v \in {"", "a", "ab", "A"}, s \in {"", "'a'", "\"a\""}}
FlagSets == Pick({"", "g", "gi", "ig", "gg", "gim", "mig", "ggi", "gii"}, {"igm", "mgi", "img", "gmi", "uy", "yu", "giig", "iggi", "gig"})
RegExps == {<<"regexp", x, f>> : x \in {"a", "b", "(?:)"}, f \in FlagSets}
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
OneDouble(v) == IF v = "0.10000000000000001" THEN "0.1" ELSE v
SameLit(a, b) == /\ a[1] = b[1]
                 /\ IF a[1] = "regexp" THEN a[2] = b[2] /\ SameBag(Chars(a[3]), Chars(b[3])) ELSE IF a[1] = "number" THEN OneDouble(a[2]) = OneDouble(b[2]) ELSE a[2] = b[2]
Words == {<<"word", "if", "">>, <<"word", "in", "">>, <<"name", "let", "">>, <<"name", "a", "">>, <<"punct", "/", "">>, <<"punct", "/=", "">>, <<"eof", "", "">>}
Datums == NumberLits \cup Chosen \cup RegExps \cup Words
LitPairs == {[q |-> "equal", a |-> a, b |-> b, same |-> SameLit(a, b)] : a \in Datums, b \in Datums}

P0 == [o |-> 0, l |-> 0, c |-> 0]
Places == {P0, [o |-> 1, l |-> 0, c |-> 1], [o |-> 1, l |-> 1, c |-> 0], [o |-> 2, l |-> 1, c |-> 1], [o |-> 70000, l |-> 300, c |-> 12]}
SomeTokens == {[v |-> v, s |-> s, e |-> e, n |-> n] :
                 v \in {<<"word", "if", "">>, <<"name", "a", "">>, <<"number", "1", "">>, <<"number", "1", "1">>, <<"regexp", "a", "gi">>, <<"regexp", "a", "ig">>},
                 s \in {P0, [o |-> 1, l |-> 1, c |-> 0]}, e \in {[o |-> 2, l |-> 1, c |-> 1], [o |-> 2, l |-> 1, c |-> 2]}, n \in BOOLEAN}
SameToken(a, b) == SameLit(a.v, b.v) /\ a.s = b.s /\ a.e = b.e /\ a.n = b.n
TokenPairs == {[q |-> "tokens", a |-> a, b |-> b, same |-> SameToken(a, b)] : a \in SomeTokens, b \in SomeTokens}

-----------------------------------------------------------------------------
(* Spans: joining two known spans goes from the start of the first to the end    *)
(* of the second; nothing is known of a join with an unknown span. Lines and       *)
(* columns are shown from one.                                               *)

Spans == {<<>>} \cup {<<[s |-> s, e |-> e]>> : s \in Places, e \in Places}
Join(l, r) == IF l = <<>> \/ r = <<>> THEN <<>> ELSE <<[s |-> l[1].s, e |-> r[1].e]>>
Shown(x) == <<x.l + 1, x.c + 1>>
Joins == {[q |-> "join", l |-> l, r |-> r, out |-> Join(l, r)] : l \in Spans, r \in Spans}
Shows == {[q |-> "show", s |-> s, e |-> e, shown |-> <<Shown(s), Shown(e)>>] : s \in Places, e \in Places}

(* Forgetting locations: everywhere in a structure, and nothing else of it.     *)
Leaf(t) == t[1] \in {"span", "flag", "text"}
S1 == [s |-> P0, e |-> [o |-> 2, l |-> 1, c |-> 1]]
Leaves == {<<"span", <<>>>>, <<"span", <<S1>>>>, <<"flag", TRUE>>, <<"flag", FALSE>>, <<"text", "regexp">>, <<"text", "string">>, <<"text", "number">>}
Grow(ts) == {<<"opt", <<>>>>, <<"vec", <<>>>>} \cup {<<"opt", <<t>>>> : t \in ts} \cup {<<"box", <<t>>>> : t \in ts}
            \cup {<<"vec", <<t>>>> : t \in ts} \cup {<<"vec", <<t, u>>>> : t \in ts, u \in ts}
Trees == LET one == Leaves \cup Grow(Leaves) IN
         one \cup Grow(Pick({t \in one : ~Leaf(t)}, one)) \cup {<<"vec", <<t, <<"span", <<S1>>>>, u>>>> : t \in one, u \in Leaves}
RECURSIVE Forget(_)
Forget(t) == CASE t[1] = "span" -> <<"span", <<>>>>
               [] t[1] \in {"opt", "box", "vec"} -> <<t[1], [i \in 1..Len(t[2]) |-> Forget(t[2][i])]>>
               [] OTHER -> t
Forgets == {[q |-> "forget", tree |-> t, out |-> Forget(t)] : t \in Trees}

-----------------------------------------------------------------------------
(* Messages: of the defect, and of what was found where the message tells it.   *)

Defects == ("IncompleteWordEscape" :> "escape" @@ "UnterminatedComment" :> "comment" @@ "UnterminatedRegExp" :> "regexp" @@ "MissingExponent" :> "exponent"
            @@ "UnterminatedString" :> "string" @@ "MissingBinaryDigits" :> "binary" @@ "MissingOctalDigits" :> "octal" @@ "MissingHexDigits" :> "hex"
            @@ "IllegalChar" :> "character" @@ "InvalidDigit" :> "digit" @@ "IllegalUnicode" :> "code" @@ "IdAfterNumber" :> "identifier"
            @@ "DigitAfterNumber" :> "numeric literal" @@ "ReservedWordWithEscapes" :> "reserved word")
TellsChar == {"IllegalChar", "InvalidDigit"}
LexMessages == {[q |-> "message", kind |-> k, arg |-> c, names |-> Defects[k], tells |-> IF k \in TellsChar THEN <<c>> ELSE <<>>] :
                  k \in DOMAIN Defects \ {"IllegalUnicode", "ReservedWordWithEscapes"}, c \in {97, 35, 10, 39, 233, 128512, EOC} \ {EOC}}
               \cup {[q |-> "unicode", kind |-> "IllegalUnicode", arg |-> c, names |-> Defects["IllegalUnicode"]] : c \in {10, 255, 4096, 55296, 57343, 65536, 1114112}}
               \cup {[q |-> "reserved", kind |-> "ReservedWordWithEscapes", arg |-> w, names |-> Defects["ReservedWordWithEscapes"]] : w \in ReservedWords}
JsonTypes == {"null", "boolean", "string", "number", "object", "array"}
JsonMessages == {[q |-> "json", kind |-> "TypeMismatch", a |-> a, b |-> b] : a \in {"string", "array or null", "i64"}, b \in JsonTypes}
                \cup {[q |-> "json", kind |-> "MissingField", a |-> a, b |-> ""] : a \in {"a", "type", ""}}
                \cup {[q |-> "json", kind |-> "IllegalString", a |-> a, b |-> b] : a \in {"operator", "type"}, b \in {"x", "", "a b"}}
                \cup {[q |-> "json", kind |-> k, a |-> a, b |-> b] : k \in {"IndexOutOfBounds", "WrongArrayLength"}, a \in {"0", "3", "1000000"}, b \in {"0", "4", "99"}}

-----------------------------------------------------------------------------
VARIABLE ask
Init == /\ LexInit /\ src = <<>> /\ closed = TRUE
        /\ \/ ask \in Names \/ ask \in NamePairs \/ ask \in Numbers \/ ask \in LitPairs \/ ask \in TokenPairs
           \/ ask \in Joins \/ ask \in Shows \/ ask \in Forgets \/ ask \in LexMessages \/ ask \in JsonMessages
Spec == Init /\ [][FALSE]_<<ask, lexvars>>

(* What the answers have in common *)
Sane == CASE ask.q = "name" -> ask.name[2] = ask.text
          [] ask.q = "names" -> (NameOf(ask.a) = NameOf(ask.b)) = ask.same
          [] ask.q = "equal" -> SameLit(ask.a, ask.a) /\ (ask.same = SameLit(ask.b, ask.a))
          [] ask.q = "join" -> (ask.l = ask.r => ask.out = ask.l) /\ (ask.out # <<>> => Join(ask.out, ask.out) = ask.out)
          [] ask.q = "forget" -> Forget(ask.out) = ask.out
          [] OTHER -> TRUE
Checked == Sane /\ PrintT(ToJson(ask))
=============================================================================
