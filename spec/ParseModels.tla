---------------------------- MODULE ParseModels ----------------------------
(***************************************************************************)
(* The token sequences explored, by area. A model is a set of openings, an    *)
(* alphabet, a number of further tokens, the choices for a newline before      *)
(* each of those, and the entry points.                                      *)
(***************************************************************************)
EXTENDS MCParser

Model(pre, abc, max, nl, entry) == [pre |-> pre, abc |-> abc \cup {EOF}, max |-> max, nl |-> nl, entry |-> entry]
No == {FALSE}
Both == {TRUE, FALSE}
Script == {"script"}
Entries == {"script", "strict", "module", "program"}
Loose == {"script", "program"}

None == {<<>>}
Cat(S, T) == {s \o t : s \in S, t \in T}
One(T) == {<<t>> : t \in T}
NoModels == <<>>

Words0 == Reserved \cup StrictReserved \cup ModuleReserved \cup StrictUnbindable
          \cup {"a", "get", "set", "of", "target", "async", "from", "as", "undefined"}

(*************************** expressions ***************************)
SomeInfix == {"||", "&&", "|", "^", "&", "==", "<", "<<", "+", "*"}
Glue == {"?", ":", "=", ","}
AllInfix == Infix \ {"/"}
PairsModel(max) == Model({<<"a">>}, AllInfix \cup {"/"} \cup AssignOps \cup Glue \cup {"a"}, max, No, Script)
LevelsModel(max) == Model({<<"a">>}, SomeInfix \cup Glue \cup {"a", "in"}, max, No, Script)
MixModel(max) == Model(None, {"a", "+", "*", "=", "(", ")", "?", ":", ",", "&&"}, max, No, Script)
UnaryModel(max) == Model(None, {"a", "-", "!", "++", "typeof", "delete", "*", ".", "(", ")"}, max, No, Script)
AllUnary == Model(Cat({<<"a", "*">>, <<>>, <<"a", "?">>, <<"a", "[">>, <<"new">>, <<"return">>, <<"throw">>, <<"a", "=">>}, One(PrefixOps \cup {"++", "--", "new"})),
                  PrefixOps \cup {"++", "--", "a", "(", ".", "new"}, 3, No, Script)
ChainModel(max) == Model(None, {"a", "new", ".", "(", ")", "[", "]", "target", "if"}, max, No, Script)
CallModel(max) == Model({<<"a", "(">>, <<"new", "a", "(">>, <<"new", "new", "a", "(">>}, {"a", "...", ",", ")", "(", "[", "]", "."}, max, No, Script)
PrimaryModel == Model({<<>>, <<"a", "+">>, <<"a", "(">>, <<"[">>, <<"a", "[">>, <<"a", "?">>, <<"a", "?", "a", ":">>, <<"new">>, <<"a", "=">>, <<"typeof">>},
                      Words0 \cup Numbers \cup Texts \cup RegExps \cup {"(", "[", "{", "function"}, 1, No, Script)
                 
(* climbing from level to level, then one more operator: as many are closed at once *)
RECURSIVE Climb(_)
Climb(ops) == IF ops = <<>> THEN {<<"a">>} ELSE LET rest == Climb(Tail(ops)) IN rest \cup {<<"a", Head(ops)>> \o r : r \in rest}
LadderModel == Model(Climb(<<"||", "&&", "|", "^", "&", "==", "<", "<<", "+", "*">>), SomeInfix \cup Glue \cup {"in", "-", "a"}, 1, No, Script)
FewLevels(max) == Model({<<"a">>}, {"||", "|", "==", "+", "*", "a"}, max, No, Script)
ExprQuick == << LadderModel, FewLevels(8), PairsModel(3), LevelsModel(4), MixModel(5), UnaryModel(5), AllUnary, ChainModel(6), CallModel(4), PrimaryModel >>
ExprThorough == << LadderModel, FewLevels(12), PairsModel(5), LevelsModel(6), MixModel(7), UnaryModel(6), AllUnary, ChainModel(7), CallModel(6), PrimaryModel >>

(*************************** statements ***************************)
StmtWords == {"if", "else", "while", "do", "for", "switch", "case", "default", "try", "catch", "finally", "with", "throw", "var",
              "debugger", "{", "}", "(", ")", ";", ":", "a"}
StmtModel(max) == Model(None, StmtWords, max, No, Script)
IfModel(max) == Model({<<"if", "(", "a", ")">>}, {"if", "else", "(", ")", "a", ";", "{", "}", "while", "do"}, max, No, Script)
SwitchModel(max) == Model({<<"switch", "(", "a", ")", "{">>}, {"case", "default", ":", "a", ";", "}", "{", "break", "1"}, max, No, Script)
TryModel(max) == Model({<<"try", "{", "}">>, <<"try", "{", "a", "}">>, <<"try">>}, {"{", "}", "catch", "finally", "(", ")", "a", ";", "try"}, max, No, Script)
DoModel(max) == Model({<<"do">>}, {"do", "while", "(", ")", "a", ";", "{", "}", "if", "else"}, max, Both, Script)
(* every kind of statement in every kind of body *)
Bodies == {<<"if", "(", "a", ")">>, <<"if", "(", "a", ")", ";", "else">>, <<"while", "(", "a", ")">>, <<"do">>, <<"for", "(", ";", ";", ")">>,
           <<"for", "(", "a", "in", "b", ")">>, <<"for", "(", "var", "a", "of", "b", ")">>, <<"with", "(", "a", ")">>, <<"a", ":">>, <<"a", ":", "b", ":">>,
           <<"{">>, <<"switch", "(", "a", ")", "{", "case", "a", ":">>, <<"switch", "(", "a", ")", "{", "default", ":">>, <<"try", "{">>,
           <<"try", "{", "}", "catch", "(", "a", ")", "{">>, <<"try", "{", "}", "finally", "{">>, <<"function", "a", "(", ")", "{">>, <<"(", "function", "(", ")", "{">>,
           <<"a", ";">>, <<>>}
Starts == {"if", "while", "do", "for", "with", "switch", "try", "{", ";", "a", "var", "let", "const", "function", "break", "continue", "return", "throw",
           "debugger", "(", "[", "1", "'s'", "/r/", "this", "new", "-", "++", "import", "export", "class", "enum", "super", "else", "case", "default", "catch", "finally", "}", ")", "in"}
BodyModel == Model(Bodies, Starts \cup Words0, 1, No, Script)
NestModel == Model(Cat(Bodies, Bodies), {"a", ";", "}", "else", "while", "{", "var", "let", "const", "function"}, 1, No, Script)
NestMoreModel == Model(Cat(Bodies, Bodies), {"a", ";", "}", "else", "while", "{", "var", "let", "const", "function", "(", "case"}, 2, No, Script)
StmtQuick == << StmtModel(5), IfModel(6), SwitchModel(6), TryModel(6), DoModel(4), BodyModel, NestModel >>
StmtThorough == << StmtModel(6), IfModel(8), SwitchModel(8), TryModel(8), DoModel(6), BodyModel, NestMoreModel >>

(*************************** semicolons ***************************)
(* a statement that ends, or may end, and what follows it on the same or on a new line *)
Endings == {<<"a">>, <<"a", "+">>, <<"a", "=", "b">>, <<"var", "a">>, <<"var", "a", "=", "b">>, <<"let", "a">>, <<"const", "a", "=", "b">>, <<"const", "a">>, <<"return">>, <<"return", "a">>,
            <<"throw">>, <<"throw", "a">>, <<"break">>, <<"continue">>, <<"break", "l">>, <<"continue", "l">>, <<"debugger">>, <<"do", "a", ";", "while", "(", "a", ")">>,
            <<"do">>, <<"do", "a">>, <<"a", "(", "b">>, <<"a", ".">>, <<"a", "?">>, <<"a", "?", "b">>, <<"(", "a">>, <<"[", "a">>, <<"x", "=", "function", "(", ")", "{", "}">>, <<"x", "=", "{", "}">>,
            <<"{">>, <<"{", "a">>, <<"if", "(", "a", ")">>, <<"if", "(", "a", ")", "b">>, <<"if", "(", "a", ")", ";", "else">>, <<"while", "(", "a", ")">>, <<"for", "(">>, <<"for", "(", "a">>, <<"for", "(", "a", ";", "b">>,
            <<"for", "(", "a", ";", "b", ";">>, <<"for", "(", "var", "a">>, <<"l", ":">>, <<"typeof">>, <<"new", "a">>, <<"++">>, <<"a", "++">>, <<"'s'">>, <<"'s'", ";", "'s'">>, <<"1">>, <<"/r/">>, <<"this">>, <<"let">>, <<"var">>, <<"yield">>, <<>>}
Enclosing == {<<>>, <<"l", ":", "while", "(", "c", ")", "{">>, <<"function", "f", "(", ")", "{">>}
Nexts == {"a", ";", "}", "{", "(", ")", "[", "]", "++", "--", "+", "-", "/", "/r/", ".", ",", "=", "?", ":", "in", "instanceof", "of", "else", "while", "var", "function", "'s'", "1", "if", "!", "&&", "*", "==", "+="}
AsiModel == Model(Cat(Enclosing, Endings), Nexts, 1, Both, Script)
AsiPairs == Model(Endings, {"a", ";", "}", "(", "++", "+", "/", "in", "else", "while", ")", "="}, 2, Both, Script)
AsiTriples == Model(Cat(Enclosing, Endings), {"a", ";", "}", "(", "++", "+", "/", "in", "else", "while", ")", "=", "'s'", "["}, 3, Both, Script)
AsiFree(max) == Model(None, {"a", ";", "++", "(", ")", "{", "}", "return"}, max, Both, Script)
JumpAsi == Model({<<"l", ":", "while", "(", "c", ")", "{">>, <<"function", "f", "(", ")", "{">>}, {"break", "continue", "return", "throw", "l", ";", "}", "debugger"}, 3, Both, Script)
AsiQuick == << AsiModel, AsiPairs, AsiFree(5), JumpAsi >>
AsiThorough == << AsiModel, AsiTriples, AsiFree(6), JumpAsi >>

(*************************** slashes ***************************)
(* after each of these, one or several kinds of slash are possible *)
Slashes == {"/", "/=", "/r/", "/=s/g"}
SlashAfter == Endings \cup Cat(Endings, One({"a", ")", "]", "}", ";", "(", "{", "[", "+", "++", ",", "=", "!", ":", "?", "."})) \cup Bodies \cup Cat(Bodies, One({"a", "}", "1"}))
              \cup Cat({<<>>, <<"a">>, <<"a", "=">>, <<"(">>, <<"a", "[">>, <<"a", "?">>, <<"x", "=", "{", "p", ":">>}, One(Words0 \cup Puncts \cup Texts \cup Numbers))
              \cup {<<"(", "{", "get", "a", "(", ")", "{">>, <<"(", "{", "a", "(", ")", "{">>, <<"(", "{", "a", ",">>, <<"(", "{", "a", ":">>, <<"(", "{", "a", ":", "b">>, <<"for", "(", "let">>,
                    <<"for", "(", "let", "a", "=">>, <<"for", "(", "a", "of">>, <<"for", "(", "a", "in">>, <<"for", "(", "a", "of", "b">>, <<"for", "(", "var", "a", "=", "b">>, <<"switch", "(">>, <<"switch", "(", "a">>,
                    <<"switch", "(", "a", ")", "{", "case">>, <<"switch", "(", "a", ")", "{", "case", "a">>, <<"switch", "(", "a", ")", "{", "case", "a", ":", "b">>, <<"function", "f", "(", ")", "{", "}">>,
                    <<"new", "new", "a">>, <<"new", "a", "(", ")">>, <<"new", "a", ".", "b">>, <<"new", ".", "target">>, <<"a", "(", "...">>, <<"a", "(", "...", "b">>, <<"[", "...">>, <<"[", ",">>, <<"a", "(", "b", ",">>}
SlashModel(max) == Model(SlashAfter, Slashes \cup {"a"}, max, Both, Script)
SlashQuick == << SlashModel(2) >>
SlashThorough == << SlashModel(4), Model(None, {"a", "/", "/r/", "/=", "(", ")", "{", "}", "++", "+", ";"}, 6, No, Script),
                    Model(Cat(Bodies, SlashAfter), Slashes, 1, Both, Script) >>

(*************************** jumps and labels ***************************)
Nests == Bodies \cup {<<"b", ":">>, <<"b", ":", "while", "(", "a", ")">>, <<"a", ":", "{">>, <<"a", ":", "for", "(", ";", ";", ")", "{">>, <<"a", ":", "function", "b", "(", ")", "{">>,
                      <<"while", "(", "a", ")", "{">>, <<"do", "{">>, <<"(", "{", "get", "a", "(", ")", "{">>, <<"(", "{", "set", "a", "(", "b", ")", "{">>, <<"(", "{", "a", "(", ")", "{">>, <<"x", "=", "function", "*", "(", ")", "{">>,
                      <<"while", "(", "function", "(", ")", "{">>, <<"a", ":", "switch", "(", "a", ")", "{", "case", "b", ":">>, <<"switch", "(", "function", "(", ")", "{">>}
(* complete statements: what they change must not last *)
Done == {<<"while", "(", "a", ")", ";">>, <<"do", ";", "while", "(", "a", ")", ";">>, <<"for", "(", ";", ";", ")", ";">>, <<"for", "(", "a", "in", "b", ")", ";">>, <<"for", "(", "a", "of", "b", ")", ";">>,
         <<"switch", "(", "a", ")", "{", "case", "b", ":", "}">>, <<"switch", "(", "a", ")", "{", "}">>, <<"a", ":", ";">>, <<"a", ":", "while", "(", "b", ")", ";">>, <<"a", ":", "b", ":", "{", "}">>,
         <<"function", "f", "(", ")", "{", "}">>, <<"function", "f", "(", ")", "{", "while", "(", "a", ")", ";", "return", ";", "}">>, <<"x", "=", "function", "(", ")", "{", "}", ";">>,
         <<"while", "(", "a", ")", "{", "while", "(", "b", ")", "break", ";", "}">>, <<"a", ":", "while", "(", "b", ")", "{", "b", ":", "continue", "a", ";", "}">>,
         <<"(", "{", "a", "(", ")", "{", "return", ";", "}", "}", ")", ";">>, <<"(", "{", "get", "a", "(", ")", "{", "return", ";", "}", "}", ")", ";">>}
Jumps == {"break", "continue", "return", "a", "b", ";", ":", "}"}
JumpModel(max) == Model(Nests, Jumps, max, No, Script)
JumpNest(max) == Model(Cat(Nests, Nests), Jumps, max, No, Script)
JumpAfter(max) == Model(Cat(Nests \cup None, Done), Jumps, max, No, Script)
JumpDeep(max) == Model(Cat(Nests, Cat(Nests, Nests)), {"break", "continue", "return", "a", ";"}, max, No, Script)
LabelModel(max) == Model(None, {"a", "b", ":", ";", "{", "}", "break", "do"}, max, No, Script)
(* what is inside a statement ends with it, whatever it is inside of *)
Over == {<<"while", "(", "a", ")", ";">>, <<"do", ";", "while", "(", "a", ")", ";">>, <<"for", "(", "a", "of", "b", ")", ";">>, <<"switch", "(", "a", ")", "{", "case", "b", ":", "}">>, <<"b", ":", "while", "(", "b", ")", "{", "}">>,
         <<"function", "f", "(", ")", "{", "while", "(", "a", ")", ";", "return", ";", "}">>}
JumpOver(pre, over) == Model(Cat(pre, over), {"continue", "break", "return"}, 1, No, Script)
(* any number of labels on one statement *)
ManyLabels == {<<"a", ":", "b", ":", "c", ":">>, <<"a", ":", "b", ":", "c", ":", "d", ":">>, <<"a", ":", "b", ":", "c", ":", "d", ":", "e", ":">>}
LabelsModel(max) == Model(Cat({<<>>, <<"while", "(", "x", ")", "{">>}, Cat(ManyLabels, {<<";">>, <<"{", "}">>, <<"while", "(", "x", ")", ";">>, <<"while", "(", "x", ")", "{">>, <<"{">>, <<>>})),
                         {"break", "continue", "a", "b", "c", "d", "e", ";", ":"}, max, No, Script)
JumpQuick == << JumpOver(Cat(Nests, Nests), Over), LabelsModel(3), JumpModel(5), JumpNest(3), JumpAfter(3), LabelModel(6) >>
JumpThorough == << JumpOver(Cat(Nests, Nests), Done), LabelsModel(3), JumpModel(5), JumpNest(3), JumpAfter(3), JumpDeep(1), LabelModel(7) >>

(*************************** strict mode ***************************)
Prologues == {<<>>, <<"'use strict'">>, <<"'use strict'", ";">>, <<"'s'", ";", "\"use strict\"", ";">>, <<"'use\\x20strict'", ";">>, <<"(", "'use strict'", ")", ";">>, <<"a", ";", "'use strict'", ";">>,
              <<"'use module'", ";">>, <<"'use strict'", "+", "a", ";">>, <<"\"use asm\"", ";", "''", ";", "'use strict'", ";", "'s'", ";">>}
FunOpens == {<<"function", "f", "(", ")", "{">>, <<"x", "=", "function", "(", ")", "{">>, <<"(", "{", "get", "a", "(", ")", "{">>, <<"(", "{", "m", "(", ")", "{">>, <<"(", "{", "set", "a", "(", "v", ")", "{">>}
(* functions before, whose strictness must not last *)
FunDone == {<<"function", "g", "(", ")", "{", "'use strict'", ";", "}">>, <<"x", "=", "function", "(", ")", "{", "'use strict'", ";", "}", ";">>}
Restricted == {<<"with">>, <<"with", "(", "a", ")">>, <<"var">>, <<"let">>, <<"const">>, <<"function">>, <<"x", "=", "function">>, <<"function", "h", "(">>, <<"function", "h", "(", "a", ",">>, <<"function", "h", "(", "...">>,
               <<"try", "{", "}", "catch", "(">>, <<"for", "(", "var">>, <<"for", "(", "let">>, <<"for", "(">>, <<"(", "{", "set", "a", "(">>, <<"(", "{", "m", "(">>, <<"(", "{">>, <<"x", ".">>, <<"a", "=">>, <<>>, <<"(", "{", "get">>,
               <<"l", ":">>, <<"while", "(", "a", ")", "break">>, <<"function", "*">>, <<"var", "a", "=">>, <<"(", "[">>}
RestrictedWords == StrictReserved \cup ModuleReserved \cup StrictUnbindable \cup {"a"}
StrictModel(entries) == Model(Cat(Prologues, Restricted), RestrictedWords \cup {"("}, 1, No, entries)
StrictFun(entries) == Model(Cat(Cat({<<>>, <<"'use strict'", ";">>}, FunOpens), Cat(Prologues, Restricted)), {"yield", "eval", "let", "await", "("}, 1, No, entries)
StrictAfter(entries) == Model(Cat(FunDone, Restricted), {"yield", "eval", "let", "("}, 1, No, entries)
StrictLabel == Model(Cat(Prologues, {<<>>, <<"yield", ":">>, <<"a", ":">>, <<"let">>, <<"(", "{", "yield">>, <<"(", "{", "a", ",", "let">>}), {"yield", "let", ":", "a", "}", ",", "=", ";", "("}, 2, No, Entries)
PrologueModel(max) == Model(None, {"'use strict'", "'s'", "'use\\x20strict'", ";", "with", "(", "+", ".", "}", "a"}, max, Both, Script)
PrologueFun(max) == Model(FunOpens, {"'use strict'", "'s'", ";", "with", "(", "+", "}", "yield"}, max, Both, {"script", "program"})
DirTail == Model({<<"'use strict'">>, <<"'s'", ";", "'s'">>, <<"function", "f", "(", ")", "{", "'use strict'">>}, Puncts \cup {"in", "instanceof", "a", "if", "1", "'s'"}, 1, Both, Entries)
StrictQuick == << StrictModel(Entries), StrictFun(Script), StrictAfter(Loose), StrictLabel, PrologueModel(4), PrologueFun(4), DirTail >>
StrictThorough == << StrictModel(Entries), StrictFun(Loose), StrictAfter(Entries), StrictLabel, PrologueModel(5), PrologueFun(5), DirTail,
                     Model(Cat(Cat(FunOpens, {<<>>, <<"'use strict'", ";">>}), Cat(FunOpens, Cat(Prologues, {<<"with">>, <<"var">>, <<>>}))), {"yield", "eval", "("}, 1, No, Loose) >>

(*************************** words spelt with escapes ***************************)
(* such a word has no special meaning anywhere: it is a name like any other. (What strict code makes of those it may not
   use is left open by the harness.) Escapes in other names and in literals are put in by the harness *)
Spelt == {"ev\\u0061l", "\\u0061rguments", "l\\u0065t", "yi\\u{65}ld", "\\u006ff", "g\\u0065t", "s\\u{65}t", "t\\u0061rget", "aw\\u0061it", "st\\u0061tic", "\\u0061sync"}
SpeltPlaces == Restricted \cup {<<"var", "a", ",">>, <<"function", "f", "(", "...">>, <<"for", "(", "const">>, <<"for", "(", "a">>, <<"for", "(", "var", "a">>, <<"for", "(", "let", "a">>, <<"new", ".">>, <<"(", "{", "a", ",">>, <<"(", "{", "*">>,
                             <<"(", "{", "set">>, <<"(", "{", "a", ":">>, <<"a", "+">>, <<"a", "(">>, <<"++">>, <<"(", "{", "get", "a", "(", ")", "{">>, <<"'s'">>}
EscapeModel(max) == Model(Cat(Cat({<<>>, <<"'use strict'", ";">>}, SpeltPlaces), One(Spelt)), {"a", "=", ";", ")", "(", "of", "in", ":", "++", "[", "{", "}"}, max, Both, Script)
EscapeEntries == Model(Cat(SpeltPlaces, One(Spelt)), {"=", ";", ")", "(", ":"}, 1, No, {"strict", "module", "program"})
EscapeTwice == Model(Cat({<<>>, <<"for", "(">>, <<"(", "{">>, <<"function", "f", "(">>}, One(Spelt)), Spelt \cup {"a", ",", ":", "(", "of", "=", ";"}, 2, No, Script)
EscapeQuick == << EscapeModel(1), EscapeEntries, EscapeTwice >>
EscapeThorough == << EscapeModel(2), EscapeEntries, EscapeTwice >>

(*************************** object and array literals ***************************)
ObjModel(max) == Model({<<"(", "{">>}, {"get", "set", "a", "if", "'s'", "1", "*", ":", "(", ")", "{", "}", ","}, max, No, Script)
ObjPairs(max) == Model(Cat({<<"(", "{">>}, Cat({<<"a", ":", "b", ",">>, <<"get", "a", "(", ")", "{", "}", ",">>, <<"set", "a", "(", "b", ")", "{", "}", ",">>, <<"a", "(", ")", "{", "}", ",">>, <<"a", ",">>, <<"get", ",">>,
                                           <<"*", "a", "(", ")", "{", "}", ",">>, <<"'s'", ":", "b", ",">>, <<"1", ":", "b", ",">>, <<"if", ":", "b", ",">>, <<"set", ":", "b", ",">>, <<"get", "(", ")", "{", "}", ",">>}, None)),
                       {"get", "set", "a", "if", "'s'", "1", ":", "(", ")", "{", "}", ","}, max, No, Script)
KeyModel == Model({<<"(", "{">>, <<"(", "{", "get">>, <<"(", "{", "set">>, <<"(", "{", "*">>, <<"(", "{", "a", ",">>, <<"a", ".">>, <<"a", "=", "{">>}, Words0 \cup Puncts \cup Numbers \cup Texts, 1, No, Script)
KeyNext == Model(Cat({<<"(", "{">>, <<"(", "{", "get">>, <<"(", "{", "set">>}, One(Words0 \cup {"1", "'s'"})), {":", "(", ",", "}", "a", "1", "'s'", "if", "="}, 1, No, Script)
ArrModel(max) == Model({<<"[">>, <<"a", "=", "[">>}, {"a", ",", "]", "...", "[", "(", ")", "="}, max, No, Script)
ObjQuick == << ObjModel(6), ObjPairs(4), KeyModel, KeyNext, ArrModel(5) >>
ObjThorough == << ObjModel(7), ObjPairs(6), KeyModel, KeyNext, ArrModel(7) >>

(*************************** assignment targets ***************************)
TargetForms == {<<"a">>, <<"a", ".", "b">>, <<"a", "[", "b", "]">>, <<"a", "(", ")">>, <<"a", "(", ")", ".", "b">>, <<"new", "a">>, <<"new", "a", ".", "b">>, <<"new", "a", "(", ")">>, <<"new", "a", "(", ")", ".", "b">>, <<"new", ".", "target">>,
                <<"this">>, <<"1">>, <<"'s'">>, <<"null">>, <<"true">>, <<"/r/">>, <<"(", "a", ")">>, <<"(", "a", ".", "b", ")">>, <<"(", "a", ",", "b", ")">>, <<"(", "a", "=", "b", ")">>, <<"(", "a", "+", "b", ")">>, <<"-", "a">>, <<"typeof", "a">>, <<"++", "a">>,
                <<"(", "a", "++", ")">>, <<"a", "+", "b">>, <<"a", "&&", "b">>, <<"a", "?", "b", ":", "c">>, <<"function", "(", ")", "{", "}">>, <<"[", "]">>, <<"[", "a", "]">>, <<"[", ",", "a", "]">>, <<"[", "a", ",", "]">>, <<"[", "a", ".", "b", ",", "[", "c", "]", "]">>, <<"[", "1", "]">>,
                <<"[", "...", "a", "]">>, <<"[", "...", "a", ",", "b", "]">>, <<"[", "...", "[", "a", "]", "]">>, <<"[", "...", "1", "]">>, <<"[", "a", "+", "b", "]">>, <<"[", "a", "=", "b", "]">>, <<"{", "}">>, <<"{", "a", "}">>, <<"{", "a", ":", "b", "}">>, <<"{", "a", ":", "b", ".", "c", ",", "d", "}">>,
                <<"{", "a", ":", "1", "}">>, <<"{", "a", ":", "[", "b", "]", "}">>, <<"{", "a", ":", "{", "b", ":", "c", "}", "}">>, <<"{", "get", "a", "(", ")", "{", "}", "}">>, <<"{", "a", "(", ")", "{", "}", "}">>, <<"{", "a", ":", "b", "+", "c", "}">>, <<"{", "if", ":", "a", "}">>, <<"{", "1", ":", "a", "}">>,
                <<"{", "'s'", ":", "a", ",", "}">>, <<"{", "a", ",", "b", ":", "1", "}">>, <<"[", "{", "a", "}", "]">>, <<"[", "{", "a", ":", "1", "}", "]">>, <<"[", "a", "(", ")", "]">>, <<"[", "(", "a", ")", "]">>, <<"{", "*", "a", "(", ")", "{", "}", "}">>, <<"[", "[", "]", "]">>, <<"a", ",", "b">>, <<"a", "=", "b">>}
TargetPre == Cat({<<"(">>, <<"x", "=">>, <<"[">>, <<"x", "(">>, <<"(", "y", ",">>}, TargetForms)
TargetOps == Model(TargetPre \cup Cat({<<"for", "(">>, <<"for", "(", "x", ",">>}, TargetForms) \cup Cat(Cat({<<"(">>}, One({"++", "--", "delete", "typeof"})), TargetForms),
                   AssignOps \cup {"=", "++", "--", "in", "of", ")", ",", "]", ";"}, 1, Both, Script)
TargetFree(max) == Model({<<"(">>}, {"a", "[", "]", "{", "}", ",", "...", "=", ":", "."}, max, No, Script)
TargetArr(max) == Model({<<"[">>}, {"a", "[", "]", ",", "...", "=", "1"}, max, No, Script)
TargetObj(max) == Model({<<"(", "{">>}, {"a", "{", "}", ",", ":", "=", ")", "1", "["}, max, No, Script)
TargetQuick == << TargetOps, TargetFree(5), TargetArr(6), TargetObj(6) >>
TargetThorough == << TargetOps, TargetFree(7), TargetArr(8), TargetObj(8) >>

(*************************** heads of for statements ***************************)
ForModel(max) == Model({<<"for", "(">>}, {"var", "let", "const", "a", "=", "in", "of", ";", ",", ")", "("}, max, No, Script)
ForExprs(max) == Model(Cat({<<"for", "(">>}, {<<"a", "=">>, <<"a", "+">>, <<"a", "?">>, <<"a", "?", "b", ":">>, <<"(">>, <<"[">>, <<"a", "[">>, <<"a", "(">>, <<"{", "a", ":">>, <<"function", "(", ")", "{">>, <<"new", "a", "(">>, <<"var", "a", "=">>, <<"var", "a", "=", "b", "?">>,
                               <<"var", "a", "=", "(">>, <<"let", "a", "=", "[">>, <<"const", "a", "=">>, <<"var", "a", ",", "b", "=">>, <<"-">>, <<"a", "&&">>, <<"a", ";">>, <<"a", ";", "b", ";">>, <<"let">>, <<"let", "let">>, <<"let", "of">>, <<"let", "in">>, <<"of">>, <<"of", "of">>,
                               <<"var", "of">>, <<"a", "of">>, <<"a", "in">>, <<"var", "a", "in">>, <<"let", "a", "of">>, <<"const", "a", "of">>, <<"const", "a", "in">>, <<"async">>, <<"var", "a", "of", "b">>, <<"a", "in", "b">>, <<"let", "=">>, <<"let", "(">>, <<"let", ".">>, <<"let", ";">>}),
                         {"a", "in", "of", "=", ";", ",", ")", "]", "}", ":", "+"}, max, No, Script)
ForStrict == Model(Cat({<<"for", "(">>, <<"for", "(", "var">>, <<"for", "(", "let">>, <<"for", "(", "const">>}, One({"let", "yield", "eval", "of", "a", "static", "in", "[", "{"})), {"of", "in", "=", ";", "a", ",", ")"}, 2, No, Entries)
ForBodies == Model(Cat({<<"for", "(", ";", ";", ")">>, <<"for", "(", "a", "in", "b", ")">>, <<"for", "(", "a", "of", "b", ")">>, <<"for", "(", "var", "a", "=", "b", ";", "c", ";", "d", ")">>, <<"for", "(", "let", "a", ",", "b", ";", ";", ")">>}, None),
                 {"a", ";", "{", "}", "for", "(", "var", "let", "function", "break", "continue"}, 3, No, Script)
ForQuick == << ForModel(6), ForExprs(2), ForStrict, ForBodies >>
ForThorough == << ForModel(7), ForExprs(4), ForStrict, ForBodies >>

(*************************** functions and declarations ***************************)
FunModel(max) == Model({<<"function">>, <<"x", "=", "function">>, <<"(", "function">>}, {"a", "*", "(", ")", "{", "}", ",", "..."}, max, No, Script)
Binding == {<<"var">>, <<"let">>, <<"const">>, <<"var", "a", ",">>, <<"let", "a", "=", "b", ",">>, <<"const", "a", "=", "b", ",">>, <<"function">>, <<"function", "*">>, <<"x", "=", "function">>, <<"x", "=", "function", "*">>, <<"function", "f", "(">>, <<"function", "f", "(", "a", ",">>,
            <<"function", "f", "(", "...">>, <<"try", "{", "}", "catch", "(">>, <<"for", "(", "var">>, <<"for", "(", "let">>, <<"for", "(", "const">>, <<"(", "{", "set", "a", "(">>, <<"(", "{", "m", "(">>, <<"(", "{", "m", "(", "...">>, <<"for", "(", "var", "a", ",">>, <<"for", "(", "let", "a", "=", "b", ",">>}
BindModel == Model(Binding, Words0 \cup Puncts \cup {"1", "'s'", "/r/"}, 1, No, {"script", "strict"})
BindNext == Model(Cat(Binding, One({"a", "of", "get", "let", "yield", "async"})), Puncts \cup {"in", "of", "a"}, 1, Both, Script)
DeclModel(max) == Model({<<"var">>, <<"let">>, <<"const">>}, {"a", "b", "=", ",", ";", "(", ")", "in"}, max, No, Script)
(* declarations where only statements may stand *)
DeclPlaces == Model(Bodies, {"let", "const", "function", "var", "a", "(", ")", "{", "}", "=", ";", "*", "["}, 2, Both, Script)
FunBodies(max) == Model(Cat({<<"function", "f", "(", "a", ")", "{">>, <<"x", "=", "function", "*", "g", "(", ")", "{">>}, None), {"return", "a", ";", "function", "(", ")", "{", "}", "'s'", "var"}, max, No, Script)
FunQuick == << FunModel(7), BindModel, BindNext, DeclModel(5), DeclPlaces, FunBodies(4) >>
FunThorough == << FunModel(9), BindModel, BindNext, DeclModel(7), DeclPlaces, FunBodies(6) >>

(*************************** every position, every token ***************************)
(* openings that leave the parser in each of its states, so that every token is tried there *)
Positions == Bodies \cup Endings \cup Binding \cup Restricted \cup
             {<<"if">>, <<"if", "(">>, <<"if", "(", "a">>, <<"while">>, <<"do", ";">>, <<"do", ";", "while">>, <<"do", ";", "while", "(">>, <<"do", ";", "while", "(", "a">>, <<"for">>, <<"for", "(", "let", "a">>, <<"for", "(", "const", "a">>, <<"for", "(", "const", "a", "=", "b">>,
              <<"for", "(", "var", "a", "=", "b">>, <<"for", "(", "var", "a", "in">>, <<"for", "(", "var", "a", "of">>, <<"for", "(", "var", "a", "of", "b">>, <<"for", "(", "a", "in">>, <<"for", "(", "a", "of", "b">>, <<"for", "(", ";">>, <<"for", "(", ";", ";">>, <<"for", "(", ";", ";", "a">>,
              <<"switch">>, <<"switch", "(">>, <<"switch", "(", "a", ")">>, <<"switch", "(", "a", ")", "{">>, <<"switch", "(", "a", ")", "{", "case">>, <<"switch", "(", "a", ")", "{", "case", "a">>, <<"switch", "(", "a", ")", "{", "default">>, <<"switch", "(", "a", ")", "{", "default", ":">>,
              <<"switch", "(", "a", ")", "{", "default", ":", "a", ";">>, <<"try">>, <<"try", "{", "}">>, <<"try", "{", "}", "catch">>, <<"try", "{", "}", "catch", "(", "a">>, <<"try", "{", "}", "catch", "(", "a", ")">>, <<"try", "{", "}", "finally">>, <<"try", "{", "}", "catch", "(", "a", ")", "{", "}">>,
              <<"with">>, <<"function", "f">>, <<"function", "f", "(", "a">>, <<"function", "f", "(", "...", "a">>, <<"function", "f", "(", ")">>, <<"function", "f", "(", ")", "{", "}">>, <<"x", "=", "function", "f">>, <<"(", "{">>, <<"(", "{", "a">>, <<"(", "{", "if">>, <<"(", "{", "'s'">>, <<"(", "{", "1">>,
              <<"(", "{", "a", ":">>, <<"(", "{", "a", ":", "b">>, <<"(", "{", "a", ",">>, <<"(", "{", "get">>, <<"(", "{", "set">>, <<"(", "{", "get", "a">>, <<"(", "{", "get", "a", "(">>, <<"(", "{", "get", "a", "(", ")">>, <<"(", "{", "set", "a">>, <<"(", "{", "set", "a", "(", "b">>, <<"(", "{", "*">>, <<"(", "{", "*", "a">>,
              <<"(", "{", "m", "(", ")", "{", "}">>, <<"[">>, <<"[", ",">>, <<"[", "a">>, <<"[", "...">>, <<"[", "...", "a">>, <<"a", "[">>, <<"a", "[", "b">>, <<"a", ".">>, <<"a", "(">>, <<"a", "(", "b">>, <<"a", "(", "b", ",">>, <<"a", "(", "...">>, <<"a", "(", "...", "b">>, <<"new">>, <<"new", "new">>, <<"new", ".">>, <<"new", "a">>,
              <<"new", "a", "(">>, <<"new", "a", "(", "b">>, <<"new", "a", "(", ")">>, <<"new", ".", "target">>, <<"a", "?">>, <<"a", "?", "b", ":">>, <<"a", "?", "b", ":", "c">>, <<"a", "=", "b">>, <<"a", "+=">>, <<"a", ",">>, <<"(", ")">>, <<"(", "a", ")">>, <<"a", "--">>, <<"--">>, <<"--", "a">>, <<"void">>, <<"a", ":">>,
              <<"l", ":", "while", "(", "a", ")", "continue">>, <<"l", ":", "while", "(", "a", ")", "break">>, <<"l", ":", "while", "(", "a", ")", "break", "l">>, <<"function", "f", "(", ")", "{", "return">>, <<"throw", "a">>, <<"var", "a", "=">>, <<"let", "a", "=", "b">>, <<"const", "a", "=">>, <<"const", "a">>}
AllTokens == Words0 \cup Puncts \cup {"1", "'s'", "'use strict'", "/r/", "/=s/g"}
PositionModel == Model(Positions, AllTokens, 1, Both, Script)
PositionEntries == Model(Positions, AllTokens, 1, No, {"strict", "module", "program"})
PositionPairs == Model(Positions, {"a", "1", "(", ")", "{", "}", "[", "]", ";", ",", ":", "=", "+", "++", ".", "...", "in", "of", "if", "else", "function", "var", "let", "'s'", "/r/", "get", "while", "yield"}, 2, No, Script)
PositionsQuick == << PositionModel, PositionEntries >>
PositionsThorough == << PositionModel, PositionEntries, PositionPairs >>

(*************************** a program of every kind of node ***************************)
Gallery == Cat(Done, Done) \cup Cat(Cat(Prologues \cup FunDone, Done), Endings)
GalleryModel == Model(Cat(Prologues, Done) \cup Cat(Done, Endings) \cup Cat({<<"(">>}, TargetForms) \cup Cat(Positions, {<<>>}), {"a", ";", ")", "}", "="}, 1, Both, Script)
GalleryEntries == Model(Cat(Prologues, Done) \cup Cat(Prologues, Positions), {"a", ";", ")", "}"}, 1, No, Entries)
GalleryQuick == << GalleryModel >>
EntriesQuick == << GalleryEntries, StrictModel(Entries), Model(None, {"a", "import", "export", "with", "(", ")", "'use strict'", "'use module'", ";", "yield", "await", "}"}, 4, No, Entries) >>
EntriesThorough == << GalleryEntries, StrictModel(Entries), StrictFun(Entries), Model(None, {"a", "import", "export", "with", "(", ")", "'use strict'", "'use module'", ";", "yield", "await", "}", "return"}, 5, No, Entries) >>

(*************************** whole programs ***************************)
(* the parser machine on a whole program *)
Parsed(ts) == FeedAll(Begin("script"), Append(ts, EOF), 1)[1]
Finished(ts) == LET s == Parsed(ts) IN IF s.res = "accept" THEN s ELSE Complete(FeedAll(Begin("script"), ts, 1)[1], <<>>)[1]

(* one program for every kind of node *)
OneOfEach == Done \cup Cat({<<"(">>}, {<<"a", ".", "b", "=">>, <<"a", "[", "b", "]", "+=">>, <<"[", "a", ",", ",", "...", "b", "]", "=">>, <<"{", "a", ",", "'s'", ":", "b", ",", "1", ":", "c", "}", "=">>,
                                         <<"++", "a", ".", "b">>, <<"a", "--">>, <<"typeof">>, <<"-">>, <<"a", "in">>, <<"a", "||">>, <<"a", "?", "b", ":">>, <<"a", ",">>, <<"a", "(", "b", ",", "...", "c", ")">>,
                                         <<"new", "a", "(", "b">>, <<"new", ".", "target">>, <<"this">>, <<"/=s/g">>, <<"null">>, <<"true">>, <<"1">>, <<"'s'", "+">>,
                                         <<"[", "a", ",", "...", "b">>, <<"{", "get", "a", "(", ")", "{", "'s'", ";", "}">>, <<"{", "set", "a", "(", "b", ")", "{", "}">>, <<"{", "'s'", "(", "a", ",", "...", "b", ")", "{", "}">>, <<"{", "*", "a", "(", ")", "{", "}">>,
                                         <<"{", "a", ":", "b", ",", "1", ":", "c", ",", "if", ":", "d", ",", "e">>, <<"function", "*", "f", "(", "a", ",", "b", ")", "{", "'use strict'", ";", "a", ";">>, <<"function", "(", "...", "a">>})
             \cup {<<"'use strict'", ";", "'s'", ";", "a">>, <<"var", "a", ",", "b", "=", "c">>, <<"let", "a", ",", "b", "=", "c">>, <<"const", "a", "=", "b">>, <<"if", "(", "a", ")", "b", ";", "else", "c">>, <<"if", "(", "a", ")", "b">>,
                   <<"for", "(", "var", "a", "=", "b", ",", "c", ";", "d", ";", "e">>, <<"for", "(", "let", "a", ";", ";">>, <<"for", "(", "const", "a", "=", "b", ";", ";">>, <<"for", "(", "a", ";", ";">>, <<"for", "(", "var", "a", "=", "b", "in">>,
                   <<"for", "(", "var", "a", "in">>, <<"for", "(", "let", "a", "in">>, <<"for", "(", "const", "a", "in">>, <<"for", "(", "var", "a", "of">>, <<"for", "(", "let", "a", "of">>, <<"for", "(", "const", "a", "of">>, <<"for", "(", "a", ".", "b", "in">>,
                   <<"for", "(", "[", "a", "]", "of">>, <<"l", ":", "while", "(", "a", ")", "break", "l">>, <<"l", ":", "do", "continue", "l", ";", "while", "(", "a">>, <<"while", "(", "a", ")", "{", "break", ";", "continue">>,
                   <<"switch", "(", "a", ")", "{", "case", "b", ":", "c", ";", "default", ":", "var", "d">>, <<"with", "(", "a", ")">>, <<"throw">>, <<"debugger">>, <<"function", "f", "(", "a", ")", "{", "return", "b">>, <<"function", "f", "(", ")", "{", "return">>,
                   <<"try", "{", "a", ";", "}", "catch", "(", "b", ")", "{", "c", ";", "}", "finally", "{", "d">>, <<"try", "{", "}", "finally", "{">>, <<"{", "a", ";", "let", "b">>, <<>>}
=============================================================================
