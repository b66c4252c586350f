----------------------------- MODULE ParsePump -----------------------------
(***************************************************************************)
(* Programs of any length and nesting. A family is a token sequence with a       *)
(* part that is repeated: pre, unit over and over, mid, closer as often, post.     *)
(*                                                                         *)
(* Flat families (no closer): after each copy of the unit the machine stands as     *)
(* it stood before it (theorem Cycle), so what it does with n copies follows           *)
(* from what it does with a few; the harness checks that the outcomes of 2 to 5         *)
(* copies form a progression and replays programs of tens of thousands of              *)
(* copies against its continuation.                                        *)
(* Nested families are run on the machine at the depths that are replayed.            *)
(* "NL" says that a newline precedes the next token.                            *)
(***************************************************************************)
EXTENDS ParseModels

VARIABLES fam, copies
pumpvars == <<vars, fam, copies>>

RECURSIVE Marked(_, _)
Marked(ts, nl) == IF ts = <<>> THEN <<>>
                  ELSE IF Head(ts) = "NL" THEN Marked(Tail(ts), TRUE)
                  ELSE << <<Head(ts), nl>> >> \o Marked(Tail(ts), FALSE)
(* "#" is a name of the copy's own *)
Own(ts, n) == [i \in 1..Len(ts) |-> IF ts[i] = "#" THEN "l" \o ToString(n) ELSE ts[i]]
RECURSIVE Times(_, _)
Times(ts, n) == IF n = 0 THEN <<>> ELSE Times(ts, n - 1) \o Own(ts, n)

Family(kind, entry, pre, unit, mid, closer, post) == [kind |-> kind, entry |-> entry, pre |-> pre, unit |-> unit, mid |-> mid, closer |-> closer, post |-> post]
(* the repeated part makes the tree longer, not deeper *)
Flat(pre, unit, post) == Family("flat", "script", pre, unit, <<>>, <<>>, post)
In(entry, pre, unit, post) == Family("flat", entry, pre, unit, <<>>, <<>>, post)
(* the tree leans to the left: deep, but read in a loop *)
Left(pre, unit, post) == Family("left", "script", pre, unit, <<>>, <<>>, post)
Nested(pre, unit, mid, closer, post) == Family("nested", "script", pre, unit, mid, closer, post)

Families == <<
  (* statements and directives *)
  Flat(<<>>, <<"a", ";">>, <<>>), Flat(<<>>, <<"a", "NL">>, <<"b">>), Flat(<<"{">>, <<";">>, <<"}">>), Flat(<<>>, <<"{", "}">>, <<"a">>), In("module", <<>>, <<"a", "=", "b", "NL">>, <<"++", "c">>),
  In("program", <<>>, <<"'s'", ";">>, <<"with", "(", "a", ")", ";">>), In("program", <<>>, <<"'s'", ";">>, <<"'use strict'", ";", "with", "(", "a", ")", ";">>), Flat(<<>>, <<"'s'", "NL">>, <<"\"use strict\"", "NL", "var", "eval">>), Flat(<<"function", "f", "(", ")", "{">>, <<"\"t\"", ";">>, <<"'use strict'", ";", "}", "yield">>),
  In("program", <<>>, <<"yield", ";">>, <<"import">>), In("program", <<>>, <<"with", "(", "a", ")", ";">>, <<>>), In("strict", <<>>, <<"a", ";">>, <<"yield">>), In("module", <<>>, <<"a", ";">>, <<"await">>),
  Flat(<<>>, <<"a", "(", ")", "NL">>, <<")">>), Flat(<<>>, <<"if", "(", "a", ")", "b", ";">>, <<"else">>), Flat(<<>>, <<"if", "(", "a", ")", ";", "else", ";">>, <<>>), Flat(<<>>, <<"do", ";", "while", "(", "a", ")">>, <<"b">>),
  Flat(<<"while", "(", "a", ")", "{">>, <<"break", "NL">>, <<"continue", "}", "NL", "break">>), Flat(<<>>, <<"for", "(", ";", ";", ")", "continue", ";">>, <<"continue">>), Flat(<<>>, <<"l", ":", ";">>, <<"break", "l">>), Flat(<<>>, <<"l", ":", "while", "(", "a", ")", "break", "l", ";">>, <<"l", ":", ";">>),
  Flat(<<>>, <<"function", "f", "(", ")", "{", "'use strict'", ";", "return", ";", "}">>, <<"with", "(", "a", ")", "return">>), Flat(<<>>, <<"try", "{", "}", "finally", "{", "}">>, <<"try", "{", "}", "a">>), Flat(<<>>, <<"try", "{", "}", "catch", "(", "a", ")", "{", "}">>, <<>>),
  Flat(<<"function", "f", "(", ")", "{">>, <<"return", "NL", "a", ";">>, <<"}">>), Flat(<<>>, <<"throw", "a", ";">>, <<"throw">>), Flat(<<>>, <<"debugger", "NL">>, <<"debugger", "a">>), Flat(<<>>, <<"a", "++", "NL">>, <<"++", "a">>), Flat(<<>>, <<"/r/", ";">>, <<"a", "/", "b">>),
  Flat(<<>>, <<"x", "=", "a", "NL">>, <<"/", "b", "/", "c">>), Flat(<<>>, <<"let", "a", ";", "const", "b", "=", "c", ";">>, <<"let", "a", "=", "in">>),
  (* lists *)
  Flat(<<"var", "a">>, <<",", "b">>, <<>>), Flat(<<"let", "a", "=", "b">>, <<",", "c", "=", "d">>, <<";", "a">>), Flat(<<"const", "a", "=", "b">>, <<",", "c", "=", "d">>, <<",", "e">>), Flat(<<"for", "(", "var", "a">>, <<",", "b">>, <<";", ";", ")", ";">>), Flat(<<"for", "(", "let", "a", "=", "b">>, <<",", "c">>, <<"in", "d", ")", ";">>),
  Flat(<<"function", "f", "(">>, <<"a", ",">>, <<")", "{", "}">>), Flat(<<"x", "=", "function", "(", "a">>, <<",", "b">>, <<",", "...", "c", ")", "{", "}">>), Flat(<<"function", "f", "(", "a">>, <<",", "b">>, <<",", "1">>), In("strict", <<"function", "f", "(", "a">>, <<",", "b">>, <<",", "eval", ")">>),
  Flat(<<"a", "(", "b">>, <<",", "c">>, <<")">>), Flat(<<"a", "(", "...", "b">>, <<",", "...", "c">>, <<",", ")">>), Flat(<<"new", "a", "(", "b">>, <<",", "c">>, <<")", ".", "d">>), Flat(<<"[">>, <<"a", ",">>, <<"]">>), Flat(<<"[">>, <<",">>, <<"a", "]">>), Flat(<<"[">>, <<",">>, <<"]", "=", "b">>), Flat(<<"[">>, <<"a", ",">>, <<"...", "b", "]", "=", "c">>),
  Flat(<<"[">>, <<"...", "a", ",">>, <<"]", "=", "c">>), Flat(<<"[", "1">>, <<",", "a">>, <<"]", "=", "c">>), Flat(<<"[">>, <<"a", ",", ",">>, <<"1", "]">>), Flat(<<"(", "{">>, <<"a", ":", "b", ",">>, <<"}", ")">>), Flat(<<"(", "{", "a">>, <<",", "b">>, <<"}", "=", "c", ")">>), Flat(<<"(", "{">>, <<"get", "a", "(", ")", "{", "}", ",">>, <<"}", "=", "b", ")">>),
  Flat(<<"(", "{">>, <<"'s'", ":", "a", ",", "1", ":", "b", ",", "if", ":", "c", ",">>, <<"if", "}", ")">>), Flat(<<"(", "{">>, <<"m", "(", ")", "{", "}", ",">>, <<"*", "a", "(", ")", "{", "}", "}", ")">>), Flat(<<"(", "{">>, <<"set", "a", "(", "b", ")", "{", "return", "NL", "}", ",">>, <<"get", "}", ")">>), Flat(<<"(", "{", "a", ":", "b">>, <<",", "c", ":", "d", ".", "e">>, <<"}", "=", "x", ")">>),
  Flat(<<"switch", "(", "a", ")", "{">>, <<"case", "b", ":">>, <<"}">>), Flat(<<"switch", "(", "a", ")", "{">>, <<"case", "b", ":", "c", ";", "break", ";">>, <<"default", ":", "}">>), Flat(<<"switch", "(", "a", ")", "{", "default", ":">>, <<"case", "b", ":">>, <<"default", ":", "}">>), Flat(<<"switch", "(", "a", ")", "{", "case", "b", ":">>, <<"c", "NL">>, <<"continue", "}">>),
  Flat(<<"a">>, <<",", "b">>, <<>>), Flat(<<"(", "a">>, <<",", "b", "=", "c">>, <<")", "=", "d">>), Flat(<<"for", "(", "a">>, <<",", "b">>, <<";", ";", ")", ";">>), Flat(<<"for", "(", ";", ";", "a">>, <<",", "b">>, <<")", ";">>), Flat(<<"for", "(", "a">>, <<",", "b">>, <<"in", "c", ")", ";">>), Flat(<<"if", "(", "a">>, <<",", "b">>, <<")", ";">>),
  (* chains that lean to the left *)
  Left(<<"a">>, <<"+", "b">>, <<>>), Left(<<"a">>, <<"*", "b", "-", "c">>, <<";">>), Left(<<"a">>, <<"&&", "b">>, <<"||", "c">>), Left(<<"a", "==", "b">>, <<"<", "c", "==", "d">>, <<"?", "e", ":", "f">>), Left(<<"a">>, <<".", "b">>, <<"=", "c">>), Left(<<"a">>, <<".", "if">>, <<"++">>), Left(<<"a">>, <<"[", "b", "]">>, <<"+=", "c">>),
  Left(<<"a">>, <<"(", ")">>, <<"=", "b">>), Left(<<"a">>, <<".", "b", "(", "c", ")", "NL">>, <<"d">>), Left(<<"new", "a">>, <<".", "b">>, <<"(", ")", ".", "c", "=", "d">>), Left(<<"a">>, <<"||", "b", "&&", "c">>, <<"|", "d">>), Left(<<"for", "(", "a">>, <<".", "b">>, <<"in", "c", ")", ";">>), Left(<<"for", "(", "var", "a", "=", "b">>, <<"+", "c">>, <<"in", "d", ")", ";">>),
  Left(<<"a">>, <<"/", "b">>, <<"/", ";">>), Left(<<"a">>, <<"NL", "/", "b", "NL", "/", "g">>, <<>>), Left(<<"typeof", "a">>, <<"instanceof", "b">>, <<"in", "c">>),
  (* nested *)
  Nested(<<>>, <<"(">>, <<"a">>, <<")">>, <<"=", "b">>), Nested(<<>>, <<"[">>, <<"a">>, <<"]">>, <<"=", "b">>), Nested(<<>>, <<"[">>, <<"1">>, <<"]">>, <<"=", "b">>), Nested(<<"x", "=">>, <<"{", "a", ":">>, <<"b">>, <<"}">>, <<"=", "c">>), Nested(<<>>, <<"[", "...">>, <<"a">>, <<"]">>, <<"=", "b">>), Nested(<<>>, <<"a", "(">>, <<>>, <<")">>, <<>>),
  Nested(<<>>, <<"a", "[">>, <<"b">>, <<"]">>, <<"=", "c">>), Nested(<<>>, <<"{">>, <<"a">>, <<"}">>, <<>>), Nested(<<>>, <<"a", "=">>, <<"b">>, <<>>, <<>>), Nested(<<>>, <<"a", "?", "b", ":">>, <<"c">>, <<>>, <<>>), Nested(<<>>, <<"a", "?">>, <<"b">>, <<":", "c">>, <<>>), Nested(<<>>, <<"-">>, <<"a">>, <<>>, <<>>), Nested(<<>>, <<"typeof", "!">>, <<"a">>, <<>>, <<"++">>),
  Nested(<<>>, <<"new">>, <<"a">>, <<>>, <<>>), Nested(<<>>, <<"new">>, <<"a">>, <<"(", ")">>, <<>>), Nested(<<>>, <<"new">>, <<"a">>, <<"(", ")">>, <<"(", ")">>), Nested(<<>>, <<"new">>, <<"a">>, <<".", "b">>, <<>>), Nested(<<>>, <<"new">>, <<"new", ".", "target">>, <<"(", "b", ")">>, <<"=", "c">>),
  Nested(<<>>, <<"if", "(", "a", ")">>, <<";">>, <<"else", ";">>, <<>>), Nested(<<>>, <<"if", "(", "a", ")">>, <<";">>, <<"else", ";">>, <<"else">>), Nested(<<>>, <<"if", "(", "a", ")", ";", "else">>, <<"b">>, <<>>, <<>>), Nested(<<>>, <<"while", "(", "a", ")">>, <<"break">>, <<>>, <<"NL", "break">>), Nested(<<>>, <<"do">>, <<";">>, <<"while", "(", "a", ")">>, <<>>),
  Nested(<<>>, <<"for", "(", "a", "in", "b", ")">>, <<"continue">>, <<>>, <<>>), Nested(<<>>, <<"with", "(", "a", ")">>, <<";">>, <<>>, <<>>), Nested(<<>>, <<"switch", "(", "a", ")", "{", "case", "b", ":">>, <<"break">>, <<"}">>, <<"break">>), Nested(<<>>, <<"try", "{">>, <<"a">>, <<"}", "finally", "{", "}">>, <<>>), Nested(<<>>, <<"try", "{", "}", "catch", "(", "a", ")", "{">>, <<"a">>, <<"}">>, <<>>),
  Nested(<<>>, <<"function", "f", "(", ")", "{">>, <<"return">>, <<"}">>, <<"return">>), Nested(<<>>, <<"function", "f", "(", ")", "{">>, <<"'use strict'", ";", "with">>, <<>>, <<>>), Nested(<<"'use strict'", ";">>, <<"function", "f", "(", ")", "{">>, <<"a">>, <<"}">>, <<"with">>), Nested(<<>>, <<"x", "=", "function", "(", ")", "{">>, <<"'use strict'">>, <<"}">>, <<";", "with", "(", "a", ")", ";">>),
  Nested(<<"(">>, <<"{", "get", "a", "(", ")", "{", "return">>, <<"b">>, <<"}", "}">>, <<")">>), Nested(<<"l", ":", "while", "(", "a", ")", "{">>, <<"while", "(", "b", ")", "{">>, <<"continue", "l">>, <<"}">>, <<"}", "continue", "l">>), Nested(<<>>, <<"for", "(", "a", "=", "(">>, <<"b", "in", "c">>, <<")", ";", ";", ")">>, <<";">>), Nested(<<>>, <<"a", "+", "(">>, <<"b">>, <<")">>, <<>>),
  Nested(<<>>, <<"a", "||", "b", "&&", "c", "|", "(">>, <<"d">>, <<")">>, <<>>), Nested(<<>>, <<"{", "l", ":">>, <<";">>, <<"}">>, <<>>), Nested(<<"l", ":">>, <<"{">>, <<"break", "l">>, <<"}">>, <<"break", "l">>), Nested(<<>>, <<"#", ":">>, <<";">>, <<>>, <<"l1", ":", "l2", ":", "l3", ":", ";">>), Nested(<<>>, <<"#", ":">>, <<";">>, <<>>, <<"break", "l3">>), Nested(<<>>, <<"#", ":">>, <<"while", "(", "a", ")", ";">>, <<>>, <<"l3", ":", "while", "(", "a", ")", "continue", "l1">>),
  Nested(<<>>, <<"#", ":">>, <<"while", "(", "a", ")", "{", "continue", "l1", ";", "continue", "l2", ";", "break", "l3", ";", "}">>, <<>>, <<"continue", "l2">>), Nested(<<>>, <<"#", ":", "while", "(", "a", ")", "{">>, <<"continue", "l2", ";", "break", "l3", ";">>, <<"}">>, <<"l3", ":", "{", "break", "l3", "NL", "}", "break", "l2">>),
  Nested(<<>>, <<"#", ":", "{">>, <<"break", "l1", ";", "continue", "l2", ";">>, <<"}">>, <<>>), Nested(<<>>, <<"#", ":", "function", "f", "(", ")", "{">>, <<"l1", ":", "break", "l1", ";", "break", "l2", ";">>, <<"}">>, <<>>), Nested(<<"l3", ":", "{">>, <<"#", ":">>, <<";">>, <<>>, <<"}">>),
  Nested(<<"x", "=">>, <<"[", "a", ",", "{", "b", ":">>, <<"c">>, <<"}", "]">>, <<"=", "d">>) >>

Depths == {3, 10, 33, 70}

(* all tokens of a family *)
All(f, n) == Marked(f.pre \o Times(f.unit, n) \o f.mid \o Times(f.closer, n) \o f.post \o <<EOF>>, FALSE)

PumpInit == \E i \in 1..Len(Families) : \E k \in IF Families[i].kind = "nested" THEN Depths ELSE 2..5 :
              /\ fam = i /\ copies = k /\ env = [mod |-> 0, n |-> 0, script |-> 0]
              /\ toks = <<>> /\ st = Begin(Families[i].entry)
(* the tokens are written down in a step of its own: initial states are evaluated on a small stack *)
Write == toks = <<>> /\ toks' = All(Families[fam], copies) /\ UNCHANGED <<st, env, fam, copies>>
(* tokens are fed one by one, up to the one at which an error is reported or that the tokenizer does not deliver *)
Consume == /\ toks # <<>> /\ Open(st) /\ st.n < Len(toks) /\ Deliverable(st, toks[st.n + 1][1])
        /\ st' = Feed(st, toks[st.n + 1][1], toks[st.n + 1][2])
        /\ UNCHANGED <<toks, env, fam, copies>>
PumpNext == Write \/ Consume
PumpSpec == PumpInit /\ [][PumpNext]_pumpvars

(* the grammar symbols still to be matched and the context, without the operands and what was made of them *)
Standing(s) == [syms |-> [i \in 1..Len(s.stk) |-> s.stk[i][1]], ctx |-> s.ctx, goal |-> s.goal, res |-> s.res]
Cycle == (copies = 2 /\ Families[fam].kind # "nested" /\ st.n = 1) =>
           LET f == Families[fam]
               at(n) == LET ts == Marked(f.pre \o Times(f.unit, n), FALSE) IN RunAll(Begin(f.entry), ts, 1) IN
           (at(2).res = "open" /\ at(3).res = "open") => Standing(at(2)) = Standing(at(3)) /\ Standing(at(3)) = Standing(at(4))

PumpOutcome == [fam |-> fam, copies |-> copies, kind |-> Families[fam].kind, entry |-> st.entry, total |-> Len(toks), free |-> Free(st, SubSeq(toks, 1, st.n)),
                toks |-> SubSeq(toks, 1, st.n), res |-> st.res, err |-> st.err, out |-> IF st.res = "accept" THEN st.out ELSE <<>>]
PumpChecked == /\ Cycle
               /\ ~Open(st) => /\ Good(st, SubSeq(toks, 1, st.n))
                               /\ PrintT(ToJson(PumpOutcome))
               (* every family is made so that its outcome is decided by what is given *)
               /\ (Open(st) /\ st.n < Len(toks)) => Assert(Deliverable(st, toks[st.n + 1][1]), <<"not delivered", fam, toks[st.n + 1]>>)
=============================================================================
