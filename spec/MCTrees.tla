------------------------------ MODULE MCTrees ------------------------------
(***************************************************************************)
(* When two trees are the same. Each program of a set is compared with those  *)
(* made from it by up to MaxChanges changes: a token replaced by another of its  *)
(* kind, one or two left out, two exchanged, one repeated. Both are run through the parser machine, and the      *)
(* trees are alike exactly when they record the same things.                   *)
(***************************************************************************)
EXTENDS ParseModels

CONSTANTS Programs,      \* beginnings of programs: sequences of tokens
          MaxChanges

VARIABLES base, prog, entry, n

Trim(ts) == IF ts # <<>> /\ ts[Len(ts)] = EOF THEN SubSeq(ts, 1, Len(ts) - 1) ELSE ts
(* the tokens of the completion of a beginning *)
Whole(ts) == IF Parsed(ts).res = "accept" THEN ts
             ELSE LET f == FeedAll(Begin("script"), ts, 1) IN Trim(ts \o [i \in 1..Len(Complete(f[1], <<>>)[2]) |-> Complete(f[1], <<>>)[2][i][1]])
At(e, ts) == FeedAll(Begin(e), Append(ts, EOF), 1)
Valid(e, ts) == LET f == At(e, ts) IN f[3] /\ f[1].res = "accept"

(* a string is its characters however it is written *)
Chars(t) == CASE t = "\"t\"" -> "t" [] t = "''" -> "" [] t = "\"use asm\"" -> "use asm" [] t = "'use module'" -> "use module"
              [] t \in {"'use strict'", "\"use strict\"", "'use\\x20strict'"} -> "use strict" [] t = "'s'" -> "s" [] OTHER -> t
(* what a tree records: neither places nor how a semicolon came about *)
Record(out) == [i \in 1..Len(out) |-> <<out[i][1], CASE out[i][1] = "semicolon" -> "" [] out[i][1] \in {"string", "directive", "key-string"} -> Chars(out[i][2]) [] OTHER -> out[i][2]>>]
SameTree(x, y) == Record(x) = Record(y)

Atoms == {"a", "q", "1", "2", "'s'", "\"t\"", "/r/", "/=s/g", "null", "true", "false", "this", "if"}
Kinds == << Infix \cup {"=", ","} \cup AssignOps, PrefixOps \cup {"++", "--", "new"}, Atoms \cup {"b", "c", "f", "l"}, {"var", "let", "const"}, {"in", "of"}, {"break", "continue", "return"},
            {"while", "with", "if"}, {"get", "set", "*", "a"}, {"'use strict'", "\"use strict\"", "'use\\x20strict'", "'s'", "''"}, {"case", "default"}, {"...", "-"}, {";", ","}, {"catch", "finally"} >>
(* completions of beginnings are made of z *)
Others(t) == IF t = "z" THEN {"q", "2", "this"} ELSE UNION {Kinds[k] : k \in {k \in 1..Len(Kinds) : t \in Kinds[k]}} \ {t}
Replaced(ts) == UNION {{[ts EXCEPT ![i] = t] : t \in Others(ts[i])} : i \in 1..Len(ts)}
Removed(ts) == {SubSeq(ts, 1, i - 1) \o SubSeq(ts, i + 1, Len(ts)) : i \in 1..Len(ts)}
Removed2(ts) == {SubSeq(ts, 1, i - 1) \o SubSeq(ts, i + 2, Len(ts)) : i \in 1..(Len(ts) - 1)}
Swapped(ts) == {[ts EXCEPT ![i] = ts[i + 1], ![i + 1] = ts[i]] : i \in 1..(Len(ts) - 1)} \cup {[ts EXCEPT ![i] = ts[i + 2], ![i + 2] = ts[i]] : i \in 1..(Len(ts) - 2)}
Repeated(ts) == {SubSeq(ts, 1, i) \o SubSeq(ts, i, Len(ts)) : i \in 1..Len(ts)}

TInit == /\ n = 0 /\ st = 0 /\ toks = 0 /\ env = 0 /\ entry \in {"script", "module"}
         /\ \E ts \in Programs : base = Whole(ts) /\ Valid(entry, base) /\ prog = base
TNext == /\ n < MaxChanges /\ n' = n + 1 /\ UNCHANGED <<base, entry, vars>>
         /\ prog' \in {ts \in Replaced(prog) \cup Removed(prog) \cup Removed2(prog) \cup Swapped(prog) \cup Repeated(prog) : Valid(entry, ts)}
TSpec == TInit /\ [][TNext]_<<base, prog, entry, n, vars>>

(*************************** theorems ***************************)
OutOf(ts) == At(entry, ts)[1].out
(* a tree records every word, number and operator: a change of one of them shows *)
Telling(t) == KindOf(t) \in {"i", "n", "x"} \/ t \in (Infix \cup AssignOps \cup {"=", "++", "--", "!", "~"})
Shows == \A i \in 1..Len(base) : (Len(prog) = Len(base) /\ prog = [base EXCEPT ![i] = prog[i]] /\ prog # base /\ Telling(base[i]) /\ Telling(prog[i]))
                                 => ~SameTree(OutOf(base), OutOf(prog))
(* the statements that could be directives: a string and nothing else *)
Quotes(out) == {i \in 3..Len(out) : out[i][1] = "expression" /\ out[i - 1][1] = "semicolon" /\ out[i - 2][1] = "string"}
Verdict == [entry |-> entry, a |-> base, b |-> prog, same |-> SameTree(OutOf(base), OutOf(prog)), out |-> OutOf(prog), quotes |-> Quotes(OutOf(prog))]
(* none of them begins a script or a function: there they were taken as directives *)
Taken == \A i \in Quotes(OutOf(prog)) : i < 5 \/ ~(OutOf(prog)[i - 3][1] = "[" /\ OutOf(prog)[i - 4][1] = "]" /\ OutOf(prog)[i - 2][3] > 0 /\ prog[OutOf(prog)[i - 2][3]] # "(" /\ (OutOf(prog)[i - 2][3] = 1 \/ prog[OutOf(prog)[i - 2][3] - 1] # "("))
TChecked == /\ n = 0 => SameTree(OutOf(base), OutOf(prog))
            /\ Shows /\ Taken
            /\ PrintT(ToJson(Verdict))

Some == OneOfEach \cup {<<"new", "a", "(", ")">>, <<"(", "new", "a", "(", ")", ".", "b">>, <<"(", "{", "a", ":", "b", "}">>, <<"(", "[", ",", ",">>, <<"(", "[", "a", ",", "b", "]", "=">>, <<"(", "{", "a", ",", "b", ":", "c", "}", "=">>, <<"(", "[", "a", ",", "...", "b", "]", "=">>}
(* short programs, for more than one change *)
Short == Cat({<<"(">>}, {<<"a", "=">>, <<"[", "a", "]", "=">>, <<"a", ".", "b">>, <<"{", "get", "a", "(", ")", "{", "}">>, <<"{", "a", "(", "b", ")", "{", "}">>, <<"{", "a", ":", "1">>, <<"new", ".", "target">>, <<"/r/">>, <<"++">>, <<"a", "(", "...">>,
                         <<"a", "?", "b", ":">>, <<"new", "a", "(", "b">>, <<"a", "+", "b", "*">>, <<"a", "[">>, <<"typeof">>})
         \cup {<<"'s'">>, <<"const", "a", "=">>, <<"for", "(", "var", "a", "=", "b", "in">>, <<"for", "(", "let", "a", "of">>, <<"for", "(", "let", "a", ";", ";">>, <<"try", "{", "}", "finally", "{">>, <<"if", "(", "a", ")">>, <<"function", "f", "(", "...">>,
               <<"switch", "(", "a", ")", "{", "default", ":">>, <<"l", ":">>, <<"while", "(", "a", ")", "break">>, <<"'use strict'", ";", "a">>}
=============================================================================
