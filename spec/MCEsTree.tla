------------------------------ MODULE MCEsTree ------------------------------
(***************************************************************************)
(* Documents to read: the descriptions of programs, and what becomes of them  *)
(* after up to MaxFaults changes anywhere in them.                           *)
(*                                                                         *)
(* Programs are run through the parser machine; each accepted one gives a      *)
(* document. Every document is printed with its reading, or its faults.         *)
(***************************************************************************)
EXTENDS ParseModels, EsTree

CONSTANTS Programs,      \* beginnings of programs: sequences of tokens
          MaxFaults,
          AllTags        \* try every node type in place of every other

VARIABLES doc, n

(* changes *)
Word == Ident("w")
OfEachType == {Null, S("w"), Num("1"), B(TRUE), A(<<>>), Word, A(<<Word>>), O("body" :> A(<<>>))}
SomeTags == {"Identifier", "Literal", "ThisExpression", "EmptyStatement", "BlockStatement", "SpreadElement", "RestElement", "ArrayExpression",
             "VariableDeclaration", "FunctionDeclaration", "UpdateExpression", "Program", "identifier", ""}
(* declarations, to stand where there was something else *)
Declarations == {O("type" :> S("FunctionDeclaration") @@ "id" :> Word @@ "generator" :> B(FALSE) @@ "params" :> A(<<>>) @@ "body" :> O("type" :> S("BlockStatement") @@ "body" :> A(<<>>))),
                 O("type" :> S("VariableDeclaration") @@ "kind" :> S("let") @@ "declarations" :> A(<<O("type" :> S("VariableDeclarator") @@ "id" :> Word @@ "init" :> Word)>>)),
                 O("type" :> S("EmptyStatement"))}
OperatorWords == DOMAIN Prec \cup AssignOps \cup PrefixOps \cup {"=", "++", "--", "=>", "**", "", "plus"}
KindWords == DeclKinds \cup {"init", "get", "set", "", "method"}
Instead(f, v) == (OfEachType
                  \cup (CASE f = "type" -> {S(t) : t \in (IF AllTags THEN Tags \cup SomeTags ELSE SomeTags)}
                          [] f = "operator" -> {S(t) : t \in OperatorWords}
                          [] f = "kind" -> {S(t) : t \in KindWords}
                          [] v[1] = "b" -> {B(~v[2])}
                          [] v[1] = "n" -> {Num("1.5"), Num("-1")}
                          [] v[1] = "s" -> {S("s"), S("\\/")}
                          [] v[1] = "o" -> Declarations
                          [] OTHER -> {})) \ {v}
Without(r, f) == [k \in DOMAIN r \ {f} |-> r[k]]
RECURSIVE Changed(_)
Changed(v) ==
    CASE v[1] = "o" ->
           UNION {{O([v[2] EXCEPT ![f] = m]) : m \in Instead(f, v[2][f]) \cup Changed(v[2][f])} \cup {O(Without(v[2], f))} : f \in DOMAIN v[2]}
           \cup (IF "extra" \in DOMAIN v[2] THEN {} ELSE {O(("extra" :> Word) @@ v[2])})
      [] v[1] = "a" ->
           LET s == v[2] IN
           UNION {{A([s EXCEPT ![i] = m]) : m \in ((OfEachType \cup Declarations) \ {s[i]}) \cup Changed(s[i])}
                  \cup {A(SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))), A(SubSeq(s, 1, i) \o SubSeq(s, i, Len(s)))} : i \in 1..Len(s)}
           \cup {A(Append(s, Null)), A(Append(s, Num("0")))}
      [] OTHER -> {}

EInit == /\ n = 0 /\ st = 0 /\ toks = 0 /\ env = 0
         /\ \E ts \in Programs : LET p == Finished(ts) IN Assert(p.res = "accept", ts) /\ doc = Describe(p.out)
Change == n < MaxFaults /\ n' = n + 1 /\ doc' \in Changed(doc)
ENext == Change /\ UNCHANGED vars
ESpec == EInit /\ [][ENext]_<<doc, n, vars>>

Verdict == LET evs == Read(doc) IN
           [doc |-> doc, n |-> n, faults |-> SetToSeq(Faults(evs)), out |-> IF Sound(evs) THEN evs ELSE <<>>]
Tiny == Cat({<<"(">>}, {<<"a", "=">>, <<"[", "a", "]", "=">>, <<"a", ".", "b">>, <<"{", "get", "a", "(", ")", "{", "}">>, <<"{", "a", "(", "b", ")", "{", "}">>, <<"{", "a", ":", "1">>, <<"new", ".", "target">>, <<"/r/">>, <<"++">>, <<"a", "(", "...">>})
        \cup {<<"'s'">>, <<"const", "a", "=">>, <<"for", "(", "var", "a", "=", "b", "in">>, <<"for", "(", "let", "a", "of">>, <<"for", "(", "let", "a", ";", ";">>, <<"try", "{", "}", "finally", "{">>, <<"if", "(", "a", ")">>, <<"function", "f", "(", "...">>,
              <<"switch", "(", "a", ")", "{", "default", ":">>, <<"l", ":">>, <<"if", "(", "a", ")", "var">>,
              <<"for", "(", "const", "a", "=">>, <<"for", "(", "var", "a", "=", "1", ";">>}
EChecked == PrintT(ToJson(Verdict))
=============================================================================
