------------------------------ MODULE Reports ------------------------------
(***************************************************************************)
(* What an error says of itself: the parser's errors, those of assignment      *)
(* patterns and those of the ESTree reader. Each kind has words of its own;     *)
(* an error that passes on another says what that one says, and names it as     *)
(* its cause. And which deferred checks fail in a script and in a module.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

(* the words of each kind *)
Own == ("UnexpectedToken" :> "token" @@ "FailedASI" :> "asi" @@ "TopLevelReturn" :> "return" @@ "IllegalBreak" :> "break" @@ "IllegalContinue" :> "continue"
        @@ "InvalidLabel" :> "label" @@ "InvalidLabelType" :> "label type" @@ "ContextualKeyword" :> "keyword" @@ "IllegalStrictBinding" :> "binding"
        @@ "UnexpectedDirective" :> "directive" @@ "UnexpectedModule" :> "module" @@ "ImportInScript" :> "import" @@ "ExportInScript" :> "export"
        @@ "ForOfLetExpr" :> "let" @@ "DuplicateDefault" :> "default" @@ "StrictWith" :> "with" @@ "ThrowArgument" :> "throw" @@ "OrphanTry" :> "try"
        @@ "UnsupportedFeature" :> "unsupported" @@ "CompoundParamWithUseStrict" :> "param")
(* kinds that pass on an error of another part *)
Passed == ("LexError" :> {"unterminated string", "illegal character"} @@ "InvalidLHS" :> {"assignment", "property"})
Kinds == DOMAIN Own \cup DOMAIN Passed

Say(k, inner) == [q |-> "syntax", kind |-> k, inner |-> inner, says |-> IF k \in DOMAIN Own THEN Own[k] ELSE inner, caused |-> k \in DOMAIN Passed]
Says == {Say(k, "") : k \in DOMAIN Own} \cup UNION {{Say(k, i) : i \in Passed[k]} : k \in DOMAIN Passed}
(* errors of two kinds cannot be mistaken for one another, except where one passes on what the other says *)
Pairs == {[q |-> "pair", kind |-> k, inner |-> "", other |-> l] : k \in DOMAIN Own, l \in DOMAIN Own} 
(* deferred checks: those of strict mode have been asked for by whoever performs them, those of a module count in a module *)
Performs == {[q |-> "perform", kind |-> k, inner |-> "", check |-> c, module |-> m, fails |-> c = "strict" \/ m] :
                k \in {"StrictWith", "IllegalStrictBinding", "ContextualKeyword"}, c \in {"strict", "module"}, m \in BOOLEAN}
Reading == {[q |-> "reading", kind |-> "InvalidTypeTag", arg |-> a, says |-> <<"type", a>>] : a \in {"X", "identifier", ""}}
           \cup {[q |-> "reading", kind |-> "UnexpectedInitializer", arg |-> "", says |-> <<"initializer">>], [q |-> "reading", kind |-> "InvalidLHS", arg |-> "x", says |-> <<"left", "assignment">>]}
           \cup {[q |-> "reading", kind |-> "UninitializedPattern", arg |-> a, says |-> <<"pattern", a>>] : a \in {"array", "object", "constant"}}
           \cup {[q |-> "reading", kind |-> "Json", arg |-> a, says |-> <<a>>] : a \in {"type", "body"}}
           \cup {[q |-> "mismatch", kind |-> "NodeTypeMismatch", arg |-> a, says |-> <<"expected", a>>] : a \in {"MemberExpression", "BlockStatement", "Literal", "EmptyStatement", "MetaProperty"}}

VARIABLE ask
Init == ask \in Says \/ ask \in Pairs \/ ask \in Performs \/ ask \in Reading
Spec == Init /\ [][FALSE]_ask

(* no two kinds share their words *)
Apart == \A k, l \in DOMAIN Own : Own[k] = Own[l] => k = l
Whole == Cardinality(Kinds) = 22
Checked == Apart /\ Whole /\ PrintT(ToJson(ask))
=============================================================================
