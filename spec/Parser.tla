------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* The parser as a predictive pushdown machine over tokens.                  *)
(*                                                                         *)
(* State: a stack of grammar symbols still to be matched, one token of        *)
(* lookahead (supplied by the environment, so that the next token is chosen    *)
(* only when the parse so far needs one), the syntactic context (strictness,    *)
(* enclosing function, loop, switch and labels) and the tree built so far,      *)
(* written in postfix order as a sequence of events <<name, text, token>>.     *)
(*                                                                         *)
(* Operators are parsed by precedence climbing with the precedence as a         *)
(* parameter of the grammar symbol, the [In] parameter is a parameter of the    *)
(* expression symbols, and the validity of assignment targets is synthesised    *)
(* as an attribute of each operand: the specification follows the ECMAScript    *)
(* grammar, not the structure of the implementation.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

(*************************** tokens ***************************)
Reserved == {"null", "true", "false", "break", "case", "catch", "class", "const", "continue", "debugger", "default",
             "delete", "do", "else", "export", "extends", "finally", "for", "function", "if", "import", "in",
             "instanceof", "new", "return", "super", "switch", "this", "throw", "try", "typeof", "var", "void",
             "while", "with", "enum"}
Puncts == {"{", "}", "(", ")", "[", "]", ".", "...", ";", ",", "<", ">", "<=", ">=", "==", "!=", "===", "!==", "+",
           "-", "*", "%", "/", "++", "--", "<<", ">>", ">>>", "&", "|", "^", "!", "~", "&&", "||", "?", ":", "=",
           "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "=>"}
Numbers == {"0", "1", "2", "3"}
Texts   == {"'s'", "\"t\"", "'use strict'", "\"use strict\"", "'use module'", "'use\\x20strict'", "\"use asm\"", "''"}
Pragma(t) == CASE t \in {"'use strict'", "\"use strict\""} -> "strict"
               [] t = "'use module'" -> "module"
               [] OTHER -> "other"
RegExps == {"/r/", "/=s/g"}
EOF == "EOF"

KindOf(t) == CASE t \in Puncts -> "p" [] t \in Reserved -> "r" [] t \in Numbers -> "n" [] t \in Texts -> "s"
               [] t \in RegExps -> "x" [] t = EOF -> "e" [] OTHER -> "i"

StrictReserved == {"implements", "interface", "let", "package", "private", "protected", "public", "static", "yield"}
ModuleReserved == {"await"}
StrictUnbindable == {"eval", "arguments"}

LogPrec == "||" :> 1 @@ "&&" :> 2
BinPrec == "|" :> 3 @@ "^" :> 4 @@ "&" :> 5
           @@ [t \in {"==", "!=", "===", "!=="} |-> 6]
           @@ [t \in {"<", ">", "<=", ">=", "instanceof", "in"} |-> 7]
           @@ [t \in {"<<", ">>", ">>>"} |-> 8]
           @@ [t \in {"+", "-"} |-> 9]
           @@ [t \in {"*", "/", "%"} |-> 10]
Prec == LogPrec @@ BinPrec
Infix == DOMAIN Prec
AssignOps == {"+=", "-=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "&=", "|=", "^="}
PrefixOps == {"-", "+", "!", "~", "typeof", "void", "delete"}
Words(la) == la.k \in {"i", "r"}

(* A string literal at the start of a body is a directive unless the expression goes on. *)
Continues(la) ==
    CASE la.t \in {"++", "--"} -> ~la.nl
      [] la.t \in {"in", "instanceof"} -> TRUE
      [] la.k # "p" -> FALSE
      [] OTHER -> la.t \notin {";", "}", "{", "]", ")", "!", "~", ":", "=>"}

(*************************** state ***************************)
NoLabels == [x \in {} |-> ""]
Ctx0(strict) == [strict |-> strict, fn |-> FALSE, it |-> FALSE, sw |-> FALSE, labels |-> NoLabels]

(* Entry points: "script", "strict" (a script in strict mode), "module", "program" (kind unknown). *)
Start(entry) ==
    [entry |-> entry,
     stk  |-> << <<"emit", "[", "", 0>>, <<"dirs">>, <<IF entry \in {"module", "program"} THEN "moditems" ELSE "items">>,
                 <<"emit", "]", "", 0>>, <<"end">> >>,
     la   |-> <<>>, n |-> 0, out |-> <<>>, attr |-> <<>>,
     ctx  |-> Ctx0(CASE entry = "script" -> "no" [] entry = "program" -> "unknown" [] OTHER -> "yes"),
     goal |-> CASE entry \in {"script", "strict"} -> "script" [] entry = "module" -> "module" [] OTHER -> "unknown",
     deferred |-> <<>>, res |-> "open", err |-> <<>>]

Top(st) == Head(st.stk)
Rest(st) == Tail(st.stk)
LA(st) == st.la[1]

(* building blocks of steps: what becomes of the top symbol, of the lookahead, of the tree *)
To(st, syms)  == [st EXCEPT !.stk = syms \o Tail(@)]
Eat(st, syms) == [st EXCEPT !.stk = syms \o Tail(@), !.la = <<>>]
Out(st, name, text, i) == [st EXCEPT !.out = Append(@, <<name, text, i>>)]
Attr(st, a) == [st EXCEPT !.attr = Append(@, a)]
Leaf(st, name, text, i, a) == [st EXCEPT !.out = Append(@, <<name, text, i>>), !.attr = Append(@, a)]
(* replace the last k operands by one *)
Reduce(st, k, a, name, text, i) ==
    [st EXCEPT !.attr = Append(SubSeq(@, 1, Len(@) - k), a), !.out = Append(@, <<name, text, i>>)]
LastAttr(st) == st.attr[Len(st.attr)]
Fail(st, kind, text, i) == [st EXCEPT !.res = "error", !.err = <<kind, text, i>>]
Unexpected(st) == Fail(st, "UnexpectedToken", LA(st).t, LA(st).i)

(* early errors that only apply to strict or module code, or are put off while that is unknown *)
StrictOnly(st, kind, text, i) ==
    CASE st.ctx.strict = "no"  -> st
      [] st.ctx.strict = "yes" -> Fail(st, kind, text, i)
      [] OTHER -> [st EXCEPT !.deferred = Append(@, <<"strict", kind, text, i>>)]
ModuleOnly(st, kind, text, i) ==
    CASE st.ctx.strict = "no" -> st
      [] st.goal = "module"   -> Fail(st, kind, text, i)
      [] st.goal = "unknown"  -> [st EXCEPT !.deferred = Append(@, <<"module", kind, text, i>>)]
      [] OTHER -> st
CheckName(st, binding, text, i) ==
    CASE binding /\ text \in StrictUnbindable -> StrictOnly(st, "IllegalStrictBinding", text, i)
      [] text \in StrictReserved -> StrictOnly(st, "ContextualKeyword", text, i)
      [] text \in ModuleReserved -> ModuleOnly(st, "ContextualKeyword", text, i)
      [] OTHER -> st

(* a token of lookahead is needed by every symbol except these *)
Actions == {"emit", "reduce", "prefix", "pragma", "restore", "body", "unlabel", "return", "loop", "endexpr", "spread"}
(* these read the next token where an operator may stand, all others where an operand may stand *)
OperatorSyms == {"suffix", "newtail", "postfix", "bin", "cond", "asg", "comma", "stmtid", "labelid", "dirtail"}

X(in) == << <<"suffix">>, <<"postfix">>, <<"bin", in, 1>>, <<"cond", in>>, <<"asg", in>> >>
ParenExpr == << <<"expect", "(">>, <<"expr", TRUE>>, <<"endexpr">>, <<"expect", ")">> >>
Emit(name, text) == <<"emit", name, text, 0>>
(* a loop body: inside the loop, then as before *)
LoopBody(st) == << <<"loop">>, <<"stmt", FALSE>>, <<"restore", st.ctx>> >>
Block == << <<"expect", "{">>, Emit("[", ""), <<"items">>, Emit("]", ""), <<"expect", "}">>, Emit("block", "") >>

(*************************** expressions ***************************)
StepExpr(st) ==
  LET y == Top(st)  la == LA(st) IN
  CASE y[1] = "expr" -> To(st, << <<"assign", y[2]>>, <<"comma", y[2], 1>> >>)

    [] y[1] = "comma" ->
         IF la.t = "," THEN Eat(st, << <<"assign", y[2]>>, <<"comma", y[2], y[3] + 1>> >>)
         ELSE IF y[3] = 1 THEN To(st, <<>>)
         ELSE Reduce(To(st, <<>>), y[3], "other", "seq", ToString(y[3]), 0)

    [] y[1] = "assign" -> To(st, << <<"unary">>, <<"bin", y[2], 1>>, <<"cond", y[2]>>, <<"asg", y[2]>> >>)

    [] y[1] = "unary" ->
         IF la.t \in PrefixOps \cup {"++", "--"}
         THEN Eat(st, << <<"unary">>, <<"prefix", la.t, la.i>> >>)
         ELSE IF la.t = "new" THEN Eat(st, << <<"new", 1>>, <<"postfix">> >>)
         ELSE To(st, << <<"primary">>, <<"suffix">>, <<"postfix">> >>)

    [] y[1] = "bin" ->
         IF la.t \in Infix /\ (la.t # "in" \/ y[2]) /\ Prec[la.t] >= y[3]
         THEN Eat(st, << <<"unary">>, <<"bin", y[2], Prec[la.t] + 1>>,
                         <<"reduce", 2, "other", IF la.t \in DOMAIN LogPrec THEN "logical" ELSE "binary", la.t, la.i>>, y >>)
         ELSE To(st, <<>>)

    [] y[1] = "cond" ->
         IF la.t = "?"
         THEN Eat(st, << <<"assign", TRUE>>, <<"expect", ":">>, <<"assign", y[2]>>, <<"reduce", 3, "other", "conditional", "", 0>> >>)
         ELSE To(st, <<>>)

    [] y[1] = "asg" ->
         IF la.t = "=" THEN
            IF LastAttr(st) \in {"target", "pattern"}
            THEN Eat(st, << <<"assign", y[2]>>, <<"reduce", 2, "other", "assign", "=", 0>> >>)
            ELSE Fail(st, "InvalidLHS", "=", 0)
         ELSE IF la.t \in AssignOps THEN
            IF LastAttr(st) = "target"
            THEN Eat(st, << <<"assign", y[2]>>, <<"reduce", 2, "other", "assign", la.t, la.i>> >>)
            ELSE Fail(st, "InvalidLHS", la.t, 0)
         ELSE To(st, <<>>)

    [] y[1] = "postfix" ->
         IF la.t \in {"++", "--"} /\ ~la.nl THEN
            IF LastAttr(st) = "target"
            THEN Reduce(Eat(st, <<>>), 1, "other", "postfix", la.t, la.i)
            ELSE Fail(st, "InvalidLHS", la.t, 0)
         ELSE To(st, <<>>)

    [] y[1] = "suffix" ->
         CASE la.t = "." -> Eat(st, << <<"dotname">>, y >>)
           [] la.t = "[" -> Eat(st, << <<"expr", TRUE>>, <<"expect", "]">>, <<"reduce", 2, "target", "index", "", 0>>, y >>)
           [] la.t = "(" -> Out(Eat(st, << <<"args">>, <<"reduce", 1, "other", "call", "", 0>>, y >>), "[", "", 0)
           [] OTHER -> To(st, <<>>)

    [] y[1] = "dotname" ->
         IF Words(la) THEN Reduce(Eat(st, <<>>), 1, "target", "member", la.t, la.i) ELSE Unexpected(st)

    [] y[1] = "args" ->           \* after "("
         IF la.t = ")" THEN Out(Eat(st, <<>>), "]", "", 0) ELSE To(st, << <<"arg">>, <<"argsep">> >>)
    [] y[1] = "arg" ->
         IF la.t = "..." THEN Eat(st, << <<"assign", TRUE>>, Emit("spread", ""), <<"endexpr">> >>)
         ELSE To(st, << <<"assign", TRUE>>, <<"endexpr">> >>)
    [] y[1] = "argsep" ->
         CASE la.t = "," -> Eat(st, << <<"arg">>, <<"argsep">> >>)
           [] la.t = ")" -> Out(Eat(st, <<>>), "]", "", 0)
           [] OTHER -> Unexpected(st)

    (* n times "new" was read *)
    [] y[1] = "new" ->
         CASE la.t = "new" -> Eat(st, << <<"new", y[2] + 1>> >>)
           [] la.t = "."   -> Eat(st, << <<"target", y[2]>> >>)
           [] OTHER -> To(st, << <<"primary">>, <<"newtail", y[2]>> >>)
    [] y[1] = "target" ->
         IF la.t = "target"
         THEN Leaf(Eat(st, IF y[2] > 1 THEN << <<"newtail", y[2] - 1>> >> ELSE << <<"suffix">> >>), "new.target", "", 0, "other")
         ELSE Unexpected(st)
    (* a member expression, n times "new" still without arguments *)
    [] y[1] = "newtail" ->
         CASE la.t = "." -> Eat(st, << <<"dotname">>, y >>)
           [] la.t = "[" -> Eat(st, << <<"expr", TRUE>>, <<"expect", "]">>, <<"reduce", 2, "target", "index", "", 0>>, y >>)
           [] la.t = "(" -> Out(Eat(st, << <<"args">>, <<"reduce", 1, "other", "new", "", 0>>,
                                           IF y[2] > 1 THEN <<"newtail", y[2] - 1>> ELSE <<"suffix">> >>), "[", "", 0)
           [] OTHER -> [To(st, <<>>) EXCEPT !.attr[Len(st.attr)] = "other",
                                            !.out = @ \o [i \in 1..3 * y[2] |-> <<IF i % 3 = 1 THEN "[" ELSE IF i % 3 = 2 THEN "]" ELSE "new", "", 0>>]]

    [] y[1] = "primary" ->
         CASE la.k = "i" ->
                LET s2 == CheckName(st, FALSE, la.t, la.i) IN
                IF s2.res = "error" THEN s2 ELSE Leaf(Eat(s2, <<>>), "id", la.t, la.i, "target")
           [] la.k = "n" -> Leaf(Eat(st, <<>>), "number", la.t, la.i, "other")
           [] la.k = "s" -> Leaf(Eat(st, <<>>), "string", la.t, la.i, "other")
           [] la.k = "x" -> Leaf(Eat(st, <<>>), "regexp", la.t, la.i, "other")
           [] la.t \in {"null", "this", "true", "false"} -> Leaf(Eat(st, <<>>), la.t, "", la.i, "other")
           [] la.t = "(" -> Eat(st, << <<"expr", TRUE>>, <<"expect", ")">> >>)
           [] la.t = "[" -> Leaf(Eat(st, << <<"elements">> >>), "[", "", 0, "pattern")
           [] la.t = "{" -> Leaf(Eat(st, << <<"props">> >>), "[", "", 0, "pattern")
           [] la.t = "function" -> Attr(Eat(st, << <<"star", "expression">> >>), "other")
           [] OTHER -> Unexpected(st)

    (* the last attribute says whether the literal so far could be a pattern *)
    [] y[1] = "elements" ->
         CASE la.t = "]" -> Out(Out(Eat([st EXCEPT !.attr[Len(st.attr)] = IF @ = "rest" THEN "pattern" ELSE @], <<>>), "]", "", 0), "array", "", 0)
           [] la.t = "," -> Out(Eat([st EXCEPT !.attr[Len(st.attr)] = IF @ = "pattern" THEN @ ELSE "other"], << y >>), "hole", "", 0)
           [] la.t = "..." -> Eat(st, << <<"assign", TRUE>>, Emit("spread", ""), <<"spread">>, <<"elementsep">> >>)
           [] OTHER -> To(st, << <<"assign", TRUE>>, <<"element">>, <<"elementsep">> >>)
    [] y[1] = "elementsep" ->
         CASE la.t = "," -> Eat(st, << <<"elements">> >>)
           [] la.t = "]" -> Out(Out(Eat([st EXCEPT !.attr[Len(st.attr)] = IF @ = "rest" THEN "pattern" ELSE @], <<>>), "]", "", 0), "array", "", 0)
           [] OTHER -> Unexpected(st)

    (* object literals *)
    [] y[1] = "props" ->
         CASE la.t = "}" -> Out(Out(Eat(st, <<>>), "]", "", 0), "object", "", 0)
           [] la.t = "get" -> Eat(st, << <<"accessor", "get", la.i>>, <<"propsep">> >>)
           [] la.t = "set" -> Eat(st, << <<"accessor", "set", la.i>>, <<"propsep">> >>)
           [] la.t = "*" -> Eat(st, << <<"key">>, <<"params">>, <<"body">>, Emit("fun", "generator"), <<"notpattern">>, Emit("method", ""), <<"propsep">> >>)
           [] la.k = "i" -> Eat(st, << <<"prop", "id", la.t, la.i>>, <<"propsep">> >>)
           [] la.k = "r" -> Eat(st, << <<"prop", "reserved", la.t, la.i>>, <<"propsep">> >>)
           [] la.k = "s" -> Eat(Out(st, "key-string", la.t, la.i), << <<"prop", "string", la.t, la.i>>, <<"propsep">> >>)
           [] la.k = "n" -> Eat(Out(st, "key-number", la.t, la.i), << <<"prop", "number", la.t, la.i>>, <<"propsep">> >>)
           [] OTHER -> Unexpected(st)
    [] y[1] = "propsep" ->
         CASE la.t = "," -> Eat(st, << <<"props">> >>)
           [] la.t = "}" -> Out(Out(Eat(st, <<>>), "]", "", 0), "object", "", 0)
           [] OTHER -> Unexpected(st)
    [] y[1] = "key" ->
         CASE Words(la) -> Out(Eat(st, <<>>), "key-name", la.t, la.i)
           [] la.k = "s" -> Out(Eat(st, <<>>), "key-string", la.t, la.i)
           [] la.k = "n" -> Out(Eat(st, <<>>), "key-number", la.t, la.i)
           [] OTHER -> Unexpected(st)
    [] y[1] = "accessor" ->
         IF Words(la) \/ la.k \in {"s", "n"} THEN
            To(st, << <<"key">>, <<"expect", "(">> >>
                   \o (IF y[2] = "set" THEN << <<"bind">> >> ELSE <<>>)
                   \o << <<"expect", ")">>, <<"body">>, <<"notpattern">>, Emit(IF y[2] = "get" THEN "getter" ELSE "setter", "") >>)
         ELSE To(st, << <<"prop", "id", y[2], y[3]>> >>)
    (* after a key; the event of an identifier key waits until it is known not to be a shorthand *)
    [] y[1] = "prop" ->
         LET s2 == IF y[2] \in {"id", "reserved"} THEN Out(st, "key-name", y[3], y[4]) ELSE st IN
         CASE la.t = ":" -> Eat(s2, << <<"assign", TRUE>>, <<"propval">>, Emit("init", "") >>)
           [] la.t = "(" -> To(s2, << <<"params">>, <<"body">>, Emit("fun", ""), <<"notpattern">>, Emit("method", "") >>)
           [] la.t \in {",", "}"} /\ y[2] = "id" ->
                LET s3 == CheckName(st, FALSE, y[3], y[4]) IN
                IF s3.res = "error" THEN s3 ELSE Out(Out(To(s3, <<>>), "id", y[3], y[4]), "shorthand", "", 0)
           [] la.t \in {",", "}"} /\ y[2] = "reserved" -> Fail(st, "UnexpectedToken", y[3], y[4])
           [] OTHER -> Unexpected(st)

    [] y[1] = "expect" -> IF la.t = y[2] THEN Eat(st, <<>>) ELSE Unexpected(st)

    (* functions, after "function" *)
    [] y[1] = "star" ->
         LET kind == IF la.t = "*" THEN "generator" ELSE ""
             syms == << <<IF y[2] = "declaration" THEN "name" ELSE "optname">>, <<"params">>, <<"body">>, Emit("fun", kind),
                        Emit(IF y[2] = "declaration" THEN "declaration" ELSE "funexpr", "") >> IN
         IF la.t = "*" THEN Eat(st, syms) ELSE To(st, syms)
    [] y[1] \in {"name", "optname"} ->
         IF la.k = "i" THEN LET s2 == CheckName(st, TRUE, la.t, la.i) IN
              IF s2.res = "error" THEN s2 ELSE Out(Eat(s2, <<>>), "id", la.t, la.i)
         ELSE IF y[1] = "optname" THEN Out(To(st, <<>>), "none", "", 0)
         ELSE Unexpected(st)
    [] y[1] = "params" -> IF la.t = "(" THEN Out(Eat(st, << <<"param">> >>), "[", "", 0) ELSE Unexpected(st)
    [] y[1] = "param" ->
         CASE la.t = ")"   -> Out(Out(Eat(st, <<>>), "]", "", 0), "none", "", 0)
           [] la.t = "..." -> Out(Eat(st, << <<"bind">>, Emit("rest", ""), <<"expect", ")">> >>), "]", "", 0)
           [] OTHER -> To(st, << <<"bind">>, <<"paramsep">> >>)
    [] y[1] = "paramsep" ->
         CASE la.t = "," -> Eat(st, << <<"param">> >>)
           [] la.t = ")" -> Out(Out(Eat(st, <<>>), "]", "", 0), "none", "", 0)
           [] OTHER -> Unexpected(st)
    [] y[1] = "bind" ->
         CASE la.k = "i" -> LET s2 == CheckName(st, TRUE, la.t, la.i) IN
                            IF s2.res = "error" THEN s2 ELSE Out(Eat(s2, <<>>), "id", la.t, la.i)
           [] la.t \in {"[", "{"} -> Fail(st, "UnsupportedFeature", "destructuring", 0)
           [] OTHER -> Unexpected(st)

(*************************** statements ***************************)
(* a declarator list: y = <<"dtors", in, const>> at the start of a declarator *)
Declarators(kind) == << Emit("[", ""), <<"dtor", kind>>, <<"dtorsep", kind>>, Emit("]", "") >>

ForBody(st) == LoopBody(st)
(* after the head of a C-style for and its first ";" *)
ForRest(st) == << <<"fortest">>, <<"forupdate">> >> \o ForBody(st) \o << Emit("for", "") >>
ForInRest(st, head) == << Emit(head, ""), <<"expr", TRUE>>, <<"endexpr">>, <<"expect", ")">> >> \o ForBody(st) \o << Emit("forin", "") >>
ForOfRest(st, head) == << Emit(head, ""), <<"assign", TRUE>>, <<"endexpr">>, <<"expect", ")">> >> \o ForBody(st) \o << Emit("forof", "") >>

EnterLabels(st, ls, kind, next) ==
    LET F[k \in 0..Len(ls)] ==       \* the state after the first k labels
          IF k = 0 THEN st
          ELSE LET p == F[k-1] IN
               IF p.res = "error" THEN p
               ELSE IF ls[k][1] \in DOMAIN p.ctx.labels THEN Fail(p, "InvalidLabel", ls[k][1], ls[k][2])
               ELSE [p EXCEPT !.ctx.labels = (ls[k][1] :> kind) @@ @]
        e == F[Len(ls)] IN
    IF e.res = "error" THEN e
    ELSE To(e, next \o << <<"unlabel", {ls[k][1] : k \in 1..Len(ls)}>> >> \o [k \in 1..Len(ls) |-> Emit("label", "")])

StepStmt(st) ==
  LET y == Top(st)  la == LA(st) IN
  CASE y[1] = "dirs" ->
         IF la.k = "s" THEN Eat(st, << <<"dirtail", la.t, la.i>> >>)
         ELSE Out(Out(To(st, <<>>), "]", "", 0), "[", "", 0)
    [] y[1] = "dirtail" ->
         IF Continues(la)
         THEN Leaf(Out(Out(To(st, X(TRUE) \o << <<"comma", TRUE, 1>>, <<"endexpr">>, <<"semi", TRUE>>, Emit("expression", "") >>),
                           "]", "", 0), "[", "", 0), "string", y[2], y[3], "other")
         ELSE Out(To(st, << <<"semi", TRUE>>, <<"pragma", y[2]>>, <<"dirs">> >>), "directive", y[2], 0)

    [] y[1] = "items" -> IF la.t \in {"case", "default", "}", EOF} THEN To(st, <<>>) ELSE To(st, << <<"stmt", TRUE>>, y >>)
    [] y[1] = "moditems" ->
         CASE la.t = EOF -> To(st, <<>>)
           [] la.t \in {"import", "export"} ->
                (* it is a module after all: what was put off now counts *)
                IF st.deferred # <<>> THEN LET d == st.deferred[1] IN Fail(st, d[2], d[3], d[4])
                ELSE Fail(st, "UnsupportedFeature", la.t, 0)
           [] OTHER -> To(st, << <<"stmt", TRUE>>, y >>)
    [] y[1] = "end" -> IF la.t = EOF THEN [To(st, <<>>) EXCEPT !.la = <<>>, !.res = "accept"] ELSE Unexpected(st)

    [] y[1] = "semi" ->           \* y[2]: a newline is required to leave it out
         CASE la.t = ";" -> Out(Eat(st, <<>>), "semicolon", "explicit", la.i)
           [] la.t \in {"}", EOF} -> Out(To(st, <<>>), "semicolon", "inserted", 0)
           [] la.nl \/ ~y[2] -> Out(To(st, <<>>), "semicolon", "inserted", 0)
           [] OTHER -> Fail(st, "FailedASI", la.t, la.i)

    [] y[1] = "stmt" ->
         CASE la.t = "function" -> IF y[2] THEN Eat(st, << <<"star", "declaration">> >>) ELSE Unexpected(st)
           [] la.t = "const" -> IF y[2] THEN Eat(st, Declarators("const") \o << <<"semi", TRUE>>, Emit("const", "") >>) ELSE Unexpected(st)
           [] la.t = "{" -> To(st, Block)
           [] la.t = "var" -> Eat(st, Declarators("plain") \o << <<"semi", TRUE>>, Emit("var", "") >>)
           [] la.t = ";" -> Out(Eat(st, <<>>), "empty", "", 0)
           [] la.t = "if" -> Eat(st, ParenExpr \o << <<"stmt", FALSE>>, <<"else">>, Emit("if", "") >>)
           [] la.t = "while" -> Eat(st, ParenExpr \o LoopBody(st) \o << Emit("while", "") >>)
           [] la.t = "do" -> Eat(st, LoopBody(st) \o << <<"expect", "while">> >> \o ParenExpr \o << <<"semi", FALSE>>, Emit("dowhile", "") >>)
           [] la.t = "for" -> Eat(st, << <<"expect", "(">>, <<"forhead">> >>)
           [] la.t = "continue" -> Eat(st, << <<"jump", "continue", la.i>>, <<"semi", TRUE>>, Emit("continue", "") >>)
           [] la.t = "break" -> Eat(st, << <<"jump", "break", la.i>>, <<"semi", TRUE>>, Emit("break", "") >>)
           [] la.t = "return" -> Eat(st, << <<"result", la.i>>, <<"semi", TRUE>>, <<"return">> >>)
           [] la.t = "throw" -> Eat(st, << <<"thrown", la.i>>, <<"semi", TRUE>>, Emit("throw", "") >>)
           [] la.t = "with" ->
                LET s2 == StrictOnly(st, "StrictWith", "with", la.i) IN
                IF s2.res = "error" THEN s2 ELSE Eat(s2, ParenExpr \o << <<"stmt", FALSE>>, Emit("with", "") >>)
           [] la.t = "switch" -> Eat(st, ParenExpr \o << <<"cases">>, <<"restore", st.ctx>>, Emit("switch", "") >>)
           [] la.t = "try" -> Eat(st, Block \o << <<"handlers">>, Emit("try", "") >>)
           [] la.t = "debugger" -> Eat(st, << <<"semi", TRUE>>, Emit("debugger", "") >>)
           [] la.k = "i" -> Eat(st, << <<"stmtid", la.t, la.i, y[2]>> >>)
           [] OTHER -> To(st, << <<"expr", TRUE>>, <<"endexpr">>, <<"semi", TRUE>>, Emit("expression", "") >>)

    (* an identifier started the statement *)
    [] y[1] = "stmtid" ->
         CASE la.t = ":" ->
                LET s2 == CheckName(st, FALSE, y[2], y[3]) IN
                IF s2.res = "error" THEN s2 ELSE Out(Eat(s2, << <<"labels", << <<y[2], y[3]>> >> >> >>), "id", y[2], y[3])
           [] y[2] = "let" /\ (la.k = "i" \/ la.t \in {"{", "["}) ->
                IF y[4] THEN To(st, Declarators("plain") \o << <<"semi", TRUE>>, Emit("let", "") >>) ELSE Unexpected(st)
           [] OTHER ->
                LET s2 == CheckName(st, FALSE, y[2], y[3]) IN
                IF s2.res = "error" THEN s2
                ELSE Leaf(To(s2, X(TRUE) \o << <<"comma", TRUE, 1>>, <<"endexpr">>, <<"semi", TRUE>>, Emit("expression", "") >>),
                          "id", y[2], y[3], "target")
    [] y[1] = "labels" ->
         IF la.k = "i" THEN Eat(st, << <<"labelid", y[2], la.t, la.i>> >>)
         ELSE EnterLabels(st, y[2], IF la.t \in {"do", "while", "for"} THEN "loop" ELSE "statement", << <<"stmt", FALSE>> >>)
    [] y[1] = "labelid" ->
         IF la.t = ":" THEN
            LET s2 == CheckName(st, FALSE, y[3], y[4]) IN
            IF s2.res = "error" THEN s2 ELSE Out(Eat(s2, << <<"labels", Append(y[2], <<y[3], y[4]>>)>> >>), "id", y[3], y[4])
         ELSE EnterLabels(st, y[2], "statement", << <<"stmtid", y[3], y[4], FALSE>> >>)

    (* declarators *)
    [] y[1] = "dtor" -> To(st, << <<"bind">>, <<"init", y[2], TRUE>> >>)
    [] y[1] = "init" ->            \* y[3]: the [In] parameter
         CASE la.t = "=" -> Eat(st, << <<"assign", y[3]>>, <<"endexpr">>, Emit(IF y[2] = "const" THEN "cdtor" ELSE "dtor", "") >>)
           [] y[2] = "const" -> Unexpected(st)
           [] OTHER -> Out(Out(To(st, <<>>), "none", "", 0), "dtor", "", 0)
    [] y[1] = "dtorsep" -> IF la.t = "," THEN Eat(st, << <<"dtor", y[2]>>, y >>) ELSE To(st, <<>>)

    [] y[1] = "else" -> IF la.t = "else" THEN Eat(st, << <<"stmt", FALSE>> >>) ELSE Out(To(st, <<>>), "none", "", 0)

    (* for heads *)
    [] y[1] = "forhead" ->
         CASE la.t = "var" -> Eat(st, << <<"bind">>, <<"forbound", "var">> >>)
           [] la.t = "let" -> Eat(st, << <<"forlet", la.i>> >>)
           [] la.t = "const" -> Eat(st, << <<"forconst">> >>)
           [] la.t = ";" -> Out(Eat(st, ForRest(st)), "none", "", 0)
           [] OTHER -> To(st, << <<"expr", FALSE>>, <<"forexpr">> >>)
    [] y[1] = "forlet" ->
         IF la.k = "i" \/ la.t \in {"{", "["} THEN To(st, << <<"bind">>, <<"forbound", "let">> >>)
         ELSE LET s2 == CheckName(st, FALSE, "let", y[2]) IN
              IF s2.res = "error" THEN s2
              ELSE Leaf(To(s2, X(FALSE) \o << <<"comma", FALSE, 1>>, <<"forexpr">> >>), "id", "let", y[2], "target")
    [] y[1] = "forconst" ->
         IF la.k = "i" \/ la.t \in {"{", "["} THEN To(st, << <<"bind">>, <<"forbound", "const">> >>)
         ELSE Unexpected(st)
    [] y[1] = "forbound" ->        \* one name was bound
         CASE la.t = "=" -> Eat(st, << <<"assign", FALSE>>, <<"endexpr">>, <<"forinit", y[2]>> >>)
           [] la.t \in {",", ";"} /\ y[2] # "const" ->
                To(Out(Out(st, "none", "", 0), "dtor", "", 0), << <<"fordtors", y[2], 1>> >>)
           [] la.t = "in" -> Eat(st, ForInRest(st, "in-" \o y[2]))
           [] la.t = "of" -> Eat(st, ForOfRest(st, "of-" \o y[2]))
           [] OTHER -> Unexpected(st)
    [] y[1] = "forinit" ->         \* one name was bound and initialised
         CASE la.t = "in" /\ y[2] = "var" -> Eat(st, ForInRest(st, "in-var-init"))
           [] la.t \in {",", ";"} ->
                To(Out(st, IF y[2] = "const" THEN "cdtor" ELSE "dtor", "", 0), << <<"fordtors", y[2], 1>> >>)
           [] OTHER -> Unexpected(st)
    [] y[1] = "fordtors" ->
         CASE la.t = "," -> Eat(st, << <<"bind">>, <<"init", IF y[2] = "const" THEN "const" ELSE "plain", FALSE>>, <<"fordtors", y[2], y[3] + 1>> >>)
           [] la.t = ";" -> Out(Eat(st, ForRest(st)), "for-" \o y[2], ToString(y[3]), 0)
           [] OTHER -> Unexpected(st)
    [] y[1] = "forexpr" ->         \* an expression was read
         CASE la.t = ";" -> Out(Eat(st, << <<"endexpr">> >> \o ForRest(st)), "for-expr", "", 0)
           [] la.t \in {"in", "of"} ->
                IF LastAttr(st) \in {"target", "pattern"}
                THEN Eat(st, << <<"endexpr">> >> \o IF la.t = "in" THEN ForInRest(st, "in-expr") ELSE ForOfRest(st, "of-expr"))
                ELSE Fail(st, "InvalidLHS", la.t, 0)
           [] OTHER -> Unexpected(st)
    [] y[1] = "fortest" ->
         IF la.t = ";" THEN Out(Eat(st, <<>>), "none", "", 0)
         ELSE To(st, << <<"expr", TRUE>>, <<"endexpr">>, <<"expect", ";">> >>)
    [] y[1] = "forupdate" ->
         IF la.t = ")" THEN Out(Eat(st, <<>>), "none", "", 0)
         ELSE To(st, << <<"expr", TRUE>>, <<"endexpr">>, <<"expect", ")">> >>)

    (* jumps *)
    [] y[1] = "jump" ->
         IF la.nl \/ la.t \in {";", "}", EOF} THEN
            IF st.ctx.it \/ (y[2] = "break" /\ st.ctx.sw) THEN Out(To(st, <<>>), "none", "", 0)
            ELSE Fail(st, IF y[2] = "break" THEN "IllegalBreak" ELSE "IllegalContinue", y[2], y[3])
         ELSE IF la.k # "i" THEN Unexpected(st)
         ELSE LET s2 == CheckName(st, FALSE, la.t, la.i) IN
              IF s2.res = "error" THEN s2
              ELSE IF la.t \notin DOMAIN st.ctx.labels THEN Fail(st, "InvalidLabel", la.t, la.i)
              ELSE IF y[2] = "continue" /\ st.ctx.labels[la.t] # "loop" THEN Fail(st, "InvalidLabelType", la.t, la.i)
              ELSE Out(Eat(s2, <<>>), "id", la.t, la.i)
    [] y[1] = "result" ->
         IF la.nl \/ la.t \in {";", "}", EOF} THEN Out(To(st, <<>>), "none", "", 0)
         ELSE To(st, << <<"expr", TRUE>>, <<"endexpr">> >>)
    [] y[1] = "thrown" ->
         IF la.nl \/ la.t \in {";", "}", EOF} THEN Fail(st, "ThrowArgument", "throw", y[2])
         ELSE To(st, << <<"expr", TRUE>>, <<"endexpr">> >>)

    (* switch *)
    [] y[1] = "cases" -> IF la.t = "{" THEN Out([Eat(st, << <<"case", FALSE>> >>) EXCEPT !.ctx.sw = TRUE], "[", "", 0) ELSE Unexpected(st)
    [] y[1] = "case" ->            \* y[2]: a default was seen
         CASE la.t = "case" -> Eat(st, << <<"expr", TRUE>>, <<"endexpr">>, <<"expect", ":">>, Emit("[", ""), <<"items">>, Emit("]", ""),
                                         Emit("case", ""), y >>)
           [] la.t = "default" ->
                IF y[2] THEN Fail(st, "DuplicateDefault", "default", la.i)
                ELSE Eat(st, << <<"expect", ":">>, Emit("none", ""), Emit("[", ""), <<"items">>, Emit("]", ""), Emit("case", ""), <<"case", TRUE>> >>)
           [] la.t = "}" -> Out(Eat(st, <<>>), "]", "", 0)
           [] OTHER -> Unexpected(st)

    (* try *)
    [] y[1] = "handlers" ->
         CASE la.t = "catch" -> Eat(st, << <<"expect", "(">>, <<"bind">>, <<"expect", ")">> >> \o Block \o << Emit("catch", ""), <<"finally">> >>)
           [] la.t = "finally" -> To(Out(st, "none", "", 0), << <<"finally">> >>)
           [] OTHER -> Fail(st, "OrphanTry", la.t, la.i)
    [] y[1] = "finally" -> IF la.t = "finally" THEN Eat(st, Block) ELSE Out(To(st, <<>>), "none", "", 0)

(*************************** actions ***************************)
PopAttr(st) == [st EXCEPT !.attr = SubSeq(@, 1, Len(@) - 1)]

StepAction(st) ==
  LET y == Top(st) IN
  CASE y[1] = "emit"   -> Out(To(st, <<>>), y[2], y[3], y[4])
    [] y[1] = "reduce" -> Reduce(To(st, <<>>), y[2], y[3], y[4], y[5], y[6])
    [] y[1] = "endexpr" -> PopAttr(To(st, <<>>))
    [] y[1] = "prefix" ->
         IF y[2] \in {"++", "--"} /\ LastAttr(st) # "target" THEN Fail(st, "InvalidLHS", y[2], 0)
         ELSE Reduce(To(st, <<>>), 1, "other", "prefix", y[2], y[3])
    [] y[1] = "spread" ->          \* a spread element may become a rest element if it is the last one
         LET a == LastAttr(st)  s2 == PopAttr(To(st, <<>>)) IN
         [s2 EXCEPT !.attr[Len(s2.attr)] = IF @ = "pattern" /\ a \in {"target", "pattern"} THEN "rest" ELSE "other"]
    [] y[1] = "pragma" ->
         CASE Pragma(y[2]) = "strict" -> [To(st, <<>>) EXCEPT !.ctx.strict = "yes"]
           [] Pragma(y[2]) = "module" /\ ~st.ctx.fn -> [To(st, <<>>) EXCEPT !.ctx.strict = "yes", !.goal = "module"]
           [] OTHER -> To(st, <<>>)
    [] y[1] = "body" ->
         [To(st, << <<"expect", "{">>, Emit("[", ""), <<"dirs">>, <<"items">>, Emit("]", ""), <<"expect", "}">>, <<"restore", st.ctx>> >>)
            EXCEPT !.ctx = [Ctx0(st.ctx.strict) EXCEPT !.fn = TRUE]]
    [] y[1] = "restore" -> [To(st, <<>>) EXCEPT !.ctx = y[2]]
    [] y[1] = "loop" -> [To(st, <<>>) EXCEPT !.ctx.it = TRUE]
    [] y[1] = "unlabel" -> [To(st, <<>>) EXCEPT !.ctx.labels = [x \in DOMAIN @ \ y[2] |-> @[x]]]
    [] y[1] = "return" -> IF st.ctx.fn THEN Out(To(st, <<>>), "return", "", 0) ELSE Fail(st, "TopLevelReturn", "return", 0)
    (* an element, or a property value, of a literal that may turn out to be a pattern *)
    [] y[1] \in {"element", "propval"} ->
         LET a == LastAttr(st)  s2 == PopAttr(To(st, <<>>)) IN
         [s2 EXCEPT !.attr[Len(s2.attr)] = IF @ = "pattern" /\ a \in {"target", "pattern"} THEN "pattern" ELSE "other"]
    [] y[1] = "notpattern" -> [To(st, <<>>) EXCEPT !.attr[Len(st.attr)] = "other"]

ActionSyms == Actions \cup {"element", "propval", "notpattern"}
ExprSyms == {"expr", "comma", "assign", "unary", "bin", "cond", "asg", "postfix", "suffix", "dotname", "args", "arg", "argsep", "new",
             "target", "newtail", "primary", "elements", "elementsep", "props", "propsep", "key", "accessor", "prop", "expect",
             "star", "name", "optname", "params", "param", "paramsep", "bind"}

(*************************** the machine ***************************)
Open(st) == st.res = "open"
Waiting(st) == st.res = "open" /\ st.la = <<>> /\ Top(st)[1] \notin ActionSyms
Mode(st) == IF Top(st)[1] \in OperatorSyms THEN "operator" ELSE "operand"
(* whether the tokenizer can deliver this token in this mode *)
Deliverable(st, t) == IF Mode(st) = "operator" THEN t \notin RegExps ELSE t \notin {"/", "/="}

Step(st) == LET y == Top(st)[1] IN
            IF y \in ActionSyms THEN StepAction(st) ELSE IF y \in ExprSyms THEN StepExpr(st) ELSE StepStmt(st)

RECURSIVE Run(_)
Run(st) == IF st.res # "open" \/ Waiting(st) THEN st ELSE Run(Step(st))

Feed(st, t, nl) == Run([st EXCEPT !.la = << [t |-> t, nl |-> nl, i |-> st.n + 1, k |-> KindOf(t)] >>, !.n = @ + 1])

Begin(entry) == Run(Start(entry))

(*************************** finishing ***************************)
(* A token that leads a viable prefix towards a complete program: the first token of a shortest   *)
(* expansion of the first symbol that cannot be empty.                                          *)
RECURSIVE Closer(_)
Closer(stk) ==
    LET y == Head(stk) IN
    CASE y[1] \in ActionSyms -> Closer(Tail(stk))
      [] y[1] \in {"comma", "bin", "cond", "asg", "postfix", "suffix", "dirs", "items", "moditems", "dtorsep", "else", "finally",
                   "newtail", "labelid", "stmtid", "dirtail"} ->
            IF y[1] \in {"labelid", "stmtid", "dirtail"} THEN ";" ELSE Closer(Tail(stk))
      [] y[1] = "expect" -> y[2]
      [] y[1] \in {"expr", "assign", "unary", "primary", "new", "arg", "bind", "name", "dotname", "key", "result", "thrown", "forhead"} -> "z"
      [] y[1] = "optname" -> "("
      [] y[1] = "star" -> IF y[2] = "declaration" THEN "z" ELSE "("
      [] y[1] = "target" -> "target"
      [] y[1] \in {"args", "argsep", "param", "paramsep", "forupdate"} -> ")"
      [] y[1] = "params" -> "("
      [] y[1] = "accessor" -> ":"
      [] y[1] \in {"elements", "elementsep"} -> "]"
      [] y[1] \in {"props", "propsep", "case"} -> "}"
      [] y[1] = "prop" -> ":"
      [] y[1] \in {"semi", "stmt", "fortest", "fordtors", "forinit", "forexpr", "jump", "labels"} -> ";"
      [] y[1] = "forbound" -> IF y[2] = "const" THEN "of" ELSE ";"
      [] y[1] = "forlet" -> ";"
      [] y[1] = "forconst" -> "z"
      [] y[1] = "dtor" -> "z"
      [] y[1] = "init" -> IF y[2] = "const" THEN "=" ELSE Closer(Tail(stk))
      [] y[1] = "cases" -> "{"
      [] y[1] = "handlers" -> "finally"
      [] y[1] = "end" -> EOF

=============================================================================
