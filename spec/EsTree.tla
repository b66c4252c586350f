------------------------------- MODULE EsTree -------------------------------
(***************************************************************************)
(* ESTree documents: the JSON form of a syntax tree.                         *)
(*                                                                         *)
(* JSON values are tagged tuples: <<"o", record>>, <<"a", sequence>>,          *)
(* <<"s", text>>, <<"n", numeral>>, <<"b", boolean>>, <<"z">> for null.         *)
(*                                                                         *)
(*  - Describe turns the tree of a program, the sequence of postfix events of    *)
(*    Parser.tla, into its document, as a machine with a stack of documents.      *)
(*  - Read turns a document back into events. Whatever is wrong with a document    *)
(*    becomes a fault event <<"!", kind, detail>> in its place, so that a document  *)
(*    is acceptable exactly if its reading has no fault, and a reader, in whatever  *)
(*    order it looks at the parts, reports one of the faults.                     *)
(***************************************************************************)
EXTENDS Parser, SequencesExt

O(r) == <<"o", r>>
A(s) == <<"a", s>>
S(t) == <<"s", t>>
Num(t) == <<"n", t>>
B(b) == <<"b", b>>
Null == <<"z">>
Node(type, r) == O(("type" :> S(type)) @@ r)
NoFields == [x \in {} |-> Null]

TextValue(t) == CASE t = "'s'" -> "s" [] t = "\"t\"" -> "t" [] t \in {"'use strict'", "\"use strict\"", "'use\\x20strict'"} -> "use strict"
                  [] t = "'use module'" -> "use module" [] t = "\"use asm\"" -> "use asm" [] t = "''" -> ""
Pattern(t) == IF t = "/r/" THEN "r" ELSE "=s"
Flags(t) == IF t = "/r/" THEN "" ELSE "g"

(*************************** describing a tree ***************************)
Ident(name) == Node("Identifier", "name" :> S(name))
Literal(v) == Node("Literal", "value" :> v)
RegExpLit(t) == Node("Literal", "value" :> Null @@ "regex" :> O("pattern" :> S(Pattern(t)) @@ "flags" :> S(Flags(t))))
BodyOf(stmts) == Node("BlockStatement", "body" :> stmts)
FunOf(params, rest, dirs, items, gen) ==
    "params" :> A(params[2] \o IF rest = Null THEN <<>> ELSE <<rest>>)
    @@ "body" :> BodyOf(A(dirs[2] \o items[2]))
    @@ "generator" :> B(gen = "generator")
    @@ "expression" :> B(FALSE)
Property(key, value, kind, method, shorthand) ==
    Node("Property", "key" :> key @@ "value" :> value @@ "kind" :> S(kind) @@ "method" :> B(method) @@ "shorthand" :> B(shorthand)
                     @@ "computed" :> B(FALSE))
VarDecl(kind, dtors) == Node("VariableDeclaration", "declarations" :> dtors @@ "kind" :> S(kind))
Dtor(id, init) == Node("VariableDeclarator", "id" :> id @@ "init" :> init)
Directive(t) == Node("ExpressionStatement", "expression" :> Literal(S(TextValue(t))))
Mark == <<"mark">>

Infixed(type, op, l, r) == Node(type, "operator" :> S(op) @@ "left" :> l @@ "right" :> r)

ForHeads == {"for-var", "for-let", "for-const"}
BoundHeads == {"in-var", "in-let", "in-const", "of-var", "of-let", "of-const"}
KindOfHead(h) == CASE h \in {"for-var", "in-var", "of-var"} -> "var" [] h \in {"for-let", "in-let", "of-let"} -> "let" [] OTHER -> "const"
SmallNumber(t) == CHOOSE n \in 0..40 : ToString(n) = t

(* One event on the stack s. Top(k): the k-th operand from the top, 1 being the last. *)
Operate(s, e) ==
  LET name == e[1]  text == e[2]
      At(k) == s[Len(s) + 1 - k]
      Put(k, d) == Append(SubSeq(s, 1, Len(s) - k), d)
      From == CHOOSE i \in 1..Len(s) : s[i] = Mark /\ \A j \in i+1..Len(s) : s[j] # Mark IN
  CASE name = "[" -> Append(s, Mark)
    [] name = "]" -> LET i == From IN Append(SubSeq(s, 1, i - 1), A(SubSeq(s, i + 1, Len(s))))
    [] name \in {"none", "hole"} -> Append(s, Null)
    [] name \in {"semicolon", "for-expr", "in-expr", "of-expr"} -> s
    [] name = "id" -> Append(s, Ident(text))
    [] name \in {"number", "key-number"} -> Append(s, Literal(Num(text)))
    [] name \in {"string", "key-string"} -> Append(s, Literal(S(TextValue(text))))
    [] name = "regexp" -> Append(s, RegExpLit(text))
    [] name = "null" -> Append(s, Literal(Null))
    [] name = "true" -> Append(s, Literal(B(TRUE)))
    [] name = "false" -> Append(s, Literal(B(FALSE)))
    [] name = "this" -> Append(s, Node("ThisExpression", NoFields))
    [] name = "new.target" -> Append(s, Node("MetaProperty", "meta" :> Ident("new") @@ "property" :> Ident("target")))
    [] name = "key-name" -> Append(s, Ident(text))
    [] name = "spread" -> Put(1, Node("SpreadElement", "argument" :> At(1)))
    [] name = "rest" -> Put(1, Node("RestElement", "argument" :> At(1)))
    [] name = "array" -> Put(1, Node("ArrayExpression", "elements" :> At(1)))
    [] name = "object" -> Put(1, Node("ObjectExpression", "properties" :> At(1)))
    [] name = "seq" -> LET n == SmallNumber(text) IN
                       Put(n, Node("SequenceExpression", "expressions" :> A(SubSeq(s, Len(s) + 1 - n, Len(s)))))
    [] name \in {"prefix", "postfix"} ->
         Put(1, Node(IF text \in {"++", "--"} THEN "UpdateExpression" ELSE "UnaryExpression",
                     "operator" :> S(text) @@ "prefix" :> B(name = "prefix") @@ "argument" :> At(1)))
    [] name = "binary" -> Put(2, Infixed("BinaryExpression", text, At(2), At(1)))
    [] name = "logical" -> Put(2, Infixed("LogicalExpression", text, At(2), At(1)))
    [] name = "assign" -> Put(2, Infixed("AssignmentExpression", text, At(2), At(1)))
    [] name = "conditional" -> Put(3, Node("ConditionalExpression", "test" :> At(3) @@ "consequent" :> At(2) @@ "alternate" :> At(1)))
    [] name = "member" -> Put(1, Node("MemberExpression", "object" :> At(1) @@ "property" :> Ident(text) @@ "computed" :> B(FALSE)))
    [] name = "index" -> Put(2, Node("MemberExpression", "object" :> At(2) @@ "property" :> At(1) @@ "computed" :> B(TRUE)))
    [] name = "call" -> Put(2, Node("CallExpression", "callee" :> At(2) @@ "arguments" :> At(1)))
    [] name = "new" -> Put(2, Node("NewExpression", "callee" :> At(2) @@ "arguments" :> At(1)))
    (* parameters, rest, directives, items *)
    [] name = "fun" -> Put(4, O(FunOf(At(4), At(3), At(2), At(1), text)))
    [] name = "funexpr" -> Put(2, Node("FunctionExpression", ("id" :> At(2)) @@ At(1)[2]))
    [] name = "declaration" -> Put(2, Node("FunctionDeclaration", ("id" :> At(2)) @@ At(1)[2]))
    [] name = "method" -> Put(2, Property(At(2), Node("FunctionExpression", ("id" :> Null) @@ At(1)[2]), "init", TRUE, FALSE))
    [] name = "getter" -> Put(3, Property(At(3), Node("FunctionExpression", ("id" :> Null) @@ FunOf(A(<<>>), Null, At(2), At(1), "")), "get", FALSE, FALSE))
    [] name = "setter" -> Put(4, Property(At(4), Node("FunctionExpression", ("id" :> Null) @@ FunOf(A(<<At(3)>>), Null, At(2), At(1), "")), "set", FALSE, FALSE))
    [] name = "init" -> Put(2, Property(At(2), At(1), "init", FALSE, FALSE))
    [] name = "shorthand" -> Put(1, Property(At(1), At(1), "init", FALSE, TRUE))
    [] name \in {"dtor", "cdtor"} -> Put(2, Dtor(At(2), At(1)))
    [] name \in {"var", "let", "const"} -> Put(1, VarDecl(name, At(1)))
    [] name \in ForHeads -> LET n == SmallNumber(text) IN Put(n, VarDecl(KindOfHead(name), A(SubSeq(s, Len(s) + 1 - n, Len(s)))))
    [] name \in BoundHeads -> Put(1, VarDecl(KindOfHead(name), A(<<Dtor(At(1), Null)>>)))
    [] name = "in-var-init" -> Put(2, VarDecl("var", A(<<Dtor(At(2), At(1))>>)))
    [] name = "for" -> Put(4, Node("ForStatement", "init" :> At(4) @@ "test" :> At(3) @@ "update" :> At(2) @@ "body" :> At(1)))
    [] name = "forin" -> Put(3, Node("ForInStatement", "left" :> At(3) @@ "right" :> At(2) @@ "body" :> At(1) @@ "each" :> B(FALSE)))
    [] name = "forof" -> Put(3, Node("ForOfStatement", "left" :> At(3) @@ "right" :> At(2) @@ "body" :> At(1)))
    [] name = "if" -> Put(3, Node("IfStatement", "test" :> At(3) @@ "consequent" :> At(2) @@ "alternate" :> At(1)))
    [] name = "while" -> Put(2, Node("WhileStatement", "test" :> At(2) @@ "body" :> At(1)))
    [] name = "dowhile" -> Put(2, Node("DoWhileStatement", "body" :> At(2) @@ "test" :> At(1)))
    [] name = "label" -> Put(2, Node("LabeledStatement", "label" :> At(2) @@ "body" :> At(1)))
    [] name = "break" -> Put(1, Node("BreakStatement", "label" :> At(1)))
    [] name = "continue" -> Put(1, Node("ContinueStatement", "label" :> At(1)))
    [] name = "with" -> Put(2, Node("WithStatement", "object" :> At(2) @@ "body" :> At(1)))
    [] name = "switch" -> Put(2, Node("SwitchStatement", "discriminant" :> At(2) @@ "cases" :> At(1)))
    [] name = "case" -> Put(2, Node("SwitchCase", "test" :> At(2) @@ "consequent" :> At(1)))
    [] name = "return" -> Put(1, Node("ReturnStatement", "argument" :> At(1)))
    [] name = "throw" -> Put(1, Node("ThrowStatement", "argument" :> At(1)))
    [] name = "catch" -> Put(2, Node("CatchClause", "param" :> At(2) @@ "body" :> At(1)))
    [] name = "try" -> Put(3, Node("TryStatement", "block" :> At(3) @@ "handler" :> At(2) @@ "finalizer" :> At(1)))
    [] name = "debugger" -> Append(s, Node("DebuggerStatement", NoFields))
    [] name = "empty" -> Append(s, Node("EmptyStatement", NoFields))
    [] name = "block" -> Put(1, BodyOf(At(1)))
    [] name = "expression" -> Put(1, Node("ExpressionStatement", "expression" :> At(1)))
    [] name = "directive" -> Append(s, Directive(text))

Describe(out) ==
  LET F[k \in 0..Len(out)] == IF k = 0 THEN <<>> ELSE Operate(F[k-1], out[k])
      s == F[Len(out)] IN
  Node("Program", "body" :> A(s[1][2] \o s[2][2]) @@ "sourceType" :> S("script"))
(* a program leaves its directives and its items *)
Described(out) == LET F[k \in 0..Len(out)] == IF k = 0 THEN <<>> ELSE Operate(F[k-1], out[k]) IN Len(F[Len(out)]) = 2

(*************************** reading a document ***************************)
Tags == {"Identifier", "Literal", "BinaryExpression", "AssignmentExpression", "LogicalExpression", "UnaryExpression", "UpdateExpression",
         "MemberExpression", "CallExpression", "NewExpression", "ArrayExpression", "FunctionExpression", "SequenceExpression",
         "ObjectExpression", "ConditionalExpression", "ThisExpression", "MetaProperty", "SpreadElement", "RestElement",
         "FunctionDeclaration", "VariableDeclaration", "EmptyStatement", "ExpressionStatement", "IfStatement", "DoWhileStatement",
         "WhileStatement", "ForStatement", "ForInStatement", "ForOfStatement", "BlockStatement", "ReturnStatement", "LabeledStatement",
         "BreakStatement", "ContinueStatement", "SwitchStatement", "WithStatement", "ThrowStatement", "DebuggerStatement", "TryStatement"}

TypeName(v) == CASE v[1] = "o" -> "object" [] v[1] = "a" -> "array" [] v[1] = "s" -> "string" [] v[1] = "n" -> "number"
                 [] v[1] = "b" -> "boolean" [] v[1] = "z" -> "null"
Fault(kind, detail) == << <<"!", kind, detail>> >>
Ev(name, text) == << <<name, text, 0>> >>
Faults(evs) == {evs[i] : i \in {j \in 1..Len(evs) : evs[j][1] = "!"}}
Sound(evs) == \A i \in 1..Len(evs) : evs[i][1] # "!"

Has(v, f) == f \in DOMAIN v[2]
(* the value of a field, which must be there and of the given JSON type *)
Field(v, f, type, Op(_)) == IF ~Has(v, f) THEN Fault("MissingField", f)
                            ELSE IF v[2][f][1] # type THEN Fault("TypeMismatch", TypeName(v[2][f])) ELSE Op(v[2][f])
(* null stands for nothing, but the field must be there *)
OptField(v, f, type, Op(_)) == IF Has(v, f) /\ v[2][f] = Null THEN Ev("none", "") ELSE Field(v, f, type, Op)
Is(v, f, type) == Has(v, f) /\ v[2][f][1] = type
Nothing(x) == <<>>
Elements(list, Op(_)) == FlattenSeq([i \in 1..Len(list[2]) |->
                            IF list[2][i][1] = "o" THEN Op(list[2][i]) ELSE Fault("TypeMismatch", TypeName(list[2][i]))])
Bracketed(evs) == Ev("[", "") \o evs \o Ev("]", "")
Tagged(v, Op(_)) == Field(v, "type", "s", LAMBDA t : IF t[2] \in Tags THEN Op(t[2]) ELSE Fault("InvalidTypeTag", t[2]))
HasTag(v, t) == Is(v, "type", "s") /\ v[2]["type"][2] = t

ReadName(v, name) == Tagged(v, LAMBDA t : IF t # "Identifier" THEN Fault("NodeTypeMismatch", t)
                                          ELSE Field(v, "name", "s", LAMBDA n : Ev(name, n[2])))
ReadId(v) == ReadName(v, "id")
ReadDot(v) == ReadName(v, "member")

(* literals: as an expression, or as a property key *)
ReadLit(v, number, string) ==
    IF ~Has(v, "value") THEN Fault("MissingField", "value")
    ELSE LET x == v[2]["value"] IN
         CASE x[1] = "n" -> Ev(number, x[2])
           [] x[1] = "s" -> Ev(string, x[2])
           [] x[1] = "b" -> Ev(IF x[2] THEN "true" ELSE "false", "")
           [] x[1] = "a" -> Fault("TypeMismatch", "array")
           [] x[1] = "z" /\ ~Has(v, "regex") -> Ev("null", "")
           [] OTHER -> Field(v, "regex", "o", LAMBDA r :
                          Field(r, "pattern", "s", Nothing) \o Field(r, "flags", "s", Nothing)
                          \o IF Is(r, "pattern", "s") /\ Is(r, "flags", "s")
                             THEN Ev("regexp", "/" \o r[2]["pattern"][2] \o "/" \o r[2]["flags"][2]) ELSE <<>>)
ReadKey(v) == Tagged(v, LAMBDA t : IF t = "Identifier" THEN ReadName(v, "key-name")
                                   ELSE LET evs == ReadLit(v, "key-number", "key-string") IN
                                        IF Sound(evs) /\ evs[1][1] \notin {"key-number", "key-string"} THEN Fault("TypeMismatch", "object") ELSE evs)

(* the expressions that may stand as assignment targets and as patterns *)
IsTarget(v) == HasTag(v, "Identifier") \/ HasTag(v, "MemberExpression")
RECURSIVE IsPattern(_)
IsPattern(v) ==
    \/ IsTarget(v)
    \/ /\ HasTag(v, "ArrayExpression")
       /\ LET es == v[2]["elements"][2] IN
          \A i \in 1..Len(es) : \/ es[i] = Null
                                \/ IF HasTag(es[i], "SpreadElement") THEN i = Len(es) /\ IsPattern(es[i][2]["argument"]) ELSE IsPattern(es[i])
    \/ /\ HasTag(v, "ObjectExpression")
       /\ LET ps == v[2]["properties"][2] IN
          \A i \in 1..Len(ps) : LET p == ps[i] IN
             /\ p[2]["kind"] = S("init") /\ p[2]["method"] = B(FALSE)
             /\ p[2]["shorthand"] = B(TRUE) \/ IsPattern(p[2]["value"])

StringOf(v, f) == IF Is(v, f, "s") THEN v[2][f][2] ELSE "?"
(* a string field that must be one of a set *)
OneOf(v, f, set) == Field(v, f, "s", LAMBDA s : IF s[2] \in set THEN <<>> ELSE Fault("IllegalString", s[2]))

RECURSIVE ReadExpr(_), ReadItem(_), ReadStmt(_), ReadFun(_), ReadProp(_), ReadStatement(_, _), ReadDtor(_), ReadConst(_)

ReadListItem(v) == IF HasTag(v, "SpreadElement") THEN Field(v, "argument", "o", ReadExpr) \o Ev("spread", "") ELSE ReadExpr(v)
ReadElement(v) == CASE v[1] = "z" -> Ev("hole", "") [] v[1] = "o" -> ReadListItem(v) [] OTHER -> Fault("TypeMismatch", TypeName(v))
Items(list) == Bracketed(Elements(list, ReadItem))

(* what is left of an assignment: f names the field *)
Left(v, f, Ok(_)) == Field(v, f, "o", LAMBDA e : LET evs == ReadExpr(e) IN
                                                 IF Sound(evs) /\ ~Ok(e) THEN Fault("InvalidLHS", f) ELSE evs)

(* a body: string literal statements at its start are directives *)
IsDirective(v) == /\ v[1] = "o" /\ HasTag(v, "ExpressionStatement") /\ Is(v, "expression", "o")
                  /\ LET e == v[2]["expression"] IN HasTag(e, "Literal") /\ Is(e, "value", "s")
ReadBody(v) ==
    Field(v, "body", "a", LAMBDA list :
       LET ds == CHOOSE n \in 0..Len(list[2]) : /\ \A i \in 1..n : IsDirective(list[2][i])
                                                /\ n = Len(list[2]) \/ ~IsDirective(list[2][n + 1]) IN
       Bracketed(FlattenSeq([i \in 1..ds |-> Ev("directive", list[2][i][2]["expression"][2]["value"][2]) \o Ev("semicolon", "explicit")]))
       \o Items(A(SubSeq(list[2], ds + 1, Len(list[2])))))

ReadParams(list) ==
    LET n == Len(list[2])
        rest == n > 0 /\ list[2][n][1] = "o" /\ HasTag(list[2][n], "RestElement") IN
    Bracketed(Elements(A(IF rest THEN SubSeq(list[2], 1, n - 1) ELSE list[2]), ReadId))
    \o IF rest THEN Field(list[2][n], "argument", "o", ReadId) \o Ev("rest", "") ELSE Ev("none", "")
ReadFun(v) ==
    LET gen == IF Has(v, "generator") /\ v[2]["generator"] = Null THEN <<>> ELSE Field(v, "generator", "b", Nothing) IN
    gen \o Field(v, "params", "a", ReadParams) \o Field(v, "body", "o", ReadBody)
        \o Ev("fun", IF Has(v, "generator") /\ v[2]["generator"] = B(TRUE) THEN "generator" ELSE "")

ReadExpr(v) == Tagged(v, LAMBDA t :
    CASE t = "Identifier" -> ReadId(v)
      [] t = "Literal" -> ReadLit(v, "number", "string")
      [] t = "ThisExpression" -> Ev("this", "")
      [] t = "BinaryExpression" -> OneOf(v, "operator", DOMAIN BinPrec) \o Field(v, "left", "o", ReadExpr) \o Field(v, "right", "o", ReadExpr)
                                   \o Ev("binary", StringOf(v, "operator"))
      [] t = "LogicalExpression" -> OneOf(v, "operator", DOMAIN LogPrec) \o Field(v, "left", "o", ReadExpr) \o Field(v, "right", "o", ReadExpr)
                                    \o Ev("logical", StringOf(v, "operator"))
      [] t = "AssignmentExpression" ->
           OneOf(v, "operator", AssignOps \cup {"="})
           \o (IF StringOf(v, "operator") = "=" THEN Left(v, "left", IsPattern) ELSE Left(v, "left", IsTarget))
           \o Field(v, "right", "o", ReadExpr) \o Ev("assign", StringOf(v, "operator"))
      [] t = "UnaryExpression" -> OneOf(v, "operator", PrefixOps) \o Field(v, "argument", "o", ReadExpr) \o Ev("prefix", StringOf(v, "operator"))
      [] t = "UpdateExpression" ->
           OneOf(v, "operator", {"++", "--"}) \o Left(v, "argument", IsTarget) \o Field(v, "prefix", "b", Nothing)
           \o Ev(IF Has(v, "prefix") /\ v[2]["prefix"] = B(TRUE) THEN "prefix" ELSE "postfix", StringOf(v, "operator"))
      [] t = "MemberExpression" ->
           Field(v, "object", "o", ReadExpr)
           \o Field(v, "computed", "b", LAMBDA c : IF c[2] THEN Field(v, "property", "o", ReadExpr) \o Ev("index", "")
                                                   ELSE Field(v, "property", "o", ReadDot))
      [] t \in {"CallExpression", "NewExpression"} ->
           Field(v, "callee", "o", ReadExpr) \o Bracketed(Field(v, "arguments", "a", LAMBDA l : Elements(l, ReadListItem)))
           \o Ev(IF t = "CallExpression" THEN "call" ELSE "new", "")
      [] t = "ArrayExpression" ->
           Bracketed(Field(v, "elements", "a", LAMBDA l : FlattenSeq([i \in 1..Len(l[2]) |-> ReadElement(l[2][i])]))) \o Ev("array", "")
      [] t = "ObjectExpression" -> Bracketed(Field(v, "properties", "a", LAMBDA l : Elements(l, ReadProp))) \o Ev("object", "")
      [] t = "FunctionExpression" -> OptField(v, "id", "o", ReadId) \o ReadFun(v) \o Ev("funexpr", "")
      [] t = "SequenceExpression" ->
           Field(v, "expressions", "a", LAMBDA l : Elements(l, ReadExpr) \o Ev("seq", ToString(Len(l[2]))))
      [] t = "ConditionalExpression" ->
           Field(v, "test", "o", ReadExpr) \o Field(v, "consequent", "o", ReadExpr) \o Field(v, "alternate", "o", ReadExpr) \o Ev("conditional", "")
      [] t = "MetaProperty" ->
           LET evs == Field(v, "meta", "o", ReadId) \o Field(v, "property", "o", ReadId) IN
           IF ~Sound(evs) THEN evs
           ELSE IF evs = Ev("id", "new") \o Ev("id", "target") THEN Ev("new.target", "")
           ELSE Fault("IllegalString", evs[1][2] \o "." \o evs[2][2])
      [] OTHER -> Fault("NodeTypeMismatch", t))

ReadProp(v) ==
    LET parts == Field(v, "key", "o", Nothing) \o Field(v, "value", "o", Nothing) \o Field(v, "kind", "s", Nothing) IN
    IF parts # <<>> THEN parts
    ELSE LET key == v[2]["key"]  val == v[2]["value"] IN
         Field(v, "kind", "s", LAMBDA k :
           CASE k[2] = "init" ->
                  Field(v, "method", "b", LAMBDA m :
                    IF m[2] THEN ReadKey(key) \o ReadFun(val) \o Ev("method", "")
                    ELSE Field(v, "shorthand", "b", LAMBDA sh :
                           IF sh[2] THEN ReadId(key) \o Ev("shorthand", "") ELSE ReadKey(key) \o ReadExpr(val) \o Ev("init", "")))
             [] k[2] = "get" -> ReadKey(key) \o Field(val, "body", "o", ReadBody) \o Ev("getter", "")
             [] k[2] = "set" ->
                  LET fun == ReadFun(val) IN
                  IF ~Sound(fun) THEN ReadKey(key) \o fun
                  ELSE LET ps == val[2]["params"][2]
                           n == Len(ps) - (IF Len(ps) > 0 /\ HasTag(ps[Len(ps)], "RestElement") THEN 1 ELSE 0) IN
                       ReadKey(key) \o (IF n # 1 THEN Fault("WrongArrayLength", "1") ELSE ReadId(ps[1]))
                       \o Field(val, "body", "o", ReadBody) \o Ev("setter", "")
             [] OTHER -> Fault("TypeMismatch", "string"))

ReadDtor(v) == Field(v, "id", "o", ReadId) \o OptField(v, "init", "o", ReadExpr) \o Ev("dtor", "")
ReadConst(v) == Field(v, "id", "o", ReadId)
                \o (IF Has(v, "init") /\ v[2]["init"] = Null THEN Fault("UninitializedPattern", "") ELSE Field(v, "init", "o", ReadExpr))
                \o Ev("cdtor", "")
Dtors(v, Op(_)) == Field(v, "declarations", "a", LAMBDA l : Elements(l, Op))
DeclKinds == {"var", "let", "const"}
CountOf(v) == IF Is(v, "declarations", "a") THEN ToString(Len(v[2]["declarations"][2])) ELSE "?"

ReadForHead(v) ==
    IF HasTag(v, "VariableDeclaration")
    THEN OneOf(v, "kind", DeclKinds) \o (IF StringOf(v, "kind") = "const" THEN Dtors(v, ReadConst) ELSE Dtors(v, ReadDtor))
         \o Ev("for-" \o StringOf(v, "kind"), CountOf(v))
    ELSE ReadExpr(v) \o Ev("for-expr", "")
(* word: "in" or "of" *)
ReadBoundHead(v, word) ==
    IF HasTag(v, "VariableDeclaration")
    THEN OneOf(v, "kind", DeclKinds)
         \o Field(v, "declarations", "a", LAMBDA l :
              IF Len(l[2]) # 1 THEN Fault("WrongArrayLength", "1")
              ELSE IF l[2][1][1] # "o" THEN Fault("TypeMismatch", TypeName(l[2][1]))
              ELSE LET d == l[2][1] IN
                   IF word = "of" THEN Field(d, "id", "o", ReadId) \o Ev("of-" \o StringOf(v, "kind"), "")
                   ELSE IF ~Has(d, "init") THEN Field(d, "id", "o", ReadId) \o Fault("MissingField", "init")
                   ELSE IF d[2]["init"] = Null THEN Field(d, "id", "o", ReadId) \o Ev("in-" \o StringOf(v, "kind"), "")
                   ELSE LET evs == Field(d, "id", "o", ReadId) \o Field(d, "init", "o", ReadExpr) IN
                        IF StringOf(v, "kind") = "var" THEN evs \o Ev("in-var-init", "") ELSE evs \o Fault("UnexpectedInitializer", ""))
    ELSE LET evs == ReadExpr(v) IN IF Sound(evs) /\ ~IsPattern(v) THEN Fault("InvalidLHS", "left") ELSE evs \o Ev(word \o "-expr", "")

ReadBlock(v) == Tagged(v, LAMBDA t : IF t # "BlockStatement" THEN Fault("NodeTypeMismatch", t)
                                     ELSE Field(v, "body", "a", Items) \o Ev("block", ""))
ReadCase(v) == OptField(v, "test", "o", ReadExpr) \o Field(v, "consequent", "a", Items) \o Ev("case", "")
ReadCatch(v) == Field(v, "param", "o", ReadId) \o Field(v, "body", "o", ReadBlock) \o Ev("catch", "")
ReadForIn(v) == ReadBoundHead(v, "in")
ReadForOf(v) == ReadBoundHead(v, "of")
Semicolon == Ev("semicolon", "explicit")

(* decl: a declaration may stand here *)
ReadStatement(v, decl) == Tagged(v, LAMBDA t :
    CASE t = "FunctionDeclaration" ->
           IF ~decl THEN Fault("NodeTypeMismatch", t) ELSE Field(v, "id", "o", ReadId) \o ReadFun(v) \o Ev("declaration", "")
      [] t = "VariableDeclaration" ->
           OneOf(v, "kind", IF decl THEN DeclKinds ELSE {"var"})
           \o Bracketed(IF StringOf(v, "kind") = "const" THEN Dtors(v, ReadConst) ELSE Dtors(v, ReadDtor))
           \o Semicolon \o Ev(StringOf(v, "kind"), "")
      [] t = "EmptyStatement" -> Ev("empty", "")
      [] t = "DebuggerStatement" -> Semicolon \o Ev("debugger", "")
      [] t = "ExpressionStatement" -> Field(v, "expression", "o", ReadExpr) \o Semicolon \o Ev("expression", "")
      [] t = "IfStatement" -> Field(v, "test", "o", ReadExpr) \o Field(v, "consequent", "o", ReadStmt) \o OptField(v, "alternate", "o", ReadStmt) \o Ev("if", "")
      [] t = "DoWhileStatement" -> Field(v, "body", "o", ReadStmt) \o Field(v, "test", "o", ReadExpr) \o Semicolon \o Ev("dowhile", "")
      [] t = "WhileStatement" -> Field(v, "test", "o", ReadExpr) \o Field(v, "body", "o", ReadStmt) \o Ev("while", "")
      [] t = "ForStatement" -> OptField(v, "init", "o", ReadForHead) \o OptField(v, "test", "o", ReadExpr) \o OptField(v, "update", "o", ReadExpr)
                               \o Field(v, "body", "o", ReadStmt) \o Ev("for", "")
      [] t = "ForInStatement" -> Field(v, "left", "o", ReadForIn) \o Field(v, "right", "o", ReadExpr) \o Field(v, "body", "o", ReadStmt) \o Ev("forin", "")
      [] t = "ForOfStatement" -> Field(v, "left", "o", ReadForOf) \o Field(v, "right", "o", ReadExpr) \o Field(v, "body", "o", ReadStmt) \o Ev("forof", "")
      [] t = "BlockStatement" -> ReadBlock(v)
      [] t = "ReturnStatement" -> OptField(v, "argument", "o", ReadExpr) \o Semicolon \o Ev("return", "")
      [] t = "LabeledStatement" -> Field(v, "label", "o", ReadId) \o Field(v, "body", "o", ReadStmt) \o Ev("label", "")
      [] t = "BreakStatement" -> OptField(v, "label", "o", ReadId) \o Semicolon \o Ev("break", "")
      [] t = "ContinueStatement" -> OptField(v, "label", "o", ReadId) \o Semicolon \o Ev("continue", "")
      [] t = "SwitchStatement" -> Field(v, "discriminant", "o", ReadExpr)
                                  \o Bracketed(Field(v, "cases", "a", LAMBDA l : Elements(l, ReadCase))) \o Ev("switch", "")
      [] t = "WithStatement" -> Field(v, "object", "o", ReadExpr) \o Field(v, "body", "o", ReadStmt) \o Ev("with", "")
      [] t = "ThrowStatement" -> Field(v, "argument", "o", ReadExpr) \o Semicolon \o Ev("throw", "")
      [] t = "TryStatement" -> Field(v, "block", "o", ReadBlock) \o OptField(v, "handler", "o", ReadCatch) \o OptField(v, "finalizer", "o", ReadBlock) \o Ev("try", "")
      [] OTHER -> Fault("NodeTypeMismatch", t))
ReadStmt(v) == ReadStatement(v, FALSE)
ReadItem(v) == ReadStatement(v, TRUE)

Read(doc) == ReadBody(doc)

(*************************** what a document keeps of a program ***************************)
Keep(e) == CASE e[1] \in {"string", "key-string", "directive"} -> <<e[1], TextValue(e[2]), 0>>
             [] e[1] = "semicolon" -> <<e[1], "explicit", 0>>
             [] OTHER -> <<e[1], e[2], 0>>
Normal(out) == [i \in 1..Len(out) |-> Keep(out[i])]
(* a parenthesised string at the start of a body looks like a directive *)
LooksLikeDirective(out) == \E i \in 2..Len(out) - 3 :
    out[i-1][1] = "]" /\ out[i][1] = "[" /\ out[i+1][1] = "string" /\ out[i+2][1] = "semicolon" /\ out[i+3][1] = "expression"

RoundTrips(out) == LET back == Read(Describe(out)) IN
                   /\ Described(out)
                   /\ Sound(back)
                   /\ LooksLikeDirective(out) \/ back = Normal(out)
=============================================================================
