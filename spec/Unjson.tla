------------------------------- MODULE Unjson -------------------------------
(***************************************************************************)
(* Typed access to JSON values (crate unjson).                               *)
(*                                                                          *)
(* A JSON value is [ty, v]: ty is its representation (Null, Bool, I64, U64,   *)
(* F64, String, Array, Object) and v a tag identifying the datum; integers    *)
(* carry their decimal numeral, so 64-bit ranges are compared as numerals.    *)
(* An object is a function from its field names to values.  The one mutable   *)
(* state is an object; accessors either look at it (get) or take fields out   *)
(* of it (extract).                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Val(ty, v) == [ty |-> ty, v |-> v]

IntVals == {Val("I64", "-9223372036854775808"), Val("I64", "-1"), Val("I64", "0"), Val("I64", "7"),
            Val("I64", "9223372036854775807"), Val("U64", "0"), Val("U64", "42"), Val("U64", "9223372036854775807"),
            Val("U64", "9223372036854775808"), Val("U64", "18446744073709551615"), Val("U64", "9007199254740993"),
            Val("I64", "-9007199254740993"), Val("I64", "9007199254740993"), Val("I64", "4294967296"), Val("I64", "-2147483649"),
            Val("U64", "4294967295"), Val("U64", "1")}
FloatVals == {Val("F64", "0.5"), Val("F64", "-3"), Val("F64", "1e300"), Val("F64", "4"), Val("F64", "0"), Val("F64", "-0"),
              Val("F64", "NaN"), Val("F64", "inf"), Val("F64", "9007199254740992"), Val("F64", "18446744073709551616")}
OtherVals == {Val("Null", "null"), Val("Bool", "true"), Val("Bool", "false"),
              Val("String", ""), Val("String", "s"), Val("String", "null"), Val("String", "1"),
              Val("String", "true"), Val("String", " a\"b\\c "), Val("String", "a longer text, which no small buffer holds, with more than sixty-four characters"),
              Val("Array", "[]"), Val("Array", "[1,null]"), Val("Array", "[[],{}]"), Val("Array", "[null]"),
              Val("Object", "{}"), Val("Object", "{\"a\":1}"), Val("Object", "{\"b\":{\"a\":null},\"a\":[]}")}
LargeVals == {Val("String", "rep 300"), Val("String", "rep 70000"), Val("Array", "rep 300"), Val("Array", "rep 70000"), Val("Array", "deep 100"),
              Val("Object", "rep 300"), Val("Object", "rep 3000"), Val("Object", "deep 100")}   \* the replay builds these
Values == IntVals \cup FloatVals \cup OtherVals

TyOf(x) == CASE x.ty = "Null" -> "null" [] x.ty = "Bool" -> "boolean" [] x.ty = "String" -> "string"
             [] x.ty = "Array" -> "array" [] x.ty = "Object" -> "object"
             [] x.ty \in {"I64", "U64", "F64"} -> "number"

-----------------------------------------------------------------------------
(* Numerals *)

Digits == "0123456789"
DigitOf == [d \in {SubSeq(Digits, i, i) : i \in 1..10} |-> (CHOOSE i \in 1..10 : SubSeq(Digits, i, i) = d) - 1]
Negative(s) == SubSeq(s, 1, 1) = "-"
RECURSIVE LexLeq(_, _)
LexLeq(s, t) == IF Len(s) = 0 THEN TRUE
                ELSE LET a == DigitOf[SubSeq(s, 1, 1)] b == DigitOf[SubSeq(t, 1, 1)]
                     IN IF a # b THEN a < b ELSE LexLeq(SubSeq(s, 2, Len(s)), SubSeq(t, 2, Len(t)))
NatLeq(s, t) == IF Len(s) # Len(t) THEN Len(s) < Len(t) ELSE LexLeq(s, t)
MaxI64 == "9223372036854775807"

-----------------------------------------------------------------------------
(* Views: for each type name, the values it accepts, and what they become.     *)
(* Integers convert to an integer type whose range they are in, and any number *)
(* converts to a float; floats never become integers.                          *)

Types == {"string", "array", "object", "boolean", "i64", "u64", "f64", "number"}

Accepts(t, x) ==
    CASE t = "string"  -> x.ty = "String"
      [] t = "array"   -> x.ty = "Array"
      [] t = "object"  -> x.ty = "Object"
      [] t = "boolean" -> x.ty = "Bool"
      [] t = "i64"     -> x.ty = "I64" \/ (x.ty = "U64" /\ NatLeq(x.v, MaxI64))
      [] t = "u64"     -> x.ty = "U64" \/ (x.ty = "I64" /\ ~Negative(x.v))
      [] t \in {"f64", "number"} -> x.ty \in {"I64", "U64", "F64"}

Ok(kind, v)  == <<"ok", kind, v>>
TypeError(t, x) == <<"type", t, TyOf(x)>>
Missing(f)   == <<"missing", f>>

View(t, x)    == IF Accepts(t, x) THEN Ok(t, x.v) ELSE TypeError(t, x)
ViewOpt(t, x) == IF x.ty = "Null" THEN Ok("none", "") ELSE View(t, x)
Look(t, opt, x) == IF t = "field" THEN Ok("value", x.ty \o ":" \o x.v)
                   ELSE IF opt THEN ViewOpt(t, x) ELSE View(t, x)

-----------------------------------------------------------------------------
(* The object and its accessors *)

CONSTANT Fields          \* the names asked for

VARIABLES obj, hist

Answer(t, opt, f) == IF f \in DOMAIN obj THEN Look(t, opt, obj[f]) ELSE Missing(f)

Without(o, f) == [g \in DOMAIN o \ {f} |-> o[g]]

Log(fn, t, opt, f) ==
    hist' = Append(hist, [fn |-> fn, t |-> t, opt |-> opt, f |-> f, res |-> Answer(t, opt, f),
                          obj |-> {<<g, obj'[g]>> : g \in DOMAIN obj'}])

(* get_t, get_t_opt, get_field: a look that changes nothing *)
Get(t, opt, f) == obj' = obj /\ Log("get", t, opt, f)

(* extract_t, ...: the field leaves the object, whether or not it has the type asked for *)
Extract(t, opt, f) == obj' = Without(obj, f) /\ Log("extract", t, opt, f)

(* to_t, into_t, ...: the same view of a value on its own *)
Convert(t, opt, f) == f \in DOMAIN obj /\ t # "field" /\ obj' = obj /\ Log("to", t, opt, f)

Calls == (Types \X BOOLEAN) \cup {<<"field", FALSE>>}

Next == \E c \in Calls, f \in Fields : Get(c[1], c[2], f) \/ Extract(c[1], c[2], f) \/ Convert(c[1], c[2], f)

-----------------------------------------------------------------------------
(* Properties *)

(* An accessor never invents, changes or drops any other field. *)
Frame == [][ /\ DOMAIN obj' \subseteq DOMAIN obj
             /\ \A f \in DOMAIN obj' : obj'[f] = obj[f]
             /\ LET e == hist'[Len(hist')] IN
                DOMAIN obj' = IF e.fn = "extract" THEN DOMAIN obj \ {e.f} ELSE DOMAIN obj ]_<<obj, hist>>

(* A value of a type is accepted by at least its own view; null by every optional view and no other. *)
OwnView(x) == CASE x.ty = "Null" -> {} [] x.ty = "Bool" -> {"boolean"} [] x.ty = "String" -> {"string"}
                [] x.ty = "Array" -> {"array"} [] x.ty = "Object" -> {"object"}
                [] x.ty = "I64" -> {"i64", "f64", "number"} [] x.ty = "U64" -> {"u64", "f64", "number"}
                [] x.ty = "F64" -> {"f64", "number"}
ASSUME \A x \in Values : \A t \in Types :
    /\ t \in OwnView(x) => Accepts(t, x)
    /\ x.ty = "Null" => ViewOpt(t, x) = Ok("none", "") /\ ~Accepts(t, x)
    /\ x.ty # "Null" => ViewOpt(t, x) = View(t, x)
    /\ x.ty \notin {"I64", "U64", "F64"} => (Accepts(t, x) <=> t \in OwnView(x))

(* After a field has been extracted, it is missing. *)
Gone == \A i \in 1..Len(hist), j \in 1..Len(hist) :
          i < j /\ hist[i].fn = "extract" /\ hist[i].f = hist[j].f => hist[j].res = Missing(hist[j].f)
=============================================================================
