------------------------------ MODULE MCUnjson ------------------------------
(***************************************************************************)
(* Objects with fields a and b (c is always missing), every sequence of at     *)
(* most MaxCalls accessor calls.  The later calls of a sequence are drawn from *)
(* LateCalls.  Complete histories are printed for replay.                      *)
(***************************************************************************)
EXTENDS Unjson, Json, SequencesExt

CONSTANTS MaxCalls, BValues, LateTypes

VARIABLES init, r       \* the object at first; the state of the walk

FewValues == {Val("Null", "null"), Val("String", "s")}
MoreValues == FewValues \cup {Val("I64", "-1"), Val("U64", "42"), Val("Bool", "true"), Val("Array", "[1,null]")}
FewTypes == {"string", "number", "field"}
AllTypes == Types \cup {"field"}

PlainFields == {"a", "b", "c"}
OddFields == {"", "a", "A", "a.b", "ab", "type", "/a"}

(* Objects of the exhaustive runs: one or two fields, c always missing.        *)
PlainObjects == {[f \in {"a"} |-> x] : x \in Values}
           \cup {("a" :> x) @@ ("b" :> y) : x \in Values, y \in BValues}

(* Objects of the sampled walks: any of the odd names present, with any mix of values. *)
Few == {Val("Null", "null"), Val("String", "s"), Val("I64", "-1"), Val("U64", "18446744073709551615"), Val("F64", "4"), Val("Bool", "false"),
        Val("Array", "[1,null]"), Val("Object", "{\"a\":1}")}
Pairs == {<<x, y>> \in Few \X Few : x # y}
OddObjects == {[f \in D |-> IF f \in E THEN xy[1] ELSE xy[2]] :
                 D \in {OddFields, OddFields \ {"a"}, OddFields \ {""}, {"a.b", "type"}, {"ab", "A"}, {"/a", "a"}, {""}},
                 E \in {{"a", "", "type"}, {"A", "a.b"}, {"/a", "ab"}}, xy \in Pairs}

(* Integers around the limits of the integer types and around the places where rounding *)
(* to a double is decided (halfway between two doubles, and next to it).                 *)
BoundaryU64 == {
    "255", "256", "257", "65535", "65536", "65537", "16777215", "16777216", "16777217", "2147483647",
    "2147483648", "2147483649", "4294967295", "4294967296", "4294967297", "8589934591", "8589934592",
    "8589934593", "281474976710655", "281474976710656", "281474976710657", "9007199254740991",
    "9007199254740992", "9007199254740993", "9007199254740994", "9007199254740995", "9007199254740996",
    "9007199254765682", "9007199254765683", "9007199254765684", "18014398509481982", "18014398509481983",
    "18014398509481984", "18014398509481985", "18014398509481986", "18014398509481987", "18014398509481989",
    "18014398509481990", "18014398509481991", "18014398509531365", "18014398509531366", "18014398509531367",
    "36028797018963965", "36028797018963966", "36028797018963967", "144115188075855873",
    "144115188075855887", "144115188075855888", "144115188075855889", "144115188075855903",
    "144115188075855905", "144115188075855919", "144115188075855920", "144115188075855921",
    "144115188075855935", "144115188076250913", "144115188076250927", "144115188076250928",
    "144115188076250929", "144115188076250943", "288230376151711713", "288230376151711727",
    "288230376151711728", "288230376151711729", "288230376151711743", "576460752303423489",
    "576460752303423551", "576460752303423552", "576460752303423553", "576460752303423615",
    "576460752303423617", "576460752303423679", "576460752303423680", "576460752303423681",
    "576460752303423743", "576460752305003649", "576460752305003711", "576460752305003712",
    "576460752305003713", "576460752305003775", "1152921504606846849", "1152921504606846911",
    "1152921504606846912", "1152921504606846913", "1152921504606846975", "2305843009213693953",
    "2305843009213694207", "2305843009213694208", "2305843009213694209", "2305843009213694463",
    "2305843009213694465", "2305843009213694719", "2305843009213694720", "2305843009213694721",
    "2305843009213694975", "2305843009220014593", "2305843009220014847", "2305843009220014848",
    "2305843009220014849", "2305843009220015103", "4611686018427387393", "4611686018427387647",
    "4611686018427387648", "4611686018427387649", "4611686018427387903", "4611686018427387905",
    "4611686018427388415", "4611686018427388416", "4611686018427388417", "4611686018427388927",
    "4611686018427388929", "4611686018427389439", "4611686018427389440", "4611686018427389441",
    "4611686018427389951", "4611686018440029185", "4611686018440029695", "4611686018440029696",
    "4611686018440029697", "4611686018440030207", "9223372036854774785", "9223372036854775295",
    "9223372036854775296", "9223372036854775297", "9223372036854775807", "9223372036854775808",
    "9223372036854775809", "9223372036854776831", "9223372036854776832", "9223372036854776833",
    "9223372036854777855", "9223372036854777857", "9223372036854778879", "9223372036854778880",
    "9223372036854778881", "9223372036854779903", "9223372036880058369", "9223372036880059391",
    "9223372036880059392", "9223372036880059393", "9223372036880060415", "18446744073709549569",
    "18446744073709550591", "18446744073709550592", "18446744073709550593", "18446744073709551615"}
BoundaryI64 == {
    "-9223372036854775808", "-9223372036854775807", "-9223372036854775297", "-9223372036854775296",
    "-9223372036854775295", "-9223372036854774785", "-4611686018440030207", "-4611686018440029697",
    "-4611686018440029696", "-4611686018440029695", "-4611686018440029185", "-4611686018427389951",
    "-4611686018427389441", "-4611686018427389440", "-4611686018427389439", "-4611686018427388929",
    "-4611686018427388927", "-4611686018427388417", "-4611686018427388416", "-4611686018427388415",
    "-4611686018427387905", "-4611686018427387903", "-4611686018427387649", "-4611686018427387648",
    "-4611686018427387647", "-4611686018427387393", "-2305843009220015103", "-2305843009220014849",
    "-2305843009220014848", "-2305843009220014847", "-2305843009220014593", "-2305843009213694975",
    "-2305843009213694721", "-2305843009213694720", "-2305843009213694719", "-2305843009213694465",
    "-2305843009213694463", "-2305843009213694209", "-2305843009213694208", "-2305843009213694207",
    "-2305843009213693953", "-1152921504606846975", "-1152921504606846913", "-1152921504606846912",
    "-1152921504606846911", "-1152921504606846849", "-576460752305003775", "-576460752305003713",
    "-576460752305003712", "-576460752305003711", "-576460752305003649", "-576460752303423743",
    "-576460752303423681", "-576460752303423680", "-576460752303423679", "-576460752303423617",
    "-576460752303423615", "-576460752303423553", "-576460752303423552", "-576460752303423551",
    "-576460752303423489", "-288230376151711743", "-288230376151711729", "-288230376151711728",
    "-288230376151711727", "-288230376151711713", "-144115188076250943", "-144115188076250929",
    "-144115188076250928", "-144115188076250927", "-144115188076250913", "-144115188075855935",
    "-144115188075855921", "-144115188075855920", "-144115188075855919", "-144115188075855905",
    "-144115188075855903", "-144115188075855889", "-144115188075855888", "-144115188075855887",
    "-144115188075855873", "-36028797018963967", "-36028797018963966", "-36028797018963965",
    "-18014398509531367", "-18014398509531366", "-18014398509531365", "-18014398509481991",
    "-18014398509481990", "-18014398509481989", "-18014398509481987", "-18014398509481986",
    "-18014398509481985", "-18014398509481984", "-18014398509481983", "-18014398509481982",
    "-9007199254765684", "-9007199254765683", "-9007199254765682", "-9007199254740996", "-9007199254740995",
    "-9007199254740994", "-9007199254740993", "-9007199254740992", "-9007199254740991", "-281474976710657",
    "-281474976710656", "-281474976710655", "-8589934593", "-8589934592", "-8589934591", "-4294967297",
    "-4294967296", "-4294967295", "-2147483649", "-2147483648", "-2147483647", "-16777217", "-16777216",
    "-16777215", "-65537", "-65536", "-65535", "-257", "-256", "-255", "255", "256", "257", "65535", "65536",
    "65537", "16777215", "16777216", "16777217", "2147483647", "2147483648", "2147483649", "4294967295",
    "4294967296", "4294967297", "8589934591", "8589934592", "8589934593", "281474976710655",
    "281474976710656", "281474976710657", "9007199254740991", "9007199254740992", "9007199254740993",
    "9007199254740994", "9007199254740995", "9007199254740996", "9007199254765682", "9007199254765683",
    "9007199254765684", "18014398509481982", "18014398509481983", "18014398509481984", "18014398509481985",
    "18014398509481986", "18014398509481987", "18014398509481989", "18014398509481990", "18014398509481991",
    "18014398509531365", "18014398509531366", "18014398509531367", "36028797018963965", "36028797018963966",
    "36028797018963967", "144115188075855873", "144115188075855887", "144115188075855888",
    "144115188075855889", "144115188075855903", "144115188075855905", "144115188075855919",
    "144115188075855920", "144115188075855921", "144115188075855935", "144115188076250913",
    "144115188076250927", "144115188076250928", "144115188076250929", "144115188076250943",
    "288230376151711713", "288230376151711727", "288230376151711728", "288230376151711729",
    "288230376151711743", "576460752303423489", "576460752303423551", "576460752303423552",
    "576460752303423553", "576460752303423615", "576460752303423617", "576460752303423679",
    "576460752303423680", "576460752303423681", "576460752303423743", "576460752305003649",
    "576460752305003711", "576460752305003712", "576460752305003713", "576460752305003775",
    "1152921504606846849", "1152921504606846911", "1152921504606846912", "1152921504606846913",
    "1152921504606846975", "2305843009213693953", "2305843009213694207", "2305843009213694208",
    "2305843009213694209", "2305843009213694463", "2305843009213694465", "2305843009213694719",
    "2305843009213694720", "2305843009213694721", "2305843009213694975", "2305843009220014593",
    "2305843009220014847", "2305843009220014848", "2305843009220014849", "2305843009220015103",
    "4611686018427387393", "4611686018427387647", "4611686018427387648", "4611686018427387649",
    "4611686018427387903", "4611686018427387905", "4611686018427388415", "4611686018427388416",
    "4611686018427388417", "4611686018427388927", "4611686018427388929", "4611686018427389439",
    "4611686018427389440", "4611686018427389441", "4611686018427389951", "4611686018440029185",
    "4611686018440029695", "4611686018440029696", "4611686018440029697", "4611686018440030207",
    "9223372036854774785", "9223372036854775295", "9223372036854775296", "9223372036854775297",
    "9223372036854775807"}
IntegerObjects == {[f \in {"a"} |-> Val("U64", v)] : v \in BoundaryU64} \cup {[f \in {"a"} |-> Val("I64", v)] : v \in BoundaryI64}

LargeObjects == {[f \in {"a"} |-> x] : x \in LargeVals} \cup {("a" :> x) @@ ("b" :> Val("Array", "rep 300")) : x \in LargeVals}

CONSTANT Objects, Walks, Seed

Spin(x) == (x * 1069 + 12345) % 1999993      \* stays below 2^31
Pick(x, seq) == seq[((x \div 3) % Len(seq)) + 1]

(* Numbers without end: numerals of 1 to 19 digits, 20 for those below 1.8e19, and decimal fractions. *)
RECURSIVE Numeral(_, _, _)
Numeral(x, n, set) == IF n = 0 THEN "" ELSE LET d == ((x \div 7) % Len(set)) + 1
                                            IN SubSeq(set, d, d) \o Numeral(Spin(x + n), n - 1, IF Len(set) = 2 THEN "01234567" ELSE Digits)
RandomNumber(x) ==
    LET y == Spin(x)
        len == ((x \div 5) % 20) + 1
        nat == IF len = 20 THEN "1" \o Numeral(y, 1, "01234567") \o Numeral(Spin(y), 18, Digits)
               ELSE Numeral(y, 1, "12345678") \o Numeral(Spin(y), len - 1, Digits)
        kind == (Spin(Spin(y)) \div 11) % 6 IN
    CASE kind \in {0, 1} -> Val("U64", nat)
      [] kind = 2 /\ len < 20 -> Val("I64", nat)
      [] kind = 3 /\ len < 20 -> Val("I64", "-" \o nat)
      [] kind = 4 -> Val("F64", nat \o "." \o nat)
      [] OTHER -> Val("F64", "-" \o nat \o "e" \o Pick(Spin(y + 1), <<"-300", "-20", "-3", "5", "30", "280">>))
RandomObjects == {[f \in {"a"} |-> RandomNumber(Spin(((k * 7919) % 1999993) + ((Seed % 1000) * 61)))] : k \in 1..Walks}

(* Objects with very many fields, of which one or two are ever asked for. *)
ManyFields(n) == {"f" \o ToString(i) : i \in 1..n}
WideObjects == {[f \in ManyFields(n) \cup D |-> IF f = "a" THEN x ELSE IF f = "b" THEN Val("Null", "null") ELSE Val("I64", "7")] :
                  n \in {5, 64}, D \in {{"a"}, {"a", "b"}, {"b"}}, x \in MoreValues}

MCInit == obj \in Objects /\ hist = <<>> /\ init = {<<g, obj[g]>> : g \in DOMAIN obj}
MCNext == /\ Len(hist) < MaxCalls
          /\ \E c \in Calls, f \in Fields :
               /\ hist # <<>> => c[1] \in LateTypes
               /\ Get(c[1], c[2], f) \/ Extract(c[1], c[2], f) \/ Convert(c[1], c[2], f)
          /\ UNCHANGED <<init, r>>
MCSpec == MCInit /\ r = 0 /\ [][MCNext]_<<obj, hist, init, r>>

(* Sampled walks: each of Walks initial states goes its own pseudo-random way. *)
ObjectSeq == SetToSeq(Objects)
CallSeq == SetToSeq(Calls)
FieldSeq == SetToSeq(Fields)

WalkInit == \E k \in 1..Walks :
              LET r0 == Spin(Spin(((k * 31337) % 1999993) + ((Seed % 1000) * 61))) IN
              /\ obj = Pick(Spin(r0), ObjectSeq) /\ hist = <<>> /\ init = {<<g, obj[g]>> : g \in DOMAIN obj}
              /\ r = Spin(Spin(r0))
WalkNext == /\ Len(hist) < MaxCalls
            /\ LET c == Pick(r, CallSeq) f == Pick(Spin(r), FieldSeq) how == (Spin(Spin(r)) \div 5) % 4 IN
               /\ CASE how = 0 -> Extract(c[1], c[2], f)
                    [] how = 1 /\ f \in DOMAIN obj /\ c[1] # "field" -> Convert(c[1], c[2], f)
                    [] OTHER -> Get(c[1], c[2], f)
               /\ r' = Spin(Spin(Spin(r)))
            /\ UNCHANGED init
WalkSpec == WalkInit /\ [][WalkNext]_<<obj, hist, init, r>>

Emit == Len(hist) = MaxCalls => PrintT(ToJson([init |-> init, hist |-> hist]))
Checked == Gone /\ Emit
=============================================================================
