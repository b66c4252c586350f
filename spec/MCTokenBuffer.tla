--------------------------- MODULE MCTokenBuffer ---------------------------
(***************************************************************************)
(* Every sequence of at most MaxCalls calls on each of Sources, printed with  *)
(* the answer of each call for the conformance harness to replay.            *)
(***************************************************************************)
EXTENDS TokenBuffer, Json

CONSTANTS Sources, MaxCalls

VARIABLE hist

mcvars == <<bufvars, hist>>

Init == BufInit /\ src \in Sources /\ closed = TRUE /\ hist = <<>>

Log(fn, op, res) == hist' = Append(hist, [fn |-> fn, op |-> op, res |-> res, pos |-> p'])

Flags(fn) == IF fn \in {"peek", "read", "skip"} THEN {"div", "re"} ELSE {"any"}

(* the errors of a call *)
ReturnError ==
    /\ call.fn # "none" /\ Broken
    /\ hist' = Append(hist, [fn |-> call.fn, op |-> call.op, res |-> <<m.kind, m.arg>>, pos |-> p, err |-> TRUE])
    /\ call' = Idle /\ UNCHANGED <<lexvars, buf, out>>

Next ==
    \/ /\ Len(hist) < MaxCalls
       /\ \/ \E fn \in {"peek", "read", "skip", "repeek", "reread"} : \E op \in Flags(fn) :
               \/ FromBuffer(fn, op) /\ Log(fn, op, Shown(fn, Head(buf)))
               \/ Start(fn, op) /\ UNCHANGED hist
          \/ Unread /\ Log("unread", "any", <<>>)
    \/ Lex /\ UNCHANGED hist
    \/ Return /\ Log(call.fn, call.op, Shown(call.fn, toks[Len(toks)]))
    \/ ReturnError

Spec == Init /\ [][Next]_mcvars

Done == call = Idle /\ (Len(hist) = MaxCalls \/ Broken)
Checked == /\ BufInv
           /\ Done => PrintT(ToJson([src |-> src, hist |-> hist]))

BufSources == {Txt("a /b/ c"), Txt("x") \o <<LF>> \o Txt("/= y/i;"), Txt("1/2"), Txt("a 'b")}
BufSourcesMore == BufSources \cup {<<>>, Txt("a") \o <<LF>> \o Txt("b") \o <<LF>> \o Txt("c"), Txt("let/*") \o <<LF>> \o Txt("*/in /x")}
=============================================================================
