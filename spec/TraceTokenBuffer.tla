-------------------------- MODULE TraceTokenBuffer --------------------------
(***************************************************************************)
(* Validates call histories recorded from the real tokenizer: every recorded   *)
(* call must be legal for the specification and have the recorded answer.      *)
(* Each trace ends in a printed verdict.                                      *)
(***************************************************************************)
EXTENDS TokenBuffer, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.CONFORM_TRACES)

VARIABLES tid, l, verdict

tvars == <<bufvars, tid, l, verdict>>

Init == /\ BufInit /\ tid \in 1..Len(Traces) /\ src = Traces[tid].src /\ closed = TRUE
        /\ l = 1 /\ verdict = "open"

Event == Traces[tid].hist[l]
More  == verdict = "open" /\ l <= Len(Traces[tid].hist)

(* the answer recorded against the answer specified; a number is compared by its source *)
SameToken(t, r) ==
    /\ t.k = r.k /\ t.s = r.s /\ t.e = r.e /\ t.n = r.n
    /\ ToJson(IF t.k = "N" THEN t.v[1] ELSE t.v) = ToJson(r.v)
SameAnswer(res, ev) ==
    /\ ~ev.err
    /\ Len(res) = Len(ev.tok)
    /\ res # <<>> => SameToken(res[1], ev.tok[1])
    /\ ev.pos = p'

Judge(same) == /\ l' = l + 1
               /\ verdict' = IF same THEN "open" ELSE "rejected"

TBuffered == /\ More /\ FromBuffer(Event.fn, Event.op)
             /\ Judge(SameAnswer(Shown(Event.fn, Head(buf)), Event))
TUnread   == /\ More /\ Event.fn = "unread" /\ Unread
             /\ Judge(SameAnswer(<<>>, Event))
TStart    == More /\ Start(Event.fn, Event.op) /\ UNCHANGED <<l, verdict>>
TLex      == More /\ Lex /\ UNCHANGED <<l, verdict>>
TReturn   == /\ More /\ Return
             /\ Judge(SameAnswer(Shown(call.fn, toks[Len(toks)]), Event))
TError    == /\ More /\ call.fn # "none" /\ Broken
             /\ call' = Idle /\ UNCHANGED <<lexvars, buf, out>>
             /\ Judge(Event.err /\ ToJson(<<m.kind, m.arg>>) = ToJson(Event.what))
TIllegal  == /\ More /\ call = Idle /\ ~Legal(Event.fn)
             /\ verdict' = "rejected" /\ UNCHANGED <<bufvars, l>>
TAccept   == /\ verdict = "open" /\ l > Len(Traces[tid].hist) /\ verdict' = "accepted"
             /\ UNCHANGED <<bufvars, l>>

Next == (TBuffered \/ TUnread \/ TStart \/ TLex \/ TReturn \/ TError \/ TIllegal \/ TAccept) /\ UNCHANGED tid

Spec == Init /\ [][Next]_tvars

Checked == /\ verdict # "open" => PrintT(ToJson([verdict |-> verdict, tid |-> tid, at |-> l]))
           /\ BufInv
=============================================================================
