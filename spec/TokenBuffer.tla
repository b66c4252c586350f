---------------------------- MODULE TokenBuffer ----------------------------
(***************************************************************************)
(* The tokenizer as its client sees it: a stream of tokens with a pushback    *)
(* buffer of at most two tokens.  Each API call is one transaction: it either *)
(* answers from the buffer, or runs the character machine of Joker until one  *)
(* more token is finished.                                                   *)
(*                                                                          *)
(*   peek(op)   show the next token         repeek   show the buffered token  *)
(*   read(op)   take the next token         reread   take the buffered token  *)
(*   skip(op)   drop the next token         unread   put the last token back  *)
(***************************************************************************)
EXTENDS Joker

VARIABLES
    buf,      \* tokens read from the source but not (or no longer) taken, next first
    out,      \* tokens taken, oldest first: [t |-> token, own |-> the client has it]
    call      \* the call in progress: [fn, op, k], or fn = "none"

bufvars == <<lexvars, buf, out, call>>

Capacity == 2
Idle == [fn |-> "none"]
NoToken == <<>>

BufInit == LexInit /\ buf = <<>> /\ out = <<>> /\ call = Idle

Broken == m.mode = "err"

(* the calls a client may make now *)
Legal(fn) ==
    /\ call = Idle /\ ~Broken
    /\ CASE fn \in {"peek", "read", "skip"} -> TRUE
         [] fn \in {"repeek", "reread"} -> buf # <<>>
         [] fn = "unread" -> out # <<>> /\ out[Len(out)].own /\ Len(buf) < Capacity

Answer(fn, tok) ==                         \* effect of a call on a nonempty buffer tok \o rest
    LET rest == IF buf = <<>> THEN <<>> ELSE Tail(buf) IN
    CASE fn \in {"peek", "repeek"} -> buf' = <<tok>> \o rest /\ out' = out
      [] fn \in {"read", "reread"} -> buf' = rest /\ out' = Append(out, [t |-> tok, own |-> TRUE])
      [] fn = "skip" -> buf' = rest /\ out' = Append(out, [t |-> tok, own |-> FALSE])

Shown(fn, tok) == IF fn = "skip" THEN <<>> ELSE <<tok>>

(* A call answered from the buffer: the operator flag is irrelevant. *)
FromBuffer(fn, op) ==
    /\ Legal(fn) /\ fn # "unread" /\ buf # <<>>
    /\ Answer(fn, Head(buf))
    /\ UNCHANGED <<lexvars, call>>

Unread ==
    /\ Legal("unread")
    /\ buf' = <<out[Len(out)].t>> \o buf
    /\ out' = SubSeq(out, 1, Len(out) - 1)
    /\ UNCHANGED <<lexvars, call>>

(* A call that needs a new token: *)
Start(fn, op) ==
    /\ Legal(fn) /\ fn \in {"peek", "read", "skip"} /\ buf = <<>>
    /\ call' = [fn |-> fn, op |-> op, k |-> Len(toks)]
    /\ UNCHANGED <<lexvars, buf, out>>

Pending == call.fn # "none" /\ Len(toks) = call.k /\ ~Broken

Lex == \/ /\ Pending /\ LexStep({call.op})
          /\ UNCHANGED <<buf, out, call>>
       \/ /\ Pending /\ m.mode = "eof"     \* the end of the input stays the end of the input
          /\ toks' = Append(toks, [toks[Len(toks)] EXCEPT !.n = FALSE])
          /\ UNCHANGED <<src, closed, p, m, nl, bol, ops, buf, out, call>>

Return == /\ call.fn # "none" /\ Len(toks) > call.k
          /\ Answer(call.fn, toks[Len(toks)])
          /\ call' = Idle
          /\ UNCHANGED lexvars

-----------------------------------------------------------------------------
(* Whatever the client does, taken tokens followed by buffered tokens are exactly *)
(* the tokens of the source so far: pushback neither loses, repeats nor reorders.  *)

Taken == [i \in 1..Len(out) |-> out[i].t]
Transparent == call = Idle => Taken \o buf = toks
Bounded == Len(buf) <= Capacity
BufInv == Transparent /\ Bounded
=============================================================================
