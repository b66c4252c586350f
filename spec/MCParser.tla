------------------------------ MODULE MCParser ------------------------------
(***************************************************************************)
(* Exploration of the parser machine.                                        *)
(*  - Each model of Models: all token sequences that start with one of its      *)
(*    prefixes, continue with at most max tokens of its alphabet (with and       *)
(*    without a preceding newline, as the model says) and stay viable; each       *)
(*    viable prefix is also completed to a whole program, and each token that     *)
(*    cannot continue it is tried.                                             *)
(*  - Scripts: given token sequences (random programs made by the harness).       *)
(* Every outcome is printed for the harness to replay on the real parser.         *)
(***************************************************************************)
EXTENDS Parser, Json, IOUtils

CONSTANTS Models, UseScripts,
          CheckEntries,    \* check that the entry points agree
          CheckSpread      \* check that newlines make no difference where they should not

Scripts == IF UseScripts THEN ndJsonDeserialize(IOEnv.CONFORM_INPUTS) ELSE <<>>

VARIABLES st,      \* the parser
          toks,    \* the tokens fed: <<text, newline before>>
          env      \* [mod, n (length of the prefix), script]

vars == <<st, toks, env>>

(* an opening: the state after its tokens, up to the first that fails or that the tokenizer cannot deliver *)
RECURSIVE FeedAll(_, _, _)
FeedAll(s, ts, i) == IF i > Len(ts) \/ s.res # "open" THEN <<s, i - 1, TRUE>>
                     ELSE IF ~Deliverable(s, ts[i]) THEN <<s, i - 1, FALSE>>
                     ELSE FeedAll(Feed(s, ts[i], FALSE), ts, i + 1)

Plain(ts) == [i \in 1..Len(ts) |-> <<ts[i], FALSE>>]

Init ==
    \/ \E i \in 1..Len(Models) : \E pre \in Models[i].pre, entry \in Models[i].entry :
         /\ LET f == FeedAll(Begin(entry), pre, 1) IN
            f[3] /\ st = f[1] /\ toks = Plain(SubSeq(pre, 1, f[2]))
         /\ env = [mod |-> i, n |-> Len(pre), script |-> 0]
    \/ \E i \in 1..Len(Scripts) :
         /\ toks = <<>> /\ st = Begin(Scripts[i].entry)
         /\ env = [mod |-> 0, n |-> 0, script |-> i]

(* the environment supplies the next token *)
Supply(t, nl) == /\ Deliverable(st, t)
                 /\ st' = Feed(st, t, nl)
                 /\ toks' = Append(toks, <<t, nl>>)
                 /\ UNCHANGED env

Explore == /\ env.mod # 0 /\ Open(st)
           /\ LET m == Models[env.mod] IN
              IF Len(toks) - env.n < m.max
              THEN \E t \in m.abc, nl \in m.nl : Supply(t, nl)
              ELSE Supply(EOF, FALSE)
Scripted == /\ env.script # 0 /\ Open(st)
            /\ LET s == Scripts[env.script].toks IN
               IF Len(toks) < Len(s) THEN Supply(s[Len(toks) + 1][1], s[Len(toks) + 1][2]) ELSE Supply(EOF, FALSE)

Next == Explore \/ Scripted
Spec == Init /\ [][Next]_vars

(* the completion of a viable prefix *)
RECURSIVE Complete(_, _)
Complete(s, ts) ==
    IF s.res # "open" THEN <<s, ts>>
    ELSE LET t == Closer(s.stk) IN Complete(Feed(s, t, FALSE), Append(ts, <<t, FALSE>>))

(*************************** invariants ***************************)
(* every viable prefix has a completion, except that some errors of context are only reported further on: the operand of
   a prefix operator that is no target, a misplaced jump, a repeated label, a word that may not be used as an identifier *)
FoundLate == {"InvalidLHS", "TopLevelReturn", "IllegalBreak", "IllegalContinue", "InvalidLabel", "ContextualKeyword"}

(* nesting of list brackets *)
RECURSIVE Balanced(_, _, _)
Balanced(out, i, d) == IF i > Len(out) THEN d = 0
                       ELSE IF out[i][1] = "[" THEN Balanced(out, i + 1, d + 1)
                       ELSE IF out[i][1] = "]" THEN d > 0 /\ Balanced(out, i + 1, d - 1)
                       ELSE Balanced(out, i + 1, d)

(* leaves occur in source order, each token is used at most once, at its own text *)
Leaves(s) == {i \in 1..Len(s.out) : s.out[i][3] # 0}
Anchored(s, ts) == /\ \A i \in Leaves(s) : s.out[i][3] <= Len(ts)
                   /\ \A i, j \in Leaves(s) : i # j => s.out[i][3] # s.out[j][3]
                   /\ \A i \in Leaves(s) : s.out[i][1] \in {"id", "number", "string", "regexp", "member", "prefix", "postfix",
                                             "binary", "logical", "key-name", "key-string", "key-number"} => ts[s.out[i][3]][1] = s.out[i][2]

(* the context is back to that of the whole program at its end, and no operand is left over *)
Clean(s) == /\ s.attr = <<>> /\ s.stk = <<>>
            /\ s.ctx.labels = NoLabels /\ ~s.ctx.fn /\ ~s.ctx.it /\ ~s.ctx.sw
(* strictness never ends before the end of its function *)
StrictMonotone == st.entry \in {"strict", "module"} => st.ctx.strict = "yes"

(* what one entry point accepts, the others it stands for accept with the same tree *)
RECURSIVE RunAll(_, _, _)
RunAll(s, ts, i) == IF i > Len(ts) \/ s.res # "open" THEN s ELSE RunAll(Feed(s, ts[i][1], ts[i][2]), ts, i + 1)
Alike(entry, s, ts) == LET r == RunAll(Begin(entry), ts, 1) IN r.res = "accept" /\ r.out = s.out
Agreement(s, ts) == CASE s.entry = "script" -> Alike("program", s, ts)
                      [] s.entry = "strict" -> Alike("script", s, ts)
                      [] s.entry = "module" -> Alike("script", s, ts) /\ Alike("strict", s, ts)
                      [] s.entry = "program" -> Alike("script", s, ts) \/ Alike("module", s, ts)

(* A newline decides something only before an increment or decrement, after a jump or throw, and before a token that cannot
   follow: everywhere else one can be put in. Free: the tokens before which one can, up to the one reported *)
NoNewlineBefore == {"++", "--"}
NoNewlineAfter == {"return", "break", "continue", "throw"}
Free(s, ts) == LET last == IF s.res = "accept" THEN Len(ts) ELSE IF s.err[3] = 0 THEN Len(ts) - 1 ELSE s.err[3] - 1 IN
               {i \in 1..last : ~ts[i][2] /\ ts[i][1] \notin NoNewlineBefore /\ (i = 1 \/ ts[i - 1][1] \notin NoNewlineAfter)}
Spread(s, ts) == LET r == RunAll(Begin(s.entry), [i \in 1..Len(ts) |-> <<ts[i][1], ts[i][2] \/ i \in Free(s, ts)>>], 1) IN
                 r.res = s.res /\ r.err = s.err /\ (s.res = "accept" => r.out = s.out)

Outcome(s, ts) == [entry |-> s.entry, toks |-> ts, res |-> s.res, err |-> s.err, out |-> IF s.res = "accept" THEN s.out ELSE <<>>,
                   deferred |-> s.deferred, free |-> Free(s, ts)]
Good(s, ts) == /\ CheckSpread => Spread(s, ts)
               /\ s.res = "accept" => Balanced(s.out, 1, 0) /\ Anchored(s, ts) /\ Clean(s) /\ (CheckEntries => Agreement(s, ts))

Checked ==
    /\ StrictMonotone
    /\ IF Open(st)
       THEN env.mod # 0 =>
            LET c == Complete(st, toks) IN
            /\ c[1].res = "accept" \/ c[1].err[1] \in FoundLate
            /\ Good(c[1], c[2])
            /\ PrintT(ToJson(Outcome(c[1], c[2])))
       ELSE Good(st, toks) /\ PrintT(ToJson(Outcome(st, toks)))
=============================================================================
