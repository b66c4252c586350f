------------------------------ MODULE MCJoker ------------------------------
(***************************************************************************)
(* Exploration of the tokenizer machine.  Initial states:                    *)
(*  - for each model of Models, an open input starting with one of its        *)
(*    prefixes pre, which the environment extends by up to max characters of  *)
(*    the alphabet abc before closing it (so every input pre ++ w, |w| <= max, *)
(*    is explored);                                                          *)
(*  - every complete input of Seeds, with every choice of operator flags;     *)
(*  - every complete input of Scripts, with its own operator flags (these     *)
(*    are long random inputs made by the conformance harness).                *)
(* Each terminal state is printed as one behaviour for the harness to replay. *)
(***************************************************************************)
EXTENDS Joker, Json, IOUtils

CONSTANTS Models, Seeds, UseScripts, Emit

Scripts == IF UseScripts THEN ndJsonDeserialize(IOEnv.CONFORM_INPUTS) ELSE <<>>

VARIABLE env       \* [mod |-> index in Models or 0, n |-> length of the prefix, script |-> index in Scripts or 0]

mcvars == <<lexvars, env>>

MCInit == /\ LexInit
          /\ \/ \E i \in 1..Len(Models) :
                /\ src \in Models[i].pre /\ closed = FALSE
                /\ env = [mod |-> i, n |-> Len(src), script |-> 0]
             \/ /\ src \in Seeds /\ closed = TRUE
                /\ env = [mod |-> 0, n |-> 0, script |-> 0]
             \/ \E i \in 1..Len(Scripts) :
                /\ src = Scripts[i].src /\ closed = TRUE
                /\ env = [mod |-> 0, n |-> 0, script |-> i]

OpChoice == IF env.script = 0 THEN {"div", "re"}
            ELSE {Scripts[env.script].ops[Len(ops) + 1]}

MCNext == /\ \/ LexStep(OpChoice)
             \/ /\ env.mod # 0
                /\ Len(src) - env.n < Models[env.mod].max
                /\ \E c \in Models[env.mod].abc : Extend(c)
             \/ Close
          /\ UNCHANGED env

MCSpec == MCInit /\ [][MCNext]_mcvars

Outcome == [src |-> src, closed |-> closed, ops |-> ops, toks |-> toks,
            err |-> IF m.mode = "err" THEN <<m.kind, m.arg, m.in>> ELSE <<>>]

Checked == Terminal => /\ LexInv
                       /\ Emit => PrintT(ToJson(Outcome))
=============================================================================
