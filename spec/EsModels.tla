------------------------------ MODULE EsModels ------------------------------
(***************************************************************************)
(* Programs and their documents: every program of the parser's models, and     *)
(* every given one, is described and read back.                              *)
(***************************************************************************)
EXTENDS ParseModels, EsTree

Report(s, ts) == IF s.res # "accept" THEN TRUE
                 ELSE LET d == Describe(s.out) IN
                      /\ RoundTrips(s.out)
                      /\ PrintT(ToJson([entry |-> s.entry, toks |-> ts, doc |-> d, out |-> Read(d), alike |-> ~LooksLikeDirective(s.out)]))
RoundTripped == IF Open(st) THEN env.mod # 0 => LET c == Complete(st, toks) IN Report(c[1], c[2])
                ELSE Report(st, toks)

(* one program for every kind of node, in every place that has readers of its own *)
EsSmall == Model(Done \cup Cat({<<"(">>}, TargetForms) \cup Cat(Positions, {<<>>}) \cup Cat(Bodies, Endings), {"a", ";", ")", "}"}, 1, No, Script)
EsQuick == << EsSmall >>
EsThorough == << GalleryModel, ExprQuick[3], ExprQuick[4], ExprQuick[6], StmtQuick[1], ArrModel(6), ObjModel(6), ForModel(6), FunModel(8) >>
=============================================================================
