--------------------------- MODULE LexBesideMore ---------------------------
(* Any lexeme, one of a kind, any lexeme. *)
EXTENDS LexBeside
BesideMoreSeeds == Beside(Beside(Lexemes, FewLexemes), Lexemes)
=============================================================================
