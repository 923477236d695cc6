--------------------------- MODULE ComponentHist ---------------------------
(* Generates every history of Observe / Forget steps of a given length     *)
(* over the given rowids and values: the tests replayed into the real      *)
(* components.                                                             *)
EXTENDS Expr, Json, IOUtils
Conf == ndJsonDeserialize(IOEnv.QIN)[1]
Rowids == 0..(Conf.rows - 1)
Codes  == Range(Conf.codes)
RECURSIVE Hist(_,_)
Hist(n, present) ==
  IF n = 0 THEN {<<>>}
  ELSE UNION ({ {<<<<"+", r, x>>>> \o h : h \in Hist(n-1, present \cup {r})} :
                 r \in Rowids \ present, x \in Codes }
         \cup { {<<<<"-", r, 0>>>> \o h : h \in Hist(n-1, present \ {r})} : r \in present })
ASSUME ndJsonSerialize(IOEnv.QOUT, <<SetSeq(Hist(Conf.len, {}))>>)
=============================================================================
