------------------------------- MODULE CfgAll -------------------------------
(***************************************************************************)
(* All contracts together.                                                 *)
(***************************************************************************)
EXTENDS CfgText, CfgGen

Contract(p, s, ev) ==
  CASE p = "C23" -> C23(s, ev)
    [] p = "C24" -> C24(s, ev)
    [] p = "C25" -> C25(s, ev)
    [] p = "C26" -> C26(s, ev)
    [] p = "C27" -> C27(s, ev)
    [] p = "C28" -> C28(s, ev)
    [] p = "C30" -> C30(s, ev)
    [] p = "C32" -> C32(s, ev)
    [] p = "C33" -> C33(s, ev)
    [] p = "C34" -> C34(s, ev)
    [] OTHER -> GrammarContract(p, s, ev)
\* the operations a property speaks about
OpsOf(p) ==
  CASE p = "C23" -> {"gen"}
    [] p = "C24" -> {"pick", "wgen"}
    [] p = "C25" -> {"load"}
    [] p = "C26" -> {"loadadv"}
    [] p = "C27" -> {"regexp"}
    [] p = "C28" -> {"lexmap"}
    [] p = "C30" -> {"sersym", "serbad", "sernames", "serset", "sermap", "serhist"}
    [] p = "C32" -> {"bnf", "rulenames"}
    [] p = "C33" -> {"load", "loadadv"}
    [] p = "C34" -> {"fork"}
    [] OTHER -> PropOps(p)
=============================================================================
