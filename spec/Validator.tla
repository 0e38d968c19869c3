----------------------------- MODULE Validator -----------------------------
(* The package check: which packages are admitted, and that nothing of a    *)
(* package runs before all of it was read and found clean.                   *)
(*                                                                           *)
(* A package is a sequence of files [at |-> place, ss |-> statements].  A    *)
(* place is <<kind, path>> with kind "source", "compiled" (a module without   *)
(* source), "native" (an extension module) or "data".                        *)
(* A statement is <<sort, ...>>, wherever it is nested:                       *)
(*   <<"import", module>>       import of a module by its absolute name       *)
(*   <<"star", module>>         from module import *                          *)
(*   <<"from", module, name>>   from module import name                       *)
(*   <<"own", level, module>>   from .module import ..., of the own package   *)
(*   <<"name", n>>              code that names the builtin n                 *)
(*   <<"word", n>>              n as a text, parameter or argument name       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Library == "iconservice"
Forbidden == {"exec", "eval", "compile", "__import__"}
Clean(s) ==
  CASE s[1] = "import" -> s[2] = Library
    [] s[1] = "star" -> s[2] = Library
    [] s[1] = "from" -> FALSE      \* single names of the library are left open, and not generated
    [] s[1] = "own" -> s[2] > 0
    [] s[1] = "name" -> s[2] \notin Forbidden
    [] s[1] = "word" -> TRUE
    [] OTHER -> FALSE
CleanFile(f) ==
  CASE f.at[1] = "data" -> TRUE
    [] f.at[1] = "native" -> FALSE
    [] OTHER -> \A i \in 1..Len(f.ss) : Clean(f.ss[i])
Admitted(p) == \A i \in 1..Len(p) : CleanFile(p[i])
=============================================================================
