------------------------------ MODULE TraceKit ------------------------------
(* Shared machinery of every trace specification.                            *)
(*                                                                           *)
(* A trace is an ndjson file; each line is one event recorded at the return  *)
(* of one public call (or one step of an iterator) of the real code.  Every  *)
(* event carries                                                             *)
(*    op   : the action it claims to be an instance of                       *)
(*    cid  : number of the case (independent run) it belongs to              *)
(*    err  : "" or the class of the exception that the call ended with       *)
(* A check is *total*: each event is judged by a chain of named clauses (the *)
(* name of the first one that fails, or ""); the failures are collected and  *)
(* the verdict is printed when the whole trace has been consumed.            *)
EXTENDS Integers, Sequences, TLC, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)

MaxReport == 60

\* a request that is documented to be refused
Refusal(err) == IF err = "" THEN "unsupported request accepted" ELSE ""
Report(bad, ln, name) ==
  IF name = "" \/ Len(bad) >= MaxReport THEN bad
  ELSE Append(bad, [line |-> ln, cid |-> Trace[ln].cid,
                    op |-> Trace[ln].op, clause |-> name])

PrintVerdict(bad) ==
  PrintT("VERDICT " \o ToJson([consumed |-> Len(Trace), bad |-> bad]))
=============================================================================
