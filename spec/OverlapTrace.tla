--------------------------- MODULE OverlapTrace ---------------------------
(* Recorded processes with overlapping calls.  events:                              *)
(*   alone  key, res                       the answer of a call on its own            *)
(*   begin  t, key                         thread t enters a call                      *)
(*   turn   t, moved                       t is interrupted inside of a call            *)
(*   end    t, key, res, mode              t leaves its innermost call                   *)
(*   after  moved, world                   when all calls have ended                      *)
(* moved: the arguments that differ from what the user made them                          *)
EXTENDS TraceKit, Overlap
VARIABLES alone, nest
vars == <<run, l, alone, nest>>
Init == run \in DOMAIN Runs /\ l = 1 /\ alone = <<>> /\ nest = <<<<>>, <<>>, <<>>>>
Arguments(e) == {"ArgumentSeenChanged " \o e.moved[i] : i \in DOMAIN e.moved}
Clauses(e) ==
    CASE e.op = "alone" -> {}
      [] e.op = "begin" -> Need(Known(alone, e.key) # {}, "Recorder")
      [] e.op = "turn" -> Need(Inside(nest, e.t), "Recorder") \cup Arguments(e)
      [] e.op = "end" -> Need(EndFits(nest, e.t, e.key), "Recorder") \cup Need(AsAlone(alone, e.key, e.res), "AnswersAsAlone")
                         \cup Need(e.mode = "near", "RoundingModeAfterACall")
      [] e.op = "after" -> Need(\A t \in DOMAIN nest : ~Inside(nest, t), "CallsEnd") \cup Arguments(e)
                           \cup {"ChangesProcess " \o e.world[i] : i \in DOMAIN e.world}
Step == /\ More /\ Report(Clauses(Ev)) /\ l' = l + 1 /\ UNCHANGED run
        /\ alone' = IF Ev.op = "alone" THEN Learn(alone, Ev.key, Ev.res) ELSE alone
        /\ nest' = CASE Ev.op = "begin" -> Enter(nest, Ev.t, Ev.key)
                     [] Ev.op = "end" /\ Inside(nest, Ev.t) -> Leave(nest, Ev.t)
                     [] OTHER -> nest
=============================================================================
