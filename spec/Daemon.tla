-------------------------------- MODULE Daemon --------------------------------
(* A daemon of a pipeline: its task is called every c.ms milliseconds (or after  *)
(* the time modify() asks for, once), from a successful init() of the pipeline   *)
(* until destroy(), and at no other time.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

SLACK == 5
S0(c) == [ph |-> "off",           \* of the pipeline: off, init, on, stop, proc (within process())
          d |-> "off",            \* of the daemon: off, sleep, task, mod
          lo |-> 0, hi |-> 0,     \* when the next task is due
          st |-> 0, ran |-> FALSE]

Off(s) == [s EXCEPT !.ph = "off", !.d = "off", !.ran = FALSE]
Late(s, v) == s.ph = "on" /\ s.d = "sleep" /\ v.ms > s.hi + SLACK

Move(c, s, v) ==
    CASE v.v = "call" /\ v.s = "init" -> IF s.ph = "off" THEN {[s EXCEPT !.ph = "init", !.d = "sleep", !.lo = v.ms + c.ms]} ELSE {s}
      [] v.v = "ret" /\ v.s = "init" ->
           IF s.ph # "init" THEN {s}
           ELSE IF v.n # 0 THEN (IF s.ran THEN {} ELSE {Off(s)})      \* a failed init() starts no daemon
           ELSE {IF s.d = "sleep" /\ ~s.ran THEN [s EXCEPT !.ph = "on", !.hi = v.ms + c.ms] ELSE [s EXCEPT !.ph = "on", !.hi = IF @ < v.ms THEN v.ms ELSE @]}
      [] v.v = "call" /\ v.s \in {"destroy"} -> IF s.ph = "on" THEN {[s EXCEPT !.ph = "stop"]} ELSE {s}
      [] v.v = "ret" /\ v.s \in {"destroy"} ->
           IF s.ph # "stop" THEN {s} ELSE IF s.d \in {"task", "mod"} THEN {} ELSE {Off(s)}
      [] v.v = "call" /\ v.s = "process" -> IF s.ph = "off" THEN {[s EXCEPT !.ph = "proc", !.d = "sleep", !.lo = v.ms + c.ms]} ELSE {s}
      [] v.v = "ret" /\ v.s = "process" ->
           IF s.ph # "proc" THEN {s} ELSE IF s.d \in {"task", "mod"} THEN {} ELSE {Off(s)}
      [] v.v = "dmb" ->
           IF s.ph # "off" /\ s.d = "sleep" /\ v.ms >= s.lo THEN {[s EXCEPT !.d = "task", !.st = v.ms, !.ran = TRUE]} ELSE {}
      [] v.v = "dme" -> IF s.d = "task" THEN {[s EXCEPT !.d = "mod"]} ELSE {}
      [] v.v = "dmm" ->
           IF s.d # "mod" THEN {}
           ELSE LET due == IF v.n > 0 THEN v.ms + v.n ELSE IF c.ms > v.ms - s.st THEN s.st + c.ms ELSE v.ms + c.ms
                IN  {[s EXCEPT !.d = "sleep", !.lo = due - 1, !.hi = due]}
      [] v.v = "end" -> IF s.d \in {"task", "mod"} THEN {} ELSE {s}
      [] v.v = "fault" -> {}
      [] OTHER -> {s}

Step(c, s, v) == IF Late(s, v) THEN {} ELSE Move(c, s, v)
=============================================================================
