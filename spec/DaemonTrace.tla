------------------------------- MODULE DaemonTrace -------------------------------
(* Is every recorded execution a behaviour of Daemon?  The variable S is the set  *)
(* of states the specification may be in after the events consumed so far; a    *)
(* trace is rejected at the first event that leaves no state.                   *)
EXTENDS Daemon, Json, IOUtils

Dir  == IOEnv.TRACE_DIR
Cfgs == ndJsonDeserialize(Dir \o "/cfgs.ndjson")
Trs  == ndJsonDeserialize(Dir \o "/traces.ndjson")

VARIABLES tr, l, S
vars == <<tr, l, S>>

C == Cfgs[Trs[tr].c]
Init == tr \in DOMAIN Trs /\ l = 0 /\ S = {S0(Cfgs[Trs[tr].c])}
Next == /\ l < Len(Trs[tr].ev)
        /\ S # {}
        /\ l' = l + 1
        /\ S' = UNION {Step(C, s, Trs[tr].ev[l + 1]) : s \in S}
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars

Accepted == S # {} \/ PrintT(<<"REJECT", Trs[tr].id, Trs[tr].seed, tr, l>>)
=============================================================================
