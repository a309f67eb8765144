-------------------------------- MODULE MsgTrace --------------------------------
(* Is every recorded execution a behaviour of Msg?  (see PipeTrace)             *)
EXTENDS Msg, Json, IOUtils

Dir  == IOEnv.TRACE_DIR
Cfgs == ndJsonDeserialize(Dir \o "/cfgs.ndjson")
Trs  == ndJsonDeserialize(Dir \o "/traces.ndjson")

VARIABLES tr, l, S
vars == <<tr, l, S>>

C == Cfgs[Trs[tr].c]
Init == tr \in DOMAIN Trs /\ l = 0 /\ S = {S0(Cfgs[Trs[tr].c])}
Next == /\ l < Len(Trs[tr].ev)
        /\ S # {}
        /\ l' = l + 1
        /\ S' = StepSet(C, S, Trs[tr].ev[l + 1])
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars

Accepted == S # {} \/ PrintT(<<"REJECT", Trs[tr].id, Trs[tr].seed, tr, l>>)
=============================================================================
