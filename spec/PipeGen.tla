-------------------------------- MODULE PipeGen --------------------------------
(* TLC's simulator walks through PipeMC at random; every walk that ends is      *)
(* printed as the sequence of its events, to be replayed on the real code.      *)
EXTENDS PipeMC
VARIABLE log
GInit == Init /\ log = <<>>
GNext == ~Over /\ \E v \in Cand : Event(v) /\ log' = Append(log, <<v.v, v.e, v.n, v.s, v.a>>)
GSpec == GInit /\ [][GNext]_<<vars, log>>
Ended == ~Over \/ PrintT("WALK " \o ToJson([ci |-> ci, log |-> log]))
=============================================================================
