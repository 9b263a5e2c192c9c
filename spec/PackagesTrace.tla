----------------------------- MODULE PackagesTrace -----------------------------
(* Programs built with each set of features, judged by Packages.               *)
EXTENDS Packages, TLC, Json, IOUtils
CONSTANT Chunks
Data == ndJsonDeserialize(IOEnv.DATA)
Total == Len(Data)
VARIABLE i
TInit == i \in 1..Total /\ on = {Data[i].features[k] : k \in 1..Len(Data[i].features)}
TNext == UNCHANGED <<i, on>>
TSpec == TInit /\ [][TNext]_<<i, on>>
r == Data[i]
Items == {r.items[k] : k \in 1..Len(r.items)}
Builds == Buildable(on) => r.built
AllThere == r.built => Offered(on) \subseteq Items
DefaultByPriority == r.built => r.default = Default(on)
AnswersRight == r.built => ~r.wrong
==============================================================================
