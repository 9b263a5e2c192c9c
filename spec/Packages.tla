------------------------------- MODULE Packages -------------------------------
(***************************************************************************)
(* What the library offers with which package features.  A program may       *)
(* switch features on one after the other (as the parts of a program that    *)
(* use the library do for all of it): nothing that was there may vanish.     *)
(*                                                                          *)
(* Recorded (PackagesTrace): programs that use everything that should be     *)
(* there; without "std" they are programs without std, so that a library     *)
(* that needed it would not link.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Generators == {"wyrng", "oorandom", "fastrand"}
Features == Generators \cup {"alloc", "std", "anticipate"}

Always == {"basic::equiv", "basic::limited_equiv", "Unlimited", "Limited", "Interleave", "precheck_interleave::equiv",
           "CallStack", "LimitReached", "EdgesIter", "RefId"}
WithAlloc == {"deep_safe::equiv", "deep_safe::limited_equiv", "wide_safe::equiv", "wide_safe::limited_equiv",
              "RecurQueue", "RecurStack", "premade::rc::Rc"}
WithStd == {"premade::hash_map::Table"}
Premade == {"cycle_safe::equiv", "cycle_safe::precheck_equiv", "robust::equiv", "robust::precheck_equiv"}

\* "std" switches "alloc" on.
Closed(fs) == fs \cup (IF "std" \in fs THEN {"alloc"} ELSE {})
\* fastrand itself needs std.
Usable(fs) == (fs \cap {"wyrng", "oorandom"}) \cup (IF "std" \in fs THEN fs \cap {"fastrand"} ELSE {})
\* The premade cycle-safe functions need a generator; choosing std means choosing one.
Buildable(fs) == "std" \in fs => Usable(fs) # {}

Offered(fs) ==
    Always \cup (IF "alloc" \in fs THEN WithAlloc ELSE {})
           \cup (IF "std" \in fs THEN WithStd \cup Premade ELSE {})
           \cup {"random::" \o x : x \in Usable(fs)}
           \cup (IF Usable(fs) # {} THEN {"random::default"} ELSE {})
Default(fs) ==
    CASE "wyrng" \in fs -> "random::wyrng"
      [] "wyrng" \notin fs /\ "oorandom" \in fs -> "random::oorandom"
      [] "wyrng" \notin fs /\ "oorandom" \notin fs /\ Usable(fs) # {} -> "random::fastrand"
      [] OTHER -> "none"

VARIABLE on
PInit == on = {}
PNext == \/ \E f \in Features : on' = Closed(on \cup {f})
         \/ UNCHANGED on
PSpec == PInit /\ [][PNext]_on

NothingVanishes == [][Offered(on) \subseteq Offered(on')]_on
DefaultOffered == Default(on) # "none" => Default(on) \in Offered(on)
\* Everything that the premade functions do can be put together without any feature.
GenericSuffices == {"Interleave", "precheck_interleave::equiv", "Unlimited", "Limited", "CallStack"} \subseteq Offered({})
PTypeOK == on \subseteq Features /\ GenericSuffices
==============================================================================
