----------------------------- MODULE TrackingMC -----------------------------
(* Protocol of tracking several points one after the other with one tracker, *)
(* whose templates are shared state.                                         *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Json, TLC
CONSTANTS T, O, K
VARIABLES
  cfg,   \* matched[i]: observers with an image at time i; mask[k]; fail[k]: failing time (0 if none)
  k, i, phase,
  tmpl,  \* tmpl[o]: track and time of the template of observer o
  ev,    \* evidence used at the current time
  est,   \* est[k]: times with estimates
  err    \* err[k]: failed
vars == <<cfg, k, i, phase, tmpl, ev, est, err>>
Obs == 1..O
Tracks == 1..K
Steps == 1..T
Observed(x) == {t \in Steps : cfg.matched[t] \cap cfg.mask[x] # {}}
FirstObs(x) == IF Observed(x) = {} THEN 0 ELSE Min(Observed(x))
LastObs(x) == IF Observed(x) = {} THEN 0 ELSE Max(Observed(x))
FirstMatch(o) == LET S == {t \in Steps : o \in cfg.matched[t]} IN IF S = {} THEN 0 ELSE Min(S)
Init ==
  /\ cfg \in [matched : [Steps -> SUBSET Obs], mask : [Tracks -> SUBSET Obs \ {{}}], fail : [Tracks -> 0..T]]
  /\ k = 1 /\ i = 0 /\ phase = "next"
  /\ tmpl = [o \in Obs |-> <<0, 0>>] /\ ev = {}
  /\ est = [x \in Tracks |-> {}] /\ err = [x \in Tracks |-> FALSE]
\* Start the track at its first observed time, or move to the next time
Start == /\ phase = "next" /\ k <= K /\ i = 0
         /\ IF FirstObs(k) = 0 THEN k' = k + 1 /\ i' = 0 /\ UNCHANGED phase ELSE k' = k /\ i' = FirstObs(k) /\ phase' = "moved"
         /\ UNCHANGED <<cfg, tmpl, ev, est, err>>
Advance == /\ phase = "next" /\ k <= K /\ i > 0
           /\ IF i = LastObs(k) THEN k' = k + 1 /\ i' = 0 /\ UNCHANGED phase ELSE k' = k /\ i' = i + 1 /\ phase' = "moved"
           /\ UNCHANGED <<cfg, tmpl, ev, est, err>>
Fail == /\ phase = "moved" /\ cfg.fail[k] = i
        /\ err' = [err EXCEPT ![k] = TRUE] /\ k' = k + 1 /\ i' = 0 /\ phase' = "next"
        /\ UNCHANGED <<cfg, tmpl, ev, est>>
Template == /\ phase = "moved" /\ cfg.fail[k] # i
            /\ tmpl' = [o \in Obs |-> IF o \in cfg.mask[k] /\ FirstMatch(o) = i THEN <<k, i>> ELSE tmpl[o]]
            /\ phase' = "ready" /\ UNCHANGED <<cfg, k, i, ev, est, err>>
Evidence == /\ phase = "ready"
            /\ ev' = IF i > FirstObs(k) THEN {<<o, tmpl[o]>> : o \in cfg.matched[i] \cap cfg.mask[k]} ELSE {}
            /\ phase' = "weighed" /\ UNCHANGED <<cfg, k, i, tmpl, est, err>>
Record == /\ phase = "weighed" /\ est' = [est EXCEPT ![k] = @ \cup {i}]
          /\ phase' = "next" /\ UNCHANGED <<cfg, k, i, tmpl, ev, err>>
Next == Start \/ Advance \/ Fail \/ Template \/ Evidence \/ Record
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TypeOK == phase \in {"next", "moved", "ready", "weighed"} /\ k \in 1..K + 1 /\ i \in 0..T
\* Evidence compares with a template of the same track, taken at the first match of the observer
OwnTemplate == phase = "weighed" => \A e \in ev : e[2] = <<k, FirstMatch(e[1])>> /\ FirstMatch(e[1]) <= i
\* Evidence is of exactly the unmasked observers matched
Exactly == phase = "weighed" /\ i > FirstObs(k) => {e[1] : e \in ev} = cfg.matched[i] \cap cfg.mask[k]
\* Estimates of finished tracks do not depend on other tracks
Window(x) == IF FirstObs(x) = 0 THEN {} ELSE FirstObs(x)..LastObs(x)
Expected(x) == IF cfg.fail[x] \in Window(x) THEN FirstObs(x)..cfg.fail[x] - 1 ELSE Window(x)
Isolated == \A x \in 1..k - 1 : est[x] = Expected(x) /\ err[x] = (cfg.fail[x] \in Window(x))
NotYet == \A x \in k + 1..K : est[x] = {}
Terminates == <>(k = K + 1)
Emit == (k = 1 /\ i = 0 /\ phase = "next") => PrintT(ToJson(cfg))
=============================================================================
