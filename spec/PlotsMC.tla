------------------------------- MODULE PlotsMC -------------------------------
(* A figure, with plots of controls one after another. *)
EXTENDS Plots, Json, TLC
CONSTANT Depth
VARIABLES fig, ops, opened
N == 2
Selections == {[kind |-> "all", v |-> <<>>], [kind |-> "list", v |-> <<>>], [kind |-> "list", v |-> <<-1>>], [kind |-> "list", v |-> <<1, 0>>],
  [kind |-> "mask", v |-> <<1, 0>>], [kind |-> "slice", v |-> <<1, NONE, NONE>>], [kind |-> "slice", v |-> <<NONE, NONE, -1>>]}
Kinds == {"points", "lines", "matches", "other", "cameras"}
Plot == \E k \in Kinds, s \in Selections, hs, hu \in {0, 1} : LET p == Parts(Chosen(s, N), N, <<hs, hu>>) IN
  /\ ops' = Append(ops, [op |-> "plot", kind |-> k, sel |-> s, hide |-> <<hs, hu>>])
  /\ fig' = [open |-> TRUE, limits |-> IF fig.open THEN fig.limits ELSE k, parts |-> fig.parts \o <<p[1], p[2]>>]
Close == fig.open /\ ops' = Append(ops, [op |-> "close", kind |-> "", sel |-> [kind |-> "all", v |-> <<>>], hide |-> <<>>]) /\ fig' = [open |-> FALSE, limits |-> "none", parts |-> <<>>]
Init == ops = <<>> /\ opened \in BOOLEAN /\ fig = [open |-> opened, limits |-> "none", parts |-> <<>>]
Next == Len(ops) < Depth /\ opened' = opened /\ (Plot \/ Close)
Spec == Init /\ [][Next]_<<fig, ops, opened>>
\* What is drawn stays, until the figure is closed
Stays == [][fig'.open => SubSeq(fig'.parts, 1, Len(fig.parts)) = fig.parts]_<<fig, ops, opened>>
\* Limits are those of the first plot of a figure that it opened
First == [][fig.open /\ fig'.open => fig'.limits = fig.limits]_<<fig, ops, opened>>
\* Every point is drawn once, if nothing is hidden
Once == ops = <<>> \/ ops[Len(ops)].op = "close" \/ LET o == ops[Len(ops)] n == Len(fig.parts) all == fig.parts[n - 1] \o fig.parts[n] IN
  /\ (o.hide = <<0, 0>> => Len(all) = N /\ {all[i] : i \in DOMAIN all} = 1..N)
  /\ {fig.parts[n - 1][i] : i \in DOMAIN fig.parts[n - 1]} \cap {fig.parts[n][i] : i \in DOMAIN fig.parts[n]} = {}
Pixels == \A a, b \in {<<0, 0>>, <<2, 0>>, <<2, -3>>} : a[1] = b[1] \/ a[2] = b[2] =>
  LET s == Along(<<a, b>>) IN s[1] = a /\ s[Len(s)] = b /\ Len(s) = 1 + Abs(a[1] - b[1]) + Abs(a[2] - b[2]) /\ \A i \in 2..Len(s) : Far2(s[i - 1], s[i]) = 1
Emit == Len(ops) < Depth \/ PrintT(ToJson([opened |-> opened, ops |-> ops]))
=============================================================================
