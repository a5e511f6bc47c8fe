---------------------------- MODULE CameraFitMC -----------------------------
(* Every sequence of up to N operations on every small optimization problem.  *)
EXTENDS CameraFit, Json, TLC
CONSTANTS N
VARIABLES m, cams, saved, ops
vars == <<m, cams, saved, ops>>
R(attr, idx) == [attr |-> attr, idx |-> idx, min |-> <<>>, max |-> <<>>]
Vec0(i) == [p \in 1..NP |-> CASE p \in 1..6 -> (100 * i + p) * U [] p \in 7..8 -> 32 * U [] p \in 9..10 -> (8 + 4 * i) * U
                            [] p \in 11..12 -> i * U [] OTHER -> 0]
Built == <<Vec0(1), Vec0(2)>>
CamSels == {<< <<>>, <<>> >>, << <<R("viewdir", <<0, 1, 2>>)>>, <<>> >>, << <<R("viewdir", <<1>>)>>, <<R("c", <<-1>>), R("viewdir", <<2, 1>>)>> >>,
            << <<[attr |-> "f", idx |-> <<1, 0>>, min |-> <<8 * U, NONE>>, max |-> <<30 * U>>]>>, <<R("xyz", <<>>)>> >>}
Groups == {[idx |-> << <<1, 2>> >>, sel |-> << <<>> >>], [idx |-> << <<1, 2>> >>, sel |-> << <<R("viewdir", <<0, 1>>)>> >>],
           [idx |-> << <<2>>, <<1, 2>> >>, sel |-> << <<R("c", <<0>>)>>, <<R("viewdir", <<0>>), [attr |-> "f", idx |-> <<0>>, min |-> <<NONE>>, max |-> <<18 * U>>]>> >>],
           [idx |-> << <<1>>, <<1, 2>> >>, sel |-> << <<R("c", <<0>>)>>, <<R("c", <<0, 1>>)>> >>],
           [idx |-> << <<1>>, <<2>> >>, sel |-> << <<R("k", <<0>>)>>, <<R("k", <<0>>)>> >>]}
Ctrls == <<[cams |-> <<1>>], [cams |-> <<2>>]>>
Model(cs, g) == [built |-> Built, camsel |-> cs, groups |-> g.idx, groupsel |-> g.sel]
Vals(mm, k) == [n \in DOMAIN Slots(mm) |-> (1000 * k + n) * U]
Ops == {[op |-> "set", k |-> 1, save |-> 0], [op |-> "set", k |-> 2, save |-> 0], [op |-> "set", k |-> 3, save |-> 1],
        [op |-> "predict", k |-> 4, save |-> 0], [op |-> "reset", k |-> 0, save |-> 0], [op |-> "update", k |-> 0, save |-> 0],
        [op |-> "edit", k |-> 1, save |-> 0], [op |-> "edit", k |-> 2, save |-> 0]}
Init == /\ \E cs \in CamSels, g \in Groups : m = Model(cs, g)
        /\ cams = Built /\ saved = Built /\ ops = <<>>
Next == /\ Len(ops) < N /\ ~Rejected(m, Ctrls)
        /\ \E o \in Ops :
             /\ ops' = Append(ops, o)
             /\ cams' = CASE o.op = "set" -> Applied(m, cams, Vals(m, o.k)) [] o.op = "reset" -> saved
                          [] o.op = "edit" -> [cams EXCEPT ![o.k][4] = 7 * U, ![o.k][9] = 5 * U] [] OTHER -> cams
             /\ saved' = IF o.save = 1 THEN cams' ELSE saved
             /\ m' = IF o.op = "update" THEN [m EXCEPT !.built = cams] ELSE m
Spec == Init /\ [][Next]_vars
Masks == UNION {{<<i, p>> : p \in Mask(m.camsel[i]) \cup UNION {Mask(m.groupsel[g]) : g \in {g \in DOMAIN m.groups : InGroup(m, g, i)}}} : i \in 1..2}
Edited == \E j \in DOMAIN ops : ops[j].op = "edit"
\* Only requested parameters ever change
OnlyRequested == ~Edited => \A i \in 1..2, p \in 1..NP : cams[i][p] = Built[i][p] \/ <<i, p>> \in Masks
\* Reading the parameters of cameras back returns the values applied, where not overridden by a camera's own
ReadsBack ==
  (ops # <<>> /\ ops[Len(ops)].op = "set") =>
    \A n \in DOMAIN Slots(m) : LET s == Slots(m)[n] IN
      \A j \in DOMAIN Members(m, s) :
        (s.cam = 0 /\ s.pos \in Mask(m.camsel[Members(m, s)[j]])) \/ cams[Members(m, s)[j]][s.pos] = Vals(m, ops[Len(ops)].k)[n]
Restores == (ops # <<>> /\ ops[Len(ops)].op = "reset") => cams = saved
InBounds == ~Rejected(m, Ctrls) => \A n \in DOMAIN Slots(m) : LET s == Slots(m)[n] IN
  Lo(m, s) <= Hi(m, s) => (Lo(m, s) <= Initial(m, s) /\ Initial(m, s) <= Hi(m, s))
EachOnce == \A n, k \in DOMAIN Slots(m) : n # k => Slots(m)[n] # Slots(m)[k]
Conflict == Rejected(m, Ctrls) <=> m.groupsel = << <<R("c", <<0>>)>>, <<R("c", <<0, 1>>)>> >>
Emit == (Len(ops) = N \/ Rejected(m, Ctrls)) => PrintT(ToJson([m |-> m, ops |-> ops]))
=============================================================================
