----------------------------- MODULE MetadataMC ------------------------------
(* Every combination of what is given and what is stored; every short history  *)
(* of reading and writing metadata; every few digits of subseconds.            *)
EXTENDS Metadata, Json, TLC
CONSTANTS Depth
VARIABLES kind, g, m, form, ops, disk, mem, sub
vars == <<kind, g, m, form, ops, disk, mem, sub>>
Opt(v) == {<<>>, v}
Given == [size : Opt(<<40, 30>>), f : Opt(<<50, 60>>), fmm : Opt(<<28, 1>>), sensor : Opt(<<240, 180>>), cmm : {<<>>}, time : Opt(<<2020, 1, 2, 3, 4, 5, 6>>)]
Stored == [size : Opt(<<20, 10>>), fmm : Opt(<<200, 10>>), sensor : Opt(<<236, 158>>), time : Opt(<<2014, 10, 13, 2, 3, 36, 280000>>)]
None == [size |-> <<>>, f |-> <<>>, fmm |-> <<>>, sensor |-> <<>>, cmm |-> <<>>, time |-> <<>>]
Nothing == [size |-> <<>>, fmm |-> <<>>, sensor |-> <<>>, time |-> <<>>]
InitImage == kind = "image" /\ g \in Given /\ m \in Stored /\ form \in {"stored", "passed", "missing"} /\ ops = <<>> /\ disk = <<1, 2>> /\ mem = 0 /\ sub = <<>>
InitHistory == kind = "history" /\ g = None /\ m = Nothing /\ form = "" /\ ops = <<>> /\ disk = <<1, 2>> /\ mem = 0 /\ sub = <<>>
InitTime == kind = "time" /\ g = None /\ m = Nothing /\ form = "" /\ ops = <<>> /\ disk = <<1, 2>> /\ mem = 0 /\ sub = <<>>
Init == InitImage \/ InitHistory \/ InitTime
More(op) == ops' = Append(ops, op)
Digit2 == /\ kind = "time" /\ Len(sub) < Depth + 4 /\ \E c \in {"0", "5", "9"} : sub' = Append(sub, c)
          /\ UNCHANGED <<kind, g, m, form, ops, disk, mem>>
Load == \E f \in 1..2 : mem' = disk[f] /\ disk' = disk /\ More(<<"load", f>>)
Set == mem # 0 /\ \E v \in 3..4 : mem' = v /\ disk' = disk /\ More(<<"set", v>>)
Insert == mem # 0 /\ \E f \in 1..2 : disk' = [disk EXCEPT ![f] = mem] /\ mem' = mem /\ More(<<"insert", f>>)
Step == kind = "history" /\ Len(ops) < Depth /\ (Load \/ Set \/ Insert) /\ UNCHANGED <<kind, g, m, form, sub>>
Next == Digit2 \/ Step
Spec == Init /\ [][Next]_vars
(* ---- Properties ---- *)
C == Camera(g, m)
Precedence == /\ (g.size # <<>> => C.size = g.size) /\ (g.f # <<>> => C.f = g.f) /\ (g.fmm # <<>> => C.fmm = g.fmm) /\ (g.sensor # <<>> => C.sensor = g.sensor)
\* Metadata does not matter if all is given
NotRead == ~Reads(g, "parameters") => \A o \in Stored : Camera(g, o) = C
\* More metadata is no worse unless the sensor size alone is unknown
NoWorse == Usable(C) => \A o \in Stored : ((m.size # <<>> => o.size = m.size) /\ (m.fmm # <<>> => o.fmm = m.fmm) /\ (m.sensor # <<>> => o.sensor = m.sensor)) => Usable(Camera(g, o))
Known == kind = "image" => (Usable(C) => C.size # <<>> /\ (C.f # <<>> \/ C.fmm # <<>>))
\* What is stored changes only by writing
OnlyInserts == [][disk' # disk => \E f \in 1..2 : ops' = Append(ops, <<"insert", f>>) /\ disk'[f] = mem]_vars
Digits6 == kind = "time" => Micro(sub) = Micro(Append(sub, "0")) /\ Micro(sub) < 1000000
  /\ (Len(sub) >= 6 => Micro(sub) = Micro(SubSeq(sub, 1, 6))) /\ Micro(<<" ">> \o sub \o <<" ", Nul, "9">>) = Micro(sub)
Emit == PrintT(ToJson(IF kind = "image" THEN [kind |-> kind, g |-> g, m |-> m, form |-> form]
                      ELSE IF kind = "history" THEN [kind |-> kind, ops |-> ops, full |-> Len(ops) = Depth] ELSE [kind |-> kind, sub |-> sub]))
=============================================================================
