----------------------------- MODULE Datetimes -----------------------------
(* Selection and matching of image times (C03).                              *)
(* Times are integers (multiples of some unit of time).                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Abs(x) == IF x < 0 THEN -x ELSE x
Increasing(s) == \A i \in 1..Len(s) - 1 : s[i] < s[i + 1]
MonoUp(s) == \A i \in 1..Len(s) - 1 : s[i] <= s[i + 1]
MonoDown(s) == \A i \in 1..Len(s) - 1 : s[i] >= s[i + 1]
Sorted(S) == SetToSortSeq(S, <)
UnionAll(obs) == UNION {Range(obs[i]) : i \in DOMAIN obs}

(* Index (from 0) of the element of ts nearest to t (ties to the first) *)
Nearest(ts, t) ==
  CHOOSE i \in 0..Len(ts) - 1 :
    /\ \A j \in 0..Len(ts) - 1 : Abs(ts[i + 1] - t) <= Abs(ts[j + 1] - t)
    /\ \A j \in 0..i - 1 : Abs(ts[i + 1] - t) < Abs(ts[j + 1] - t)
Distance(ts, t) == Abs(ts[Nearest(ts, t) + 1] - t)

(* ---- Times requested for tracking ---- *)
Dedup(s) == [k \in 1..Cardinality({i \in DOMAIN s : i = 1 \/ s[i] # s[i - 1]}) |->
  s[CHOOSE i \in DOMAIN s : (i = 1 \/ s[i] # s[i - 1]) /\
    Cardinality({j \in 1..i : j = 1 \/ s[j] # s[j - 1]}) = k]]
Parse(obs, req, maxdt) ==
  LET all == Sorted(UnionAll(obs))
      unique == Dedup(req)
      kept == SelectSeq(unique, LAMBDA t : Distance(all, t) <= Abs(maxdt))
  IN IF ~(MonoUp(req) \/ MonoDown(req)) THEN [err |-> "ValueError", out |-> <<>>, warned |-> 0]
     ELSE IF Len(kept) < 2 THEN
       [err |-> "ValueError", out |-> <<>>,
        warned |-> (IF unique # req THEN 1 ELSE 0) + (IF kept # unique THEN 1 ELSE 0)]
     ELSE [err |-> "", out |-> kept,
        warned |-> (IF unique # req THEN 1 ELSE 0) + (IF kept # unique THEN 1 ELSE 0)]
(* Image (from 0) of each observer for each time, or -1 *)
Match(obs, req, maxdt) ==
  [i \in DOMAIN req |-> [j \in DOMAIN obs |->
    IF Distance(obs[j], req[i]) <= Abs(maxdt) THEN Nearest(obs[j], req[i]) ELSE -1]]

(* ---- Observers ---- *)
(* Missing times are coded as Missing *)
ObserverErr(ts, Missing) ==
  IF Len(ts) < 2 \/ Missing \in Range(ts) \/ ~Increasing(ts) THEN "ValueError" ELSE ""
Index(ts, t, maxdt, NoLimit) ==
  IF maxdt # NoLimit /\ Distance(ts, t) > Abs(maxdt)
  THEN [err |-> "ValueError", out |-> -1] ELSE [err |-> "", out |-> Nearest(ts, t)]

(* ---- Selection ---- *)
(* No: value that means not given *)
Select(ts, start, end, snap, maxdt, origin, No) ==
  LET s == IF start # No THEN start ELSE ts[1] - (IF snap # No THEN snap ELSE 0)
      e == IF end # No THEN end ELSE ts[Len(ts)] + (IF snap # No THEN snap ELSE 0)
      inside == {i \in DOMAIN ts : (start # No => ts[i] >= start) /\ (end # No => ts[i] <= end)}
      targets == {t \in s..e : (t - origin) % snap = 0}
      near == {Nearest(ts, t) + 1 : t \in {u \in targets :
        IF maxdt = No THEN 2 * Distance(ts, u) <= snap ELSE Distance(ts, u) <= maxdt}}
  IN IF s > e THEN [err |-> "ValueError", out |-> <<>>]
     ELSE [err |-> "", out |-> [i \in DOMAIN ts |->
       IF i \in inside /\ (snap # No => i \in near) THEN 1 ELSE 0]]
DatetimeRange(start, stop, step) ==
  [i \in 1..(IF stop < start THEN 0 ELSE (stop - start) \div step + 1) |-> start + (i - 1) * step]

(* Images (from 0) of a subset *)
Indices(mask) == SelectSeq([i \in DOMAIN mask |-> i - 1], LAMBDA i : mask[i + 1] = 1)
Subset(ts, start, end, snap, maxdt, origin, No) ==
  LET r == Select(ts, start, end, snap, maxdt, origin, No)
      idx == Indices(r.out)
  IN IF r.err # "" THEN [err |-> r.err, out |-> <<>>]
     ELSE IF Len(idx) < 2 THEN [err |-> "ValueError", out |-> <<>>]
     ELSE [err |-> "", out |-> idx]

(* Breaks are rationals brk[k] / den *)
RECURSIVE Segments(_, _, _, _, _, _)
Segments(ts, brk, den, overlap, k, from) ==
  \* from: index (from 1) of the first image of the next segment
  IF k > Len(brk) THEN <<>>
  ELSE LET seg == {i \in DOMAIN ts : i >= from /\ ts[i] * den <= brk[k]}
           last == Max(seg)
           lag == IF overlap < Cardinality(seg) THEN overlap ELSE Cardinality(seg)
       IN IF Cardinality(seg) < 2 THEN << <<-1>> >>
          ELSE << [i \in 1..Cardinality(seg) |-> Sorted(seg)[i] - 1] >>
               \o Segments(ts, brk, den, overlap, k + 1, last + 1 - lag)
Split(ts, brk, den, overlap) ==
  LET b == Sorted({brk[i] : i \in DOMAIN brk} \cup {ts[1] * den, ts[Len(ts)] * den})
      first == {i \in DOMAIN ts : ts[i] * den >= b[1]}
      segs == Segments(ts, Tail(b), den, overlap, 1, Min(first))
  IN IF \E i \in DOMAIN segs : segs[i] = <<-1>> THEN [err |-> "ValueError", out |-> <<>>]
     ELSE [err |-> "", out |-> segs]
SplitN(ts, n, overlap) ==
  LET s == ts[1]
      e == ts[Len(ts)]
      \* Times relative to the first, so that the bounds stay exact
      rel == [i \in DOMAIN ts |-> ts[i] - s]
  IN Split(rel, [i \in 1..n - 1 |-> (e - s) * i], n, overlap)
=============================================================================
