--------------------------- MODULE SimulatedReach ---------------------------
(* C10.  A simulated measurement of a campaign over a data set (DataSetReach).  *)
(* Each publisher sketches the events bought with the smaller of the requested *)
(* and the campaign spend; the sketches are merged; the measurement of the     *)
(* merged audience is noised (any estimate may come out) and made well formed. *)
EXTENDS DataSetReach

CONSTANTS Estimates, MaxF      \* estimates are in tenths

VARIABLES phase,      \* "request", "sketched", "merged", "measured", "answered"
          camp,       \* campaign spends
          f,          \* frequency cap
          sketches,   \* publisher -> count table
          merged,     \* the merged count table
          est,        \* the noised estimate
          answer      \* the k+ reaches that come back
svars == <<phase, camp, f, sketches, merged, est, answer, dvars>>

Smaller(a, b) == IF a < b THEN a ELSE b
Larger(a, b) == IF a < b THEN b ELSE a
SeqSum(s) == FoldFunction(LAMBDA x, y : x + y, 0, s)

(* the audience that is measured *)
Audience(d, req, cs) == CountsFor(d, [i \in DOMAIN d |-> Smaller(req[i], cs[i])])

RoundTenths(x) == (x + 5) \div 10     \* never asked for a tie
Clipped(e) == [k \in DOMAIN e |-> Min({Larger(RoundTenths(e[j]), 0) : j \in 1..k})]
Repaired(kplus, imps) ==
  IF Len(kplus) = 0 THEN kplus
  ELSE IF imps <= kplus[1]
       THEN [k \in DOMAIN kplus |-> IF k = 1 THEN Larger(imps - 1, 1) ELSE 0]
       ELSE kplus
Answer(e, imps) == Repaired(Clipped(e), imps)

------------------------------------------------------------------------------
SInit == /\ ds \in [1..NPubs -> Logs]
         /\ purchase \in [1..NPubs -> 0..(Max(Prices) + 1)]
         /\ camp \in [1..NPubs -> 0..(Max(Prices))]
         /\ f \in 1..MaxF
         /\ phase = "request"
         /\ sketches = <<>> /\ merged = <<>> /\ est = <<>> /\ answer = <<>>
         /\ IdleLog
Sketch == /\ phase = "request" /\ phase' = "sketched"
          /\ sketches' = [i \in 1..NPubs |-> CountsBySpend(ds[i], Smaller(purchase[i], camp[i]))]
          /\ UNCHANGED <<camp, f, merged, est, answer, dvars>>
Merge == /\ phase = "sketched" /\ phase' = "merged"
         /\ merged' = Combine(sketches)
         /\ UNCHANGED <<camp, f, sketches, est, answer, dvars>>
Measure == /\ phase = "merged" /\ phase' = "measured"
           /\ est' \in [1..f -> Estimates]
           /\ UNCHANGED <<camp, f, sketches, merged, answer, dvars>>
Reply == /\ phase = "measured" /\ phase' = "answered"
         /\ answer' = Answer(est, SeqSum(TrueImps(ds, purchase)))
         /\ UNCHANGED <<camp, f, sketches, merged, est, dvars>>
SNext == Sketch \/ Merge \/ Measure \/ Reply
SSpec == SInit /\ [][SNext]_svars

MergedIsAudience == phase \in {"merged", "measured", "answered"} => merged = Audience(ds, purchase, camp)
NeverMoreThanBought ==
  phase \in {"merged", "measured", "answered"} =>
     LeqCounts(merged, CountsFor(ds, purchase))
WellFormed ==
  phase = "answered" =>
     /\ Len(answer) = f
     /\ \A k \in 1..f : answer[k] >= 0
     /\ \A k \in 1..(f - 1) : answer[k] >= answer[k + 1]
     /\ LET imps == SeqSum(TrueImps(ds, purchase)) IN
          (imps > 1 => answer[1] < imps)
          /\ (imps > 1 /\ answer = Clipped(est) => answer[1] < imps)
==============================================================================
