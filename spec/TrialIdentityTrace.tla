-------------------------- MODULE TrialIdentityTrace -------------------------
(* seen: the trials named so far: data set, configuration, name, location.    *)
EXTENDS MCTrialIdentity, Json, IOUtils
VARIABLES l, seen
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
C(name, ok) == IF ok THEN {} ELSE {name}
BadTrial(e) ==
  IF ~e.ok THEN {"naming-failed"} ELSE
  C("different-configurations-share-a-name",
    \A r \in seen : r.name = e.name => r.cfg = e.cfg)
  \cup C("different-trials-share-a-result-location",
    \A r \in seen : r.at = e.at => r.cfg = e.cfg /\ r.ds = e.ds)
  \cup C("equal-configurations-have-different-names",
    \A r \in seen : r.cfg = e.cfg => r.name = e.name)
  \cup C("equal-trials-have-different-locations",
    \A r \in seen : r.cfg = e.cfg /\ r.ds = e.ds => r.at = e.at)
  \cup C("result-of-another-trial-returned", e.served = e.at)
(* before, after: the template around its specialisation; got: the result     *)
BadSpecialise(e) ==
  IF ~e.ok THEN {"specialisation-failed"} ELSE
  LET want == Specialise(e.before, e.npub, e.fractions) IN
  C("template-changed", e.after = e.before)
  \cup C("wrong-fractions", e.got.spends = want.spends)
  \cup C("wrong-publisher-count", e.got.tpkw = want.tpkw)
  \cup C("configuration-changed",
         [want EXCEPT !.spends = <<>>, !.tpkw = <<>>] = [e.got EXCEPT !.spends = <<>>, !.tpkw = <<>>, !.generates = FALSE])
  \cup C("data-set-changed", e.kept)
Bad(e) ==
  CASE e.op = "trial" -> BadTrial(e)
    [] e.op = "specialise" -> BadSpecialise(e)
    [] e.op = "count" ->       \* trials of a design: one per data set and distinct configuration
         IF ~e.ok THEN {"generation-failed"} ELSE C("wrong-trials", ToSet(e.got) = ToSet(e.want) /\ Len(e.got) = Cardinality(ToSet(e.want)))
    [] e.op = "spoil" -> C("template-changed-through-its-copy", e.after = e.before)
    [] e.op = "reset" -> {}
    [] OTHER -> {"unknown-event"}
TInit == l = 1 /\ seen = {} /\ templates = <<>> /\ store = {} /\ served = <<>>
TNext ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         bad == Bad(e)
     IN /\ (bad # {} => PrintT("BAD " \o ToString(l) \o " " \o ToJson(bad)))
        /\ seen' = IF e.op = "reset" THEN {}
                   ELSE IF e.op = "trial" /\ e.ok
                   THEN seen \cup {[ds |-> e.ds, cfg |-> e.cfg, name |-> e.name, at |-> e.at]} ELSE seen
  /\ l' = l + 1
  /\ (l = Len(Trace) => PrintT("DONE " \o ToString(l)))
  /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l, seen>>
==============================================================================
