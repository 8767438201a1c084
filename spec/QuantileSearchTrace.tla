------------------------ MODULE QuantileSearchTrace -------------------------
EXTENDS QuantileSearch, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
C(name, ok) == IF ok THEN {} ELSE {name}
Bad(e) ==
  CASE e.op = "quantile" ->    \* an integer step curve given in full
         C("curve-changed", e.same)
         \cup (IF e.num <= 0 \/ e.num >= e.den
          THEN C("quantile-outside-(0,1)-not-refused", ~e.ok /\ e.err = "ValueError")
          ELSE IF Achievable(e.curve, e.max, e.num, e.den)
          THEN IF ~e.ok THEN {"achievable-target-reported-as-failure"}
               ELSE C("wrong-purchase", e.answer = Answer(e.curve, e.max, e.num, e.den))
          ELSE C("unachievable-target-not-reported", ~e.ok /\ e.err = "OverflowError"))
    [] e.op = "far" ->         \* a step curve too long to write down: its values around the answer
         C("curve-changed", e.same)
         \cup (IF e.achievable
          THEN IF ~e.ok THEN {"achievable-target-reported-as-failure"}
               ELSE C("wrong-purchase", IsAnswer(e.here, e.next, e.max, e.num, e.den) /\ e.integer)
          ELSE C("unachievable-target-not-reported", ~e.ok /\ e.err = "OverflowError"))
    [] e.op = "real" ->        \* a real-valued curve
         C("curve-changed", e.same)
         \cup (IF ~e.ok THEN {"achievable-target-reported-as-failure"}
               ELSE C("wrong-purchase", e.within /\ e.exceeds /\ e.integer))
    [] OTHER -> {"unknown-event"}
TInit == l = 1 /\ curve = <<0>> /\ maxr = 0 /\ num = 1 /\ lower = 0 /\ upper = 1 /\ niter = 0 /\ pc = "double"
TNext ==
  /\ l <= Len(Trace)
  /\ LET bad == Bad(Trace[l]) IN
       (bad # {} => PrintT("BAD " \o ToString(l) \o " " \o ToJson(bad)))
  /\ l' = l + 1
  /\ (l = Len(Trace) => PrintT("DONE " \o ToString(l)))
  /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
==============================================================================
