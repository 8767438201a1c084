---------------------------- MODULE OverlapTrace ----------------------------
EXTENDS Overlap, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
C(name, ok) == IF ok THEN {} ELSE {name}
ToSet2(s) == {s[i] : i \in DOMAIN s}

Bad(e) ==
  CASE e.op = "overlap" /\ e.sizes_ok = FALSE ->
         C("wrong-size-not-refused", ~e.ok)
    [] ~e.ok -> {"call-failed:" \o e.err}
    [] e.op = "overlap" ->
         C("publisher-count", e.count = Len(e.ds))
         \cup C("data-set-name", e.name_ok)
         \cup C("publisher-names", e.names = e.want_names)
         \cup C("requested-sizes", e.sizes = [i \in DOMAIN e.ds |-> MaxReach(e.ds[i])])
         \cup C("relabelling", Len(e.out) = Len(e.ds) /\ \A i \in DOMAIN e.ds :
                IsRelabelling(e.ds[i], e.out[i], ToSet2(e.ids[i])))
         \cup C("maximum-reach", e.maximum_reach = Cardinality(UNION {ToSet2(e.ids[i]) : i \in DOMAIN e.ids}))
         \cup C("single-publisher-curve", \A j \in DOMAIN e.curve :
                LET q == e.curve[j] IN
                /\ q.reach = KPlusSeq(CountsBySpend(e.ds[q.i], q.s), Len(q.reach))
                /\ Len(q.reach) = e.f
                /\ q.imps = ImpsBySpend(e.ds[q.i], q.s))
         \cup C("source-changed", e.source_same)
    [] e.op = "settings" -> C("settings-handed-over", e.got = e.want)
    [] e.op = "repeat" -> C("equal-generators-differ", e.same)
    [] e.op = "vary" -> C("generator-ignored", e.differ)
    [] OTHER -> {"unknown-event"}

TInit == l = 1 /\ ds = <<>> /\ purchase = <<>> /\ IdleLog /\ ids = <<>> /\ out = <<>>
TNext ==
  /\ l <= Len(Trace)
  /\ LET bad == Bad(Trace[l]) IN
       (bad # {} => PrintT("BAD " \o ToString(l) \o " " \o ToJson(bad)))
  /\ l' = l + 1
  /\ (l = Len(Trace) => PrintT("DONE " \o ToString(l)))
  /\ UNCHANGED ovars
TSpec == TInit /\ [][TNext]_<<ovars, l>>
=============================================================================
