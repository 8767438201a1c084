-------------------------- MODULE PrivacyLogTrace --------------------------
EXTENDS PrivacyLog, Json, IOUtils
VARIABLES l, mechs, g, last
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
C(name, ok) == IF ok THEN {} ELSE {name}

Bad(e) ==
  IF ~e.ok THEN {"call-failed:" \o e.err}
  ELSE CASE e.op = "new" -> {}
    [] e.op = "record" -> {}
    [] e.op = "total" ->
         C("privacy_consumption-epsilon", e.eps = Total(log, g).eps)
         \cup C("privacy_consumption-delta", e.del = Total(log, g).del)
    [] e.op = "bucket" ->
         (* positions are recorded in half cells *)
         C("bucket-epsilon", e.eps = Used(log, e.b \div 2, g).eps)
         \cup C("bucket-delta", e.del = Used(log, e.b \div 2, g).del)
    [] e.op = "mechanisms" -> C("mechanisms", e.val = mechs)
    [] e.op = "contains" -> C("contains", e.val = Covers(e, e.b \div 2, g))
    [] OTHER -> {"unknown-event"}

TInit == l = 1 /\ log = <<>> /\ mechs = <<>> /\ g = 1 /\ last = 0
TNext ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         bad == Bad(e)
     IN /\ (bad # {} => PrintT("BAD " \o ToString(l) \o " " \o ToJson(bad)))
        /\ CASE e.op = "new" -> log' = <<>> /\ mechs' = <<>> /\ g' = e.g
             [] e.op = "record" ->
                  /\ log' = Append(log, [s |-> e.s, r |-> e.r, eps |-> e.eps, del |-> e.del])
                  /\ mechs' = Append(mechs, e.mech) /\ g' = g
             [] OTHER -> UNCHANGED <<log, mechs, g>>
  /\ l' = l + 1
  /\ UNCHANGED last
  /\ (l = Len(Trace) => PrintT("DONE " \o ToString(l)))
TSpec == TInit /\ [][TNext]_<<log, l, mechs, g, last>>
=============================================================================
