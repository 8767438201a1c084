--------------------------- MODULE SyntheticTrace ---------------------------
EXTENDS MCSynthetic, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
C(name, ok) == IF ok THEN {} ELSE {name}

(* a stored publisher log, in price order, of a data set without relabelling *)
PlainLog(n, log) ==
  /\ ValidImpressions(n, [i \in DOMAIN log |-> log[i].u])
  /\ \A i \in DOMAIN log : log[i].p = i

(* for sizes whose powers exceed TLC's integers *)
Coarse(sz, c) ==
  /\ Len(sz) = c.p /\ sz[1] = c.largest
  /\ \A i \in 1..(Len(sz) - 1) : sz[i + 1] <= sz[i]
  /\ c.p > 1 => /\ sz[c.p] * c.den <= c.num * c.largest
                /\ (sz[c.p] + c.p) * c.den >= c.num * c.largest

Bad(e) ==
  CASE ~e.ok /\ e.op # "design" -> {"call-failed:" \o e.err}
    [] e.op = "impressions" -> C("users-not-exactly-0-to-n-1", ValidImpressions(e.n, e.log))
    [] e.op = "pricing" -> C("pricing", FixedPriced(e.log, e.priced))
                           \cup C("pricing-changed-its-input", e.unchanged)
    [] e.op = "design" ->
         IF ~e.ok THEN C("generation-failed:" \o e.err, ~Distinct(e.config))
         ELSE C("duplicate-accepted", Distinct(e.config))
              \cup C("count-and-names", Len(e.got) = Len(e.config)
                       /\ {e.got[i].name : i \in DOMAIN e.got} = {e.config[i].name : i \in DOMAIN e.config})
              \cup C("listed-by-the-generator", e.listed = Len(e.config))
              \cup C("sizes", \A i \in DOMAIN e.got : \A j \in DOMAIN e.config :
                       e.got[i].name = e.config[j].name =>
                         (IF e.coarse THEN Coarse(e.got[i].sizes, e.config[j])
                          ELSE GeometricSizes(e.got[i].sizes, e.config[j])))
              \cup C("logs", \A i \in DOMAIN e.got : \A j \in DOMAIN e.got[i].logs :
                       PlainLog(e.got[i].logs[j].n, e.got[i].logs[j].log))
    [] e.op = "repeat" -> C("same-seed-differs", e.same)
    [] OTHER -> {"unknown-event"}

TInit == /\ l = 1 /\ config = <<>> /\ pos = 0 /\ design = <<>> /\ refused = FALSE /\ stream = <<0, 0>>
         /\ prior = 0 /\ first = <<>> /\ run = 1
TNext ==
  /\ l <= Len(Trace)
  /\ LET bad == Bad(Trace[l]) IN
       (bad # {} => PrintT("BAD " \o ToString(l) \o " " \o ToJson(bad)))
  /\ l' = l + 1
  /\ (l = Len(Trace) => PrintT("DONE " \o ToString(l)))
  /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
