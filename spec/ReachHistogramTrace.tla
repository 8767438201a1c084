------------------------ MODULE ReachHistogramTrace ------------------------
EXTENDS ReachHistogram, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
C(name, ok) == IF ok THEN {} ELSE {name}
Is(r, v) == r.ok /\ r.val = v
Refused(r) == ~r.ok /\ r.err = "ValueError"
Tabl(s) == [i \in 1..Len(s) |-> s[i]]

Bad(e) ==
  CASE e.op = "counts" ->   \* a table of positive counts, one entry per user
         C("user_counts_to_frequencies", Is(e.freqs, Freqs(e.table, e.cap)))
         \cup C("user_counts_to_kplus_reaches", Is(e.kplus, KPluses(e.table, e.cap)))
         \cup C("through-frequencies", Is(e.via, KPluses(e.table, e.cap)))
         \cup C("input-changed", e.unchanged)
    [] e.op = "suffix" ->
         C("frequencies_to_kplus_reaches", Is(e.kplus, SuffixSums(e.freqs)))
         \cup C("input-changed", e.unchanged)
    [] e.op = "point" ->
         IF e.nspends > 0 /\ e.nspends # Len(e.imps)
         THEN C("mismatched-spends-not-refused", Refused(e.made))
         ELSE C("construction-failed", e.made.ok)
           \cup (IF ~e.made.ok THEN {} ELSE
              LET F == Len(e.r) IN
              C("impressions", e.got_imps = e.imps)
              \cup C("spends", e.got_spends = IF e.nspends = 0 THEN <<-1>> ELSE e.spends)
              \cup C("max_frequency", e.max_frequency = F)
              \cup C("reach", \A i \in DOMAIN e.reach_k :
                     LET k == e.reach_k[i] IN
                     IF k \in 1..F THEN Is(e.reach[i], e.r[k]) ELSE Refused(e.reach[i]))
              \cup C("frequency", \A i \in DOMAIN e.freq_k :
                     LET k == e.freq_k[i] IN
                     IF k \in 1..(F - 1) THEN Is(e.freq[i], e.r[k] - e.r[k + 1])
                     ELSE Refused(e.freq[i]))
              \cup C("frequencies", e.frequencies = ExactFreqs(e.r))
              \cup C("frequencies_with_kplus_bucket", e.hist = WithKPlusBucket(e.r))
              \cup C("universe_size", IF e.universe < 0 THEN Refused(e.got_universe)
                                      ELSE Is(e.got_universe, e.universe))
              \cup C("zero_included_histogram",
                     IF e.universe < 0 THEN Refused(e.zero)
                     ELSE Is(e.zero, ZeroIncluded(e.r, e.universe)))
              \cup C("adds-up-to-universe",
                     e.universe >= 0 /\ e.zero.ok => Sum(e.zero.val) = e.universe)
              \cup C("input-changed", e.unchanged))
    [] OTHER -> {"unknown-event"}

TInit == l = 1 /\ counts = <<>>
TNext ==
  /\ l <= Len(Trace)
  /\ LET bad == Bad(Trace[l]) IN
       (bad # {} => PrintT("BAD " \o ToString(l) \o " " \o ToJson(bad)))
  /\ l' = l + 1
  /\ (l = Len(Trace) => PrintT("DONE " \o ToString(l)))
  /\ UNCHANGED counts
TSpec == TInit /\ [][TNext]_<<counts, l>>
=============================================================================
