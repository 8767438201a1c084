--------------------------- MODULE DataDesignTrace ---------------------------
(* Every event carries a snapshot of everything on storage after the call:     *)
(* for each design a sequence of [nm, pubs], pubs a sequence of [p, c], c       *)
(* identifying the log found in the file (-1: not the log of any data set).     *)
EXTENDS DataDesign, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
C(name, ok) == IF ok THEN {} ELSE {name}
Pubs(s) == {<<s[i].p, s[i].c>> : i \in DOMAIN s}
Content(s) == [nm \in {s[i].nm : i \in DOMAIN s} |->
                 Pubs(s[CHOOSE i \in DOMAIN s : s[i].nm = nm].pubs)]
NamesOf(s) == {s[i] : i \in DOMAIN s}

(* What must be on storage, and what the memory and handles hold, after e *)
NewStore(e) ==
  CASE e.op = "start" -> [d \in {"A", "B"} |-> <<>>]
    [] e.op = "add" /\ CanAdd(store, handle[e.h].dir, mem[e.s].name) ->
         Put(store, handle[e.h].dir, mem[e.s].name, mem[e.s].pubs)
    [] OTHER -> store

Bad(e) ==
  (IF e.op = "malformed" THEN C("malformed-line-not-reported", ~e.ok)
   ELSE IF e.op = "add" THEN
     (IF CanAdd(store, handle[e.h].dir, mem[e.s].name)
      THEN C("add-failed:" \o e.err, e.ok)
      ELSE C("add-of-existing-name-not-refused", ~e.ok /\ e.err = "ValueError"))
   ELSE C("call-failed:" \o e.err, e.ok))
  \cup
  (CASE e.op = "names" /\ e.ok ->
          LET h == handle[e.h] IN
          C("names", /\ h.known \subseteq NamesOf(e.names)
                     /\ NamesOf(e.names) \subseteq DOMAIN store[h.dir]
                     /\ Cardinality(NamesOf(e.names)) = Len(e.names))
          \cup C("count", e.count = Len(e.names))
     [] e.op = "open" /\ e.ok ->
          C("names-after-open", NamesOf(e.names) = DOMAIN store[e.d])
     [] e.op = "read" /\ e.ok ->
          LET want == store[handle[e.h].dir][e.nm] IN
          C("read-name", e.got.nm = e.nm)
          \cup C("read-content", Pubs(e.got.pubs) = want /\ Len(e.got.pubs) = Cardinality(want))
     [] OTHER -> {})
  \cup
  C("storage-A", Content(e.snap.A) = NewStore(e)["A"])
  \cup C("storage-B", Content(e.snap.B) = NewStore(e)["B"])
  \cup C("stray-files", e.snap.stray = FALSE)

TInit == /\ l = 1 /\ store = [d \in {"A", "B"} |-> <<>>]
         /\ handle = <<>> /\ mem = <<>> /\ op = <<>> /\ n = 0
TNext ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         bad == Bad(e)
     IN /\ (bad # {} => PrintT("BAD " \o ToString(l) \o " " \o ToJson(bad)))
        /\ store' = NewStore(e)
        /\ handle' =
             CASE e.op = "start" -> [h \in {"h1", "h2"} |-> Closed]
               [] e.op = "open" -> [handle EXCEPT ![e.h] = [dir |-> e.d, known |-> DOMAIN store[e.d]]]
               [] e.op = "add" /\ CanAdd(store, handle[e.h].dir, mem[e.s].name) ->
                     [handle EXCEPT ![e.h].known = @ \cup {mem[e.s].name}]
               [] OTHER -> handle
        /\ mem' =
             CASE e.op = "start" ->
                    [s \in {e.slots[i].s : i \in DOMAIN e.slots} |->
                        LET x == e.slots[CHOOSE i \in DOMAIN e.slots : e.slots[i].s = s]
                        IN [name |-> x.nm, pubs |-> Pubs(x.pubs)]] @@ ("r" :> None)
               [] e.op = "read" -> [mem EXCEPT !["r"] =
                        [name |-> e.nm, pubs |-> store[handle[e.h].dir][e.nm]]]
               [] OTHER -> mem
  /\ l' = l + 1
  /\ (l = Len(Trace) => PrintT("DONE " \o ToString(l)))
  /\ UNCHANGED <<op, n>>
TSpec == TInit /\ [][TNext]_<<vars, l>>
==============================================================================
