----------------------------- MODULE DataDesign -----------------------------
(* C03.  Data designs on storage.  A design is a directory; it holds one       *)
(* directory per data set, which holds one file per publisher.  A program has  *)
(* handles on designs and data sets in memory (slots); it adds data sets from  *)
(* slots, and reads them back into a slot.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Designs,   \* directories
          Handles,
          Slots,     \* data sets the program made itself
          SlotName,  \* slot -> name of that data set
          MaxOps

ReadSlot == "r"      \* holds the data set read last
None == [name |-> "none", pubs |-> {}]

VARIABLES store,     \* design -> (name -> content); content = set of <<publisher, log>>
          handle,    \* handle -> [dir, known] ; dir = "closed" before it is opened
          mem,       \* slot -> [name, pubs]
          op,        \* the last operation and its outcome
          n
vars == <<store, handle, mem, op, n>>

EmptyStore == [d \in Designs |-> <<>>]
Closed == [dir |-> "closed", known |-> {}]

(* Operators shared with the trace specification; st is a store *)
Put(st, d, nm, pubs) == [st EXCEPT ![d] = (nm :> pubs) @@ @]
CanAdd(st, d, nm) == nm \notin DOMAIN st[d]

Init == /\ store = EmptyStore
        /\ handle = [h \in Handles |-> Closed]
        /\ mem = [s \in Slots |-> [name |-> SlotName[s], pubs |-> {<<"p", s>>}]] @@ (ReadSlot :> None)
        /\ op = [name |-> "init"] /\ n = 0

Tick == n < MaxOps /\ n' = n + 1

Open(h, d) == /\ Tick
              /\ handle' = [handle EXCEPT ![h] = [dir |-> d, known |-> DOMAIN store[d]]]
              /\ op' = [name |-> "open", h |-> h, d |-> d]
              /\ UNCHANGED <<store, mem>>
Add(h, s) == /\ Tick
             /\ handle[h].dir # "closed" /\ mem[s] # None
             /\ LET d == handle[h].dir
                    nm == mem[s].name
                    ok == CanAdd(store, d, nm)
                IN /\ store' = IF ok THEN Put(store, d, nm, mem[s].pubs) ELSE store
                   /\ handle' = IF ok THEN [handle EXCEPT ![h].known = @ \cup {nm}] ELSE handle
                   /\ op' = [name |-> "add", h |-> h, s |-> s, ok |-> ok]
             /\ UNCHANGED mem
Read(h, nm) == /\ Tick
               /\ handle[h].dir # "closed" /\ nm \in handle[h].known
               /\ mem' = [mem EXCEPT ![ReadSlot] = [name |-> nm, pubs |-> store[handle[h].dir][nm]]]
               /\ op' = [name |-> "read", h |-> h, nm |-> nm]
               /\ UNCHANGED <<store, handle>>
Names(h) == /\ Tick /\ handle[h].dir # "closed"
            /\ op' = [name |-> "names", h |-> h]
            /\ UNCHANGED <<store, handle, mem>>

Next == \E h \in Handles :
          \/ \E d \in Designs : Open(h, d)
          \/ \E s \in Slots \cup {ReadSlot} : Add(h, s)
          \/ \E nm \in handle[h].known : Read(h, nm)
          \/ Names(h)
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* Nothing stored is ever changed or removed *)
AppendOnly ==
  [][\A d \in Designs : /\ DOMAIN store[d] \subseteq DOMAIN store'[d]
                        /\ \A nm \in DOMAIN store[d] : store'[d][nm] = store[d][nm]]_vars
(* One operation touches at most one data set of one design *)
OneAtATime ==
  [][Cardinality({<<d, nm>> \in Designs \X UNION {DOMAIN store'[x] : x \in Designs} :
                     nm \in DOMAIN store'[d] /\ nm \notin DOMAIN store[d]}) <= 1]_vars
(* A refused addition leaves storage alone, an accepted one stores the slot *)
AddOutcome ==
  [][op'.name = "add" =>
        IF op'.ok THEN store'[handle[op'.h].dir][mem[op'.s].name] = mem[op'.s].pubs
        ELSE store' = store]_vars
KnownIsStored == \A h \in Handles : handle[h].dir # "closed" =>
                    handle[h].known \subseteq DOMAIN store[handle[h].dir]
(* Every stored data set is, under its own name, one the program made *)
Provenance == \A d \in Designs : \A nm \in DOMAIN store[d] :
                 \E s \in Slots : mem[s].name = nm /\ mem[s].pubs = store[d][nm]
==============================================================================
