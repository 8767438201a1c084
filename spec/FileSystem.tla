----------------------------- MODULE FileSystem -----------------------------
(* C22.  The storage interface.  `tree` maps the existing paths below a root   *)
(* to "dir" entries or file contents.  Two back ends: "local", with explicit   *)
(* directories, and "cloud", where a directory is a path that has files below  *)
(* it and directories are never created or removed explicitly.                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Paths,     \* sequences of names
          Contents,
          MaxOps
VARIABLES back,      \* "local" or "cloud"
          tree,      \* existing path -> [dir |-> TRUE] or [dir |-> FALSE, c |-> content]
          ghosts,    \* cloud: paths that used to have files below them
          were,      \* cloud: paths that used to be files
          op, n
vars == <<back, tree, ghosts, were, op, n>>

Dir == [dir |-> TRUE, c |-> "-"]
File(c) == [dir |-> FALSE, c |-> c]

IsFile(t, p) == p \in DOMAIN t /\ ~t[p].dir
HasBelow(t, p) == \E q \in DOMAIN t : ~t[q].dir /\ IsStrictPrefix(p, q)
IsDir(b, t, p) == p = <<>> \/ (IF b = "local" THEN p \in DOMAIN t /\ t[p].dir ELSE HasBelow(t, p))
Exists(b, t, p) == IsFile(t, p) \/ IsDir(b, t, p)
Ancestors(p) == {SubSeq(p, 1, k) : k \in 1..(Len(p) - 1)}
UnderFile(t, p) == \E a \in Ancestors(p) : IsFile(t, a)

(* Directory creation.  Result: the new tree, or "error" *)
Error == [err |-> TRUE, t |-> <<>>]
Ok(t) == [err |-> FALSE, t |-> t]
AfterMkdir(b, t, p, parents, existok) ==
  IF b = "cloud" THEN Ok(t)      \* nothing to do: directories come with their files
  ELSE IF IsFile(t, p) \/ UnderFile(t, p) THEN Error
  ELSE IF IsDir(b, t, p) THEN IF existok THEN Ok(t) ELSE Error
  ELSE IF IsDir(b, t, Front(p)) THEN Ok((p :> Dir) @@ t)
  ELSE IF parents THEN Ok([q \in {p} \cup Ancestors(p) |-> Dir] @@ t)
  ELSE Error
AfterWrite(b, t, p, c) ==
  IF IsDir(b, t, p) \/ UnderFile(t, p) \/ (b = "local" /\ ~IsDir(b, t, Front(p))) THEN Error
  ELSE Ok((p :> File(c)) @@ t)
(* exclusive creation *)
AfterCreate(b, t, p, c) == IF IsFile(t, p) THEN Error ELSE AfterWrite(b, t, p, c)
AfterUnlink(b, t, p, missingok) ==
  IF IsFile(t, p) THEN Ok([q \in DOMAIN t \ {p} |-> t[q]])
  ELSE IF IsDir(b, t, p) THEN Error
  ELSE IF missingok THEN Ok(t) ELSE Error
Children(b, t, d) ==
  {p[Len(d) + 1] : p \in {q \in DOMAIN t : IsStrictPrefix(d, q)}}

(* An operation of the model is outside the interface when it addresses a path *)
(* below a file, or (cloud) a directory that lost all its files or a path      *)
(* below one that used to be a file                                             *)
Defined(b, t, g, w, p) ==
  /\ ~UnderFile(t, p)
  /\ b = "cloud" => /\ ~(p \in g /\ ~Exists(b, t, p))
                    /\ Ancestors(p) \cap w = {}

Commit(r) == tree' = IF r.err THEN tree ELSE r.t
NewGhosts(b, t) == IF b = "cloud" THEN UNION {Ancestors(p) : p \in DOMAIN t} ELSE {}
NewWere(b, t) == IF b = "cloud" THEN DOMAIN t ELSE {}
Tick(o) == n < MaxOps /\ n' = n + 1 /\ op' = o
           /\ ghosts' = ghosts \cup NewGhosts(back, tree')
           /\ were' = were \cup NewWere(back, tree') /\ UNCHANGED back

Mkdir(p, par, eo) == /\ Defined(back, tree, ghosts, were, p)
                     /\ Commit(AfterMkdir(back, tree, p, par, eo))
                     /\ Tick([name |-> "mkdir", p |-> p, parents |-> par, exist_ok |-> eo])
Write(p, c, how) == /\ Defined(back, tree, ghosts, were, p)
                    /\ Commit(AfterWrite(back, tree, p, c))
                    /\ Tick([name |-> "write", p |-> p, c |-> c, how |-> how])
Create(p, c) == /\ Defined(back, tree, ghosts, were, p)
                /\ back = "cloud" => (p \in were => IsFile(tree, p))   \* the client's cache may still have it
                /\ Commit(AfterCreate(back, tree, p, c))
                /\ Tick([name |-> "create", p |-> p, c |-> c])
Unlink(p, mo) == /\ Defined(back, tree, ghosts, were, p)
                 /\ Commit(AfterUnlink(back, tree, p, mo))
                 /\ Tick([name |-> "unlink", p |-> p, missing_ok |-> mo])
Look(p, what) == /\ UNCHANGED tree
                 /\ Tick([name |-> what, p |-> p])

Init == back \in {"local", "cloud"} /\ tree = <<>> /\ ghosts = {} /\ were = {} /\ op = <<>> /\ n = 0
Next == \/ \E p \in Paths, par, eo \in BOOLEAN : Mkdir(p, par, eo)
        \/ \E p \in Paths, c \in Contents, how \in {"write_text", "open"} : Write(p, c, how)
        \/ \E p \in Paths, c \in Contents : Create(p, c)
        \/ \E p \in Paths, mo \in BOOLEAN : Unlink(p, mo)
        \/ \E p \in Paths : Look(p, "look")
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
WellFormed ==
  \A p \in DOMAIN tree :
     /\ ~UnderFile(tree, p)
     /\ back = "local" /\ Len(p) > 1 => IsDir(back, tree, Front(p))
     /\ ~(IsFile(tree, p) /\ IsDir(back, tree, p))
(* an operation changes only what is at its own path (or creates parents) *)
Local1 ==
  [][\A q \in DOMAIN tree \cup DOMAIN tree' :
       (q # op'.p /\ ~(op'.name = "mkdir" /\ q \in Ancestors(op'.p))) =>
          /\ (q \in DOMAIN tree <=> q \in DOMAIN tree')
          /\ (q \in DOMAIN tree => tree[q] = tree'[q])]_vars
ReadBack ==
  [][op'.name \in {"write", "create"} /\ tree' # tree => tree'[op'.p] = File(op'.c)]_vars
(* exclusive creation never replaces a file *)
CreateKeeps ==
  [][op'.name = "create" /\ IsFile(tree, op'.p) => tree' = tree]_vars
(* the back ends agree on files after every sequence of accepted writes and deletes *)
CloudHasNoDirEntries == back = "cloud" => \A p \in DOMAIN tree : ~tree[p].dir
==============================================================================
