-------------------------- MODULE FileSystemTrace --------------------------
(* Each event carries the files (and, locally, directories) really present     *)
(* below the root after the call.                                               *)
EXTENDS FileSystem, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
C(name, ok) == IF ok THEN {} ELSE {name}
SetOf(s) == {s[i] : i \in DOMAIN s}
FilesOf(t) == {<<p, t[p].c>> : p \in {q \in DOMAIN t : ~t[q].dir}}
DirsOf(t) == {p \in DOMAIN t : t[p].dir}
Snap(e) == {<<e.files[i].p, e.files[i].c>> : i \in DOMAIN e.files}

Result(e) ==
  CASE e.op = "mkdir" -> AfterMkdir(back, tree, e.p, e.parents, e.exist_ok)
    [] e.op = "write" -> AfterWrite(back, tree, e.p, e.c)
    [] e.op = "append" -> AfterWrite(back, tree, e.p,
                             IF IsFile(tree, e.p) THEN tree[e.p].c \o e.c ELSE e.c)
    [] e.op = "create" -> AfterCreate(back, tree, e.p, e.c)
    [] e.op = "unlink" -> AfterUnlink(back, tree, e.p, e.missing_ok)
    [] OTHER -> Ok(tree)

(* the tree after the event, as the specification has it *)
After(e) == IF e.op = "start" THEN <<>> ELSE IF Result(e).err THEN tree ELSE Result(e).t

(* Reading a deleted cloud file is up to the library's cache, and appending to *)
(* one is not supported by it                                                   *)
Known(e) ==
  /\ Defined(back, tree, ghosts, were, e.p)
  /\ back = "cloud" => /\ ~(e.op = "read" /\ e.p \in were /\ ~IsFile(tree, e.p))
                       /\ ~(e.op = "append" /\ e.p \in were)
                       /\ ~(e.op = "create" /\ e.p \in were /\ ~IsFile(tree, e.p))

Bad(e) ==
  LET t == After(e) IN
  (CASE e.op = "start" -> {}
     [] e.op \in {"mkdir", "write", "create", "append", "unlink"} ->
          C(e.op \o "-outcome", e.ok = ~Result(e).err)
     [] e.op = "read" ->
          IF IsFile(tree, e.p) THEN C("read", e.ok /\ e.val = tree[e.p].c)
          ELSE C("read-of-no-file", ~e.ok)
     [] e.op = "look" ->
          C("exists", e.exists = Exists(back, tree, e.p))
          \cup C("is_file", e.is_file = IsFile(tree, e.p))
          \cup C("is_dir", e.is_dir = IsDir(back, tree, e.p))
     [] e.op = "glob" ->
          C("glob", /\ e.ok
                    /\ Len(e.val) = Cardinality(SetOf(e.val))
                    /\ LET want == {Append(e.p, x) : x \in Children(back, tree, e.p) \cap SetOf(e.match)} IN
                       want \subseteq SetOf(e.val) /\ SetOf(e.val) \ want \subseteq ghosts)
     [] e.op = "pure" ->
          C("joinpath", e.join = e.p)
          \cup C("name", e.pname = Last(e.p))
          \cup C("parent", e.pparent = Front(e.p))
     [] OTHER -> {"unknown-event"})
  \cup C("stored-files", Snap(e) = FilesOf(t))
  \cup C("stored-directories", (IF e.op = "start" THEN e.back ELSE back) = "local" => SetOf(e.dirs) = DirsOf(t))

TInit == l = 1 /\ back = "local" /\ tree = <<>> /\ ghosts = {} /\ were = {} /\ op = <<>> /\ n = 0
TNext ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         bad == IF e.op = "start" \/ Known(e) THEN Bad(e) ELSE {}
     IN /\ (bad # {} => PrintT("BAD " \o ToString(l) \o " " \o ToJson(bad)))
        /\ tree' = IF e.op = "start" \/ Known(e) THEN After(e) ELSE tree
        /\ back' = IF e.op = "start" THEN e.back ELSE back
        /\ were' = IF e.op = "start" THEN {} ELSE were \cup NewWere(back, tree')
        /\ ghosts' = IF e.op = "start" THEN {} ELSE ghosts \cup NewGhosts(back, tree')
  /\ l' = l + 1
  /\ (l = Len(Trace) => PrintT("DONE " \o ToString(l)))
  /\ UNCHANGED <<op, n>>
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
