----------------------------- MODULE Containers -----------------------------
(* The containers of the Xigt model and the objects placed in them.           *)
(*                                                                            *)
(* A state is a record                                                        *)
(*   thing : sequence of [kind, id, val]   every object of the session        *)
(*           (kind: corpus igt tier item metadata meta child, mdlist for the  *)
(*           metadata list of an owner, alien for a non-model object; id ""   *)
(*           means "no id"; equal val and id = equal objects)                 *)
(*   mem   : sequence (by thing) of sequences of things: document order       *)
(*   own   : sequence (by thing): 0 never placed, else the container that     *)
(*           accepted the object last                                         *)
(* An edit is a record [op, c, o, os, i, k]; Step gives the next state and    *)
(* whether the edit is accepted.                                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Accepts(kind) ==
  CASE kind = "corpus"   -> "igt"
    [] kind = "igt"      -> "tier"
    [] kind = "tier"     -> "item"
    [] kind = "mdlist"   -> "metadata"
    [] kind = "metadata" -> "meta"
    [] kind = "meta"     -> "child"
    [] kind = "child"    -> "child"
    [] OTHER             -> "nothing"

IsContainer(kind) == Accepts(kind) # "nothing"

IdOf(s, o) == s.thing[o].id
Contained(s, c) == {s.mem[c][j] : j \in 1..Len(s.mem[c])}
IdsIn(s, c) == {IdOf(s, o) : o \in Contained(s, c)} \ {""}

KindOK(s, c, o) == s.thing[o].kind = Accepts(s.thing[c].kind)
CanPlace(s, c, o) == KindOK(s, c, o) /\ IdOf(s, o) \notin IdsIn(s, c)

(* Python list positions *)
ClampPos(i, n) == IF i < 0 THEN (IF n + i < 0 THEN 0 ELSE n + i)
                  ELSE IF i > n THEN n ELSE i
ValidPos(i, n) == i >= -n /\ i < n
Pos(i, n) == IF i < 0 THEN n + i + 1 ELSE i + 1          \* 1-based

PutAt(q, p, o) == SubSeq(q, 1, p) \o <<o>> \o SubSeq(q, p + 1, Len(q))
DropAt(q, p) == SubSeq(q, 1, p - 1) \o SubSeq(q, p + 1, Len(q))
FirstAt(q, o) == CHOOSE p \in 1..Len(q) : q[p] = o /\ \A r \in 1..(p - 1) : q[r] # o

Set(s, c, q) == [s EXCEPT !.mem[c] = q]
Owned(s, c, o) == [s EXCEPT !.own[o] = c]

Ok(s)  == [s |-> s, ok |-> TRUE]
Err(s) == [s |-> s, ok |-> FALSE]

Append1(s, c, o) ==
  IF CanPlace(s, c, o)
  THEN Ok(Owned(Set(s, c, Append(s.mem[c], o)), c, o)) ELSE Err(s)

Insert1(s, c, i, o) ==
  IF CanPlace(s, c, o)
  THEN Ok(Owned(Set(s, c, PutAt(s.mem[c], ClampPos(i, Len(s.mem[c])), o)), c, o))
  ELSE Err(s)

(* objects are placed one by one; the first refused one ends it *)
RECURSIVE ExtendFrom(_, _, _)
ExtendFrom(s, c, os) ==
  IF os = <<>> THEN Ok(s)
  ELSE LET r == Append1(s, c, Head(os)) IN
       IF r.ok THEN ExtendFrom(r.s, c, Tail(os)) ELSE r

SetPos(s, c, i, o) ==
  LET n == Len(s.mem[c]) IN
  IF ~KindOK(s, c, o) \/ ~ValidPos(i, n) THEN Err(s)
  ELSE LET p == Pos(i, n)
           others == {IdOf(s, s.mem[c][j]) : j \in (1..n) \ {p}} \ {""}
       IN IF IdOf(s, o) \in others THEN Err(s)
          ELSE Ok(Owned(Set(s, c, [s.mem[c] EXCEPT ![p] = o]), c, o))

DelPos(s, c, i) ==
  IF ValidPos(i, Len(s.mem[c]))
  THEN Ok(Set(s, c, DropAt(s.mem[c], Pos(i, Len(s.mem[c]))))) ELSE Err(s)

DelId(s, c, k) ==
  IF k \in IdsIn(s, c)
  THEN LET p == CHOOSE p \in 1..Len(s.mem[c]) : IdOf(s, s.mem[c][p]) = k
       IN Ok(Set(s, c, DropAt(s.mem[c], p)))
  ELSE Err(s)

(* the very object; an object that is not contained is refused *)
Remove1(s, c, o) ==
  IF o \in Contained(s, c)
  THEN Ok(Set(s, c, DropAt(s.mem[c], FirstAt(s.mem[c], o)))) ELSE Err(s)

(* stable sort by the ranks ks[o] *)
SortBy(q, ks) ==
  LET pos == SortSeq([j \in 1..Len(q) |-> j],
               LAMBDA a, b : ks[q[a]] < ks[q[b]] \/ (ks[q[a]] = ks[q[b]] /\ a < b))
  IN [j \in 1..Len(q) |-> q[pos[j]]]

(* renaming is followed by an index refresh of every container of the object *)
CanRename(s, o, k) ==
  k = "" \/ \A c \in 1..Len(s.mem) : o \in Contained(s, c) =>
              /\ \A x \in Contained(s, c) \ {o} : IdOf(s, x) # k
              /\ Cardinality({p \in 1..Len(s.mem[c]) : s.mem[c][p] = o}) = 1

(* ids handed round among several objects (each takes that of the next one), *)
(* followed by an index refresh of their containers                          *)
Rotate(s, os) ==
  [s EXCEPT !.thing = [o \in 1..Len(s.thing) |->
     IF \E j \in 1..Len(os) : os[j] = o
     THEN LET j == CHOOSE j \in 1..Len(os) : os[j] = o
          IN [s.thing[o] EXCEPT !.id = IdOf(s, os[(j % Len(os)) + 1])]
     ELSE s.thing[o]]]
CanRotate(s, os) ==
  /\ Cardinality({os[j] : j \in 1..Len(os)}) = Len(os)
  /\ LET t == Rotate(s, os) IN \A c \in 1..Len(t.mem) : \A a, b \in 1..Len(t.mem[c]) :
       (a # b /\ IdOf(t, t.mem[c][a]) # "") => IdOf(t, t.mem[c][a]) # IdOf(t, t.mem[c][b])

Step(s, e) ==
  CASE e.op = "append"  -> Append1(s, e.c, e.o)
    [] e.op = "add"     -> Append1(s, e.c, e.o)           \* deprecated name
    [] e.op = "insert"  -> Insert1(s, e.c, e.i, e.o)
    [] e.op = "extend"  -> ExtendFrom(s, e.c, e.os)
    [] e.op = "addlist" -> ExtendFrom(s, e.c, e.os)       \* deprecated name
    [] e.op = "iadd"    -> ExtendFrom(s, e.c, e.os)       \* c += objects
    \* owner.objects += objects: the grown list is assigned to the owner
    [] e.op = "iaddp"   -> ExtendFrom(Set(s, e.c, <<>>), e.c, s.mem[e.c] \o e.os)
    [] e.op = "set"     -> SetPos(s, e.c, e.i, e.o)
    [] e.op = "setn"    -> SetPos(s, e.c, e.i, e.o)       \* index as a numeral
    [] e.op = "setid"   -> Err(s)                         \* ids cannot be assigned to
    [] e.op = "del"     -> DelPos(s, e.c, e.i)
    [] e.op = "deln"    -> DelPos(s, e.c, e.i)
    [] e.op = "delid"   -> DelId(s, e.c, e.k)
    [] e.op = "pop"     -> DelPos(s, e.c, e.i)            \* gives the object
    [] e.op = "poplast" -> DelPos(s, e.c, -1)
    [] e.op = "delslice" -> Err(s)                        \* no edits of slices
    [] e.op = "setslice" -> Err(s)
    [] e.op = "remove"  -> Remove1(s, e.c, e.o)
    [] e.op = "clear"   -> Ok(Set(s, e.c, <<>>))
    [] e.op = "assign"  -> ExtendFrom(Set(s, e.c, <<>>), e.c, e.os)
    \* one object in place of a list of objects
    [] e.op = "assignone" -> Err(s)
    \* bulk edits whose objects come from the container itself: the list
    \* as it was before the edit counts (i: itself, lazily, lazily reversed)
    [] e.op = "reassign" -> LET q == IF e.i = 2 THEN Reverse(s.mem[e.c]) ELSE s.mem[e.c]
                            IN ExtendFrom(Set(s, e.c, <<>>), e.c, q)
    [] e.op = "reextend" -> ExtendFrom(s, e.c, s.mem[e.c])
    [] e.op = "sort"    -> Ok(Set(s, e.c, SortBy(s.mem[e.c], e.os)))
    [] e.op = "reverse" -> Ok(Set(s, e.c, Reverse(s.mem[e.c])))
    [] e.op = "rename"  -> Ok([s EXCEPT !.thing[e.o].id = e.k])
    [] e.op = "rotate"  -> Ok(Rotate(s, e.os))
    \* what starts with no letter is no id (nor a name)
    [] e.op \in {"badid", "badnew"} -> Err(s)
    [] e.op = "refresh" -> Ok(s)

(* ------------------------------------------------------------ observation *)
LookUp(s, c, k) == IF k \in IdsIn(s, c)
                   THEN CHOOSE o \in Contained(s, c) : IdOf(s, o) = k ELSE 0

(* positions i to j-1 of q *)
Slice(q, i, j) == SubSeq(q, ClampPos(i, Len(q)) + 1, ClampPos(j, Len(q)))

(* what must be seen of container c, given the universe of ids asked for *)
View(s, c, ids) ==
  LET q == s.mem[c] IN
  [ it |-> q, len |-> Len(q), neg |-> Reverse(q),
    sl |-> <<Slice(q, 0, 2), Slice(q, 1, Len(q)), Slice(q, -2, Len(q)), Slice(q, 0, -1), Slice(q, 2, 1)>>,
    look |-> [j \in 1..Len(ids) |-> LookUp(s, c, ids[j])] ]

(* the owner an object must report: only contained objects are constrained  *)
(* (and objects no container ever accepted have none)                        *)
OwnerFixed(s, o) == s.own[o] = 0 \/ o \in Contained(s, s.own[o])

(* ------------------------------------------------------------- invariants *)
TypeInv(s) == /\ Len(s.mem) = Len(s.thing) /\ Len(s.own) = Len(s.thing)
              /\ \A c \in 1..Len(s.mem) : \A j \in 1..Len(s.mem[c]) : KindOK(s, c, s.mem[c][j])
UniqueIds(s) == \A c \in 1..Len(s.mem) : \A a, b \in 1..Len(s.mem[c]) :
                  (a # b /\ IdOf(s, s.mem[c][a]) # "") => IdOf(s, s.mem[c][a]) # IdOf(s, s.mem[c][b])
LookupSound(s, ids) == \A c \in 1..Len(s.mem) : \A k \in ids :
                  LET o == LookUp(s, c, k) IN
                  /\ o # 0 => (o \in Contained(s, c) /\ IdOf(s, o) = k)
                  /\ o = 0 => \A x \in Contained(s, c) : IdOf(s, x) # k
OwnerSound(s) == \A c \in 1..Len(s.mem) : \A o \in Contained(s, c) : s.own[o] # 0
=============================================================================
