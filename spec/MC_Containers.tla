--------------------------- MODULE MC_Containers ---------------------------
(* Bounded exploration of Containers: every edit from every reachable state  *)
(* of two containers and a handful of objects. Each transition is printed as *)
(* a case (@@CASE): the edits leading there and what must be seen after the  *)
(* last one; the harness replays every case in the real containers.          *)
EXTENDS Containers, TLC, Json

CONSTANTS MaxLen,      \* longest document order of container 1
          MaxLen2,     \* ... of container 2
          LastInView,  \* distinguish states by the last edit as well
          Rich,        \* all argument combinations
          Rot,         \* handing ids round
          Two          \* two containers and renaming (fewer arguments)

VARIABLES s, hist, last
vars == <<s, hist, last>>

(* things: 1, 2 containers; 3.. objects; 8 an object of the wrong kind *)
Thing0 == << [kind |-> "tier", id |-> "", val |-> 0], [kind |-> "tier", id |-> "", val |-> 0],
             [kind |-> "item", id |-> "a", val |-> 1], [kind |-> "item", id |-> "a", val |-> 2],
             [kind |-> "item", id |-> "",  val |-> 1], [kind |-> "item", id |-> "",  val |-> 1],
             [kind |-> "item", id |-> "b", val |-> 1], [kind |-> "alien", id |-> "a", val |-> 1] >>
Objs == 3..7
Alien == 8
Ids == <<"a", "b", "c", "0">>
IdSet == {"a", "b", "c"}

Init == /\ s = [thing |-> Thing0, mem |-> [t \in 1..8 |-> <<>>], own |-> [t \in 1..8 |-> 0]]
        /\ hist = <<>> /\ last = [op |-> "init"]

E(op, c, o, os, i, k) == [op |-> op, c |-> c, o |-> o, os |-> os, i |-> i, k |-> k]

Idx == -3..3
Pairs == IF Rich THEN {<<a, b>> : a \in Objs \cup {Alien}, b \in Objs \cup {Alien}}
         ELSE {<<3, 7>>, <<7, 4>>, <<3, 4>>, <<5, 6>>, <<5, 5>>, <<6, Alien>>, <<Alien, 7>>, <<7, 7>>, <<4, 5>>, <<5, 3>>}
SameVal(a, b) == s.thing[a].id = s.thing[b].id /\ s.thing[a].val = s.thing[b].val

Edits(c) ==
  {E("append", c, o, <<>>, 0, "") : o \in Objs \cup {Alien}}
  \cup {E("insert", c, o, <<>>, i, "") : o \in Objs \cup {Alien}, i \in {-2, -1, 0, 1, 5}}
  \cup {E("set", c, o, <<>>, i, "") : o \in Objs \cup {Alien}, i \in {-3, -1, 0, 1, 2}}
  \cup {E("setn", c, o, <<>>, i, "") : o \in {3, 5, 7}, i \in {-1, 0, 1}}
  \cup {E("setid", c, o, <<>>, 0, k) : o \in {3, 5, 7}, k \in {"a", "b"}}
  \cup {E("del", c, 0, <<>>, i, "") : i \in Idx}
  \cup {E("deln", c, 0, <<>>, i, "") : i \in {-1, 0, 1}}
  \cup {E("delid", c, 0, <<>>, 0, k) : k \in IdSet}
  \cup {E("remove", c, o, <<>>, 0, "") : o \in {x \in Objs \cup {Alien} :
          x \in Contained(s, c) \/ \A y \in Contained(s, c) : ~SameVal(x, y)}}
  \cup {E("extend", c, 0, p, 0, "") : p \in Pairs}
  \cup {E("pop", c, 0, <<>>, i, "") : i \in {-3, -1, 0, 1}} \cup {E(op, c, 0, <<>>, 0, "") : op \in {"poplast", "delslice"}}
  \cup {E("setslice", c, 5, <<>>, 0, "")} \cup {E("iadd", c, 0, p, 0, "") : p \in {<<3, 7>>, <<3, 4>>, <<5, 5>>, <<6, Alien>>}}
  \cup {E("iaddp", c, 0, p, 0, "") : p \in {<<7, 4>>, <<3, 4>>, <<5>>, <<Alien, 7>>}}
  \cup {E("assign", c, 0, p, 0, "") : p \in Pairs \cup {<<>>, <<5>>, <<7>>}}
  \cup {E("badid", c, 3, <<>>, 0, "1a"), E("badnew", c, 3, <<>>, 0, "-a")} \cup {E("assignone", c, 4, <<>>, 0, "")}
  \cup {E("reassign", c, 0, <<>>, i, "") : i \in 0..2} \cup {E("reextend", c, 0, <<>>, 0, "")}
  \cup {E("clear", c, 0, <<>>, 0, ""), E("reverse", c, 0, <<>>, 0, ""), E("refresh", c, 0, <<>>, 0, "")}
  \cup {E("sort", c, 0, <<0, 0, 2, 1, 2, 1, 3, 0>>, 0, "")}

(* the second container only serves to move objects to and fro *)
Edits2 == {E("append", 2, o, <<>>, 0, "") : o \in {3, 5, 7}}
          \cup {E("clear", 2, 0, <<>>, 0, ""), E("assign", 2, 0, <<4>>, 0, ""), E("set", 2, 3, <<>>, 0, "")}

EditsFew(c) ==
  {E("append", c, o, <<>>, 0, "") : o \in {3, 5, 7}}
  \cup {E("insert", c, o, <<>>, 0, "") : o \in {3, 5, 7}}
  \cup {E("set", c, o, <<>>, i, "") : o \in {3, 5, 7}, i \in {0, 1}}
  \cup {E("del", c, 0, <<>>, i, "") : i \in {0, 1}}
  \cup {E("delid", c, 0, <<>>, 0, k) : k \in IdSet}
  \cup {E("remove", c, o, <<>>, 0, "") : o \in {x \in {3, 5, 7} :
          x \in Contained(s, c) \/ \A y \in Contained(s, c) : ~SameVal(x, y)}}
  \cup {E("extend", c, 0, <<3, 4>>, 0, ""), E("assign", c, 0, <<7, 5>>, 0, ""), E("assign", c, 0, <<>>, 0, ""),
        E("reverse", c, 0, <<>>, 0, "")}

Renames == {E("rename", 0, o, <<>>, 0, k) : o \in IF Rich THEN {3, 5} ELSE {3}, k \in {"c"}}

(* once only, as they multiply the states *)
Rotations == IF ~Rot \/ s.thing # Thing0 THEN {} ELSE
  {E("rotate", 0, 0, os, 0, "") : os \in {<<3, 7>>, <<3, 5>>, <<5, 7>>, <<3, 7, 5>>}}

Small(t) == Len(t.mem[1]) <= MaxLen /\ Len(t.mem[2]) <= MaxLen2

Do(e) == LET r == Step(s, e) IN
         /\ Small(r.s)
         /\ s' = r.s /\ hist' = Append(hist, e) /\ last' = e
Next == \/ \E e \in (IF Two /\ ~Rich THEN EditsFew(1) ELSE Edits(1)) \cup (IF Two THEN Edits2 ELSE {}) : Do(e)
        \/ Two /\ \E e \in Renames : CanRename(s, e.o, e.k) /\ Do(e)
        \/ \E e \in Rotations : CanRotate(s, e.os) /\ Do(e)

Spec == Init /\ [][Next]_vars

TheView == << s.mem, s.thing, [o \in Objs |-> IF OwnerFixed(s, o) THEN s.own[o] ELSE 0],
              IF LastInView THEN last.op ELSE "" >>

Inv == TypeInv(s) /\ UniqueIds(s) /\ LookupSound(s, IdSet) /\ OwnerSound(s)

(* a refused edit changes nothing in the specification itself *)
RefusedKeeps == [][LET e == hist'[Len(hist')] IN
                   ((~Step(s, e).ok) /\ (e.op \notin {"extend", "assign", "reextend", "reassign", "iadd", "iaddp"})) => s' = s]_vars

Emit == PrintT("@@CASE " \o ToJson(
          [h |-> hist', ok |-> Step(s, hist'[Len(hist')]).ok, own |-> s'.own,
           fixed |-> [t \in 1..8 |-> OwnerFixed(s', t)],
           v |-> <<View(s', 1, Ids), View(s', 2, Ids)>>]))
=============================================================================
