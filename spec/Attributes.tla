----------------------------- MODULE Attributes -----------------------------
(* Attribute lookup with namespaces and inheritance (A01), metadata lookup   *)
(* and selection (A02).                                                      *)
(* A chain is a sequence of objects, the outermost owner first; an object is *)
(*   [map, at]  map: <<>> (no own table) or <<seq of <<prefix, uri>> >>      *)
(*              at: seq of << <<uri, local>>, value>>  (uri "" for none)     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

RECURSIVE Table(_, _)
Table(chain, n) == IF n = 0 THEN <<>> ELSE IF chain[n].map # <<>> THEN chain[n].map[1] ELSE Table(chain, n - 1)
UriOf(table, pre) == LET h == SelectSeq(table, LAMBDA q : q[1] = pre) IN IF h = <<>> THEN <<>> ELSE <<h[1][2]>>

(* the key a request resolves to for object n of the chain: a request is     *)
(* [local, uri, pre, ns]: uri / pre are parts of the key itself ("" none),   *)
(* ns the namespace argument (<<>> none)                                     *)
Key(chain, n, q) ==
  LET t == Table(chain, n) IN
  IF q.uri # "" THEN <<q.uri, q.local>>
  ELSE IF q.pre # "" THEN <<UriOf(t, q.pre)[1], q.local>>
  ELSE IF q.ns = <<>> THEN <<"", q.local>>
  ELSE LET u == UriOf(t, q.ns[1]) IN <<IF u = <<>> THEN q.ns[1] ELSE u[1], q.local>>
(* a prefix in the key must be known to the object asked *)
Proper(chain, n, q) == q.pre = "" \/ UriOf(Table(chain, n), q.pre) # <<>>

Own(x, key) == LET h == SelectSeq(x.at, LAMBDA a : a[1] = key) IN IF h = <<>> THEN <<>> ELSE <<h[1][2]>>
RECURSIVE Nearest(_, _, _)
Nearest(chain, n, key) == IF n = 0 THEN <<>> ELSE IF Own(chain[n], key) # <<>> THEN Own(chain[n], key) ELSE Nearest(chain, n - 1, key)
(* <<value>>, or <<>> for the default *)
Lookup(chain, n, q, inherit) ==
  IF inherit THEN Nearest(chain, n, Key(chain, n, q)) ELSE Own(chain[n], Key(chain, n, q))

(* ---- metadata: levels is a sequence (outermost first) of sequences of     *)
(* metadata [type, metas], metas: seq of [type, has] (has: set of conditions *)
(* the meta satisfies). The result is <<level, positions>> or <<>>.          *)
Matches(md, key, conds) == SelectSeq([k \in 1..Len(md.metas) |-> k],
  LAMBDA k : md.metas[k].type = <<key>> /\ conds \subseteq ToSet(md.metas[k].has))
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
AtLevel(mds, key, conds) == Cat([j \in 1..Len(mds) |->
  IF mds[j].type # <<"xigt-meta">> THEN <<>> ELSE LET h == Matches(mds[j], key, conds) IN [k \in 1..Len(h) |-> <<j, h[k]>>]])
RECURSIVE GetMeta(_, _, _, _, _)
GetMeta(levels, n, key, conds, inherit) ==
  IF n = 0 THEN <<>>
  ELSE LET h == AtLevel(levels[n], key, conds) IN
       IF h # <<>> THEN <<n, h>> ELSE IF inherit THEN GetMeta(levels, n - 1, key, conds, inherit) ELSE <<>>

(* ---- selection: objects are sequences of <<member, optional value>>; a    *)
(* request is a sequence of the same; ns requests go through the table       *)
Member(x, m) == x[CHOOSE k \in 1..Len(x) : x[k][1] = m][2]
Want(table, c) == IF c[1] = "namespace" /\ c[2] # <<>> /\ UriOf(table, c[2][1]) # <<>> THEN UriOf(table, c[2][1]) ELSE c[2]
Select(table, xs, req) == SelectSeq([k \in 1..Len(xs) |-> k],
  LAMBDA k : \A c \in ToSet(req) : Member(xs[k], c[1]) = Want(table, c))
=============================================================================
