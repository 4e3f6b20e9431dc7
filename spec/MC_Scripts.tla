----------------------------- MODULE MC_Scripts -----------------------------
(* bounded instances; Mode: "part", "sort1", "sort2", "tally", "valid"       *)
EXTENDS Scripts, TLC, Json
CONSTANTS Mode, Size
VARIABLES c, out

KV == {<<>>, << <<97>> >>, << <<97, 58, 98>> >>, << <<97, 45, 98>> >>, << <<45, 45, 45>> >>}
Defs == {<<45, 45, 45>>, <<97, 58, 98>>}
SV == {<<>>, << <<>> >>, << <<97>> >>, << <<97, 49>> >>, << <<97, 49, 48>> >>, << <<97, 50>> >>, << <<48, 49>> >>, << <<49>> >>, << <<50, 97>> >>, << <<66>> >>}
SV2 == {<<>>, << <<97>> >>, << <<97, 49>> >>, << <<49>> >>}
UpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}

(* documents for validation: a words tier w (w1 "abc", w2 without text), an  *)
(* empty tier e and a tier g with one or two items                           *)
NoAt == <<>>
At(a, v) == IF v = <<>> THEN <<>> ELSE << [uri |-> "", loc |-> a, v |-> v[1]] >>
Nd(k, par, id, type, text, at, ch) ==
  [k |-> k, par |-> par, name |-> "", nameCps |-> <<>>, ns |-> <<>>, id |-> id, type |-> type, text |-> text, at |-> at, md |-> <<>>, ch |-> ch, map |-> <<>>]
w1 == <<119, 49>>
w2 == <<119, 50>>
gg == <<103>>
ww == <<119>>
Exprs == {<<>>, << <<>> >>, <<w1>>, <<w1 \o <<32>> \o w2>>, << <<122, 57>> >>,
          <<w1 \o <<91, 48, 58, 51, 93>> >>, <<w1 \o <<91, 48, 58, 52, 93>> >>, <<w2 \o <<91, 48, 58, 49, 93>> >>,
          <<w1 \o <<91, 48, 58, 50, 43, 49, 58, 51, 93>> >>, <<w1 \o <<91, 48, 58, 49, 43, 49, 58, 51, 93>> >>,
          <<w1 \o <<44>> \o w1 \o <<91, 49, 58, 50, 93>> >>, <<w2 \o <<44>> \o w2>>, <<w1 \o <<91, 49>> >>}
TierRefs == {<<>>, << <<>> >>, <<ww>>, << <<101>> >>, << <<120>> >>, << <<48>> >>, <<gg>>}
VDoc(x) == <<
  Nd("xigtcorpus", 0, x.cid, <<>>, <<>>, NoAt, <<2>>),
  Nd("igt", 1, x.iid, <<>>, <<>>, NoAt, <<3, 6, 7>>),
  Nd("tier", 2, <<ww>>, << <<84>> >>, <<>>, NoAt, <<4, 5>>),
  Nd("item", 3, <<w1>>, <<>>, << <<97, 98, 99>> >>, NoAt, <<>>),
  Nd("item", 3, <<w2>>, <<>>, <<>>, NoAt, <<>>),
  Nd("tier", 2, << <<101>> >>, << <<84>> >>, <<>>, NoAt, <<>>),
  Nd("tier", 2, <<gg>>, x.type, <<>>, At("alignment", x.tal) \o At("content", x.tco), <<8>>),
  Nd("item", 7, x.gid, <<>>, << <<121>> >>, At("alignment", x.al) \o At("content", x.co), <<>>) >>
Val(x) == [doc |-> VDoc(x), fs |-> Findings(VDoc(x), {}, FALSE)]

Init ==
  \/ /\ Mode = "part" /\ c \in [f : UpTo(UpTo(KV, 2), 2), def : Defs]
     /\ out = [p |-> {[name |-> n, igts |-> Content(c.f, c.def, n)] : n \in Names(c.f, c.def)}]
  \/ /\ Mode = "sort1" /\ c \in [ks : {[j \in 1..Len(s) |-> <<s[j]>>] : s \in UpTo(SV, Size)}]
     /\ out = [o |-> Order([j \in 1..Len(c.ks) |-> [k \in 1..Len(c.ks[j]) |-> SortKey(c.ks[j][k])]])]
  \/ /\ Mode = "sort2" /\ c \in [ks : UpTo(SV2 \X SV2, 3)]
     /\ out = [o |-> Order([j \in 1..Len(c.ks) |-> [k \in 1..Len(c.ks[j]) |-> SortKey(c.ks[j][k])]])]
  \/ /\ Mode = "tally" /\ c \in [xs : UpTo({<<>>, <<V(<<>>)>>, <<V(<< <<97>> >>)>>, <<V(<< <<97>> >>), V(<<NoneText>>)>>}, Size)]
     /\ out = [t |-> Tally(c.xs)]
  \/ /\ Mode = "valid"
     /\ c \in [cid : {<<>>, << <<99>> >>}, iid : {<<>>, << <<105>> >>}, type : {<<>>, << <<84>> >>}, tal : TierRefs, tco : {<<>>, <<ww>>, << <<120>> >>},
               gid : {<<>>, <<gg>>, <<w1>>}, al : Exprs, co : {<<>>, <<w1>>, << <<122>> >>}]
     /\ (Size > 0 => (c.cid = <<>> <=> c.iid = <<>>) /\ (c.type = <<>> <=> c.gid = <<>>))
     /\ out = [v |-> Val(c)]
Next == UNCHANGED <<c, out>>

(* laws *)
EveryOnce == Mode = "part" =>
  LET all == ToSet(Numbered(c.f)) IN
  \A x \in all : Cardinality({o \in out.p : <<x.f, x.j>> \in ToSet(o.igts)}) = 1
NothingElse == Mode = "part" => \A o \in out.p : o.igts # <<>> /\ Cardinality(ToSet(o.igts)) = Len(o.igts)
SortKeys == [j \in 1..Len(c.ks) |-> [k \in 1..Len(c.ks[j]) |-> SortKey(c.ks[j][k])]]
Ordered == Mode \in {"sort1", "sort2"} =>
  LET s == SortKeys o == out.o IN
  /\ ToSet(o) = 1..Len(s)
  /\ \A i, j \in 1..Len(o) : i < j => ~Lt3(s[o[j]], s[o[i]]) /\ (~Lt3(s[o[i]], s[o[j]]) => o[i] < o[j])
  /\ Order([j \in 1..Len(o) |-> s[o[j]]]) = [j \in 1..Len(o) |-> j]
RECURSIVE Sum(_)
Sum(t) == IF t = <<>> THEN 0 ELSE Head(t).n + Sum(Tail(t))
Tallied == Mode = "tally" => Sum(out.t) = Len(c.xs) /\ {x.g : x \in ToSet(out.t)} = ToSet(c.xs) /\ \A j \in 2..Len(out.t) : out.t[j].n <= out.t[j - 1].n
(* a finding is at an object of the document, and a clean one has none *)
Judged == Mode = "valid" => \A f \in out.v.fs : f.o \in 1..8 /\ f.lv \in {20, 30, 40}
Emit == PrintT("@@CASE " \o ToJson([c |-> c, out |-> out]))
=============================================================================
