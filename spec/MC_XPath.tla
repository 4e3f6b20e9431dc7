----------------------------- MODULE MC_XPath -----------------------------
(* All paths of up to N steps over a vocabulary of steps, from every object  *)
(* of the given documents.                                                   *)
EXTENDS XPath, TLC, Json, IOUtils
CONSTANTS N0, Mode
Docs == ndJsonDeserialize(IOEnv.DOC_FILE)

S(ax, pre, name) == [ax |-> ax, pre |-> pre, name |-> name, args |-> <<>>, alts |-> <<>>, preds |-> <<>>]
P(ss) == [abs |-> FALSE, steps |-> ss]
A(ss) == [abs |-> TRUE, steps |-> ss]
F(name, args) == [S("func", "", name) EXCEPT !.args = args]
G(ps) == [S("group", "", "") EXCEPT !.alts = ps]
C(name) == S("child", "", name)
At(pre, name) == S("attr", pre, name)
Self == S("self", "", "")
Up == S("parent", "", "")
Pr(p, cmp, val) == [p |-> p, cmp |-> cmp, val |-> val]
a == <<97>>
b == <<98>>

NodeSteps == {C(x) : x \in {"igt", "tier", "item", "metadata", "meta", "n"}} \cup {S("child", pre, x) : pre \in {"", "p"}, x \in {"*"}}
             \cup {S("child", "p", x) : x \in {"n", "tier", "metadata"}} \cup {S("child", "zz", "n")}
             \cup {S("desc", "", x) : x \in {"tier", "item", "metadata", "meta", "n", "*"}} \cup {S("desc", "p", x) : x \in {"n", "*", "igt"}}
             \cup {Self, Up}
ValueSteps == {At("", x) : x \in {"id", "type", "name", "v", "*"}} \cup {At("p", x) : x \in {"v", "*"}} \cup {At("zz", "v")}
GroupSteps == { G(<<P(<<C("tier")>>), P(<<C("metadata")>>)>>), G(<<P(<<C("n")>>), P(<<Self, S("desc", "", "item"), Up>>), P(<<Self>>)>>),
                G(<<A(<<C("igt"), C("tier")>>), P(<<Up>>)>>), G(<<P(<<At("", "v")>>), P(<<At("", "id")>>)>>),
                G(<<P(<<G(<<P(<<C("item")>>), P(<<C("meta")>>)>>), At("", "v")>>), P(<<C("*")>>)>>) }
FuncSteps == {F("text", <<>>), F("value", <<>>), F("referent", <<>>), F("referrer", <<>>),
              F("referent", <<"alignment">>), F("referrer", <<"segmentation">>), F("referent", <<"alignment", "segmentation">>),
              F("referrer", <<"content", "ref">>), F("referent", <<"ref">>),
              F("referrer", <<"segmentation", "content", "alignment">>), F("referent", <<"content", "alignment">>)}
FuncGroups == {G(<<P(<<F("referent", <<>>)>>), P(<<F("referrer", <<>>)>>)>>)}
Steps == IF Mode = "P01" THEN NodeSteps \cup ValueSteps \cup GroupSteps
         ELSE {C(x) : x \in {"igt", "tier", "item", "meta", "n", "*"}} \cup {S("desc", "", x) : x \in {"tier", "item", "n", "meta"}} \cup {Self, Up, At("", "id")} \cup FuncSteps \cup FuncGroups
Preds == IF Mode = "P01"
  THEN {Pr(P(<<At("", "v")>>), c, x) : c \in {"=", "!="}, x \in {a, <<>>}} \cup {Pr(P(<<At("", "id")>>), "!=", <<105, 49>>)}
       \cup {Pr(P(<<At(pre, x)>>), "", <<>>) : pre \in {"", "p"}, x \in {"v", "*"}} \cup {Pr(P(<<At("", "type")>>), "", <<>>)}
       \cup {Pr(P(<<Up, At("", "v")>>), "=", a), Pr(P(<<C("*"), At("", "v")>>), "=", b), Pr(P(<<C("*"), At("", "v")>>), "!=", b), Pr(P(<<C("*")>>), "", <<>>),
             Pr(P(<<Self, S("desc", "", "item")>>), "", <<>>), Pr(A(<<C("igt"), At("", "v")>>), "=", a), Pr(P(<<Self>>), "=", a)}
  ELSE {Pr(P(<<F("text", <<>>)>>), c, a) : c \in {"", "=", "!="}} \cup {Pr(P(<<F("value", <<>>)>>), c, a) : c \in {"", "=", "!="}}
       \cup {Pr(P(<<F(f, g)>>), "", <<>>) : f \in {"referent", "referrer"}, g \in {<<>>, <<"alignment">>, <<"segmentation", "content">>}}
       \cup {Pr(P(<<F("referent", <<>>), F("value", <<>>)>>), "=", a), Pr(P(<<F("referrer", <<>>), At("", "id")>>), "!=", <<98, 49>>), Pr(P(<<Self>>), "=", a)}

VARIABLES abs, ss
vars == <<abs, ss>>
Init == abs \in BOOLEAN /\ ss = <<>>
Node(s) == s.ax # "attr" /\ ~(s.ax = "func" /\ s.name \in {"text", "value"})
NPreds == FoldLeft(LAMBDA acc, s : acc + Len(s.preds), 0, ss)
Next == /\ UNCHANGED abs
        /\ \/ /\ Len(ss) + NPreds < N0 /\ (IF ss = <<>> THEN TRUE ELSE Node(ss[Len(ss)]))
              /\ \E s \in Steps : ((ss # <<>> \/ abs \/ s.ax # "desc") = TRUE) /\ ss' = Append(ss, s)
           \/ /\ Len(ss) + NPreds < N0 /\ ss # <<>>
              /\ \E p \in Preds : ss' = [ss EXCEPT ![Len(ss)].preds = Append(@, p)]

D == Docs[1]
All == 1..Len(D)
Path == [abs |-> abs, steps |-> ss]
Res == TLCEval([n \in All |-> Eval(D, Path, N(n))])
(* ------------------------------------------------------------- laws *)
AbsoluteSame == abs /\ ss # <<>> => \A n \in All : Eval(D, Path, N(n)) = Eval(D, Path, N(1))
StepByStep == Len(ss) = 2 => \A n \in All : LET r == Eval(D, [Path EXCEPT !.steps = SubSeq(ss, 1, 1)], N(n)) IN
  Defined(r) => Eval(D, Path, N(n)) = Cat([j \in 1..Len(r) |-> Eval(D, P(SubSeq(ss, 2, 2)), r[j])])
DescIsClosure == ss # <<>> /\ Len(ss) = 1 /\ ss[1].ax = "desc" /\ ss[1].preds = <<>> => \A n \in All :
  LET up(m) == \E k \in 0..8 : FoldLeft(LAMBDA x, j : IF x = 0 THEN 0 ELSE D[x].par, m, [j \in 1..k |-> j]) = n IN
  {x.n : x \in ToSet(EvalStep(D, ss[1], N(n)))} = {m \in All : up(m) /\ (ss[1].name = "*" \/ NodeName(D, m) = ss[1].name) /\ InNs(D, m, m, ss[1].pre)}
DocOrder == Len(ss) = 1 /\ ss[1].ax \in {"child", "desc"} => \A n \in All : LET r == Eval(D, P(ss), N(n)) IN Defined(r) =>
  \A i, j \in 1..Len(r) : i < j => r[i].n < r[j].n
Complement == Len(ss) = 1 /\ Len(ss[1].preds) = 1 /\ ss[1].preds[1].cmp = "=" => \A n \in All :
  LET s0 == [ss[1] EXCEPT !.preds = <<>>]
      ne == [ss[1] EXCEPT !.preds[1].cmp = "!="]
      r0 == Eval(D, P(<<s0>>), N(n)) r1 == Eval(D, Path, N(n)) r2 == Eval(D, [Path EXCEPT !.steps = <<ne>>], N(n))
  IN ~abs /\ Defined(r0) /\ Defined(r1) => Defined(r2) /\ Len(r1) + Len(r2) = Len(r0) /\ ToSet(r1) \cup ToSet(r2) = ToSet(r0)
Converse == \* referrers are the converse of referents
  ss = <<>> => \A n, m \in All : D[n].k \in {"tier", "item"} /\ D[m].k = D[n].k =>
    (N(m) \in ToSet(Func(D, n, "referent", <<>>)) <=> N(n) \in ToSet(Func(D, m, "referrer", <<>>)))
Emit == ss = <<>> \/ PrintT("@@CASE " \o ToJson([p |-> Path, r |-> LET z == Res IN [n \in All |-> IF Defined(z[n]) THEN <<z[n]>> ELSE <<>>]]))
=============================================================================
