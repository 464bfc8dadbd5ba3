----------------------------- MODULE MC_Vectors -----------------------------
(* Documents for the loader: every object built from up to MaxKeys entries of *)
(* a pool of right and wrong entries, in every order, and lists of them.      *)
(* Emits <<kind, document, damage>> for the recorder and checks the laws of   *)
(* Load that do not depend on the code.                                       *)
EXTENDS Vectors, Json
CONSTANTS MaxLeaf, MaxNode, MaxCase, Emitting
VARIABLES kind, doc, damage

Scalar(t, v) == [t |-> t, v |-> v, l |-> <<>>, o |-> <<>>]
Num(v) == Scalar("num", Codes(v))
Str(v) == Scalar("str", Codes(v))
Bool(v) == Scalar("bool", Codes(v))
Null == Scalar("null", <<>>)
Arr(l) == [t |-> "arr", v |-> <<>>, l |-> l, o |-> <<>>]
\* entries with the codes of their keys
E(o) == [i \in DOMAIN o |-> F(o[i][1], o[i][2])]
ES(p) == {F(x[1], x[2]) : x \in p}
Obj(o) == [t |-> "obj", v |-> <<>>, l |-> <<>>, o |-> o]

LeafPool == ES({<<"x", Num("7")>>, <<"x", Num("4294967295")>>, <<"s", Str("ab")>>, <<"s", Str("")>>, <<"s", Str("quote")>>,
             <<"x", Num("4294967296")>>, <<"x", Num("-1")>>, <<"x", Num("1.5")>>, <<"x", Str("7")>>, <<"x", Null>>,
             <<"s", Num("7")>>, <<"s", Null>>, <<"X", Num("1")>>, <<"comment", Str("unused")>>, <<"more", Arr(<<Num("1"), Null>>)>>})
L1 == Obj(E(<<<<"x", Num("1")>>, <<"s", Str("one")>>>>))
L2 == Obj(E(<<<<"s", Str("two")>>, <<"x", Num("2147483648")>>>>))
LBad == Obj(E(<<<<"x", Num("1")>>>>))
NodePool == ES({<<"info", Str("i")>>, <<"flag", Bool("true")>>, <<"flag", Bool("false")>>, <<"flag", Num("1")>>,
             <<"bytes", Arr(<<>>)>>, <<"bytes", Arr(<<Num("0"), Num("255"), Num("1"), Num("7")>>)>>, <<"bytes", Arr(<<Num("1"), Num("256")>>)>>, <<"bytes", Str("0001")>>,
             <<"tests", Arr(<<L1, L2, L1>>)>>, <<"tests", Arr(<<>>)>>, <<"tests", Arr(<<L1, LBad>>)>>, <<"tests", L1>>})
CasePool == ES({<<"tcId", Num("1")>>, <<"X", Num("7")>>, <<"x", Num("255")>>, <<"msg", Str("m")>>, <<"ct", Str("c")>>, <<"tcid", Num("65536")>>})

SeqsOf(S, n) == UNION {{q \in [1..k -> S] : TRUE} : k \in 0..n}
Needs(ks, q) == \A k \in ks : \E i \in DOMAIN q : q[i][1] = k
Leafs == {Obj(q) : q \in SeqsOf(LeafPool, MaxLeaf)}
Nodes == {Obj(q) : q \in SeqsOf(NodePool, MaxNode - 1) \cup {p \in [1..MaxNode -> NodePool] : Needs({Codes("info"), Codes("flag"), Codes("bytes"), Codes("tests")}, p)}}
\* permutations of distinct entries
Cases == {Obj(q) : q \in {p \in UNION {[1..k -> CasePool] : k \in (MaxCase - 2)..MaxCase} : \A i, j \in DOMAIN p : i # j => p[i] # p[j]}}
Few == {L1, L2, LBad, Obj(<<>>), Arr(<<L1>>), Num("7"), Null}
Lists == {Arr(q) : q \in SeqsOf(Few, 3)} \cup {L1, Null, Str("x"), Obj(<<>>)}
Damages == {"none", "cut", "trail", "absent", "spaces"}

Init == \/ kind = "leaf" /\ doc \in Leafs /\ damage = "none"
        \/ kind = "node" /\ doc \in Nodes /\ damage = "none"
        \/ kind = "case" /\ doc \in Cases /\ damage = "none"
        \/ kind = "leafs" /\ doc \in Lists /\ damage = "none"
        \/ kind = "leaf" /\ doc \in {L1, L2, LBad} /\ damage \in Damages
        \/ kind = "leafs" /\ doc \in {Arr(<<L1, L2>>), Arr(<<>>)} /\ damage \in Damages
Next == UNCHANGED <<kind, doc, damage>>

TypeOf == CASE kind = "leaf" -> Leaf [] kind = "node" -> Node [] kind = "case" -> Case [] kind = "leafs" -> <<"vec", Leaf>>
Result == Load(doc, TypeOf)
Emit == Emitting => PrintT(ToJson(<<kind, doc, damage>>))

\* a loaded object has exactly the declared fields; the order in the document, and entries that are not
\* declared, make no difference
Declared == {TypeOf[2][i][1] : i \in DOMAIN TypeOf[2]}
Rest(d) == Obj(SelectSeq(d.o, LAMBDA kv : kv[1] \in Declared))
Swapped(d, i) == Obj([d.o EXCEPT ![i] = d.o[i + 1], ![i + 1] = d.o[i]])
Laws == (kind \in {"leaf", "node", "case"} /\ doc.t = "obj") =>
          /\ ~Result.bad => Len(Result.v) = Len(TypeOf[2])
          /\ Load(Rest(doc), TypeOf) = Result
          /\ \A i \in 1..(Len(doc.o) - 1) : Load(Swapped(doc, i), TypeOf) = Result
          /\ Load(Arr(<<doc, doc>>), <<"vec", TypeOf>>) = IF Result.bad THEN Bad ELSE Good(<<Result.v, Result.v>>)
=============================================================================
