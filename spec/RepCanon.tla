----------------------------- MODULE RepCanon -----------------------------
(* Design model of the canonicalization algorithm (SumRep / ProductRep       *)
(* compute_canonical and distribute_product): every expression is kept as    *)
(* its canonical content and the permutation perm such that coordinate f of  *)
(* the canonical order is coordinate perm[f] of the written order.  All      *)
(* expressions of a few operations are explored under every total order a    *)
(* hash seed may induce on the factors.                                      *)
EXTENDS Rep
CONSTANTS AtomSeq,     \* the base representations of the model, a sequence of atom trees
          NOps,        \* operations after the atoms
          MaxDim,
          Ties         \* TRUE: the order is only by size (a broken, non total order)
VARIABLES regs,        \* sequence of [t: the written tree, v: the canonical value]
          ord          \* the order: a permutation of the atoms, and a direction for tensors
vars == <<regs,ord>>

K == Len(AtomSeq)
IdxOf(a) == CHOOSE k \in 1..K : AtomSeq[k] = a
ASz(k) == AtomSize(AtomSeq[k])
\* a monomial is a sequence of counts, one per atom
MonoOf(k) == [j \in 1..K |-> IF j = k THEN 1 ELSE 0]
MonoScalar == [j \in 1..K |-> 0]
RECURSIVE Pow(_,_)
Pow(b,e) == IF e = 0 THEN 1 ELSE b*Pow(b,e-1)
MSize(m) == FoldLeft(LAMBDA x,k : x*Pow(ASz(k),m[k]), 1, [k \in 1..K |-> k])
\* sorted lists under the order: atoms by rank ord.a, tensors by size and then by a weight
Key(m) == IF Ties THEN MSize(m)
          ELSE LET w == FoldLeft(LAMBDA x,k : x + m[ord.a[k]]*Pow(7,k), 0, [k \in 1..K |-> k])
               IN MSize(m)*100000 + (IF ord.r THEN 50000 - w ELSE w)
\* stable sort of a sequence of monomials without repetitions (insertion order breaks ties)
RECURSIVE Insert(_,_)
Insert(s,m) == IF s = <<>> THEN <<m>>
               ELSE IF Key(m) < Key(s[1]) THEN <<m>> \o s
               ELSE <<s[1]>> \o Insert(Tail(s),m)
SortM(s) == FoldLeft(LAMBDA acc,m : Insert(acc,m), <<>>, s)
Uniq(s) == FoldLeft(LAMBDA acc,m : IF m \in Range(acc) THEN acc ELSE Append(acc,m), <<>>, s)
IdSeq(n) == [k \in 1..n |-> k]

\* a sum value: r, a sorted sequence of <<monomial,count>>, and perm
SumSize(r) == SumSeq([j \in DOMAIN r |-> r[j][2]*MSize(r[j][1])])
CountIn(r,m) == LET s == SelectSeq(r, LAMBDA x : x[1] = m) IN IF s = <<>> THEN 0 ELSE s[1][2]
OffIn(r,m) ==   \* coordinates before tensor m in the canonical order of r
   LET f[j \in 0..Len(r)] == IF j = 0 THEN 0 ELSE f[j-1] + r[j][2]*MSize(r[j][1])
       pos == {j \in DOMAIN r : r[j][1] = m}
   IN IF pos = {} THEN 0 ELSE f[(CHOOSE j \in pos : TRUE)-1]
SumCanon(vs) ==
   LET keys == SortM(Uniq(FlattenSeq([i \in DOMAIN vs |-> [j \in DOMAIN vs[i].r |-> vs[i].r[j][1]]])))
       off[i \in 0..Len(vs)] == IF i = 0 THEN 0 ELSE off[i-1] + Len(vs[i].perm)
       chunk(m,i) == LET n == CountIn(vs[i].r,m)*MSize(m)
                         o == OffIn(vs[i].r,m)
                     IN [k \in 1..n |-> off[i-1] + vs[i].perm[o+k]]
   IN TLCEval([r |-> [j \in DOMAIN keys |-> <<keys[j], SumSeq([i \in DOMAIN vs |-> CountIn(vs[i].r,keys[j])])>>],
       perm |-> FlattenSeq([j \in DOMAIN keys |-> FlattenSeq([i \in DOMAIN vs |-> chunk(keys[j],i)])])])
ExtraPerm(v,extra) == [v EXCEPT !.perm = [k \in DOMAIN v.perm |-> extra[v.perm[k]]]]

\* the axes of a tensor in canonical order: atoms sorted, repeated by count
AtomOrder == IF Ties THEN IdSeq(K) ELSE ord.a
Axes(m) == FlattenSeq([x \in 1..K |-> LET k == AtomOrder[x] IN [c \in 1..m[k] |-> k]])
\* product of two tensors: permutation from canonical to written order
ProdPerm(m1,m2) ==
   LET tagged == FlattenSeq([x \in 1..K |-> LET k == AtomOrder[x]
                        IN [c \in 1..m1[k] |-> <<1,k>>] \o [c \in 1..m2[k] |-> <<2,k>>]])
       n == Len(tagged)
       sz(a) == ASz(tagged[a][2])
       stride[a \in 1..(n+1)] == IF a >= n THEN 1 ELSE stride[a+1]*sz(a+1)
       total == MSize(m1)*MSize(m2)
       ax(w) == SelectSeq(IdSeq(n), LAMBDA a : tagged[a][1] = w)
       digit(f,a) == ((f-1) \div stride[a]) % sz(a)
       idx(f,w) == FoldLeft(LAMBDA acc,a : acc*sz(a) + digit(f,a), 0, ax(w))
   IN [f \in 1..total |-> idx(f,1)*MSize(m2) + idx(f,2) + 1]
MonoMul(m1,m2) == [k \in 1..K |-> m1[k]+m2[k]]

\* (sum) x (sum), as distribute_product does it
Distribute(v1,v2) ==
   LET n1 == Len(v1.perm)
       n2 == Len(v2.perm)
       prs == FlattenSeq([a \in DOMAIN v1.r |-> [b \in DOMAIN v2.r |-> <<a,b>>]])
       one(p) ==   \* canonical block of a pair and, per canonical coordinate, its written coordinate
         LET m1 == v1.r[p[1]][1]
             m2 == v2.r[p[2]][1]
             c1 == v1.r[p[1]][2]
             c2 == v2.r[p[2]][2]
             s1 == MSize(m1)
             s2 == MSize(m2)
             pp == ProdPerm(m1,m2)
             o1 == OffIn(v1.r,m1)
             o2 == OffIn(v2.r,m2)
             coord(f) == LET cc == (f-1) \div (s1*s2)       \* copy (i1,i2)
                             w == pp[((f-1) % (s1*s2))+1] - 1 \* written coordinate (x1,x2) inside the copy
                             i1 == cc \div c2
                             i2 == cc % c2
                             x1 == w \div s2
                             x2 == w % s2
                         IN (v1.perm[o1 + i1*s1 + x1 + 1]-1)*n2 + v2.perm[o2 + i2*s2 + x2 + 1]
         IN [r |-> << <<MonoMul(m1,m2), c1*c2>> >>, perm |-> IdSeq(c1*c2*s1*s2), src |-> [f \in 1..(c1*c2*s1*s2) |-> coord(f)]]
       blocks == [x \in DOMAIN prs |-> one(prs[x])]
       total == FlattenSeq([x \in DOMAIN blocks |-> blocks[x].src])
   IN TLCEval(ExtraPerm(SumCanon([x \in DOMAIN blocks |-> [r |-> blocks[x].r, perm |-> blocks[x].perm]]), total))

AtomVal(k) == [r |-> << <<MonoOf(k),1>> >>, perm |-> IdSeq(ASz(k))]
ScalarVal == [r |-> << <<MonoScalar,1>> >>, perm |-> <<1>>]

\* meaning of a canonical value
MonoTree(m) == LET ax == Axes(m) IN IF ax = <<>> THEN Sca ELSE IF Len(ax) = 1 THEN AtomSeq[ax[1]]
                                    ELSE [k |-> "*", c |-> [x \in DOMAIN ax |-> AtomSeq[ax[x]]]]
ValTree(v) == LET cs == FlattenSeq([j \in DOMAIN v.r |-> [x \in 1..v.r[j][2] |-> MonoTree(v.r[j][1])]])
              IN [k |-> "+", c |-> cs]

CanonInit ==
  /\ ord \in [a : {p \in [1..K -> 1..K] : Range(p) = 1..K}, r : BOOLEAN]
  /\ regs = [k \in 1..K |-> [t |-> AtomSeq[k], v |-> AtomVal(k)]] \o <<[t |-> Sca, v |-> ScalarVal]>>
CanonNext ==
  /\ Len(regs) < K + 1 + NOps
  /\ UNCHANGED ord
  /\ \E a,b \in DOMAIN regs :
       \/ /\ Size(regs[a].t) + Size(regs[b].t) <= MaxDim
          /\ regs' = Append(regs, [t |-> Plus(regs[a].t,regs[b].t), v |-> SumCanon(<<regs[a].v,regs[b].v>>)])
       \/ /\ Size(regs[a].t) * Size(regs[b].t) <= MaxDim
          /\ regs' = Append(regs, [t |-> [k |-> "*", c |-> <<regs[a].t,regs[b].t>>], v |-> Distribute(regs[a].v,regs[b].v)])

\* generic elements for the groups "a" and "b"
Elems == "a" :> [m |-> << << <<1,2>>,<<2,3>> >>, << <<1,5>>,<<2,7>> >> >>] @@ "b" :> [m |-> << << <<1,11>>,<<2,13>> >>, << <<1,17>>,<<2,19>> >> >>]
         @@ "c" :> [m |-> << << <<1,23>> >> >>]
Ms == [g \in {"a","b","c"} |-> [m |-> Elems[g].m, w |-> Elems[g].m]]
LastReg == regs[Len(regs)]
IsPerm(p) == {p[k] : k \in DOMAIN p} = DOMAIN p
Faithful == /\ IsPerm(LastReg.v.perm) /\ Len(LastReg.v.perm) = Size(LastReg.t)
            /\ LET D == RhoT(LastReg.t,Ms)
                   C == RhoT(ValTree(LastReg.v),Ms)
                   p == LastReg.v.perm
                   inv == [y \in DOMAIN p |-> CHOOSE x \in DOMAIN p : p[x] = y]
               IN RowsEq(C, [x \in DOMAIN p |-> [j \in DOMAIN D[p[x]] |-> <<inv[D[p[x]][j][1]], D[p[x]][j][2]>>]])
Unique == \A x \in 1..(Len(regs)-1) : Poly(regs[x].t) = Poly(LastReg.t) => regs[x].v.r = LastReg.v.r
\* canonicalizing the canonical form yields the identity
Idempotent == SumCanon(<<[r |-> LastReg.v.r, perm |-> IdSeq(Len(LastReg.v.perm))]>>) = [r |-> LastReg.v.r, perm |-> IdSeq(Len(LastReg.v.perm))]
GTm == "a" :> [d |-> 2, orth |-> 0, perm |-> 0] @@ "b" :> [d |-> 2, orth |-> 0, perm |-> 0] @@ "c" :> [d |-> 1, orth |-> 0, perm |-> 0]
AtomsM == <<AtomT("V",1,"a",0), AtomT("V",1,"b",0), AtomT("V",1,"c",0)>>
=============================================================================
