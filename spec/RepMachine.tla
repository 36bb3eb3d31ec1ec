---------------------------- MODULE RepMachine ----------------------------
(* A program that builds representation expressions through the public API. *)
(* regs is the sequence of expressions built so far; an operation reads     *)
(* registers and appends its result.  No operation changes a register.      *)
EXTENDS Rep
CONSTANTS MaxSize, MaxLeaves, Bases, MaxRegs
VARIABLE regs

Op(o,a,b,n,g,s) == [o |-> o, a |-> a, b |-> b, n |-> n, g |-> g, s |-> s]

\* the expression an operation yields
Result(rs,op) ==
  CASE op.o = "atom"  -> AtomT(op.s, IF op.s = "V" THEN 1 ELSE op.n, op.g, 0)
    [] op.o = "scalar"-> Sca
    [] op.o = "T"     -> TensorT(op.a, op.b, op.g)
    [] op.o = "add"   -> Plus(rs[op.a], rs[op.b])
    [] op.o = "addint"-> Plus(rs[op.a], NTimes(op.n,Sca))
    [] op.o = "raddint"-> Plus(NTimes(op.n,Sca), rs[op.a])
    [] op.o = "mul"   -> Times(rs[op.a], rs[op.b])
    [] op.o = "nmul"  -> NTimes(op.n, rs[op.a])
    [] op.o = "rnmul" -> NTimes(op.n, rs[op.a])
    [] op.o = "pow"   -> PowerT(rs[op.a], op.n)
    [] op.o = "dual"  -> DualT(rs[op.a])
    [] op.o = "shr"   -> MapsT(rs[op.a], rs[op.b])
    [] op.o = "shl"   -> MapsT(rs[op.b], rs[op.a])
    [] op.o = "inst"  -> InstT(rs[op.a], op.g)

\* a product of several groups is a representation of their direct product:
\* it can not be given a single group afterwards, and the coordinates of a sum or
\* product that is already instantiated can only be kept by a group of the same dimension
RECURSIVE CanInst(_,_)
CanInst(t,g) == IF t.k \in {"A","S"} THEN TRUE
                ELSE IF Conc(t) THEN ~MixedTensor(t) /\ \A h \in GroupsOf(t) : GT[h].d = GT[g].d
                ELSE \A i \in DOMAIN t.c : CanInst(t.c[i],g)
BigGroup == CHOOSE g \in DOMAIN GT : \A x \in DOMAIN GT : GT[x].d <= GT[g].d
Unary == {"addint","raddint","nmul","rnmul","pow","dual","inst"}
Binary == {"add","mul","shr","shl"}
Valid(rs,op) ==
  /\ Len(rs) < MaxRegs
  /\ op.o \in Unary \cup Binary => op.a \in DOMAIN rs
  /\ op.o \in Binary => op.b \in DOMAIN rs
  /\ op.o = "inst" => CanInst(rs[op.a],op.g)
  /\ LET t == Result(rs,op) IN
     /\ Leaves(t) <= MaxLeaves
     /\ IF Conc(t) THEN Size(t) <= MaxSize ELSE SizeAs(t,BigGroup) <= MaxSize
Do(op) == (Valid(regs,op) = TRUE) /\ regs' = Append(regs, Result(regs,op))
=============================================================================
