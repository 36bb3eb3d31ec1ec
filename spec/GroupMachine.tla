---------------------------- MODULE GroupMachine ----------------------------
(* A program that constructs groups: library constructors, embeddings and    *)
(* direct products of groups made before.  terms[k] is the k-th group.       *)
EXTENDS GroupTerms
CONSTANT MaxDim
VARIABLE terms
GOp(o,c,a,b,i,j) == [o |-> o, c |-> c, a |-> a, b |-> b, i |-> i, j |-> j, st |-> 1]
\* user defined groups with a single generator: integer matrices
UserTab == 1 :> [lie |-> <<>>, disc |-> << << <<1,1>>,<<0,1>> >> >>]
        @@ 2 :> [lie |-> <<>>, disc |-> << << <<0,-1>>,<<1,1>> >> >>]
        @@ 3 :> [lie |-> <<>>, disc |-> << << <<0,1,0>>,<<0,0,1>>,<<-1,0,0>> >> >>]
        @@ 4 :> [lie |-> << << <<0,1>>,<<0,0>> >> >>, disc |-> <<>>]
        @@ 5 :> [lie |-> << << <<0,1,0>>,<<0,0,0>>,<<0,-2,0>> >> >>, disc |-> <<>>]
        @@ 6 :> [lie |-> <<>>, disc |-> << << <<0,0,1>>,<<1,0,0>>,<<0,1,0>> >> >>]
        @@ 7 :> [lie |-> <<>>, disc |-> << << <<1,0>>,<<0,1>> >> >>]
        @@ 8 :> [lie |-> <<>>, disc |-> << << <<1,2>>,<<0,1>> >> >>]
        @@ 9 :> [lie |-> << << <<0,2>>,<<-2,0>> >> >>, disc |-> <<>>]
\* the documented embeddings of planar groups in three dimensions
Planar == "SO2eR3" :> "SO" @@ "O2eR3" :> "O" @@ "DkeR3" :> "D"
ResultG(ts,op) ==
  CASE op.o = "base" /\ op.c \in DOMAIN Planar -> [Term("Emb",3,0,<<Term(Planar[op.c],IF op.c = "DkeR3" THEN op.a ELSE 2,0,<<>>)>>) EXCEPT !.h = 2]
    [] op.o = "base" -> Term(op.c,op.a,op.b,<<>>)
    [] op.o = "user" -> [Term("User",Len((UserTab[op.a].lie \o UserTab[op.a].disc)[1]),op.a,<<>>) EXCEPT !.x = UserTab[op.a]]
    [] op.o = "embed" -> [Term("Emb",op.a,op.b,<<ts[op.i]>>) EXCEPT !.st = op.st, !.h = op.b + (Dim(ts[op.i])-1)*op.st + 1]
    [] op.o = "prod" -> Term("Prod",0,0,<<ts[op.i],ts[op.j]>>)
RECURSIVE Depth(_)
Depth(t) == IF t.s = <<>> THEN 0 ELSE 1 + Max({Depth(t.s[k]) : k \in DOMAIN t.s})
RECURSIVE HasCls(_,_)
HasCls(t,cs) == t.c \in cs \/ \E k \in DOMAIN t.s : HasCls(t.s[k],cs)
ValidG(ts,op) == LET t == ResultG(ts,op) IN
  /\ op.o # "base" => Dim(t) <= MaxDim /\ Depth(t) <= 2
  /\ op.o = "embed" => t.h <= op.a /\ ~HasCls(t,{"User"})
  /\ op.o = "prod" => ~HasCls(t,{"User","Emb"}) /\ Dim(ts[op.i]) > 1 /\ Dim(ts[op.j]) > 1
=============================================================================
