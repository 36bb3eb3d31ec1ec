------------------------------ MODULE GroupGen ------------------------------
EXTENDS GroupMachine, Json, CSV, IOUtils
CONSTANTS NOps, Asks
VARIABLES hist, done
Pick(S) == RandomElement(S)
BaseParams == << <<"Tri",1,4>>, <<"SO",1,5>>, <<"SO",2,4>>, <<"O",1,4>>, <<"S",1,6>>, <<"Z",1,8>>, <<"C",1,12>>, <<"D",1,12>>, <<"SL",1,4>>, <<"GL",1,4>>,
    <<"U",1,3>>, <<"SU",1,4>>, <<"Sp",1,3>>, <<"Sca",1,4>>, <<"Par",1,1>>, <<"TR",1,1>>, <<"SO13p",1,1>>, <<"SO13",1,1>>, <<"O13",1,1>>, <<"Lor",1,1>>,
    <<"SO11p",1,1>>, <<"O11",1,1>>, <<"Cube",1,1>>, <<"Rub",1,1>>, <<"Zks2",1,3>>, <<"Zks4",1,2>>, <<"C",15,15>>, <<"D",60,60>>, <<"SO2eR3",1,1>>, <<"O2eR3",1,1>>, <<"DkeR3",1,9>> >>
TakeOp(op) == IF ValidG(terms,op) THEN terms' = Append(terms,ResultG(terms,op)) /\ hist' = Append(hist,op) ELSE UNCHANGED <<terms,hist>>
AskOp == \E k \in {Pick(DOMAIN terms)} : \E a \in {Pick(Asks)} : \E n \in {Pick(1..4)} :
         hist' = Append(hist,GOp(a,"",n,0,k,0)) /\ UNCHANGED terms
BaseOp == \E k \in {Pick(DOMAIN BaseParams)} : \E n \in {Pick(BaseParams[k][2]..BaseParams[k][3])} :
        TakeOp(CASE BaseParams[k][1] = "Zks2" -> GOp("base","Zks",2,n,0,0)
          [] BaseParams[k][1] = "Zks4" -> GOp("base","Zks",4,n,0,0)
          [] OTHER -> GOp("base",BaseParams[k][1],n,0,0,0))
GenInit == terms = <<>> /\ hist = <<>> /\ done = FALSE
GenNext == \/ /\ Len(hist) < NOps
              /\ \E kd \in {IF terms = <<>> THEN 1 ELSE Pick(1..10)} :
                   CASE kd \in {1,2,3} -> BaseOp
                     [] kd = 4 -> TakeOp(GOp("user","",Pick(DOMAIN UserTab),0,0,0))
                     [] kd = 5 -> \E i \in {Pick(DOMAIN terms)} : \E lo \in {Pick(0..2)} : \E st \in {Pick({1,1,2})} : \E ex \in {Pick(0..2)} :
                          TakeOp([GOp("embed","",lo+(Dim(terms[i])-1)*st+1+ex,lo,i,0) EXCEPT !.st = st])
                     [] kd \in {6,7} -> TakeOp(GOp("prod","",0,0,Pick(DOMAIN terms),Pick(DOMAIN terms)))
                     [] OTHER -> AskOp
              /\ UNCHANGED done
           \/ /\ Len(hist) = NOps /\ ~done
              /\ CSVWrite("%1$s", <<ToJson([hist |-> hist])>>, IOEnv.OUT)
              /\ done' = TRUE /\ UNCHANGED <<terms,hist>>
=============================================================================
