------------------------------ MODULE MCSession ------------------------------
EXTENDS Session
MCCfgs == {"a"}
MCSigs == {"1"}
MCBackends == {"base", "torch"}
MCMaxLen == 4
View == << store, Len(hist), IF hist = << >> THEN << >> ELSE << Last(hist) >> >>
=============================================================================
