SPECIFICATION Spec
INVARIANTS Shape ExpStep ExpOne SigSym SigHalf SigExp SigUp LogitSym LogitUp LogitTwo LogitThree TwoStep
CHECK_DEADLOCK FALSE
