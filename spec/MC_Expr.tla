------------------------------ MODULE MC_Expr ------------------------------
EXTENDS Expr
SimArities == (0..2) \X (0..2) \ { << 0, 0 >> }
TreeArities == { << 1, 1 >>, << 0, 1 >> }
===========================================================================
