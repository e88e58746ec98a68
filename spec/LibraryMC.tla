------------------------------- MODULE LibraryMC ------------------------------
EXTENDS Library
NorthG == {-15, 0, 15}
EastG == {-20, 0, 20}
=============================================================================
