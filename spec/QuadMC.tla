------------------------------- MODULE QuadMC -------------------------------
EXTENDS Quad
=============================================================================
