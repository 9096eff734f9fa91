------------------------------- MODULE SmoothMC -------------------------------
EXTENDS Smooth
SmallGrid == (0..2) \X (0..2)
=============================================================================
