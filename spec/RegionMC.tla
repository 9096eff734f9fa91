------------------------------ MODULE RegionMC ------------------------------
(* cells in a row *)
EXTENDS Region
Beside(c) == {c - 1, c + 1} \cap Places
=============================================================================
