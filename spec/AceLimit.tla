------------------------------ MODULE AceLimit ------------------------------
EXTENDS Integers, Sequences, FiniteSets
(* how many of n folds are running under limit m once the main loop has caught up with e ended ones *)
Settled(n, m, e) == IF n - e < m THEN n - e ELSE m
=============================================================================
