---------------------------- MODULE CoreMaskOps ----------------------------
(* The core of the plasma on a mesh, declaratively.                           *)
EXTENDS Integers, Sequences, FiniteSets
BlockOf(X, Mesh) == UNION {{<<x[1] + i, x[2] + j>> : i \in -1..1, j \in -1..1} : x \in X} \cap Mesh
NbrOf(c) == {<<c[1] + 1, c[2]>>, <<c[1] - 1, c[2]>>, <<c[1], c[2] + 1>>, <<c[1], c[2] - 1>>}

\* declaratively: the points connected to the axis, outside the blocks
\* (S reached so far, F the points reached last)
RECURSIVE GrowF(_, _, _)
GrowF(S, F, Open) == LET T == (UNION {NbrOf(c) : c \in F} \cap Open) \ S IN
                     IF T = {} THEN S ELSE GrowF(S \cup T, T, Open)
Grow(S, Open) == GrowF(S, S, Open)
CoreOf(inside, s, X, Mesh) == LET B == BlockOf(X, Mesh) IN
   (Grow({s}, inside \ B) \ B) \cup (B \cap inside)

=============================================================================
