-------------------------------- MODULE Storage --------------------------------
(* How the values of an array are stored and reread.                            *)
(* An array: a sequence of cells; a chunk: a set of consecutive cells (the      *)
(* chunks of a multi-dimensional array partition its cells in the same way).    *)
(* Chunks holding nothing but the fill value may be left out of the store.      *)
EXTENDS Integers, Sequences, FiniteSets
None == "none"
(* What must be stored: masked cells hold the fill value.                       *)
Plain(given, mask, fill) ==
  [ k \in 1..Len(given) |-> IF mask[k] /\ fill # None THEN fill ELSE given[k] ]
(* Fill values that are not equal to themselves do not mask anything.           *)
Unordered == {"nan", "NaT"}
Missing(cells, fill) ==
  { k \in 1..Len(cells) : fill \notin Unordered \cup {None} /\ cells[k] = fill }
ChunkOf(k, size) == (k - 1) \div size
Chunks(n, size) == { ChunkOf(k, size) : k \in 1..n }
CellsOf(c, n, size) == { k \in 1..n : ChunkOf(k, size) = c }
(* Write everything, leaving out or not the chunks that hold only the fill.     *)
Write(cells, fill, size, skip) ==
  LET n == Len(cells)
      kept == { c \in Chunks(n, size) :
                  ~(skip /\ fill # None /\ \A k \in CellsOf(c, n, size) : cells[k] = fill) }
  IN [ c \in kept |-> [ k \in CellsOf(c, n, size) |-> cells[k] ] ]
(* Rewrite in an existing store: what is left out must be removed.              *)
Rewrite(store, cells, fill, size, skip) == Write(cells, fill, size, skip)
Read(store, n, fill, size) ==
  [ k \in 1..n |-> IF ChunkOf(k, size) \in DOMAIN store THEN store[ChunkOf(k, size)][k]
                   ELSE IF fill = None THEN "undefined" ELSE fill ]
Created(n, fill) == [ k \in 1..n |-> fill ]
================================================================================
