--------------------------- MODULE TimeSeriesMerge ---------------------------
(* Merging of time series.  A series is a sequence of rows sorted by date; a   *)
(* row is a tuple whose first element is the date (an integer).                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Date(row) == row[1]
SortedByDate(s) == \A k \in 1..Len(s) - 1 : Date(s[k]) <= Date(s[k + 1])
FirstDate(s) == Date(s[1])
LastDate(s) == Date(s[Len(s)])

(* The existing records before the first new date, the new records, then the    *)
(* existing records after the last new date.                                    *)
MergeRun(old, new) ==
  IF new = <<>> THEN old ELSE
  SelectSeq(old, LAMBDA r : Date(r) < FirstDate(new)) \o new
    \o SelectSeq(old, LAMBDA r : Date(r) > LastDate(new))

(* Positions starting a run: two consecutive records further apart than tol.    *)
Runs(new, tol) ==
  LET starts == SetToSortSeq({1} \cup { k \in 2..Len(new) :
                    Date(new[k]) - Date(new[k - 1]) > tol }, LAMBDA a, b : a < b)
      stop(j) == IF j = Len(starts) THEN Len(new) ELSE starts[j + 1] - 1
  IN [ j \in 1..Len(starts) |-> SubSeq(new, starts[j], stop(j)) ]

RECURSIVE FoldRuns(_, _, _)
FoldRuns(old, runs, k) ==
  IF k > Len(runs) THEN old ELSE FoldRuns(MergeRun(old, runs[k]), runs, k + 1)

NoTolerance == -1
MergeSeries(old, new, tol) ==
  IF new = <<>> THEN old ELSE
  IF tol = NoTolerance THEN MergeRun(old, new) ELSE FoldRuns(old, Runs(new, tol), 1)
=============================================================================
