--------------------------- MODULE MCCrashInsert -----------------------------
EXTENDS CrashInsert
=============================================================================
