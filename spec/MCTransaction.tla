---- MODULE MCTransaction ----
EXTENDS Transaction
====
