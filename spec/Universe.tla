---- MODULE Universe ----
EXTENDS U_core
====
