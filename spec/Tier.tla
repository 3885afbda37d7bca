---- MODULE Tier ----
\* rewritten by the check script: FALSE for the quick tier, TRUE for the thorough one
Deep == FALSE
\* the seed of everything drawn at random
Seed == 1
====
