---- MODULE JudgeCfg ----
\* rewritten by the check script: the property being decided
Prop == "P01"
Focus == {"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12",
          "P13", "P14", "P15", "P16", "P18", "P21", "P23"}
====
