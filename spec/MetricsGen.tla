----------------------------- MODULE MetricsGen ------------------------------
EXTENDS Metrics, Json
Emit == N > 0 => PrintT("GEN " \o ToJson([xs |-> xs, ys |-> ys]))
==============================================================================
