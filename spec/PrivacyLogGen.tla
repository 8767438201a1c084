--------------------------- MODULE PrivacyLogGen ---------------------------
EXTENDS PrivacyLog, Json
Emit == Len(log) = MaxEvents => PrintT("GEN " \o ToJson(log))
=============================================================================
