------------------------------ MODULE TraceCli ------------------------------
EXTENDS Replay
LOCAL C == INSTANCE Cli
RStart(e) == <<>>
RConf(st, e) == C!CliConf(e)
RPost(st, e) == <<>>
RWant(st, e) == C!CliWant(e)
=============================================================================
