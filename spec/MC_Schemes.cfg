SPECIFICATION Spec
INVARIANTS Mean15 Gbm15 Telescope Linear RestartAgrees
