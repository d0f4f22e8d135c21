# What each property is decided by: recorded scenario families (engine/<src>.cpp) checked against a trace
# specification (spec/Tr*.tla), and exhaustively explored models (spec/MC*.tla).

# family: (scenario source, trace specification, executions quick, executions thorough)
FAM = {
    "chan":      ("chan", "TrChannel", 40000, 600000),
    "chan_wide": ("chan", "TrChannel", 400, 6000),
    "ev":        ("ev", "TrEvent", 40000, 600000),
    "ev_all":    ("ev", "TrEvent", 30000, 400000),
    "ev_reset":  ("ev", "TrEvent", 20000, 200000),
    "ev_wide":   ("ev", "TrEvent", 400, 6000),
    "mtx":       ("mtx", "TrMutex", 40000, 600000),
    "mtx_multi": ("mtx", "TrMutex", 20000, 300000),
    "mtx_wide":  ("mtx", "TrMutex", 400, 6000),
    "lock":      ("lock", "TrLock", 30000, 400000),
    "lock_wide": ("lock", "TrLock", 400, 6000),
    "stop":      ("stop", "TrStop", 40000, 600000),
    "stop_race": ("stop", "TrStop", 30000, 400000),
    "stop_wide": ("stop", "TrStop", 1500, 20000),
    "task": ("task", "TrTask", 20000, 300000),
    "task_fut": ("task", "TrTask", 20000, 300000),
    "task_exc": ("task", "TrTask", 20000, 300000),
    "task_via": ("task", "TrTask", 20000, 300000),
    "task_sleep": ("task", "TrTask", 20000, 300000),
    "task_stop": ("task", "TrTask", 20000, 300000),
    "task_loop": ("task", "TrTask", 20000, 300000),
    "task_race": ("task", "TrTask", 40000, 500000),
    "task_wide": ("task", "TrTask", 400, 6000),
    "when": ("when", "TrWhen", 40000, 600000),
    "when_race": ("when", "TrWhen", 30000, 400000),
    "when_wide": ("when", "TrWhen", 1000, 15000),
    "gen": ("gen", "TrGen", 30000, 400000),
    "gen_wide": ("gen", "TrGen", 1000, 15000),
    "bind": ("bind", "TrBind", 20000, 200000),
    "bind_wide": ("bind", "TrBind", 800, 12000),
    "timer": ("timer", "TrTimer", 40000, 600000),
    "token": ("token", "TrToken", 30000, 400000),
    "token_wide": ("token", "TrToken", 1500, 20000),
    "timer_wide": ("timer", "TrTimer", 1500, 20000),
}

# model: (module, quick cfg, thorough cfg)
MC = {
    "channel": ("MCChannel", "MCChannel.cfg", "MCChannelT.cfg"),
    "event": ("MCEvent", "MCEvent.cfg", "MCEventT.cfg"),
    "event_all": ("MCEvent", "MCEventAll.cfg", "MCEventAllT.cfg"),
    "event_live": ("MCEvent", "MCEventLive.cfg", "MCEventLiveT.cfg"),
    "mutex": ("MCMutex", "MCMutex.cfg", "MCMutexT.cfg"),
    "mutex_multi": ("MCMutex", "MCMutexMulti.cfg", "MCMutexMultiT.cfg"),
    "lock": ("MCLock", "MCLock.cfg", "MCLockT.cfg"),
    "bind": ("MCBind", "MCBind.cfg", "MCBindT.cfg"),
    "task": ("MCTask", "MCTask.cfg", "MCTaskT.cfg"),
    "task_time": ("MCTask", "MCTaskTime.cfg", "MCTaskTimeT.cfg"),
    "task_stop": ("MCTask", "MCTaskStop.cfg", "MCTaskStopT.cfg"),
    "task_loop": ("MCTask", "MCTaskLoop.cfg", "MCTaskLoopT.cfg"),
    "timer": ("MCTimer", "MCTimer.cfg", "MCTimerT.cfg"),
    "timer_two": ("MCTimer", "MCTimerTwo.cfg", "MCTimerTwoT.cfg"),
    "timer_live": ("MCTimer", "MCTimerLive.cfg", "MCTimerLiveT.cfg"),
    "when": ("MCWhen", "MCWhen.cfg", "MCWhenT.cfg"),
    "when_nest": ("MCWhen", "MCWhenNest.cfg", "MCWhenNestT.cfg"),
    "when_live": ("MCWhen", "MCWhenLive.cfg", "MCWhenLive.cfg"),
    "gen": ("MCGen", "MCGen.cfg", "MCGenT.cfg"),
    "token": ("MCToken", "MCToken.cfg", "MCTokenT.cfg"),
    "stop": ("MCStop", "MCStop.cfg", "MCStopT.cfg"),
}

# property: (families, models); "f/n": the n-th part of f's executions (what f records beyond its own property)
PROP = {
    "C01": (["chan", "chan_wide"], ["channel"]),
    "C02": (["chan", "chan_wide"], ["channel"]),
    "E01": (["ev", "ev_reset", "ev_wide"], ["event"]),
    "E02": (["ev", "ev_wide"], ["event"]),
    "E03": (["ev", "ev_wide"], ["event", "event_live"]),
    "E04": (["ev_all", "ev_wide"], ["event_all"]),
    "M01": (["mtx", "mtx_multi/4", "mtx_wide"], ["mutex"]),
    "M02": (["mtx", "mtx_wide"], ["mutex"]),
    "M03": (["mtx", "mtx_wide"], ["mutex"]),
    "M04": (["mtx_multi", "mtx"], ["mutex_multi"]),
    "K01": (["stop", "stop_race", "stop_wide"], ["stop"]),
    "K02": (["stop", "stop_race", "stop_wide"], ["stop"]),
    "S01": (["task", "task_fut", "task_via", "chan/4", "ev/4", "mtx/4", "when/4"], ["task"]),
    "S02": (["task", "task_wide"], ["task"]),
    "S03": (["task_loop", "task"], ["task_loop"]),
    "S04": (["task_via", "task_wide"], ["task"]),
    "S05": (["task_via", "bind", "bind_wide", "task_wide"], ["task", "bind"]),
    "S06": (["task_stop", "task_race/2", "timer/4"], ["task_time", "task_stop"]),
    "F01": (["task_fut", "task_race", "task_via/2", "task_wide"], ["task"]),
    "F02": (["task_exc", "task_wide"], ["task"]),
    "F03": (["task_exc", "task_stop", "task_fut", "task_race/2", "gen/2", "chan/4", "ev/4", "ev_all/4", "mtx/4", "timer/4", "when/4"], ["task"]),
    "T01": (["timer", "timer_wide"], ["timer", "timer_two", "timer_live"]),
    "T02": (["task_sleep", "timer/4"], ["task_time"]),
    "W01": (["when", "when_race", "when_wide"], ["when", "when_live"]),
    "W02": (["when", "when_race", "when_wide"], ["when", "when_nest"]),
    "G01": (["gen", "gen_wide"], ["gen"]),
    "A01": (["token", "token_wide"], ["token"]),
    "L01": (["lock", "lock_wide"], ["lock"]),
}
