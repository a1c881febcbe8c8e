"""Which harness builds and scenarios decide which property."""
def T(name, harness, scenarios=("*",), groups=("log", "msg", "thr"), **kw):
    return dict(name=name, harness=[harness] if isinstance(harness, str) else list(harness), mode="tsan",
                groups=tuple(groups), scenarios=list(scenarios), **kw)
def A(name, harness, scenarios=("*",), groups=(), **kw):
    return dict(name=name, harness=[harness] if isinstance(harness, str) else list(harness), mode="asan",
                groups=tuple(groups), scenarios=list(scenarios), **kw)

CS = ("log", "msg", "thr", "cs", "unix")

CHECKS = {
    "P01": dict(builds=[T("queue", "queue.cpp", groups=(), share=2), A("queue_seq", "queue_seq.cpp")]),
    "P02": dict(builds=[T("processor", "processor.cpp", ["proc_*"])]),
    "P03": dict(builds=[T("processor", "processor.cpp", ["stop_*"])]),
    "P04": dict(builds=[T("processor", "processor.cpp", ["wait_*"])]),
    "P05": dict(builds=[T("connect", "connect.cpp"), A("connect_seq", "connect_seq.cpp", groups=("log", "msg", "thr"))]),
    "P06": dict(builds=[T("routing", "routing.cpp"), A("routing_seq", "routing_seq.cpp", groups=("log", "msg", "thr"))]),
    "P07": dict(builds=[A("signal_seq", "signal_seq.cpp")]),
    "P08": dict(builds=[T("signal", "signal.cpp", groups=())]),
    "P09": dict(builds=[A("observable_seq", "observable_seq.cpp", ["obs_*"]), T("observable", "observable.cpp", ["obst_*"], groups=())]),
    "P10": dict(builds=[A("observable_seq", "observable_seq.cpp", ["comp_*"]), T("observable", "observable.cpp", ["compt_*"], groups=())]),
    "P11": dict(builds=[T("timer", "timer.cpp")]),
    "P12": dict(builds=[T("synctimer", "synctimer.cpp")]),
    "P13": dict(builds=[T("pool", "pool.cpp", groups=("log", "thr"))]),
    "P15": dict(builds=[A("requester_seq", "requester_seq.cpp", ["reqs_*"], groups=CS), T("requester", "requester.cpp", ["req_*"], groups=CS)]),
    "P16": dict(builds=[A("requester_seq", "requester_seq.cpp", ["regs_*"], groups=CS), T("requester", "requester.cpp", ["reg_*"], groups=CS)]),
    "P17": dict(builds=[A("requester_seq", "requester_seq.cpp", ["reads_*"], groups=CS), T("requester", "requester.cpp", ["read_*"], groups=CS)]),
    "P18": dict(builds=[A("provider_seq", "provider_seq.cpp", groups=CS, share=4), T("provider", "provider.cpp", groups=CS)]),
    "P14": dict(builds=[T("guarded", "guarded.cpp", groups=())]),
}
CHECKS["P20"] = dict(builds=[A("status_seq", "status_seq.cpp", groups=CS), T("status", "status.cpp", groups=CS)])
CHECKS["P24"] = dict(builds=[A("srz", "srz.cpp", ["srz_*"])])
CHECKS["P25"] = dict(builds=[A("srz", "srz.cpp", ["dmg_*"])])
CHECKS["P23"] = dict(builds=[A("ipcmsg", "ipcmsg.cpp", groups=CS)])
CHECKS["P26"] = dict(builds=[A("order", "order.cpp", groups=CS)])
CHECKS["P27"] = dict(builds=[T("ids", "ids.cpp", groups=())])
CHECKS["P31"] = dict(builds=[A("dump", "dump.cpp")])
CHECKS["P32"] = dict(builds=[A("utils", "utils.cpp", groups=("log", "thr"))])
CHECKS["P30"] = dict(builds=[A("logger", "logger.cpp", groups=("log",)), T("logger_thr", "logger_thr.cpp", groups=("log",))])
CHECKS["P28"] = dict(builds=[A("fields", ["fields.cpp"] + ["fields_%d.cpp" % i for i in range(10)], plain=["fields_"])])
CHECKS["P19"] = dict(builds=[A("typed_seq", "typed_seq.cpp", groups=CS), T("typed", "typed.cpp", groups=CS, share=3), T("typed_ipc", "typed_ipc.cpp", groups=CS, vsock=True, share=3)], budget=dict(quick=90))
CHECKS["P21"] = dict(builds=[T("channel", "channel.cpp", ["chan_*"], groups=CS, vsock=True)])
CHECKS["P22"] = dict(builds=[T("channel", "channel.cpp", ["stopr_*"], groups=CS, vsock=True)])
CHECKS["P29"] = dict(builds=[T("ipc", "ipc.cpp", groups=CS, vsock=True)])
