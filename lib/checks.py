"""What each check builds and runs."""

SEQ = dict(pkg="internal/verifh/seq", files=["seq/seq_test.go"])
SCHED = dict(pkg="internal/verifh/sched", files=["sched/lin.go", "sched/policy.go", "sched/vsa_sched_test.go"], sched=["."])
CORESCHED = dict(pkg="internal/ratelimiter/core", files=["core/util_test.go", "core/coresched_test.go", "core/evictrace_test.go", "sched/policy.go"],
                 package="core", sched=[".", "internal/ratelimiter/core"])
STORE = dict(pkg="internal/ratelimiter/core", files=["core/util_test.go", "core/store_test.go"])
SUMMARY = dict(pkg="internal/ratelimiter/core", files=["core/util_test.go", "core/summary_test.go"])
CORE = dict(pkg="internal/ratelimiter/core", files=["core/util_test.go", "core/worker_test.go"], synctest=True)
EXPORT = {"core/export.go": "internal/ratelimiter/core/zz_verif_export.go"}
API = dict(pkg="internal/verifh/api", files=["api/api_test.go"], synctest=True, extra=EXPORT)
APISCHED = dict(pkg="internal/verifh/api", files=["api/apisched_test.go", "sched/policy.go"], package="verifapi_test",
                sched=[".", "internal/ratelimiter/core", "internal/ratelimiter/api"], extra=EXPORT)
PERSIST = dict(pkg="internal/verifh/persist", files=["persist/lua_test.go", "persist/fakeredis_test.go", "persist/resp_test.go", "persist/redis_test.go", "persist/sql_test.go", "persist/postgres_test.go", "persist/kafka_test.go", "persist/shim_test.go"])
PBT = "property-based testing (rapid): "


def seq(run, **kw):
    return dict(SEQ, run=run, **kw)


CHECKS = {
    "C01": dict(
        groups=[seq("^TestC01Model"), seq("^TestC01Fresh", synctest=True, files=["seq/seq_test.go", "seq/fresh_test.go"])],
        technique=PBT + "model-based operation sequences over the exported API against a scalar/vector reference model",
        note="Random histories with boundary-biased arguments over all option combinations; every observable is compared "
             "with the model after every step. Not exhaustive. Trusts the 40-line reference model.",
        rule="rapid draws an option set, a budget and up to 120 operations with arguments "
             "concentrated around the model's availability and net; non-trivial: at least one admission, "
             "one refusal or exact-boundary request, and one effective commit in the same history",
        assumptions=["magnitudes stay below 2^57, so that sums cannot wrap"],
    ),
    "C02": dict(
        groups=[seq("^TestC02"), dict(SCHED, run="^TestC02")],
        technique=PBT + "histories under stale caches, skewed stripes and stopped refreshers against an exact model; randomized concurrent load",
        note="Refusals are judged conservatively (a cached gate may refuse), admissions exactly. Concurrent part depends on the Go scheduler.",
        rule="rapid draws gate options and a history with boundary requests, skewed stripes and refresher "
             "stops (sequential), or a concurrent load with committers; non-trivial: a request for exactly "
             "one unit too many under an active gate and some admission, or both admissions and refusals under load",
        assumptions=[],
    ),

    "C03": dict(groups=[dict(SCHED, run="^TestC03")]),
    "C04": dict(groups=[dict(SCHED, run="^TestC04"), seq("^TestC04")]),
    "C05": dict(groups=[dict(SCHED, run="^TestC05"), seq("^TestC05")]),
    "C06": dict(groups=[dict(SCHED, run="^TestC06"), seq("^TestC06")]),

    "C08": dict(groups=[dict(CORE, run="^TestC08"), dict(CORESCHED, run="^TestC08")]),
    "C09": dict(groups=[dict(CORE, run="^TestC09")]),
    "C10": dict(groups=[dict(CORE, run="^TestC10"), dict(CORESCHED, run="^TestC10")]),
    "C11": dict(groups=[dict(CORE, run="^TestC11")]),

    "C07": dict(groups=[dict(STORE, run="^TestC07"), dict(CORESCHED, run="^TestC07")]),
    "C28": dict(groups=[dict(SUMMARY, run="^TestC28"), dict(API, run="^TestC28", files=["api/api_test.go", "api/summary_test.go"])]),

    "C12": dict(groups=[dict(API, run="^TestC12")]),
    "C13": dict(groups=[dict(API, run="^TestC13"), dict(APISCHED, run="^TestC13")]),

    "C15": dict(groups=[dict(PERSIST, run="^TestC15")]),

    "C16": dict(groups=[dict(PERSIST, run="^TestC16")]),

    "C17": dict(groups=[dict(PERSIST, run="^TestC17")]),
    "C18": dict(groups=[dict(PERSIST, run="^TestC18")]),
}

TFD = dict(pkg="plugin/tfd", files=["tfd/tfd_test.go", "tfd/bulk_test.go"])
VLANE = dict(pkg="plugin/tfd", files=["tfd/tfd_test.go", "tfd/vlane_test.go"])
VSCHED = dict(pkg="plugin/tfd", files=["tfd/vsched_test.go", "sched/policy.go"], package="tfd", sched=["plugin/tfd"])
CHECKS.update({
    "C19": dict(groups=[dict(TFD, run="^TestC19")]),
    "C20": dict(groups=[dict(TFD, run="^TestC20")]),
    "C21": dict(groups=[dict(TFD, run="^TestC21")]),
    "C22": dict(groups=[dict(VLANE, run="^TestC22(Model|Bulk)"), dict(VLANE, run="^TestC22Concurrent", race=True), dict(VSCHED, run="^TestC22")]),
    "C23": dict(groups=[dict(TFD, run="^TestC23")]),
})

SINKS = dict(pkg="internal/verifh/sinks", files=["sinks/sinks_test.go"])
CHECKS.update({
    "C24": dict(groups=[dict(SINKS, run="^TestC24History"), dict(SINKS, run="^TestC24Concurrent", race=True)]),
})
PIPE = dict(pkg="plugin/tfd", files=["tfd/tfd_test.go", "tfd/pipe_test.go"], synctest=True)
CHECKS.update({
    "C25": dict(groups=[dict(PIPE, run="^TestC25"), dict(PIPE, run="^TestC25Concurrent", race=True, env={"VERIF_CHECKS_SCALE": "0.2"})]),
})
SERVER = dict(pkg="internal/verifh/bins", package="verifbins_test", binaries={"ratelimiter-api": "cmd/ratelimiter-api"},
              files=["persist/lua_test.go", "persist/fakeredis_test.go", "persist/resp_test.go", "bins/server_test.go"])
CHECKS.update({
    "C14": dict(groups=[dict(SERVER, run="^TestC14")]),
})
PROXY = dict(pkg="internal/verifh/bins", binaries={"tfd-proxy": "cmd/tfd-proxy"}, files=["bins/proxy_test.go", "bins/util_test.go"])
SERVER["files"].append("bins/util_test.go")
CHECKS.update({
    "C26": dict(groups=[dict(PROXY, run="^TestC26")]),
})
CHECKS["C28"]["groups"].append(dict(pkg="internal/verifh/bins", package="verifbins_test", binaries={"ratelimiter-api": "cmd/ratelimiter-api"}, run="^TestC28Server",
                                    files=["persist/lua_test.go", "persist/fakeredis_test.go", "persist/resp_test.go", "bins/server_test.go", "bins/metrics_test.go", "bins/summary_test.go", "bins/util_test.go"]))
CHURN = dict(pkg="internal/verifh/churn", files=["churn/churn_test.go"])
CHECKS.update({
    "C27": dict(groups=[dict(CHURN, run="^TestC27(Model|Sampling|Worker)", synctest=True), dict(CHURN, run="^TestC27Concurrent", race=True, synctest=True),
                         dict(pkg="internal/verifh/bins", package="verifbins_test", files=["bins/metrics_test.go", "bins/util_test.go"], run="^TestC27Server",
                              binaries={"ratelimiter-api": "cmd/ratelimiter-api"})]),
})
LOADGEN = dict(pkg="internal/verifh/bins", package="verifbins_test", binaries={"http-loadgen": "tools/http-loadgen"}, files=["bins/loadgen_test.go", "bins/util_test.go"])
CHECKS.update({
    "C29": dict(groups=[dict(LOADGEN, run="^TestC29")]),
})

CHECKS.update({
    "C31": dict(groups=[dict(pkg="internal/verifh/bins", package="verifbins_test", binaries={"ratelimiter-api": "cmd/ratelimiter-api"}, run="^TestC31",
                             files=["persist/lua_test.go", "persist/fakeredis_test.go", "persist/resp_test.go", "bins/server_test.go", "bins/config_test.go", "bins/util_test.go"])]),
})
SIM = dict(pkg="internal/verifh/bins", package="verifbins_test", binaries={"tfd-sim": "cmd/tfd-sim"}, files=["bins/sim_test.go", "bins/util_test.go"])
CHECKS.update({
    "C30": dict(groups=[dict(SIM, run="^TestC30")]),
})

from texts import TEXTS
for _id, (_t, _n, _r, _a) in TEXTS.items():
    CHECKS[_id].update(technique=_t, note=_n, rule=_r, assumptions=_a)
