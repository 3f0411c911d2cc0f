RULE = "one evaluation is one hostile script over a sequence of events, under Lua's API checker and again under AddressSanitizer; the oracle counts failure telemetry per event and compares everything else with the payload model; distinct counts scripts"


def run(ctx):
    ctx.rule = RULE
    asan = ctx.build_asan()
    ctx.cv('F05', cases=10**6, secs=12 if ctx.quick else 300, shards=7)
    ctx.cv('F05', cases=10**6, secs=12 if ctx.quick else 300, shards=7, salt=50, **asan)
    ctx.need('calls_judged', 3000)
    ctx.need('failures_judged', 3000)
    ctx.need('threaded_runs', 20)
    ctx.need('clock_moves', 20)
