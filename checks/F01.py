RULE = 'one evaluation is one sequence of telemetry, log lines, raw events and pulses through the real delay filter (directly, or as a thread between queues); the clock is moved by hand after the filter is made and between events, and every input event is judged against the tolerance at the time it is processed; distinct counts event sequences'


def run(ctx):
    ctx.rule = RULE
    ctx.cv('F01', cases=10**6, secs=15 if ctx.quick else 300, shards=7)
    if not ctx.quick:
        ctx.cv('F01', cases=10**6, secs=120, shards=7, salt=50, **ctx.build_asan())
    ctx.need('events', 20000)
    ctx.need('events_passing', 5000)
    ctx.need('threaded_runs', 20)
    ctx.need('clock_moves', 20)
