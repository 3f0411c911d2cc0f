RULE = 'one evaluation is one generated script run by the real programmable filter over a sequence of events; the results seen by the script, and every emitted event, are compared with a reference model of the payload; distinct counts scripts'


def run(ctx):
    ctx.rule = RULE
    ctx.cv('F04', cases=10**6, secs=15 if ctx.quick else 300, shards=7)
    if not ctx.quick:
        ctx.cv('F04', cases=10**6, secs=120, shards=7, salt=50, **ctx.build_asan())
    ctx.need('calls_judged', 5000)
    ctx.need('operations_judged', 30000)
    ctx.need('threaded_runs', 50)
    ctx.need('clock_moves', 20)
