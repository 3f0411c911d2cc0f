RULE = 'a case is a series of flushes of the real influxdb sink to a server that fails by script, every request parsed by an independent line-protocol parser; distinct counts histories of points and failures'


def run(ctx):
    ctx.rule = RULE
    ctx.cv('S04', cases=10**6, secs=14 if ctx.quick else 400, shards=7)
    ctx.need('lines', 50000)
    ctx.need('failures_injected', 500)
    ctx.need('requests_compared', 1000)
    ctx.need('refusals', 50)
