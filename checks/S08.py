RULE = 'a case is one history of points and log lines through the real console sink, everything printed parsed and compared with a reference; distinct counts histories'


def run(ctx):
    ctx.rule = RULE
    ctx.cv('S08', cases=10**6, secs=10 if ctx.quick else 200, shards=7)
    ctx.need('values_compared', 50000)
    ctx.need('lines_compared', 5000)
    ctx.need('shutdown_prints', 100)
    ctx.need('clock_moves', 20)
