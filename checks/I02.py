RULE = "a case is 1-6 concurrent graphite connections with random lines cut into random writes, each connection's events compared with a reference parser of its bytes; non-trivial: distinct connection contents and cuts"


def run(ctx):
    ctx.rule = RULE
    ctx.cv('I02', cases=10**6, secs=15 if ctx.quick else 500, shards=6)
    ctx.need('lines_expected', 5000)
    ctx.need('connections', 300)
    ctx.need('counters_compared', 6)
