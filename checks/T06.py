RULE = 'a case is a generated configuration run by the real daemon between clients of its sources and fake peers of its sinks, or one of its forwards misspelt; every event carries a token of its own, which is counted at every sink and compared with the number of paths from its source; distinct counts shapes of topologies'


def run(ctx):
    ctx.rule = RULE
    ctx.cv('T06', cases=10**6, secs=25 if ctx.quick else 600, shards=20)
    ctx.need('events', 2000)
    ctx.need('pairs_compared', 3000)
    ctx.need('unknown_forwards', 15)
    for k in ('console', 'elasticsearch', 'influxdb', 'kafka', 'native', 'prometheus', 'wavefront'):
        ctx.need('at_sinks.' + k, 60)
