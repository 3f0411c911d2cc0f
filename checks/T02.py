RULE = 'a case is a random topology whose producers end at staggered times, or one queue driven full before end-of-stream, or a daemon run stopped by a signal; non-trivial: distinct topologies, fill states and daemon runs'


def run(ctx):
    ctx.rule = RULE
    ctx.cv('T02', cases=10**6, secs=20 if ctx.quick else 500, shards=5)
    ctx.cv('T02', cases=10**6, secs=8 if ctx.quick else 120, shards=3, extra=['--full', '1'])
    ctx.cv('T02D', cases=10**6, secs=25 if ctx.quick else 500, shards=16)
    ctx.need('end_of_streams', 200)
    ctx.need('full_shutdowns', 5)
    ctx.need('stopped_under_load', 3)
    ctx.need('stopped_when_quiet', 3)
    ctx.need('fates_compared', 20000)
    ctx.need('with_prometheus', 3)
