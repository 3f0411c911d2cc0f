RULE = 'a case is a random acyclic topology of producers, filters (pass, duplicate, drop, fail, lag) and recording sinks run with real threads and queues; non-trivial: distinct topologies with their event plans'


def run(ctx):
    ctx.rule = RULE
    ctx.cv('T01', cases=10**6, secs=20 if ctx.quick else 600, shards=7)
    ctx.need('deliveries', 20000)
    ctx.need('paths_checked', 200)
