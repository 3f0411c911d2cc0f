RULE = 'a case is a generated configuration whose daemon is killed once or more (starting, under load with its sinks\' peers away and queues spilled to disk, or stopping) and then started again and run to an orderly end; every event of the last run is counted at every sink and compared with the number of its paths, and none of the earlier runs may appear; distinct counts cases'


def run(ctx):
    ctx.rule = RULE
    ctx.cv('T07', cases=10**6, secs=22 if ctx.quick else 500, shards=16)
    ctx.need('restarts', 40)
    ctx.need('events', 1000)
    ctx.need('pairs_compared', 1500)
    ctx.need('killed_under_load', 40)
    ctx.need('killed_while_starting', 5)
    ctx.need('killed_while_stopping', 5)
    ctx.need('queues_left_behind', 20)
