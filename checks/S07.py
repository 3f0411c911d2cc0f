RULE = 'a case is a run of flushes of the real native sink through a peer that keeps the bytes, breaks or refuses connections by plan and feeds what it read to the real native source; every event is compared with what was sent; distinct counts scripts of flushes and faults'


def run(ctx):
    ctx.rule = RULE
    ctx.cv('S07', cases=10**6, secs=16 if ctx.quick else 500, shards=8)
    ctx.need('events_compared', 20000)
    ctx.need('between_faults', 100)
    ctx.need('mid_flush_faults', 5)
    ctx.need('tight_faults', 5)
    ctx.need('refused_at_start', 10)
    ctx.need('idle_flushes', 30)
    ctx.need('oversized_events', 2)
