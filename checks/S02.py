RULE = 'a case is a series of flushes of the real wavefront sink to a peer that refuses, resets or closes at chosen points, every byte of every connection judged; distinct counts fault histories'


def run(ctx):
    ctx.rule = RULE
    ctx.cv('S02', cases=10**6, secs=18 if ctx.quick else 500, shards=7)
    ctx.need('lines', 50000)
    ctx.need('mid_flush_faults', 40)
    ctx.need('between_faults', 40)
    ctx.need('refused_at_start', 5)
