RULE = 'a case is one history of points and flushes through the real wavefront sink into a TCP peer, every line received compared with a reference of lines, values, times and pads; distinct counts histories'


def run(ctx):
    ctx.rule = RULE
    ctx.cv('S01', cases=10**6, secs=14 if ctx.quick else 400, shards=7)
    if not ctx.quick:
        ctx.cv('S01', cases=10**6, secs=120, shards=7, salt=50, **ctx.build_asan())
    ctx.need('lines', 30000)
    ctx.need('gaps_padded', 1000)
    ctx.need('gaps_across_flushes', 100)
    ctx.need('too_old', 1000)
    ctx.need('valve_cases', 1)
    ctx.need('clock_moves', 20)
