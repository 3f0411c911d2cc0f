RULE = 'a case is one history of points and flushes through the real prometheus sink while several scrapers read its HTTP endpoint; every scrape, parsed independently, must equal the reference after some prefix of the history that was under way; distinct counts histories'


def run(ctx):
    ctx.rule = RULE
    ctx.cv('S03', cases=10**6, secs=14 if ctx.quick else 400, shards=7)
    if not ctx.quick:
        ctx.cv('S03', cases=10**6, secs=120, shards=7, salt=50, **ctx.build_asan())
    ctx.need('snapshots_matched', 1500)
    ctx.need('snapshots_during_delivery', 500)
    ctx.need('samples_compared', 50000)
    ctx.need('abusive_requests', 50)
    ctx.need('shutdowns', 10)
    ctx.need('clock_moves', 20)
