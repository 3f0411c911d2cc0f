RULE = 'a case is the real daemon attacked by hostile clients of one to four kinds of sources, in part of the cases with few descriptors to spare, while the messages of clients that behave are tracked to its sinks; then its threads, descriptors and memory are compared with those before, and it is stopped; distinct counts kinds, connections and messages'


def run(ctx):
    ctx.rule = RULE
    ctx.cv('I05', cases=10**6, secs=30 if ctx.quick else 600, shards=12)
    ctx.need('hostile_connections', 3000)
    ctx.need('messages_tracked', 1000)
    ctx.need('releases_checked', 3)
    ctx.need('stopped_under_flood', 1)
    ctx.need('descriptors_exhausted', 2)
