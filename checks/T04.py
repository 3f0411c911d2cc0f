RULE = 'a case drives 1-3 producers into 2-4 forwards of which one has a tiny allowance; non-trivial: distinct sets of events the full queue kept'


def run(ctx):
    ctx.rule = RULE
    ctx.cv('T04', cases=10**6, secs=20 if ctx.quick else 500, shards=6)
    ctx.cv('T04', cases=1 if ctx.quick else 4, secs=30, shards=2, extra=['--recovery', '1'])
    ctx.need('drops_counted', 50)
    ctx.need('healthy_deliveries', 500)
    ctx.need('recoveries', 1)
