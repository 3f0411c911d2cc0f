RULE = 'a case is a series of flushes of the real elasticsearch sink to a bulk server that answers by script, item by item, every request checked against a state machine per line; distinct counts scripts'


def run(ctx):
    ctx.rule = RULE
    ctx.cv('S05', cases=10**6, secs=16 if ctx.quick else 500, shards=8)
    ctx.need('documents_compared', 3000)
    ctx.need('rejected', 300)
    ctx.need('given_up', 50)
    for a in ('mixed', 'omit', 'twice', 'stray', '500', 'close', 'partial', 'odd', 'refused'):
        ctx.need('answer_' + a, 5)
