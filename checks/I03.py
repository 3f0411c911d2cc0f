RULE = 'a case is 1-5 native connections of independently encoded and malformed payloads cut into random writes; non-trivial: distinct payload sequences and cuts'


def run(ctx):
    ctx.rule = RULE
    ctx.cv('I03', cases=10**6, secs=15 if ctx.quick else 500, shards=6)
    ctx.need('events_expected', 5000)
    ctx.need('malformed_payloads', 50)
    ctx.need('counters_compared', 6)
