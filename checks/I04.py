RULE = 'a case is 1-5 avro connections of good, malformed and hostile payloads with an acknowledging (delaying, withholding) consumer; non-trivial: distinct payload sequences'


def run(ctx):
    ctx.rule = RULE
    ctx.cv('I04', cases=10**6, secs=18 if ctx.quick else 500, shards=6)
    ctx.need('acks_seen', 100)
    ctx.need('malformed_payloads', 100)
    ctx.need('payloads', 400)
    ctx.need('counters_compared', 2)
    ctx.need('cases_with_withheld_acks', 3)
