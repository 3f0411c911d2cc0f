RULE = 'a case is a run of rounds of events delivered to the real kafka sink, flushed through the real librdkafka to a fake broker that answers each produce request by script (success, errors of each class, a dropped connection, silence) and logs its records; every record, outcome, acknowledgement, valve state and counter is compared; distinct counts scripts of answers'


def run(ctx):
    ctx.rule = RULE
    ctx.cv('S06', cases=10**6, secs=18 if ctx.quick else 500, shards=16)
    ctx.need('records_compared', 8000)
    ctx.need('retried', 300)
    ctx.need('failed', 300)
    ctx.need('acks_checked', 4000)
    ctx.need('valve_closed', 2000)
    ctx.need('oversized', 50)
    ctx.need('odd_header_names', 200)
    ctx.need('shutdowns', 50)
