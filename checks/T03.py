RULE = 'a case sends generated events of every kind from 1-3 producers through a queue with 1-17 memory slots and compares what the consumer saw per producer; non-trivial: distinct arrival orders'


def run(ctx):
    ctx.rule = RULE
    ctx.cv('T03', cases=10**6, secs=25 if ctx.quick else 600, shards=7)
    ctx.need('events_through_queue', 5000)
    ctx.need('disk_files_rolled', 5)
