RULE = 'a case is a batch of grammar-generated, mutated and random packets sent over UDP to the real statsd source, every event leaving it compared with an independent parser; non-trivial: distinct packet batches'


def run(ctx):
    ctx.rule = RULE
    ctx.cv('I01', cases=10**6, secs=15 if ctx.quick else 500, shards=6)
    ctx.need('good_lines', 20000)
    ctx.need('bad_packets', 500)
    ctx.need('fuzzed_packets', 200)
    ctx.need('counters_compared', 6)
    ctx.need('clock_moves', 20)
