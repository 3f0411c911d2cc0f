RULE = 'a case is a random sequence of pulses and events from 1-3 upstreams into a sink with a random flush interval and valve script, its call log compared with the reference; plus runs of the real flush timer; non-trivial: distinct input sequences'


def run(ctx):
    ctx.rule = RULE
    ctx.cv('T05', cases=10**6, secs=15 if ctx.quick else 400, shards=5)
    ctx.cv('T05', cases=3 if ctx.quick else 20, secs=60, shards=2, extra=['--timer', '1', '--ms', '1500'])
    ctx.need('calls_checked', 50000)
    ctx.need('timer_pulses', 200)
