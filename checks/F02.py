RULE = 'one evaluation is one sequence of events and pulses (new, repeated, reordered) through the real flush boundary filter, judged event by event against the release rule; distinct counts sequences'


def run(ctx):
    ctx.rule = RULE
    ctx.cv('F02', cases=10**6, secs=15 if ctx.quick else 300, shards=7)
    if not ctx.quick:
        ctx.cv('F02', cases=10**6, secs=120, shards=7, salt=50, **ctx.build_asan())
    ctx.need('events', 10000)
    ctx.need('released_by_pulse', 3000)
    ctx.need('released_at_shutdown', 1000)
    ctx.need('repeated_pulses', 1000)
    ctx.need('threaded_runs', 10)
