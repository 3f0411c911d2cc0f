RULE = "one evaluation is one sequence of events through the real JSON encoding filter; every emitted raw event is decoded by a JSON reader of the harness's own and compared with the precedence model; distinct counts lines"


def run(ctx):
    ctx.rule = RULE
    ctx.cv('F03', cases=10**6, secs=15 if ctx.quick else 300, shards=7)
    if not ctx.quick:
        ctx.cv('F03', cases=10**6, secs=120, shards=7, salt=50, **ctx.build_asan())
    ctx.need('lines', 5000)
    ctx.need('lines_parsed', 1000)
    ctx.need('lines_as_message', 3000)
    ctx.need('passed_through', 500)
