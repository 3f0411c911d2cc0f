RULE = 'a case is a run of the real file source over up to six files that writers append to in pieces, rotate, truncate and remove by script; the lines that come out for each path are compared with those written; distinct counts scripts'


def run(ctx):
    ctx.rule = RULE
    ctx.cv('I06', cases=10**6, secs=16 if ctx.quick else 500, shards=24)
    ctx.need('lines_compared', 5000)
    ctx.need('rotations', 30)
    ctx.need('open_lines', 20)
    ctx.need('truncations', 15)
    ctx.need('truncations_of_open_lines', 5)
    ctx.need('removed', 3)
    ctx.need('late_files', 10)
    ctx.need('lines_timed', 5000)
