def run(ctx):
    ctx.rule = 'a case is a sample sequence (6 distributions, 1..40000 samples, 4 error bounds) accumulated by insertion and/or addition and queried at 11 percentiles against exact ranks, plus histograms of it merged in random groupings; distinct by (size, distribution, method, bound, first sample)'
    ctx.cv('M04', cases=150 if ctx.quick else 3000, secs=15 if ctx.quick else 300, shards=8)
    ctx.need('quantiles_checked', 2000)
    ctx.need('histograms_checked', 200)
