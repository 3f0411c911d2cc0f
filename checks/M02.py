RULES = {
 'M01': 'a case is a random sequence of inserts, additions and thaw/harden round trips on one telemetry, compared with an all-samples model after every step; non-trivial: distinct operation sequences',
 'M02': 'a case is a random history of point additions and resets over up to 8 series; the whole view is compared with a map-based model at the end; non-trivial: distinct histories',
 'M03': 'a case is a random sequence of tag operations on one point or log line compared with an ordered map, plus identity checks against the same tags built along another history; non-trivial: distinct operation sequences',
}
def run(ctx):
    ctx.rule = RULES['M02']
    ctx.cv('M02', cases=4000 if ctx.quick else 200000, secs=12 if ctx.quick else 300, shards=6)
    ctx.need({'M01': 'adds_like', 'M02': 'bins_compared', 'M03': 'identities_checked'}['M02'], 1000)
    ctx.need('clock_moves', 20)
