RULE = 'a case is a run of the internal source against threads counting on random subsets of the counters, pushing telemetry and storing gauges while it reports, the sums of the reports compared with what was counted on every forward; or a case of a source, filter or sink check, in which the occurrences the case brings about are compared with what the component counts; distinct counts sets of counters, threads and forwards, and the cases of the components'

# The workloads whose cases know what their component has to count, and the
# signatures of theirs that are about counting.
PARTS = ('I01', 'I02', 'I03', 'I04', 'F01', 'F03', 'S01', 'S02', 'S03', 'S04', 'S05', 'S06')


def run(ctx):
    ctx.rule = RULE
    ctx.cv('I07', cases=10**6, secs=16 if ctx.quick else 400, shards=16)
    for p in PARTS:
        ctx.cv(p, cases=10**6, secs=6 if ctx.quick else 60, shards=6, extra=['--only-sigs', 'counters'], salt=70, timeout=120 if ctx.quick else 600, side=True)
    ctx.need('fresh_starts', 16)
    ctx.need('reports', 30000)
    ctx.need('totals_compared', 30000)
    ctx.need('gauge_reports', 500)
    ctx.need('full_reports', 30000)
    ctx.need('purged_samples', 200)
    ctx.need('occurrences', 10**8)
    ctx.need('counters_compared', 500)
