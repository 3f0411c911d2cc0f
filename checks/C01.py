RULE = 'a case is a generated configuration file: every table kind, any subset of its options, in sections, nested tables or inline tables, with global tags, flush interval and delay; every value of every configuration cernan reads from it is compared with the written value or the documented default; distinct counts sets of tables and of options written'


def run(ctx):
    ctx.rule = RULE
    ctx.cv('C01', cases=10**6 if not ctx.quick else 60000, secs=15 if ctx.quick else 400, shards=8)
    ctx.need('tables_written', 400000)
    ctx.need('values_compared', 1500000)
    for k in ('console', 'elasticsearch', 'files', 'filter delay', 'filter flush_boundary',
              'filter json_encode', 'filter programmable', 'influxdb', 'kafka', 'native', 'null',
              'prometheus', 'source avro', 'source graphite', 'source native', 'source statsd',
              'wavefront'):
        ctx.need('with ' + k, 8000)
