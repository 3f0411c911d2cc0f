//! I07: the internal source against threads that count while it reports.
use crate::common::*;
use crate::h::*;
use crate::ingest::{collector, Log};
use crate::metricm::{mk, own_tags};
use cernan::filter;
use cernan::metric::{AggregationMethod as AM, Event};
use cernan::sink::{self, Prometheus, PrometheusConfig, Sink};
use cernan::source::{report_full_telemetry, Internal, InternalConfig, Source};
use cernan::thread::Stoppable;
use cernan::util;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use std::thread;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

/// The counters that can be counted from outside, under their reported names.
#[rustfmt::skip]
static COUNTERS: &[(&str, &AtomicUsize)] = &[
    ("cernan.util.hopper.error.full", &util::UTIL_SEND_HOPPER_ERROR_FULL),
    ("cernan.sinks.elasticsearch.records.delivery", &sink::elasticsearch::ELASTIC_RECORDS_DELIVERY),
    ("cernan.sinks.elasticsearch.records.total_delivered", &sink::elasticsearch::ELASTIC_RECORDS_TOTAL_DELIVERED),
    ("cernan.sinks.elasticsearch.records.total_failed", &sink::elasticsearch::ELASTIC_RECORDS_TOTAL_FAILED),
    ("cernan.sinks.elasticsearch.error.unknown", &sink::elasticsearch::ELASTIC_ERROR_UNKNOWN),
    ("cernan.sinks.elasticsearch.error.bulk_action.index", &sink::elasticsearch::ELASTIC_BULK_ACTION_INDEX_ERR),
    ("cernan.sinks.elasticsearch.error.bulk_action.create", &sink::elasticsearch::ELASTIC_BULK_ACTION_CREATE_ERR),
    ("cernan.sinks.elasticsearch.error.bulk_action.update", &sink::elasticsearch::ELASTIC_BULK_ACTION_UPDATE_ERR),
    ("cernan.sinks.elasticsearch.error.bulk_action.delete", &sink::elasticsearch::ELASTIC_BULK_ACTION_DELETE_ERR),
    ("cernan.sinks.elasticsearch.error.api.index_not_found", &sink::elasticsearch::ELASTIC_ERROR_API_INDEX_NOT_FOUND),
    ("cernan.sinks.elasticsearch.error.api.parsing", &sink::elasticsearch::ELASTIC_ERROR_API_PARSING),
    ("cernan.sinks.elasticsearch.error.api.mapper_parsing", &sink::elasticsearch::ELASTIC_ERROR_API_MAPPER_PARSING),
    ("cernan.sinks.elasticsearch.error.api.action_request_validation", &sink::elasticsearch::ELASTIC_ERROR_API_ACTION_REQUEST_VALIDATION),
    ("cernan.sinks.elasticsearch.error.api.action_document_missing", &sink::elasticsearch::ELASTIC_ERROR_API_DOCUMENT_MISSING),
    ("cernan.sinks.elasticsearch.error.api.index_already_exists", &sink::elasticsearch::ELASTIC_ERROR_API_INDEX_ALREADY_EXISTS),
    ("cernan.sinks.elasticsearch.error.api.unknown", &sink::elasticsearch::ELASTIC_ERROR_API_UNKNOWN),
    ("cernan.sinks.elasticsearch.error.client", &sink::elasticsearch::ELASTIC_ERROR_CLIENT),
    ("cernan.sinks.wavefront.proxy.connection_attempts", &sink::wavefront::WAVEFRONT_CONNECT_ATTEMPTS),
    ("cernan.sinks.wavefront.aggregation.histogram", &sink::wavefront::WAVEFRONT_AGGR_HISTO),
    ("cernan.sinks.wavefront.aggregation.sum", &sink::wavefront::WAVEFRONT_AGGR_SUM),
    ("cernan.sinks.wavefront.aggregation.set", &sink::wavefront::WAVEFRONT_AGGR_SET),
    ("cernan.sinks.wavefront.aggregation.summarize", &sink::wavefront::WAVEFRONT_AGGR_SUMMARIZE),
    ("cernan.sinks.wavefront.aggregation.summarize.total_percentiles", &sink::wavefront::WAVEFRONT_AGGR_TOT_PERCENT),
    ("cernan.sinks.wavefront.delivery.success", &sink::wavefront::WAVEFRONT_DELIVERY_SUCCESS),
    ("cernan.sinks.wavefront.delivery.failure", &sink::wavefront::WAVEFRONT_DELIVERY_FAILURE),
    ("cernan.sinks.wavefront.valve.closed", &sink::wavefront::WAVEFRONT_VALVE_CLOSED),
    ("cernan.sinks.wavefront.valve.open", &sink::wavefront::WAVEFRONT_VALVE_OPEN),
    ("cernan.sinks.prometheus.aggregation.inside_baseball.windowed.purged", &sink::prometheus::PROMETHEUS_AGGR_WINDOWED_PURGED),
    ("cernan.sinks.prometheus.exposition.inside_baseball.delay.sum", &sink::prometheus::PROMETHEUS_RESPONSE_DELAY_SUM),
    ("cernan.sinks.prometheus.report.success", &sink::prometheus::PROMETHEUS_REPORT_SUCCESS),
    ("cernan.sinks.prometheus.report.error", &sink::prometheus::PROMETHEUS_REPORT_ERROR),
    ("cernan.sinks.influxdb.delivery_attempts", &sink::influxdb::INFLUX_DELIVERY_ATTEMPTS),
    ("cernan.sinks.influxdb.success", &sink::influxdb::INFLUX_SUCCESS),
    ("cernan.sinks.influxdb.failure.client_error", &sink::influxdb::INFLUX_FAILURE_CLIENT),
    ("cernan.sinks.influxdb.failure.server_error", &sink::influxdb::INFLUX_FAILURE_SERVER),
    ("cernan.sinks.kafka.publish.success", &sink::kafka::KAFKA_PUBLISH_SUCCESS_SUM),
    ("cernan.sinks.kafka.publish.retry", &sink::kafka::KAFKA_PUBLISH_RETRY_SUM),
    ("cernan.sinks.kafka.publish.failure", &sink::kafka::KAFKA_PUBLISH_FAILURE_SUM),
    ("cernan.sinks.kafka.publish.retry.failure", &sink::kafka::KAFKA_PUBLISH_RETRY_FAILURE_SUM),
    ("cernan.filters.delay.telemetry.accept", &filter::delay_filter::DELAY_TELEM_ACCEPT),
    ("cernan.filters.delay.telemetry.reject", &filter::delay_filter::DELAY_TELEM_REJECT),
    ("cernan.filters.delay.log.reject", &filter::delay_filter::DELAY_LOG_REJECT),
    ("cernan.filters.delay.log.accept", &filter::delay_filter::DELAY_LOG_ACCEPT),
    ("cernan.filters.json_encode.log.processed", &filter::json_encode_filter::JSON_ENCODE_LOG_PROCESSED),
    ("cernan.filters.json_encode.log.parsed", &filter::json_encode_filter::JSON_ENCODE_LOG_PARSED),
];

/// The gauges: the last value before a report is what it reports.
#[rustfmt::skip]
static GAUGES: &[(&str, &AtomicUsize)] = &[
    ("cernan.sinks.wavefront.aggregations.total_stored", &sink::wavefront::WAVEFRONT_AGGR_STORED_VALUES),
    ("cernan.sinks.prometheus.aggregation.reportable", &sink::prometheus::PROMETHEUS_AGGR_REPORTABLE),
    ("cernan.sinks.elasticsearch.internal.buffer_len", &sink::elasticsearch::ELASTIC_INTERNAL_BUFFER_LEN),
];

fn wall() -> i64 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs() as i64
}

type Full = BTreeMap<String, (f64, BTreeMap<String, String>)>;

fn totals(log: &Log) -> BTreeMap<String, f64> {
    let mut m = BTreeMap::new();
    for (_, e) in log.lock().unwrap().iter() {
        if let Event::Telemetry(t) = e {
            *m.entry(t.name.clone()).or_insert(0.0) += t.sum().or(t.set()).unwrap_or(0.0);
        }
    }
    m
}

/// Nothing has happened yet, so there is nothing to report.
fn fresh(a: &Args, rep: &mut Rep) {
    let (s, log) = collector(&format!("{}/fresh", a.work), "f");
    let src = Internal::new(vec![s], InternalConfig::default()).run();
    thread::sleep(Duration::from_millis(2300));
    src.shutdown();
    wait_until(Duration::from_secs(20), || log.lock().unwrap().last().map_or(false, |e| e.1 == Event::Shutdown));
    for (_, e) in log.lock().unwrap().iter() {
        if let Event::Telemetry(t) = e {
            let gauge = GAUGES.iter().any(|g| g.0 == t.name);
            if !gauge || t.set() != Some(0.0) {
                rep.viol("unasked", format!("{} came out before anything was counted", fp(e)));
            }
        }
    }
    rep.add("fresh_starts", 1);
}

pub fn i07(a: &Args, rep: &mut Rep) {
    thread::spawn(cernan::time::update_time);
    thread::sleep(Duration::from_millis(600));
    fresh(a, rep);
    run_cases(a, rep, |r, rep| {
        let dir = format!("{}/c{}", a.work, rep.case);
        let begun = wall();
        let nf = r.range(1, 3) as usize;
        let mut chans = vec![];
        let mut logs = vec![];
        for i in 0..nf {
            let (s, l) = collector(&dir, &format!("f{}", i));
            chans.push(s);
            logs.push(l);
        }
        let src = Internal::new(chans, InternalConfig::default()).run();
        let stop = Arc::new(AtomicBool::new(false));
        // The counters this case beats on; the hotter, the fewer.
        let mut hot: Vec<usize> = (0..COUNTERS.len()).collect();
        r.shuffle(&mut hot);
        hot.truncate(*r.pick(&[1usize, 2, 5, 45]));
        let purges = r.chance(30);
        if purges {
            hot.retain(|i| !COUNTERS[*i].0.ends_with("purged"));
        }
        let nt = r.range(2, 8);
        let mut hs = vec![];
        for w in 0..nt {
            let (stop, hot, seed, case) = (stop.clone(), hot.clone(), r.next(), rep.case);
            let style = r.below(3);
            hs.push(thread::spawn(move || {
                let mut r = Rng::new(seed, 1);
                let mut mine: BTreeMap<usize, u64> = BTreeMap::new();
                let mut full: Full = BTreeMap::new();
                let mut n = 0u64;
                while !stop.load(Ordering::Relaxed) {
                    for _ in 0..200 {
                        if hot.is_empty() {
                            break;
                        }
                        let c = *r.pick(&hot);
                        let k = 1 + r.below(3);
                        COUNTERS[c].1.fetch_add(k as usize, Ordering::Relaxed);
                        *mine.entry(c).or_insert(0) += k;
                    }
                    if style == 0 || r.chance(5) {
                        if full.len() < 3000 {
                            n += 1;
                            let name = format!("full.{}.{}.{}", case, w, n);
                            let v = r.below(1000) as f64 / 8.0;
                            let (k1, k2, v1, v2) = (text(&mut r, 1), format!("k{}", r.below(3)), text(&mut r, 2), text(&mut r, 1));
                            let mut tags = BTreeMap::new();
                            match r.below(3) {
                                0 => report_full_telemetry(&name, v, None),
                                1 => {
                                    report_full_telemetry(&name, v, Some(vec![(&k1, &v1)]));
                                    tags.insert(k1, v1);
                                }
                                _ => {
                                    report_full_telemetry(&name, v, Some(vec![(&k2, &v2), (&k1, &v1)]));
                                    tags.insert(k2, v2);
                                    tags.insert(k1, v1);
                                }
                            }
                            full.insert(name, (v, tags));
                        }
                    }
                    if style == 2 {
                        thread::sleep(Duration::from_micros(r.below(300)));
                    }
                }
                (mine, full)
            }));
        }
        let gs = stop.clone();
        let gauges = thread::spawn(move || {
            let mut n = 0;
            while !gs.load(Ordering::Relaxed) {
                n += 1;
                for g in GAUGES {
                    g.1.store(n, Ordering::Relaxed);
                }
                thread::sleep(Duration::from_micros(200));
            }
            n
        });
        let mut purged = 0;
        let span = Duration::from_millis(2200 + r.below(1500));
        if purges {
            // Samples past the window, purged a few at each flush.
            let ip = format!("127.0.{}.{}", 1 + r.below(200), 1 + r.below(250));
            let port = crate::sinks::fresh_port(&ip);
            let mut p = Prometheus::init(PrometheusConfig { host: ip, port, capacity_in_seconds: 600, ..Default::default() });
            let t = std::time::Instant::now();
            let mut s = 0;
            while t.elapsed() < span {
                for _ in 0..r.below(3) {
                    s += 1;
                    p.deliver(mk(&format!("s{}", s % 7), AM::Summarize, 1.0, &[], begun - 5000 - s, false, &[]));
                    purged += 1;
                }
                p.flush();
                thread::sleep(Duration::from_millis(60));
            }
            p.shutdown();
        } else {
            thread::sleep(span);
        }
        stop.store(true, Ordering::SeqCst);
        let mut want: BTreeMap<String, f64> = BTreeMap::new();
        let mut full: Full = BTreeMap::new();
        for h in hs {
            let (m, f) = h.join().expect("HARNESS join");
            for (c, n) in m {
                *want.entry(COUNTERS[c].0.to_string()).or_insert(0.0) += n as f64;
            }
            full.extend(f);
        }
        if purged > 0 {
            want.insert("cernan.sinks.prometheus.aggregation.inside_baseball.windowed.purged".to_string(), purged as f64);
            rep.add("purged_samples", purged);
        }
        let top = gauges.join().expect("HARNESS join") as f64;
        for (n, (v, _)) in &full {
            want.insert(n.clone(), *v);
        }
        // Reported by the next report but one at the latest.
        let done = |l: &Log| {
            let t = totals(l);
            want.iter().all(|(k, v)| t.get(k).map_or(*v == 0.0, |x| (x - v).abs() < 1e-6))
        };
        thread::sleep(Duration::from_millis(1100));
        wait_until(Duration::from_secs(12), || logs.iter().all(|l| done(l)));
        thread::sleep(Duration::from_millis(if r.chance(30) { 1100 } else { 0 }));
        src.shutdown();
        wait_until(Duration::from_secs(20), || logs.iter().all(|l| l.lock().unwrap().last().map_or(false, |e| e.1 == Event::Shutdown)));
        let ended = wall();
        let mut first: Option<Vec<String>> = None;
        for (fi, l) in logs.iter().enumerate() {
            let t = totals(l);
            for (k, v) in &want {
                let x = t.get(k).cloned().unwrap_or(0.0);
                if (x - v).abs() > 1e-6 {
                    rep.viol(if k.starts_with("full.") { "full" } else { "count" }, format!("{} occurrences of {}, {} reported to forward {} of {}", v, k, x, fi, nf));
                }
                rep.add("totals_compared", 1);
            }
            let l = l.lock().unwrap();
            let known: BTreeSet<&str> = COUNTERS.iter().chain(GAUGES.iter()).map(|c| c.0).collect();
            let mut prev: BTreeMap<&str, f64> = BTreeMap::new();
            let mut fulls = BTreeSet::new();
            for (i, (_, e)) in l.iter().enumerate() {
                let t = match e {
                    Event::Telemetry(t) => t,
                    Event::Shutdown if i + 1 == l.len() => continue,
                    e => {
                        rep.viol("other", format!("{} left the internal source", fp(e)));
                        continue;
                    }
                };
                rep.add("reports", 1);
                if t.timestamp < begun - 3 || t.timestamp > ended + 1 {
                    rep.viol("time", format!("{} reported with time {}, between {} and {}", t.name, t.timestamp, begun, ended));
                }
                let gauge = GAUGES.iter().any(|g| g.0 == t.name);
                if t.kind() != if gauge { AM::Set } else { AM::Sum } {
                    rep.viol("kind", format!("{} reported as {:?}", t.name, t.kind()));
                    continue;
                }
                if gauge {
                    // Each report is of a newer value.
                    let v = t.set().unwrap_or(-1.0);
                    let p = prev.entry(t.name.as_str()).or_insert(0.0);
                    if v <= *p || v > top || v.fract() != 0.0 {
                        rep.viol("gauge", format!("{} reported as {} after {}; it went up to {}", t.name, v, p, top));
                    }
                    *p = v;
                    rep.add("gauge_reports", 1);
                } else if let Some((v, tags)) = full.get(&t.name) {
                    if !fulls.insert(t.name.clone()) || t.sum() != Some(*v) || own_tags(t) != *tags {
                        rep.viol("full", format!("{} = {} with {:?} came out as {} (seen before: {})", t.name, v, tags, fp(e), fulls.contains(&t.name)));
                    }
                    rep.add("full_reports", 1);
                } else if !known.contains(t.name.as_str()) || !want.contains_key(&t.name) {
                    rep.viol("unasked", format!("{} came out, of which nothing was counted", fp(e)));
                } else if !own_tags(t).is_empty() {
                    rep.viol("tags", format!("{} came out with tags", fp(e)));
                }
            }
            let seq: Vec<String> = l.iter().map(|(_, e)| fp(e)).collect();
            match first {
                None => first = Some(seq),
                Some(ref f) if *f != seq => rep.viol("forwards", "two forwards of the internal source received different reports".to_string()),
                _ => {}
            }
        }
        rep.add("occurrences", want.iter().filter(|(k, _)| !k.starts_with("full.")).map(|(_, v)| *v as u64).sum());
        rep.seen(&(hot, nt, nf, purges));
        for p in take_panics() {
            rep.viol("panic", p);
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
}
