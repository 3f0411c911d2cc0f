#[macro_use]
extern crate lazy_static;
#[macro_use]
extern crate serde_json;

#[macro_use]
mod h;
mod clock;
mod metricm;
mod common;
mod topo;
mod ingest;
mod filters;
mod luaf;
mod sinks;
mod sinkh;
mod sinkp;
mod sinkn;
mod sinkk;
mod selft;
mod conf;
mod daemon;
mod files;

fn main() {
    let (cmd, args) = h::Args::parse();
    if std::env::var("CV_LOG").is_ok() {
        let _ = fern::Dispatch::new().level(log::LevelFilter::Debug).chain(std::io::stderr()).apply();
    }
    h::install_panic_hook();
    let mut rep = h::Rep::default();
    rep.only = args.x("only-sigs", "").split(',').filter(|w| !w.is_empty()).map(|w| w.to_string()).collect();
    match cmd.as_str() {
        "M01" => metricm::m01(&args, &mut rep),
        "M02" => metricm::m02(&args, &mut rep),
        "M03" => metricm::m03(&args, &mut rep),
        "M04" => metricm::m04(&args, &mut rep),
        "T01" => topo::t01(&args, &mut rep),
        "T02" => topo::t02(&args, &mut rep),
        "T02D" => daemon::t02d(&args, &mut rep),
        "T06" => daemon::t06(&args, &mut rep),
        "T07" => daemon::t07(&args, &mut rep),
        "I05" => daemon::i05(&args, &mut rep),
        "T03" => topo::t03(&args, &mut rep),
        "T04" => topo::t04(&args, &mut rep),
        "T05" => topo::t05(&args, &mut rep),
        "I01" => ingest::i01(&args, &mut rep),
        "I02" => ingest::i02(&args, &mut rep),
        "I03" => ingest::i03(&args, &mut rep),
        "I04" => ingest::i04(&args, &mut rep),
        "C01" => conf::c01(&args, &mut rep),
        "F01" => filters::f01(&args, &mut rep),
        "F02" => filters::f02(&args, &mut rep),
        "F03" => filters::f03(&args, &mut rep),
        "F04" => luaf::f04(&args, &mut rep),
        "F05" => luaf::f05(&args, &mut rep),
        "I06" => files::i06(&args, &mut rep),
        "I07" => selft::i07(&args, &mut rep),
        "S01" => sinks::s01(&args, &mut rep),
        "S02" => sinks::s02(&args, &mut rep),
        "S03" => sinkp::s03(&args, &mut rep),
        "S04" => sinkh::s04(&args, &mut rep),
        "S05" => sinkh::s05(&args, &mut rep),
        "S06" => sinkk::s06(&args, &mut rep),
        "S07" => sinkn::s07(&args, &mut rep),
        "S08" => sinks::s08(&args, &mut rep),
        _ => h::harness_fail(&format!("unknown subcommand {}", cmd)),
    }
    rep.write(&args.out);
    // Workload threads may still be parked; the report is complete.
    std::process::exit(0);
}
