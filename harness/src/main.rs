//! Records executions of rust-quantlib as JSON traces for validation against the TLA+
//! specification in /verif/spec.  usage: qlverif CMD OUT [--thorough] [--seed N] [--input FILE]
#[macro_use]
mod util;
mod business;
mod cals;
mod coupons;
mod dates;
mod daycounts;
mod flows;
mod bonds;
mod currencies;
mod curves;
mod imm;
mod interp;
mod legs;
mod numbers;
mod periods;
mod rates;
mod schedules;
mod solvers;
mod texts;
use util::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args[1].clone();
    let outp = args[2].clone();
    let mut cfg = Cfg { thorough: false, seed: 1, input: None };
    let mut k = 3;
    while k < args.len() {
        match args[k].as_str() {
            "--thorough" => cfg.thorough = true,
            "--seed" => {
                k += 1;
                cfg.seed = args[k].parse().unwrap();
            }
            "--input" => {
                k += 1;
                cfg.input = Some(args[k].clone());
            }
            other => panic!("unknown argument {}", other),
        }
        k += 1;
    }
    start_watchdog(format!("{}.hang", outp));
    let mut out = Out::new(&outp);
    let o = &mut out;
    match cmd.as_str() {
        "dates" => dates::civil(&cfg, o),
        "moves" => dates::moves(&cfg, o),
        "nth" => dates::nth(&cfg, o),
        "easter" => dates::easter(&cfg, o),
        "adjust" => business::adjust(&cfg, o),
        "advance" => business::advance(&cfg, o),
        "lists" => business::lists(&cfg, o),
        "overrides" => business::overrides(&cfg, o),
        "period-arithmetic" => periods::arithmetic(&cfg, o),
        "period-order" => periods::order(&cfg, o),
        "frequencies" => periods::frequencies(&cfg, o),
        "imm" => imm::imm(&cfg, o),
        "cds" => imm::cds(&cfg, o),
        "thirty" => daycounts::thirty(&cfg, o),
        "actual" => daycounts::actual(&cfg, o),
        "actact" => daycounts::actact(&cfg, o),
        "isma" => daycounts::isma(&cfg, o),
        "linear" => interp::linear(&cfg, o),
        "lagrange" => interp::lagrange(&cfg, o),
        "solvers" => solvers::solvers(&cfg, o),
        "legs" => legs::legs(&cfg, o),
        "coupons" => coupons::coupons(&cfg, o),
        "queries" => flows::queries(&cfg, o),
        "present-values" => flows::present_values(&cfg, o),
        "yields" => flows::yields(&cfg, o),
        "currencies" => currencies::currencies(&cfg, o),
        "bonds" => bonds::bonds(&cfg, o),
        "prices" => bonds::prices(&cfg, o),
        "bond-yields" => bonds::bond_yields(&cfg, o),
        "rates" => rates::rates(&cfg, o),
        "texts" => texts::texts(&cfg, o),
        "counters" => texts::counters(&cfg, o),
        "curves" => curves::curves(&cfg, o),
        "rounding" => numbers::rounding(&cfg, o),
        "bounds" => numbers::bounds(&cfg, o),
        "arrays" => numbers::arrays(&cfg, o),
        "closeness" => numbers::closeness(&cfg, o),
        "schedules" => schedules::schedules(&cfg, o),
        "cuts" => schedules::cuts(&cfg, o),
        "builder" => schedules::builder(&cfg, o),
        "calendars" => cals::calendars(&cfg, o),
        other => {
            eprintln!("unknown command {}", other);
            std::process::exit(2);
        }
    }
    out.finish();
}
