//! Runs the validator of krill-sync as a library and prints its report.
//!
//! Input (file named by the argument): {"tals": [["..", "file"]],
//! "repos": [["notify uri", "directory"]], "when": seconds}
use krill_sync::fetch::{FetchMap, FetchMode, FetchSource, Fetcher};
use krill_sync::validation::{Tal, Validator};
use rpki::repository::x509::Time;
use rpki::uri;
use std::path::PathBuf;
use std::str::FromStr;

fn main() -> anyhow::Result<()> {
    let arg = std::env::args().nth(1).unwrap();
    let v: serde_json::Value = serde_json::from_slice(&std::fs::read(arg)?)?;
    let mut tals = vec![];
    for t in v["tals"].as_array().unwrap() {
        tals.push(Tal::parse("ta".to_string(), bytes::Bytes::from(t[0].as_str().unwrap().to_string()), Some(FetchSource::File(PathBuf::from(t[1].as_str().unwrap()))))?);
    }
    let mut fetchers = vec![];
    for r in v["repos"].as_array().unwrap() {
        let n = uri::Https::from_str(r[0].as_str().unwrap())?;
        let map = FetchMap::new(n.parent().unwrap(), FetchSource::File(PathBuf::from(r[1].as_str().unwrap())));
        fetchers.push(Fetcher::new(n, Some(map), FetchMode::Strict));
    }
    let mut validator = Validator::new(tals, fetchers);
    let when = Time::new(chrono::DateTime::from_timestamp(v["when"].as_i64().unwrap(), 0).unwrap());
    let report = validator.validate_at(false, when)?;
    println!("{}", serde_json::to_string(&report)?);
    Ok(())
}
