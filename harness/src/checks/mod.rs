use ksharness::explore::{Ctx, Note, Report};

pub mod conc;
pub mod dirs;
pub mod scripts;
pub mod forn;
pub mod val;
pub mod history;
pub mod hostile;
pub mod mtime;
pub mod chaos;
pub mod net;

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&Ctx, &Report),
    pub replay: fn(&str, serde_json::Value, &mut Note) -> Result<(), String>,
}

pub fn all() -> Vec<Check> {
    let mut v = vec![];
    v.extend(history::checks());
    v.extend(net::checks());
    v.extend(hostile::checks());
    v.extend(conc::checks());
    v.extend(scripts::checks());
    v.extend(dirs::checks());
    v.extend(val::checks());
    v.extend(forn::checks());
    v.extend(chaos::checks());
    v.extend(mtime::checks());
    v
}

pub fn find(id: &str) -> Option<Check> {
    all().into_iter().find(|c| c.id == id)
}
