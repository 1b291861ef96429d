pub mod explore;
pub mod fsx;
pub mod gen;
pub mod hist;
pub mod model;
pub mod proc;
pub mod tls;
pub mod val;
pub mod net;
pub mod hostile;

pub mod conc;
pub mod dirs;
pub mod pki;
pub mod scripts;
pub mod forn;
pub mod mtime;
pub mod chaos;
