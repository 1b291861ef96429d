//! Capturing and comparing directory trees.
use sha2::{Digest, Sha256};
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::fs::MetadataExt;
use std::path::Path;

pub fn sha(b: &[u8]) -> [u8; 32] {
    let mut h = Sha256::new();
    h.update(b);
    h.finalize().into()
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|c| format!("{c:02x}")).collect()
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
    Dir,
    File { bytes: Vec<u8>, mtime: (i64, i64), ino: u64 },
    Link(String),
    Other,
}

pub type Tree = BTreeMap<String, Node>;

/// Everything below `dir` by relative path. A missing directory is empty.
pub fn tree(dir: &Path) -> Tree {
    let mut res = BTreeMap::new();
    walk(dir, "", &mut res);
    res
}

fn walk(dir: &Path, pre: &str, res: &mut Tree) {
    let rd = match fs::read_dir(dir) {
        Ok(r) => r,
        Err(_) => return,
    };
    for e in rd.flatten() {
        let name = e.file_name().to_string_lossy().to_string();
        let rel = if pre.is_empty() { name } else { format!("{pre}/{name}") };
        let p = e.path();
        let md = match fs::symlink_metadata(&p) {
            Ok(m) => m,
            Err(_) => continue,
        };
        if md.is_dir() {
            res.insert(rel.clone(), Node::Dir);
            walk(&p, &rel, res);
        } else if md.file_type().is_symlink() {
            res.insert(rel, Node::Link(fs::read_link(&p).map(|x| x.to_string_lossy().to_string()).unwrap_or_default()));
        } else if md.is_file() {
            let bytes = fs::read(&p).unwrap_or_default();
            res.insert(rel, Node::File { bytes, mtime: (md.mtime(), md.mtime_nsec()), ino: md.ino() });
        } else {
            res.insert(rel, Node::Other);
        }
    }
}

/// Relative path to bytes of all regular files; Err when something else than
/// files and non-empty directories is there.
pub fn files(dir: &Path) -> Result<BTreeMap<String, Vec<u8>>, String> {
    let t = tree(dir);
    let mut res = BTreeMap::new();
    for (p, n) in &t {
        match n {
            Node::File { bytes, .. } => {
                res.insert(p.clone(), bytes.clone());
            }
            Node::Dir => {
                let pre = format!("{p}/");
                if !t.range(pre.clone()..).next().is_some_and(|(k, _)| k.starts_with(&pre)) {
                    return Err(format!("empty directory '{p}'"));
                }
            }
            Node::Link(l) => return Err(format!("unexpected link '{p}' -> '{l}'")),
            Node::Other => return Err(format!("unexpected special file '{p}'")),
        }
    }
    Ok(res)
}

/// First difference between two trees; `meta` compares time stamps and inodes.
pub fn diff(a: &Tree, b: &Tree, meta: bool) -> Option<String> {
    for (p, n) in a {
        match b.get(p) {
            None => return Some(format!("'{p}' is gone")),
            Some(m) => match (n, m) {
                (Node::File { bytes: x, mtime: t, ino: i }, Node::File { bytes: y, mtime: u, ino: j }) => {
                    if x != y {
                        return Some(format!("'{p}' has other content"));
                    }
                    if meta && t != u {
                        return Some(format!("'{p}' has another modification time"));
                    }
                    if meta && i != j {
                        return Some(format!("'{p}' was replaced"));
                    }
                }
                _ => {
                    if n != m {
                        return Some(format!("'{p}' changed"));
                    }
                }
            },
        }
    }
    for p in b.keys() {
        if !a.contains_key(p) {
            return Some(format!("'{p}' is new"));
        }
    }
    None
}

pub fn without(t: &Tree, pred: impl Fn(&str) -> bool) -> Tree {
    t.iter().filter(|(k, _)| !pred(k)).map(|(k, v)| (k.clone(), v.clone())).collect()
}

pub fn write(p: &Path, b: &[u8]) {
    if let Some(d) = p.parent() {
        fs::create_dir_all(d).unwrap_or_else(|e| panic!("harness: mkdir {}: {e}", d.display()));
    }
    fs::write(p, b).unwrap_or_else(|e| panic!("harness: write {}: {e}", p.display()));
}

pub fn copy_tree(from: &Path, to: &Path) {
    fs::create_dir_all(to).unwrap();
    for e in fs::read_dir(from).unwrap().flatten() {
        let md = fs::symlink_metadata(e.path()).unwrap();
        let t = to.join(e.file_name());
        if md.is_dir() {
            copy_tree(&e.path(), &t);
        } else if md.file_type().is_symlink() {
            std::os::unix::fs::symlink(fs::read_link(e.path()).unwrap(), &t).unwrap();
        } else {
            fs::copy(e.path(), &t).unwrap();
        }
    }
}
