//! Runs the indexing program (src/main.rs) in a scratch directory.
use crate::art::{load, tag_names, Looker};
use crate::catalog::{catalog_event, codes, codes_list, Rec};
use crate::log::{guarded, Log};
use serde_json::{json, Value};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Place<'a> {
    dir: PathBuf,
    log: &'a Log,
    pub runs: usize,
}

impl Drop for Place<'_> {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

/// What there is to index.
pub enum Input<'a> {
    Missing,
    Bytes(Vec<u8>),
    Text(&'a str),
}

impl<'a> Place<'a> {
    pub fn new(log: &'a Log, n: u64) -> Self {
        let dir = std::env::temp_dir().join(format!("verif-cli-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&dir).expect("scratch directory");
        Place { dir, log, runs: 0 }
    }

    fn out(&self) -> PathBuf {
        self.dir.join("out.test")
    }

    /// age: how many seconds ago the file was last changed, as its date says.
    pub fn put(&self, input: &Input<'_>, age: u64) {
        let p = self.dir.join("test.json");
        let _ = std::fs::remove_file(&p);
        match input {
            Input::Missing => return,
            Input::Bytes(b) => std::fs::write(&p, b).unwrap(),
            Input::Text(t) => std::fs::write(&p, t).unwrap(),
        }
        if age > 0 {
            let f = std::fs::OpenOptions::new().write(true).open(&p).unwrap();
            f.set_modified(std::time::SystemTime::now() - Duration::from_secs(age)).unwrap();
        }
    }

    /// Nothing where the index file goes.
    pub fn clear(&self) {
        let _ = std::fs::remove_file(self.out());
        let _ = std::fs::remove_dir(self.out());
        self.log.ev("OutputGone", json!({}));
    }

    /// Something there that no index file can replace.
    pub fn block(&self) {
        let _ = std::fs::remove_file(self.out());
        let _ = std::fs::create_dir(self.out());
        self.log.ev("OutputGone", json!({}));
    }

    /// Something there that is no index file, but a file.
    pub fn litter(&self, len: usize) {
        let _ = std::fs::remove_dir(self.out());
        std::fs::write(self.out(), vec![7u8; len]).unwrap();
        self.log.ev("OutputGone", json!({}));
    }

    /// cat: what the input says, if it is a well-formed catalogue.
    pub fn run(&mut self, cat: Option<&[Rec]>) -> bool {
        let place = !self.out().is_dir();
        let before = std::fs::read(self.out()).ok();
        let exe = std::env::current_exe().unwrap().with_file_name("indexer");
        let child = Command::new(exe).current_dir(&self.dir).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn();
        let mut child = child.expect("the indexing program does not start");
        let start = Instant::now();
        let status = loop {
            match child.try_wait().unwrap() {
                Some(s) => break Some(s),
                None if start.elapsed() > Duration::from_secs(60) => {
                    let _ = child.kill();
                    let _ = child.wait();
                    break None;
                }
                None => std::thread::sleep(Duration::from_micros(300)),
            }
        };
        self.runs += 1;
        let done = status.map_or(false, |s| s.success());
        let after = std::fs::read(self.out()).ok();
        let others: Vec<String> = std::fs::read_dir(&self.dir)
            .unwrap()
            .filter_map(|e| e.ok().map(|e| e.file_name().to_string_lossy().into_owned()))
            .filter(|n| n != "test.json" && n != "out.test")
            .collect();
        let mut e = json!({"good": cat.is_some(), "place": place, "done": done, "kept": before == after, "others": others,
            "recs": cat.map_or(json!([]), catalog_event), "cat": [], "tags": []});
        let mut seen = None;
        if let (true, Some(bytes)) = (done, &after) {
            let Some(loaded) = guarded(self.log, "deserialize_all", || load::<5>(bytes)) else { return false };
            if let Some(loaded) = loaded {
                let recs = cat.unwrap_or(&[]);
                let order: Vec<Value> = loaded
                    .ix
                    .product_container
                    .products
                    .iter()
                    .map(|p| recs.iter().find(|r| r.id == p.id).map_or_else(|| json!({"unknown": codes(&p.id)}), Rec::event))
                    .collect();
                e["cat"] = Value::Array(order);
                e["tags"] = codes_list(&tag_names(&loaded.classic));
                seen = Some((loaded, bytes.clone()));
            } else {
                e["cat"] = json!([{"unknown": "the file does not load"}]);
            }
        }
        self.log.ev("Indexer", e);
        if let Some((loaded, bytes)) = seen {
            self.log.ev("File", json!({"a": "out.test", "bytes": bytes}));
            let lk = Looker { log: self.log, a: "out.test" };
            lk.products(loaded.ix.product_container, true);
        }
        status.is_some()
    }
}
