//! The event log, one JSON object per line.
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::io::{BufWriter, Write};
use std::rc::Rc;

#[derive(Clone)]
pub struct Log(Rc<RefCell<BufWriter<std::fs::File>>>, Rc<Vec<String>>);

impl Log {
    /// muted: names of events left out
    pub fn create(path: &str, muted: &[&str]) -> Log {
        let file = BufWriter::new(std::fs::File::create(path).expect("log file"));
        Log(Rc::new(RefCell::new(file)), Rc::new(muted.iter().map(|s| s.to_string()).collect()))
    }
    pub fn ev(&self, name: &str, mut fields: Value) {
        if self.1.iter().any(|m| m == name) {
            return;
        }
        let m: &mut Map<String, Value> = fields.as_object_mut().expect("fields");
        m.insert("ev".into(), json!(name));
        let mut f = self.0.borrow_mut();
        serde_json::to_writer(&mut *f, &fields).unwrap();
        f.write_all(b"\n").unwrap();
    }
    pub fn flush(&self) {
        self.0.borrow_mut().flush().unwrap();
    }
}

/// Run code of the library; a panic becomes an event nothing in the specification allows.
pub fn guarded<T>(log: &Log, what: &str, f: impl FnOnce() -> T) -> Option<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Some(v),
        Err(e) => {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            log.ev("Panic", json!({"what": what, "message": msg}));
            None
        }
    }
}
