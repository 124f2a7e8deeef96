//! The interactive interface, driven as a page would drive it: one loaded index per process, handlers, cursors, searches.
use crate::art::{self, chosen, tag_names, Ix};
use crate::catalog::{codes, Rec};
use crate::log::{guarded, Log};
use indexer_lib::js_interactable::{CategoryHandler, CategoryIter, CategoryOptionIter, ExportCategoryOption, JSTag, ProductProducer, TagHandler, TagIter};
use indexer_lib::TagSuggestionResult;
use js_sys::{Function, Object, Reflect};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use wasm_bindgen::JsValue;

pub struct Artefact {
    pub bytes: Vec<u8>,
    pub cat: Vec<Rec>,
    pub tags: Vec<String>,
    pub twin: Ix<5>,
}

impl Artefact {
    pub fn new(cat: Vec<Rec>, log: &Log) -> Option<Artefact> {
        let bytes = guarded(log, "index_and_serialize", || {
            if cat.iter().any(|c| !c.feats.is_empty()) {
                art::save(&art::build::<5>(&cat))
            } else {
                indexer_lib::index_and_serialize(art::raw_products(&cat), art::leak(Default::default())).expect("index")
            }
        })?;
        let twin = guarded(log, "deserialize_all", || art::load::<5>(&bytes))?;
        let Some(twin) = twin else {
            log.ev("Panic", json!({"what": "a fresh index file does not load"}));
            return None;
        };
        let tags = tag_names(&twin.classic);
        Some(Artefact { bytes, cat, tags, twin: twin.ix })
    }
}

pub enum Items {
    Tags(Vec<JSTag>),
    Cats(Vec<Vec<ExportCategoryOption>>),
}
pub enum Kind {
    Tags(TagHandler),
    Cats(CategoryHandler),
}
pub struct Handler {
    pub kind: Kind,
    pub items: Rc<Items>,
    /// which load it is of
    load: usize,
    pub art: String,
}
pub enum Cursor {
    Tags(TagIter),
    Cats(CategoryIter),
    Opts(CategoryOptionIter),
    Prods(ProductProducer, String),
}

/// Numbers from here on stand for numbers beyond any feature.
pub const BIG: f64 = 1e12;

#[derive(Clone, Debug)]
pub enum Js {
    Undef,
    Null,
    /// a multiple of 1/2^30
    Num(f64),
    Str(String),
    Bool(bool),
    Obj(Vec<(String, Js)>),
}
impl Js {
    pub fn event(&self) -> Value {
        match self {
            Js::Undef => json!(["u"]),
            Js::Null => json!(["z"]),
            Js::Num(q) if q.abs() >= BIG => json!(["n", if *q < 0.0 { -100_000 } else { 100_000 }, 0, 0]),
            Js::Num(q) => {
                let [a, b, c] = art::number(*q);
                json!(["n", a, b, c])
            }
            Js::Str(s) => json!(["s", codes(s)]),
            Js::Bool(b) => json!(["b", b]),
            Js::Obj(o) => json!(["o", o.iter().map(|(k, v)| json!([k, v.event()])).collect::<Vec<_>>()]),
        }
    }
    pub fn parse(v: &Value) -> Js {
        let text = |v: &Value| -> String { v.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect() };
        match v[0].as_str().unwrap() {
            "u" => Js::Undef,
            "z" => Js::Null,
            "n" => {
                let n = |k: usize| v[k].as_i64().unwrap() as f64;
                Js::Num(n(1) * 65536.0 + n(2) + n(3) / (1u64 << 30) as f64)
            }
            "s" => Js::Str(text(&v[1])),
            "b" => Js::Bool(v[1].as_bool().unwrap()),
            _ => Js::Obj(v[1].as_array().unwrap().iter().map(|kv| (kv[0].as_str().unwrap().to_string(), Js::parse(&kv[1]))).collect()),
        }
    }
    pub fn value(&self) -> JsValue {
        match self {
            Js::Undef => JsValue::UNDEFINED,
            Js::Null => JsValue::NULL,
            Js::Num(q) if q.abs() >= BIG => JsValue::from_f64(if *q < 0.0 { f64::NEG_INFINITY } else { 1e300 }),
            Js::Num(q) => JsValue::from_f64(*q),
            Js::Str(s) => JsValue::from_str(s),
            Js::Bool(b) => JsValue::from_bool(*b),
            Js::Obj(o) => object(o.iter().map(|(k, v)| (k.as_str(), v.value()))).into(),
        }
    }
}
fn object<'a>(fields: impl Iterator<Item = (&'a str, JsValue)>) -> Object {
    let o = Object::new();
    for (k, v) in fields {
        Reflect::set(o.as_ref(), &JsValue::from_str(k), &v).unwrap();
    }
    o
}

pub struct Session {
    pub log: Log,
    pub arts: BTreeMap<String, Artefact>,
    pub cur: String,
    pub handlers: BTreeMap<String, Handler>,
    pub cursors: BTreeMap<String, Cursor>,
    observers: HashMap<i64, Function>,
    calls: Rc<RefCell<Vec<(i64, Option<bool>)>>>,
    fresh: usize,
    loads: usize,
    turn: usize,
    pub dead: bool,
    /// Searches are recorded with what the index finds, instead of with the corrections made.
    pub given: bool,
    /// Suggestions are judged only as to which index answers.
    pub given_suggest: bool,
    pub found: usize,
    /// What was last asked about.
    pub asked: Vec<String>,
    pub nonempty: usize,
    /// Products and suggestions handed out earlier.
    products: Vec<(String, Box<dyn Fn() -> Value>)>,
    suggestions: Vec<(String, TagSuggestionResult)>,
    /// Registrations made: handler, item, observer.
    pub regs: Vec<(String, Vec<usize>, i64)>,
}

fn lens(items: &Items) -> Vec<Vec<usize>> {
    match items {
        Items::Tags(t) => (0..t.len()).map(|k| vec![k]).collect(),
        Items::Cats(c) => c.iter().enumerate().flat_map(|(k, o)| (0..o.len()).map(move |j| vec![k, j])).collect(),
    }
}

impl Session {
    pub fn new(log: &Log) -> Session {
        log.ev("Reset", json!({}));
        Session {
            log: log.clone(),
            arts: BTreeMap::new(),
            cur: String::new(),
            handlers: BTreeMap::new(),
            cursors: BTreeMap::new(),
            observers: HashMap::new(),
            calls: Rc::default(),
            fresh: 0,
            loads: 0,
            turn: 0,
            dead: false,
            given: true,
            given_suggest: true,
            found: 0,
            asked: Vec::new(),
            nonempty: 0,
            products: Vec::new(),
            suggestions: Vec::new(),
            regs: Vec::new(),
        }
    }
    /// Forget everything but what the library itself remembers.
    pub fn scenario(&mut self) {
        self.log.ev("Scenario", json!({}));
        self.drop_all();
        let cur = self.cur.clone();
        self.arts.retain(|k, _| *k == cur);
    }
    pub fn drop_all(&mut self) {
        self.handlers.clear();
        self.cursors.clear();
        self.products.clear();
        self.suggestions.clear();
        self.regs.clear();
    }
    pub fn name(&mut self, prefix: &str) -> String {
        self.fresh += 1;
        format!("{prefix}{}", self.fresh)
    }
    fn guard<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        let r = guarded(&self.log, what, f);
        self.dead |= r.is_none();
        r
    }

    pub fn build(&mut self, a: &str, cat: Vec<Rec>) -> bool {
        match Artefact::new(cat, &self.log) {
            None => {
                self.dead = true;
                false
            }
            Some(x) => {
                // n-grams are worked out by the specification only where it judges what is found
                let n = if self.given { 0 } else { 5 };
                art::Looker { log: &self.log, a }.built(&x.cat, n, &x.tags);
                self.arts.insert(a.to_string(), x);
                true
            }
        }
    }
    pub fn load(&mut self, a: &str) {
        let bytes = self.arts[a].bytes.clone();
        if let Some(ok) = self.guard("initialize", || indexer_lib::initialize(&bytes)) {
            if ok {
                self.log.ev("Load", json!({"a": a}));
                self.cur = a.to_string();
                self.loads += 1;
            } else {
                self.log.ev("Panic", json!({"what": "initialize reported failure on a good file"}));
                self.dead = true;
            }
        }
    }
    /// Loading damaged data: refused means an error result or a trap.
    pub fn load_damaged(&mut self, bytes: &[u8]) {
        let r = catch_unwind(AssertUnwindSafe(|| indexer_lib::initialize(bytes)));
        let refused = !matches!(r, Ok(true));
        self.log.ev("LoadFails", json!({"refused": refused}));
    }

    pub fn new_handler(&mut self, h: &str, kind: &str) {
        let made = match kind {
            "tags" => self.guard("get_tags", indexer_lib::get_tags).map(|o| o.map(Kind::Tags)),
            _ => self.guard("get_categories", indexer_lib::get_categories).map(|o| o.map(Kind::Cats)),
        };
        let Some(made) = made else { return };
        self.log.ev("NewHandler", json!({"h": h, "kind": kind, "some": made.is_some()}));
        let Some(kind) = made else { return };
        let items = match &kind {
            Kind::Tags(t) => {
                let mut it = t.tags();
                self.guard("next_tag", || {
                    let mut v = Vec::new();
                    while let Some(t) = it.next_tag() {
                        v.push(t);
                        if v.len() > 5000 {
                            break;
                        }
                    }
                    Items::Tags(v)
                })
            }
            Kind::Cats(c) => {
                let mut it = c.iter();
                self.guard("next_item", || {
                    let mut v = Vec::new();
                    while let Some(mut o) = it.next_item() {
                        let mut opts = Vec::new();
                        while let Some(x) = o.next_item() {
                            opts.push(x);
                            if opts.len() > 5000 {
                                break;
                            }
                        }
                        v.push(opts);
                        if v.len() > 5000 {
                            break;
                        }
                    }
                    Items::Cats(v)
                })
            }
        };
        let Some(items) = items else { return };
        self.handlers.insert(h.to_string(), Handler { kind, items: Rc::new(items), load: self.loads, art: self.cur.clone() });
    }
    pub fn items(&self, h: &str) -> Vec<Vec<usize>> {
        self.handlers.get(h).map_or_else(Vec::new, |h| lens(&h.items))
    }
    /// The items of a handler, as obtained from it or from another of the same loaded index.
    fn items_for(&mut self, h: &str) -> Rc<Items> {
        self.turn += 1;
        let x = &self.handlers[h];
        if self.turn % 3 > 0 {
            return x.items.clone();
        }
        let tags = matches!(*x.items, Items::Tags(_));
        let others: Vec<&Handler> = self.handlers.values().filter(|o| o.load == x.load && o.art == x.art && matches!(*o.items, Items::Tags(_)) == tags).collect();
        others[self.turn / 3 % others.len()].items.clone()
    }
    fn has(&self, h: &str, item: &[usize]) -> bool {
        self.items(h).iter().any(|i| i == item)
    }

    /// The names the items obtained from a handler show now.
    pub fn names(&mut self, h: &str) {
        let Some(x) = self.handlers.get(h) else { return };
        let v = guarded(&self.log, "get_name", || match &*x.items {
            Items::Tags(t) => t.iter().map(|t| codes(&t.get_name())).collect::<Vec<Value>>(),
            Items::Cats(c) => c.iter().map(|o| Value::Array(o.iter().map(|o| codes(&o.get_name())).collect())).collect(),
        });
        match v {
            Some(names) => self.log.ev("Names", json!({"h": h, "names": names})),
            None => self.dead = true,
        }
    }
    /// What everything handed out earlier shows now.
    pub fn look_back(&mut self) {
        let hs: Vec<String> = self.handlers.keys().cloned().collect();
        for h in hs {
            self.names(&h);
        }
        let log = self.log.clone();
        for (_, x) in &self.products {
            if guarded(&log, "JsProduct", || log.ev("ReadProduct", x())).is_none() {
                self.dead = true;
                return;
            }
        }
        for (c, x) in &self.suggestions {
            let Some(res) = guarded(&log, "TagSuggestionResult", || vec![codes(&x.get_tag().get_name()), codes(&x.get_input())]) else {
                self.dead = true;
                return;
            };
            log.ev("ReadSuggestion", json!({"c": c, "res": res}));
        }
    }

    pub fn status(&mut self, h: &str, item: &[usize]) {
        if !self.has(h, item) {
            return;
        }
        let items = self.items_for(h);
        let x = &self.handlers[h];
        let v = guarded(&self.log, "get_status", || match (&x.kind, &*items) {
            (Kind::Tags(t), Items::Tags(i)) => t.get_status(&i[item[0]]),
            (Kind::Cats(c), Items::Cats(i)) => c.get_status(&i[item[0]][item[1]]),
            _ => unreachable!(),
        });
        match v {
            Some(v) => self.log.ev("Status", json!({"h": h, "item": item, "v": v})),
            None => self.dead = true,
        }
    }
    pub fn toggle(&mut self, h: &str, item: &[usize]) {
        if !self.has(h, item) {
            return;
        }
        self.calls.borrow_mut().clear();
        let items = self.items_for(h);
        let x = self.handlers.get_mut(h).unwrap();
        let r = guarded(&self.log, "toggle", || match (&mut x.kind, &*items) {
            (Kind::Tags(t), Items::Tags(i)) => t.toggle(&i[item[0]]),
            (Kind::Cats(c), Items::Cats(i)) => c.toggle(&i[item[0]][item[1]]),
            _ => unreachable!(),
        });
        if r.is_none() {
            self.dead = true;
            return;
        }
        self.log_toggle(h, item);
    }
    fn log_toggle(&mut self, h: &str, item: &[usize]) {
        let calls: Vec<Value> = self
            .calls
            .borrow()
            .iter()
            .map(|(o, s)| match s {
                Some(s) => json!([o, s]),
                None => json!([-1, true]),
            })
            .collect();
        self.log.ev("Toggle", json!({"h": h, "item": item, "calls": calls}));
    }
    fn observer(&mut self, o: i64) -> Function {
        let calls = self.calls.clone();
        self.observers
            .entry(o)
            .or_insert_with(|| {
                Function::host(move |args| {
                    let state = if args.len() == 1 { args[0].as_bool() } else { None };
                    calls.borrow_mut().push((o, state));
                    // every third observer fails
                    if o % 3 == 0 {
                        Err(JsValue::from_str("observer failed"))
                    } else {
                        Ok(JsValue::UNDEFINED)
                    }
                })
            })
            .clone()
    }
    pub fn listen_all(&mut self, h: &str, o: i64) {
        let f = self.observer(o);
        let Some(x) = self.handlers.get_mut(h) else { return };
        let r = guarded(&self.log, "add_general_observer", || match &mut x.kind {
            Kind::Tags(t) => t.add_general_observer(f),
            Kind::Cats(c) => c.add_general_observer(f),
        });
        self.dead |= r.is_none();
        self.log.ev("ListenAll", json!({"h": h, "o": o}));
    }
    pub fn listen(&mut self, h: &str, item: &[usize], o: i64, on: bool) {
        if !self.has(h, item) {
            return;
        }
        let f = self.observer(o);
        let items = self.items_for(h);
        let x = self.handlers.get_mut(h).unwrap();
        let r = guarded(&self.log, "listeners", || match (&mut x.kind, &*items, on) {
            (Kind::Tags(t), Items::Tags(i), true) => t.add_tag_lister(&i[item[0]], f),
            (Kind::Tags(t), Items::Tags(i), false) => t.remove_tag_listener(&i[item[0]], &f),
            (Kind::Cats(c), Items::Cats(i), true) => c.add_option_lister(&i[item[0]][item[1]], f),
            (Kind::Cats(c), Items::Cats(i), false) => c.remove_option_listener(&i[item[0]][item[1]], &f),
            _ => unreachable!(),
        });
        self.dead |= r.is_none();
        let reg = (h.to_string(), item.to_vec(), o);
        if on {
            self.regs.push(reg);
        } else if let Some(i) = self.regs.iter().position(|x| *x == reg) {
            self.regs.swap_remove(i);
        }
        self.log.ev(if on { "Listen" } else { "Unlisten" }, json!({"h": h, "item": item, "o": o}));
    }

    pub fn open(&mut self, c: &str, h: &str) {
        let Some(x) = self.handlers.get(h) else { return };
        let cur = match &x.kind {
            Kind::Tags(t) => Cursor::Tags(t.tags()),
            Kind::Cats(k) => Cursor::Cats(k.iter()),
        };
        self.cursors.insert(c.to_string(), cur);
        self.log.ev("Open", json!({"c": c, "h": h}));
    }
    /// One step of any cursor.  Product cursors hand out a product, read at once if asked for.
    pub fn step(&mut self, c: &str, read: bool) -> bool {
        let fresh = self.name("x");
        self.step_as(c, read, fresh)
    }
    /// The same, naming the product or cursor that comes out of it.
    pub fn step_as(&mut self, c: &str, read: bool, fresh: String) -> bool {
        let Some(mut x) = self.cursors.remove(c) else { return false };
        let mut more = false;
        let mut handed = None;
        let log = self.log.clone();
        let ok = guarded(&log, "step", || match &mut x {
            Cursor::Tags(t) => {
                let r = t.next_tag();
                more = r.is_some();
                log.ev("Step", json!({"c": c, "res": r.iter().map(|t| codes(&t.get_name())).collect::<Vec<_>>()}));
                None
            }
            Cursor::Opts(o) => {
                let r = o.next_item();
                more = r.is_some();
                log.ev("Step", json!({"c": c, "res": r.iter().map(|t| codes(&t.get_name())).collect::<Vec<_>>()}));
                None
            }
            Cursor::Cats(k) => {
                let r = k.next_item();
                more = r.is_some();
                log.ev("StepCat", json!({"c": c, "res": r.iter().map(|t| codes(&t.name())).collect::<Vec<_>>(), "new": fresh}));
                r.map(|o| (fresh.clone(), Cursor::Opts(o)))
            }
            Cursor::Prods(p, a) => {
                let r = p.next_product();
                more = r.is_some();
                let i = r.as_ref().map_or(-1, |p| {
                    let id = p.get_id();
                    self.arts.get(a.as_str()).and_then(|a| a.cat.iter().position(|c| c.id == id)).map_or(1_000_000, |i| i as i64)
                });
                self.found += usize::from(r.is_some());
                log.ev("NextProduct", json!({"c": c, "i": i, "p": fresh}));
                if let (Some(p), true) = (r, read) {
                    let named = fresh.clone();
                    let show: Box<dyn Fn() -> Value> = Box::new(move || {
                            json!({"p": named, "title": codes(&p.get_title()), "desc": codes(&p.get_description()), "id": codes(&p.get_id()),
                           "price": p.numeric_feature("price").map_or(json!([0, 0, -2]), |f| json!(art::number(f))),
                           "image": p.string_feature("image_url").iter().map(|s| codes(s)).collect::<Vec<_>>(),
                           "feats": art::OTHER_KEYS.iter().chain(&["price", "image_url"]).map(|k| json!([k,
                                p.numeric_feature(k).into_iter().map(art::number).collect::<Vec<_>>(),
                                p.string_feature(k).iter().map(|s| codes(s)).collect::<Vec<_>>()])).collect::<Vec<_>>()})
                    });
                    log.ev("ReadProduct", show());
                    handed = Some((fresh.clone(), show));
                }
                None
            }
        });
        if let Some(p) = handed {
            if self.products.len() < 12 {
                self.products.push(p);
            }
        }
        match ok {
            None => {
                self.dead = true;
                false
            }
            Some(new) => {
                self.cursors.insert(c.to_string(), x);
                if let Some((n, o)) = new {
                    self.cursors.insert(n, o);
                }
                more
            }
        }
    }
    pub fn search(&mut self, c: &str, q: &str, hc: &str, ht: &str, order: Option<&str>, filters: &[(String, Js)]) -> bool {
        let (Some(x), Some(y)) = (self.handlers.get(hc), self.handlers.get(ht)) else { return false };
        let (Kind::Cats(k), Kind::Tags(t)) = (&x.kind, &y.kind) else { return false };
        let f = object(filters.iter().map(|(k, v)| (k.as_str(), v.value())));
        let r = guarded(&self.log, "search", || indexer_lib::search(q, k, t, order.map(str::to_string), &f));
        let Some(r) = r else {
            self.dead = true;
            return false;
        };
        if self.given {
            // what the index itself finds, from the twin of the loaded one
            let base = if self.cur.is_empty() { Some(vec![]) } else {
                let twin = &self.arts[&self.cur].twin;
                guarded(&self.log, "GramIndex::search", || art::found(twin, q))
            };
            let Some(base) = base else {
                self.dead = true;
                return false;
            };
            // in thousandths if millionths are too many
            let unit = if base.iter().any(|b| b[1].as_i64().unwrap_or(0) > 2_000_000_000) { 2 } else { 1 };
            let base: Vec<Value> = base.iter().map(|b| json!([b[0], b[unit]])).collect();
            self.log.ev(
                "SearchGiven",
                json!({"c": c, "hc": hc, "ht": ht, "order": order.into_iter().collect::<Vec<_>>(),
                       "filters": filters.iter().map(|(k, v)| json!({"k": k, "v": v.event()})).collect::<Vec<_>>(),
                       "base": base, "some": r.is_some()}),
            );
            return match r {
                Some(p) => {
                    self.cursors.insert(c.to_string(), Cursor::Prods(p, self.cur.clone()));
                    true
                }
                None => false,
            };
        }
        let ch = if self.cur.is_empty() { Some(vec![]) } else {
            let twin = &self.arts[&self.cur].twin;
            guarded(&self.log, "search_gram", || chosen(twin, q))
        };
        let Some(ch) = ch else {
            self.dead = true;
            return false;
        };
        self.log.ev(
            "Search",
            json!({"c": c, "q": codes(q), "hc": hc, "ht": ht, "order": order.into_iter().collect::<Vec<_>>(),
                   "filters": filters.iter().map(|(k, v)| json!({"k": k, "v": v.event()})).collect::<Vec<_>>(),
                   "chosen": ch, "some": r.is_some()}),
        );
        match r {
            Some(p) => {
                self.cursors.insert(c.to_string(), Cursor::Prods(p, self.cur.clone()));
                true
            }
            None => false,
        }
    }
    /// Searching before anything is loaded, with handlers of an index nobody loaded.
    pub fn search_unloaded(&mut self, cat: &[Rec], q: &str) {
        let Some(art) = self.guard("building", || {
            let built = art::build::<5>(cat);
            art::load::<5>(&art::save(&built))
        }) else { return };
        let Some(art) = art else { return };
        let classic = std::sync::Arc::new(art.classic);
        let (k, t) = (CategoryHandler::new(classic.clone()), TagHandler::new(classic));
        for order in [None, Some("Alphabetical")] {
            let Some(r) = self.guard("search", || indexer_lib::search(q, &k, &t, order.map(str::to_string), &Object::new())) else { return };
            self.log.ev(
                "Search",
                json!({"c": "none", "q": codes(q), "hc": "none", "ht": "none", "order": order.into_iter().collect::<Vec<_>>(),
                       "filters": [], "chosen": [], "some": r.is_some()}),
            );
        }
    }
    pub fn drain(&mut self, c: &str, read: bool) {
        let before = self.found;
        let mut n = 0;
        while !self.dead && self.step(c, read) && n < 2000 {
            n += 1;
        }
        self.nonempty += usize::from(self.found > before);
        // it stays at the end
        if !self.dead {
            self.step(c, read);
        }
    }
    pub fn orders(&mut self) {
        let Some(r) = self.guard("get_orders", indexer_lib::get_orders) else { return };
        let names: Vec<String> = r.iter().flatten().map(|v| v.as_string().unwrap_or_else(|| "?".into())).collect();
        self.log.ev("ReadOrders", json!({"some": r.is_some(), "names": names}));
    }
    /// Ask for a tag suggestion; optionally toggle what is suggested in a handler of the same index.
    pub fn suggest(&mut self, q: &str, toggle_in: Option<&str>) {
        self.asked.retain(|a| a != q);
        self.asked.push(q.to_string());
        let Some(r) = self.guard("tag_suggestion", || indexer_lib::tag_suggestion(q)) else { return };
        let log = self.log.clone();
        let res: Option<Vec<Value>> =
            self.guard("TagSuggestionResult", || r.as_ref().map_or_else(Vec::new, |r| vec![codes(&r.get_tag().get_name()), codes(&r.get_input())]));
        let Some(res) = res else { return };
        let c = self.name("g");
        log.ev(if self.given_suggest { "SuggestFrom" } else { "Suggest" }, json!({"q": codes(q), "res": res, "c": c}));
        let Some(r) = r else { return };
        let tag = r.get_tag();
        if self.suggestions.len() < 8 {
            self.suggestions.push((c, r));
        }
        if let Some(h) = toggle_in {
            let Some(x) = self.handlers.get_mut(h) else { return };
            if x.art != self.cur {
                return;
            }
            let Some(k) = self.arts[&self.cur].tags.iter().position(|t| *t == tag.get_name()) else { return };
            if let Kind::Tags(t) = &mut x.kind {
                self.calls.borrow_mut().clear();
                let ok = guarded(&log, "toggle", || t.toggle(&tag));
                if ok.is_none() {
                    self.dead = true;
                    return;
                }
                self.log_toggle(h, &[k]);
            }
        }
    }
}
