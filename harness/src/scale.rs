//! Catalogues of very many records, given by a rule (spec/Scale.tla), and what is seen of them in runs of numbers.
use crate::art::{self, leak, number, Looker};
use crate::catalog::{codes, Rec};
use crate::dict;
use crate::log::{guarded, Log};
use crate::rng::Rng;
use crate::suites::Job;
use indexer_lib::js_interactable::{ExportCategoryOption, JSTag, ProductProducer};
use js_sys::Object;
use serde_json::{json, Value};

fn record(i: usize, p: usize, z: usize) -> Rec {
    let mut tags = vec![format!("t{}", i % 3)];
    if i == p {
        tags.push("rare".into());
    }
    Rec {
        desc: if i % 2 == 1 { "abcabcabc".into() } else { "xyzxyzxyz".into() },
        title: format!("{:06}", if z == 1 { 0 } else { p - i }),
        vendor: format!("v{}", i % 7),
        id: format!("p{i:06}"),
        tags,
        opts: vec![("Size".into(), vec![format!("s{}", i % 5)])],
        price: if z == 1 { 10_000 } else { 1000 * i as u32 },
        images: if i % 11 == 0 { vec![format!("u{i:06}")] } else { vec![] },
        feats: vec![],
    }
}

/// Numbers as progressions: [first, step, how many].
fn runs(v: &[i64]) -> Vec<Value> {
    let mut out = Vec::new();
    let mut k = 0;
    while k < v.len() {
        let (first, mut n, mut step) = (v[k], 1, 0);
        if k + 1 < v.len() {
            step = v[k + 1] - first;
            while k + n < v.len() && v[k + n] - v[k + n - 1] == step {
                n += 1;
            }
        }
        out.push(json!([first, step, n]));
        k += n;
        if out.len() > 40 {
            break;
        }
    }
    out
}

fn place(id: &str) -> i64 {
    id.strip_prefix('p').filter(|d| d.len() == 6).and_then(|d| d.parse().ok()).unwrap_or(-1)
}

struct Seen<'a> {
    log: &'a Log,
    p: usize,
    z: usize,
}

impl Seen<'_> {
    fn ev(&self, name: &str, mut fields: Value) {
        fields["p"] = json!(self.p);
        fields["z"] = json!(self.z);
        self.log.ev(name, fields);
    }

    fn parts(&self, a: &art::Art<5>, loaded: bool) {
        let ps = &a.ix.product_container.products;
        let number = |ids: Vec<usize>| ids.into_iter().map(|i| i as i64 + 1).collect::<Vec<_>>();
        let classic = &a.classic;
        let _ = guarded(self.log, "looking at parts", || {
            let names = art::tag_names(classic);
            let tags: Vec<Value> = names
                .iter()
                .enumerate()
                .map(|(k, n)| {
                    let t = classic.tags.get(k).expect("tag");
                    json!([codes(n), runs(&number(ps.iter().filter(|p| t.contains(p)).map(|p| p.serialization_id).collect()))])
                })
                .collect();
            let opts: Vec<Value> = classic
                .categories
                .0
                .iter()
                .flat_map(|c| c.options.iter().map(move |o| (c, o)))
                .map(|(c, o)| json!([codes(&c.name), codes(&o.name), runs(&number(ps.iter().filter(|p| o.contains(p)).map(|p| p.serialization_id).collect()))]))
                .collect();
            self.ev("ScaleMembers", json!({"tags": tags, "opts": opts, "loaded": loaded}));
            let orders: Vec<Value> = ["Alphabetical", "Price low to high", "Price high to low"]
                .iter()
                .map(|n| json!([n, classic.order.get_orders(n).map(|v| runs(&v.iter().map(|i| *i as i64).collect::<Vec<_>>())).into_iter().collect::<Vec<_>>()]))
                .collect();
            self.ev("ScaleOrders", json!({"orders": orders}));
            let post: Vec<i64> = a.ix.data.get(&['a', 'b', 'c', 'a', 'b']).map(|v| v.iter().map(|p| p.serialization_id as i64 + 1).collect()).unwrap_or_default();
            let half = |k: usize| runs(&post.iter().skip(k).step_by(2).copied().collect::<Vec<_>>());
            self.ev("ScalePosts", json!({"halves": [half(0), half(1)]}));
        });
    }

    fn search(&self, tag: Option<(&JSTag, i64)>, opt: Option<(&ExportCategoryOption, i64)>, order: &str) -> Option<ProductProducer> {
        let mut c = indexer_lib::get_categories()?;
        let mut t = indexer_lib::get_tags()?;
        if let Some((x, _)) = tag {
            t.toggle(x);
        }
        if let Some((x, _)) = opt {
            c.toggle(x);
        }
        indexer_lib::search("abcab", &c, &t, if order.is_empty() { None } else { Some(order.to_string()) }, &Object::new())
    }

    fn found(&self, tag: Option<(&JSTag, i64)>, opt: Option<(&ExportCategoryOption, i64)>, order: &str) {
        let _ = guarded(self.log, "search", || {
            let Some(mut r) = self.search(tag, opt, order) else {
                self.ev("ScaleFound", json!({"some": false, "tag": -1, "opt": -1, "order": order, "runs": [], "ends": true}));
                return;
            };
            let mut v = Vec::new();
            while let Some(x) = r.next_product() {
                v.push(place(&x.get_id()));
                if v.len() > 2 * self.p {
                    break;
                }
            }
            let ends = (0..3).all(|_| r.next_product().is_none());
            if order.is_empty() {
                v.sort_unstable();
            }
            self.ev("ScaleFound", json!({"some": true, "tag": tag.map_or(-1, |x| x.1), "opt": opt.map_or(-1, |x| x.1), "order": order, "runs": runs(&v), "ends": ends}));
        });
    }

    /// What some of the products show.
    fn shows(&self, at: &[usize]) {
        let _ = guarded(self.log, "reading", || {
            let Some(mut r) = self.search(None, None, "Price low to high") else { return };
            while let Some(x) = r.next_product() {
                let i = place(&x.get_id());
                if i > 0 && at.contains(&(i as usize)) {
                    self.ev(
                        "ScaleShows",
                        json!({"i": i, "title": codes(&x.get_title()), "desc": codes(&x.get_description()), "id": codes(&x.get_id()),
                           "price": x.numeric_feature("price").map_or(json!([0, 0, -2]), |f| json!(number(f))),
                           "image": x.string_feature("image_url").iter().map(|s| codes(s)).collect::<Vec<_>>(), "feats": []}),
                    );
                }
            }
        });
    }

    fn run(&self, r: &mut Rng) {
        let cat: Vec<Rec> = (1..=self.p).map(|i| record(i, self.p, self.z)).collect();
        let Some(built) = guarded(self.log, "build", || art::build::<5>(&cat)) else { return };
        self.parts(&built, false);
        let Some(bytes) = guarded(self.log, "save", || art::save(&built)) else { return };
        let Some(loaded) = guarded(self.log, "load", || art::load::<5>(&bytes)) else { return };
        let Some(loaded) = loaded else {
            self.log.ev("Panic", json!({"what": "a fresh index file does not load"}));
            return;
        };
        let _ = guarded(self.log, "comparing", || {
            self.log.ev("Equal", json!({"index": built.ix == loaded.ix, "classic": built.classic == loaded.classic}));
        });
        self.parts(&loaded, true);
        let _ = Looker { log: self.log, a: "" };
        if guarded(self.log, "initialize", || indexer_lib::initialize(leak(bytes))) != Some(true) {
            self.log.ev("Panic", json!({"what": "initialize"}));
            return;
        }
        let mut tags = Vec::new();
        let mut opts = Vec::new();
        let _ = guarded(self.log, "items", || {
            let mut it = indexer_lib::get_tags().expect("tags").tags();
            while let Some(t) = it.next_tag() {
                let k = if t.get_name() == "rare" { 3 } else { t.get_name().strip_prefix('t').and_then(|d| d.parse().ok()).unwrap_or(99) };
                tags.push((t, k));
                if tags.len() > 9 {
                    break;
                }
            }
            let mut it = indexer_lib::get_categories().expect("categories").iter();
            if let Some(mut c) = it.next_item() {
                while let Some(o) = c.next_item() {
                    let k = o.get_name().strip_prefix('s').and_then(|d| d.parse().ok()).unwrap_or(99);
                    opts.push((o, k));
                    if opts.len() > 9 {
                        break;
                    }
                }
            }
        });
        const ORDERS: [&str; 4] = ["", "Alphabetical", "Price low to high", "Price high to low"];
        for o in ORDERS {
            self.found(None, None, o);
        }
        for k in 0..6 {
            let t = if k % 3 == 1 || tags.is_empty() { None } else { Some(r.pick(&tags)) };
            let o = if k % 3 == 0 || opts.is_empty() { None } else { Some(r.pick(&opts)) };
            let order = *r.pick(&ORDERS);
            self.found(t.map(|x| (&x.0, x.1)), o.map(|x| (&x.0, x.1)), order);
        }
        if let Some(t) = tags.iter().find(|t| t.1 == 3) {
            self.found(Some((&t.0, 3)), None, "");
        }
        let mut at: Vec<usize> = [1, 3, 11, 127, 129, 255, 257, 4095, 4097, 32_767, 32_769, 65_535, 65_537, 65_539, 65_549].into_iter().filter(|i| *i <= self.p).collect();
        at.extend((0..5).map(|_| 1 + r.below(self.p)));
        at.push(self.p);
        self.shows(&at);
    }
}

pub fn run(job: &Job, log: &Log) -> Value {
    let mut r = Rng::new(job.seed, 7700 + job.shard);
    let z = r.below(2);
    // more than can be counted in two bytes
    let p = dict::number(&mut r, 65_538, 140_000).unwrap_or(65_536 + 2 + r.below(2000));
    Seen { log, p, z }.run(&mut r);
    json!({"products": p})
}
