//! What is run for which property.
use crate::art::{self, build, interesting_windows, leak, load, save, tag_names, Looker};
use crate::catalog::{self, codes, codes_list, generate, limit_text, query, Profile, Rec, Shape};
use crate::cli::{Input, Place};
use crate::codec::Coder;
use crate::jsontext;
use crate::log::{guarded, Log};
use crate::rng::Rng;
use crate::session::{Js, Session};
use colosseum::sync::Arena;
use indexer_lib::data::SuperAlloc;
use indexer_lib::serialize::{deserialize_all, serialize_string_with_limit};
use serde_json::{json, Value};

pub struct Job {
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    pub scale: usize,
    pub input: String,
}

fn shape(p: Profile, r: &mut Rng) -> Shape {
    match p {
        Profile::Tiny => Shape { products: (0, 8), text: (0, 7) },
        Profile::Words => Shape { products: (1, 9), text: (1, 7) },
        Profile::Weird => Shape { products: (1, 8), text: (0, 6) },
        Profile::Long => Shape { products: (1, 3), text: (0, 3) },
        Profile::Large => {
            let (lo, hi) = *r.pick(&[(129, 150), (258, 300), (258, 300)]);
            Shape { products: (lo, hi), text: (1, 3) }
        }
        Profile::Classic => Shape { products: (0, 9), text: (0, 2) },
        Profile::Wide => Shape { products: (2, 5), text: (50, 300) },
        Profile::Letters => Shape { products: (3, 7), text: (10, 40) },
        Profile::Deep => Shape { products: (5, 6), text: (4200, 5000) },
        Profile::Many if r.one_in(6) => Shape { products: (1040, 1100), text: (0, 5) },
        Profile::Many => Shape { products: (104, 140), text: (0, 5) },
        Profile::Flood => Shape { products: (5, 6), text: (0, 3) },
        Profile::Case => Shape { products: (2, 8), text: (0, 8) },
        Profile::Uneven => Shape { products: (6, 12), text: (0, 6) },
    }
}

fn gen(r: &mut Rng, p: Profile) -> Vec<Rec> {
    let s = shape(p, r);
    generate(r, p, s)
}

/// Looks at one aspect of an index of gram length N, built and loaded.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Aspect {
    RoundTrip,
    Posts,
    Tree,
    Correct,
    Rank,
    Orders,
    Products,
    Members,
    File,
    Cuts,
}

fn aspects<const N: usize>(log: &Log, r: &mut Rng, cat: &[Rec], p: Profile, what: Aspect, many: usize) {
    let Some(built) = guarded(log, "build", || build::<N>(cat)) else { return };
    let Some(bytes) = guarded(log, "serialize_all", || save(&built)) else { return };
    let Some(loaded) = guarded(log, "deserialize_all", || load::<N>(&bytes)) else { return };
    let Some(loaded) = loaded else {
        log.ev("Panic", json!({"what": "a fresh index file does not load"}));
        return;
    };
    // n-grams are worked out by the specification only where they are looked at
    let grams = matches!(what, Aspect::RoundTrip | Aspect::Posts | Aspect::Tree | Aspect::Correct | Aspect::Rank | Aspect::File) && cat.iter().map(|c| c.desc.len()).sum::<usize>() < 100_000;
    let n = if grams { N } else { 0 };
    let lk = Looker { log, a: "a" };
    lk.built(cat, n, &tag_names(&built.classic));
    match what {
        Aspect::RoundTrip => {
            if let Some((i, c)) = guarded(log, "eq", || (built.ix == loaded.ix, built.classic == loaded.classic)) {
                log.ev("Equal", json!({"a": "a", "index": i, "classic": c}));
            }
            everything(&lk, &loaded, grams);
            // what is not the same does not compare equal
            if cat.len() < 60 && cat.iter().map(|c| c.desc.len()).sum::<usize>() < 4000 {
                for _ in 0..3 {
                    let other = sibling(r, cat);
                    let Some(b) = guarded(log, "build", || build::<N>(&other)) else { return };
                    let Some(v) = guarded(log, "eq", || {
                        let same: Vec<Value> = b.ix.product_container.products.iter().zip(&loaded.ix.product_container.products).map(|(x, y)| json!([*x == *y, *y == *x])).collect();
                        json!({"a": "a", "other": catalog::catalog_event(&other), "products": same, "index": b.ix == loaded.ix, "classic": b.classic == loaded.classic})
                    }) else { return };
                    log.ev("Compare", v);
                }
            }
            // written again, it says the same again
            if let Some(Some(again)) = guarded(log, "reload", || load::<N>(&save(&loaded))) {
                log.ev("Equal", json!({"a": "a", "index": again.ix == loaded.ix, "classic": again.classic == loaded.classic}));
            } else {
                log.ev("Panic", json!({"what": "a loaded index, written again, does not load"}));
            }
        }
        Aspect::File => {
            log.ev("File", json!({"a": "a", "bytes": bytes}));
            // what was loaded, saved again
            let Some(bytes) = guarded(log, "serialize_all", || save(&loaded)) else { return };
            log.ev("File", json!({"a": "a", "bytes": bytes}));
        }
        Aspect::Cuts => cuts::<N>(log, &bytes),
        _ => {
            look(&lk, r, &built, cat, p, what, many, false);
            if !matches!(what, Aspect::Correct | Aspect::Rank) || r.one_in(3) {
                look(&lk, r, &loaded, cat, p, what, many, true);
            }
        }
    }
    // the same through the library's own indexing entry point
    if what == Aspect::Cuts || cat.iter().any(|c| !c.feats.is_empty()) || r.one_in(2) {
        log.ev("Scenario", json!({}));
        return;
    }
    let Some(Some((bytes, public))) = guarded(log, "index_and_serialize", || art::published::<N>(cat)) else {
        log.ev("Panic", json!({"what": "indexing fails"}));
        return;
    };
    let Some(public) = public else {
        log.ev("Panic", json!({"what": "a fresh index file does not load"}));
        return;
    };
    let lk = Looker { log, a: "p" };
    lk.rebuilt("a", &tag_names(&public.classic));
    match what {
        Aspect::RoundTrip => everything(&lk, &public, grams),
        Aspect::File => log.ev("File", json!({"a": "p", "bytes": bytes})),
        _ => look(&lk, r, &public, cat, p, what, many, true),
    }
    log.ev("Scenario", json!({}));
}

fn everything<const N: usize>(lk: &Looker, x: &art::Art<N>, grams: bool) {
    lk.products(x.ix.product_container, true);
    if grams {
        lk.tree(&x.ix);
        lk.posts(&x.ix);
    }
    lk.cats(&x.classic, x.ix.product_container);
    lk.tags(&x.classic, x.ix.product_container);
    lk.orders(&x.classic);
}

#[allow(clippy::too_many_arguments)]
fn look<const N: usize>(lk: &Looker, r: &mut Rng, x: &art::Art<N>, cat: &[Rec], p: Profile, what: Aspect, many: usize, loaded: bool) {
    match what {
        Aspect::Posts => lk.posts(&x.ix),
        Aspect::Tree => {
            lk.tree(&x.ix);
            lk.chains(&x.ix, &['q', '\u{1}']);
        }
        Aspect::Correct => {
            let wins = if many == 0 { art::all_windows::<N>(cat) } else { interesting_windows::<N>(r, cat, many) };
            lk.corrections(&x.ix, &wins);
        }
        Aspect::Rank => {
            if many == 0 {
                for q in art::all_queries(cat, N + 1) {
                    lk.rank(&x.ix, &q);
                }
            }
            for _ in 0..many {
                let max = if r.one_in(6) { 24 } else if r.one_in(8) { r.range(60, 140) } else { 9 };
                let q = query(r, cat, p, max);
                lk.rank(&x.ix, &q);
            }
        }
        Aspect::Orders => lk.orders(&x.classic),
        Aspect::Products => lk.products(x.ix.product_container, loaded),
        Aspect::Members => {
            lk.cats(&x.classic, x.ix.product_container);
            lk.tags(&x.classic, x.ix.product_container);
        }
        Aspect::RoundTrip | Aspect::File | Aspect::Cuts => unreachable!(),
    }
}

fn by_n(n: usize, log: &Log, r: &mut Rng, cat: &[Rec], p: Profile, what: Aspect, many: usize) {
    match n {
        1 => aspects::<1>(log, r, cat, p, what, many),
        2 => aspects::<2>(log, r, cat, p, what, many),
        3 => aspects::<3>(log, r, cat, p, what, many),
        4 => aspects::<4>(log, r, cat, p, what, many),
        6 => aspects::<6>(log, r, cat, p, what, many),
        7 => aspects::<7>(log, r, cat, p, what, many),
        9 => aspects::<9>(log, r, cat, p, what, many),
        10 => aspects::<10>(log, r, cat, p, what, many),
        12 => aspects::<12>(log, r, cat, p, what, many),
        8 => aspects::<8>(log, r, cat, p, what, many),
        _ => aspects::<5>(log, r, cat, p, what, many),
    }
}

/// Every strict prefix of a file, and the file.
fn cuts<const N: usize>(log: &Log, bytes: &[u8]) {
    // 0 refused, 1 accepted, 2 crashed
    let try_one = |b: &[u8]| -> u8 {
        let alloc: *mut SuperAlloc = Box::into_raw(Box::new(SuperAlloc::new()));
        let out = std::panic::catch_unwind(|| {
            let arena = Arena::new();
            let r = deserialize_all::<char, N>(b, &arena, unsafe { &*alloc });
            u8::from(r.is_some())
        });
        unsafe { drop(Box::from_raw(alloc)) };
        out.unwrap_or(2)
    };
    let (mut accepted, mut crashed) = (Vec::new(), Vec::new());
    // of a very long file, only some
    for cut in (0..bytes.len()).filter(|c| bytes.len() < 6000 || *c < 1500 || bytes.len() - c < 1500 || c % (bytes.len() / 2000) == 0) {
        match try_one(&bytes[..cut]) {
            0 => {}
            1 => accepted.push(cut),
            _ => crashed.push(cut),
        }
    }
    accepted.truncate(20);
    crashed.truncate(20);
    log.ev("Cuts", json!({"a": "a", "cuts": bytes.len(), "accepted": accepted, "crashed": crashed, "full": try_one(bytes) == 1}));
}

fn pick_profile(r: &mut Rng, ps: &[Profile]) -> Profile {
    *r.pick(ps)
}

/// All catalogues of three products over two letters with texts up to two characters.
fn tiny_exhaustive(job: &Job, log: &Log, what: Aspect, stride: usize) -> usize {
    use itertools_like::product;
    let texts: Vec<String> = ["", "a", "b", "aa", "ab", "ba", "bb"].iter().map(|s| s.to_string()).collect();
    let mut count = 0;
    let mut r = Rng::new(job.seed, 77);
    let offset = r.below(stride);
    for (k, combo) in product(texts.len(), 3).into_iter().enumerate() {
        if k as u64 % job.shards != job.shard || (k / job.shards as usize + offset) % stride != 0 {
            continue;
        }
        let cat: Vec<Rec> = combo
            .iter()
            .enumerate()
            .map(|(i, t)| Rec {
                desc: texts[*t].clone(),
                title: if k % 3 == 1 { "b".into() } else { String::new() },
                vendor: if k % 5 == 2 { "a".into() } else { String::new() },
                id: format!("{i}"),
                ..Rec::default()
            })
            .collect();
        count += 1;
        let n = 1 + (k / 7) % 3;
        by_n(n, log, &mut r, &cat, Profile::Tiny, what, 12);
    }
    count
}
mod itertools_like {
    pub fn product(n: usize, len: usize) -> Vec<Vec<usize>> {
        let mut out = vec![vec![]];
        for _ in 0..len {
            out = out
                .into_iter()
                .flat_map(|p: Vec<usize>| {
                    (0..n).map(move |k| {
                        let mut q = p.clone();
                        q.push(k);
                        q
                    })
                })
                .collect();
        }
        out
    }
}

/// Numbers in the library's source make catalogues larger: not beyond what can be worked out in time.
fn affordable(cat: &mut Vec<Rec>, n: usize, what: Aspect) {
    let most = match what {
        Aspect::RoundTrip | Aspect::File => 40_000,
        Aspect::Posts | Aspect::Tree | Aspect::Correct | Aspect::Rank => 120_000,
        _ => 1_000_000,
    };
    let work = |cat: &[Rec]| cat.iter().map(|c| c.desc.chars().count() + c.title.chars().count() + c.vendor.chars().count()).sum::<usize>() * n;
    while work(cat) > most && cat.iter().all(|c| c.desc.len() < 60_000) {
        if cat.len() > 1 && cat.len() <= 60 {
            // half as many products
            cat.truncate(cat.len() / 2);
        } else {
            for c in cat.iter_mut() {
                for t in [&mut c.desc, &mut c.title, &mut c.vendor] {
                    let n = t.chars().count();
                    *t = t.chars().take(n / 2).collect();
                }
            }
        }
    }
}

fn art_suite(job: &Job, log: &Log, what: Aspect, profiles: &[Profile], ns: &[usize], per_shard: usize, many: usize) -> Value {
    let mut r = Rng::new(job.seed, 1000 + job.shard);
    log.ev("Reset", json!({}));
    for k in 0..per_shard * job.scale {
        // each profile at least once
        let nth = k * job.shards as usize + job.shard as usize;
        let p = if nth < profiles.len() { profiles[nth] } else { pick_profile(&mut r, profiles) };
        let mut cat = gen(&mut r, p);
        let mut many = many;
        if let Some(c) = cat.first_mut().filter(|c| p == Profile::Wide && c.desc.len() > 4000) {
            // much to work out: a few corrections are enough
            if what == Aspect::Correct {
                many = 8;
            } else {
                c.desc = c.desc.chars().take(600).collect();
            }
        }
        let mut n = *r.pick(ns);
        n = match p {
            Profile::Flood => 1,
            Profile::Deep | Profile::Many | Profile::Wide | Profile::Letters => n.min(5),
            Profile::Uneven => n.min(3),
            _ => n,
        };
        if matches!(what, Aspect::Products | Aspect::RoundTrip | Aspect::File | Aspect::Cuts) && r.one_in(3) {
            catalog::add_features(&mut r, &mut cat);
        }
        if n == 8 && !matches!(p, Profile::Tiny | Profile::Classic) && what != Aspect::RoundTrip {
            cat.truncate(4);
        }
        if p == Profile::Large {
            n = n.min(3);
        }
        if matches!(what, Aspect::File | Aspect::Cuts) {
            cat.truncate(300);
        }
        if p == Profile::Tiny && r.one_in(if what == Aspect::Correct { 2 } else { 4 }) && matches!(what, Aspect::RoundTrip | Aspect::Posts | Aspect::Tree | Aspect::Correct | Aspect::Rank) {
            n = *r.pick(&[7, 9, 10, 12]);
            cat.truncate(4);
            if what == Aspect::Correct && n > 8 && r.one_in(2) {
                // long enough to go wrong in many places
                n = 12;
                for c in &mut cat {
                    c.title.clear();
                    c.vendor.clear();
                    c.desc = catalog::text(&mut r, p, 9, 16);
                }
            }
            many = many.min(12);
        }
        affordable(&mut cat, n, what);
        by_n(n, log, &mut r, &cat, p, what, many);
    }
    json!({"catalogues": per_shard * job.scale})
}

// ---------------------------------------------------------------------------

#[derive(Clone, Copy, Default)]
struct Mix {
    search: usize,
    toggles: usize,
    listen: usize,
    cursors: usize,
    suggest: usize,
    reload: usize,
    damaged: usize,
    orders: bool,
    filters: bool,
    read: bool,
    switched: bool,
    /// Some scenarios with hundreds of products, tags and options.
    large: bool,
    /// Products with further features.
    feats: bool,
    /// Judge corrections and ranking too.
    whole: bool,
}

fn filter(r: &mut Rng, cat: &[Rec], bad: bool) -> (String, Js) {
    use catalog::Feat;
    let keys: Vec<String> = cat.first().map_or_else(Vec::new, |c| c.feats.iter().map(|f| f.0.clone()).collect());
    let key = match r.below(8) {
        0 => "image_url".to_string(),
        1 if r.one_in(3) => crate::dict::word(r).unwrap_or_default(),
        1 => (*r.pick(&["nope", "", "Price", "stock", "prices", " price", "price ", "PRICE", "image_url ", "\tstock"])).to_string(),
        2..=4 if !keys.is_empty() => r.pick(&keys).clone(),
        _ => "price".to_string(),
    };
    let kept = |c: u32| f64::from(catalog::as_kept(c));
    let number = |r: &mut Rng| -> f64 {
        let near = match r.below(9) {
            0 => 0.0,
            1 => (r.below(3000) as f64 - 100.0) / 4.0,
            2 => *r.pick(&[crate::session::BIG, -crate::session::BIG]),
            3 if !cat.is_empty() => kept(cat.iter().map(|c| c.price).max().unwrap()),
            4 => crate::dict::number(r, 0, 1_000_000).map_or(0.5, |n| n as f64),
            _ if cat.is_empty() => 0.25,
            _ => {
                // one of the dearest, as often as not
                let c = if r.one_in(2) { cat.iter().filter(|c| c.price > 100_000_000).nth(r.below(4)).unwrap_or(&cat[0]) } else { r.pick(cat) };
                match c.feats.iter().find(|f| f.0 == key) {
                    Some((_, Feat::Int(n))) => f64::from(*n),
                    Some((_, Feat::Float(q))) => kept(*q),
                    _ => kept(c.price),
                }
            }
        };
        // at the value, some way beside it, or as little as can be said
        let least = if near < 4e6 { 1.0 / (1u64 << 30) as f64 } else { 1.0 / 1024.0 };
        let by = match r.below(8) {
            0 => 0.25,
            1 => -0.25,
            2 | 3 => least,
            4 | 5 => -least,
            _ => 0.0,
        };
        if near.abs() >= crate::session::BIG { near } else { near + by }
    };
    let v = if bad {
        match r.below(5) {
            0 => Js::Num(5.0),
            1 => Js::Str("12".into()),
            2 => Js::Null,
            3 => Js::Undef,
            _ => Js::Bool(true),
        }
    } else {
        let field = |k: &str, v: Js| (k.to_string(), v);
        match r.below(18) {
            13 | 14 => Js::Obj(vec![field("from", Js::Num(number(r)))]),
            15 | 16 => Js::Obj(vec![field("to", Js::Num(number(r)))]),
            17 => {
                // numbers spelled out are no numbers
                let spelled = |r: &mut Rng| -> Js {
                    let n = number(r);
                    Js::Str(match r.below(6) {
                        0 => format!(" {n} "),
                        1 => "1000000000".into(),
                        2 => "-1".into(),
                        3 => "0".into(),
                        _ => format!("{n}"),
                    })
                };
                match r.below(5) {
                    0 => Js::Obj(vec![field("from", spelled(r))]),
                    1 => Js::Obj(vec![field("to", spelled(r))]),
                    2 => Js::Obj(vec![field("from", spelled(r)), field("to", spelled(r))]),
                    3 => Js::Obj(vec![field("from", Js::Num(number(r))), field("to", spelled(r))]),
                    _ => Js::Obj(vec![field("from", spelled(r)), field("to", Js::Num(number(r)))]),
                }
            }
            0 | 1 => {
                let (a, b) = (number(r), number(r));
                let (a, b) = if r.one_in(4) { (a, b) } else { (a.min(b), a.max(b)) };
                Js::Obj(vec![field("from", Js::Num(a)), field("to", Js::Num(b))])
            }
            2 => {
                let a = number(r);
                Js::Obj(vec![field("to", Js::Num(a)), field("from", Js::Num(a))])
            }
            3 => Js::Obj(vec![field("from", Js::Num(number(r)))]),
            4 => Js::Obj(vec![field("to", Js::Num(number(r)))]),
            5 => Js::Obj(vec![]),
            6 => Js::Obj(vec![field("from", r.pick(&[Js::Null, Js::Undef, Js::Str("2".into())]).clone()), field("to", Js::Num(number(r)))]),
            7 => Js::Obj(vec![field("from", Js::Str("1".into())), field("to", Js::Bool(true))]),
            8 => {
                let u = cat.iter().flat_map(|c| c.images.first()).filter(|u| !u.is_empty()).nth(r.below(4)).cloned().unwrap_or_else(|| "zzz".into());
                return ("image_url".into(), Js::Obj(vec![field("exact", Js::Str(u))]));
            }
            9 => Js::Obj(vec![field("from", Js::Undef), field("exact", Js::Num(number(r)))]),
            10 if r.one_in(3) => Js::Obj(vec![field("exact", Js::Str(crate::dict::word(r).unwrap_or_default() + "!"))]),
            10 => Js::Obj(vec![field("exact", r.pick(&[Js::Null, Js::Bool(false), Js::Str("1.0".into())]).clone())]),
            11 => {
                let texts: Vec<&String> = cat.iter().flat_map(|c| &c.feats).filter(|f| f.0 == key).filter_map(|f| if let Feat::Text(s) = &f.1 { Some(s) } else { None }).collect();
                let t = if texts.is_empty() { "x".to_string() } else { (*r.pick(&texts)).clone() };
                // an image address of no characters and no image look the same
                let t = if key == "image_url" && t.is_empty() { "x".to_string() } else { t };
                Js::Obj(vec![field("exact", Js::Str(t))])
            }
            _ => Js::Obj(vec![field("exact", Js::Num(number(r)))]),
        }
    };
    (key, v)
}

fn filters(r: &mut Rng, cat: &[Rec]) -> Vec<(String, Js)> {
    let mut out: Vec<(String, Js)> = Vec::new();
    if r.one_in(8) {
        // many, of which one or two matter, wherever they stand
        let n = crate::dict::range(r, 2, 9, 70);
        for k in 0..n {
            out.push((format!("k{k}"), r.pick(&[Js::Obj(vec![]), Js::Obj(vec![("from".into(), Js::Undef)])]).clone()));
        }
        for _ in 0..r.range(1, 3) {
            let bad = r.one_in(20);
            let f = filter(r, cat, bad);
            if !out.iter().any(|(k, _)| *k == f.0) {
                let at = if r.one_in(2) { out.len() } else { r.below(out.len() + 1) };
                out.insert(at, f);
            }
        }
        return out;
    }
    for _ in 0..r.range(1, 3) {
        let bad = r.one_in(14);
        let f = filter(r, cat, bad);
        if !out.iter().any(|(k, _)| *k == f.0) {
            out.push(f);
        }
        if !r.one_in(3) {
            break;
        }
    }
    out
}

fn suggestion_query(r: &mut Rng, tags: &[String]) -> String {
    let n = match r.below(8) {
        0 => r.range(4, 12),
        1 if r.one_in(3) => r.range(20, 40),
        _ => r.range(0, 3),
    };
    let mut ws: Vec<String> = Vec::new();
    for _ in 0..n {
        if tags.is_empty() || r.one_in(6) || (n > 3 && !r.one_in(n)) {
            ws.push(catalog::text(r, Profile::Tiny, 0, 6));
            continue;
        }
        let mut w: Vec<char> = r.pick(tags).chars().filter(|c| *c != ' ').collect();
        match r.below(6) {
            0 if w.len() > 1 => {
                w.pop();
            }
            1 => w.push('x'),
            2 if !w.is_empty() => {
                let i = r.below(w.len());
                w[i] = 'æ';
            }
            3 if w.len() > 3 => w.truncate(3),
            _ => {}
        }
        ws.push(w.into_iter().collect());
    }
    let mut q = ws.join(if r.one_in(8) { *r.pick(&["  ", "\t", "\n", "\u{a0}", ",", " , ", "-"]) } else { " " });
    if r.one_in(8) {
        q.insert(0, ' ');
    }
    if r.one_in(12) {
        q.push_str(&crate::dict::word(r).unwrap_or_default());
    }
    q
}

/// Catalogues that give searches something to find and switches something to do.
fn session_catalog(r: &mut Rng) -> (Vec<Rec>, Profile) {
    let p = *r.pick(&[Profile::Words, Profile::Words, Profile::Tiny, Profile::Weird, Profile::Case]);
    let s = match p {
        Profile::Case => Shape { products: (5, 9), text: (4, 9) },
        Profile::Words => Shape { products: (5, 9), text: (1, 6) },
        Profile::Tiny => Shape { products: (5, 9), text: (3, 9) },
        _ => Shape { products: (4, 7), text: (2, 7) },
    };
    (generate(r, p, s), p)
}

/// A catalogue of the same shape that says other things.
fn sibling(r: &mut Rng, cat: &[Rec]) -> Vec<Rec> {
    let mut out = cat.to_vec();
    if out.is_empty() {
        return out;
    }
    let other = |s: &str| format!("{s}~");
    match r.below(5) {
        // the same products in another order
        0 => out.reverse(),
        // a letter here or there, in one place of every record or of one
        3 | 4 => {
            let what = r.below(8);
            let only = if r.one_in(2) { Some(r.below(cat.len().max(1))) } else { None };
            let turn = |s: &str| -> String {
                let mut v: Vec<char> = s.chars().collect();
                if let Some(c) = v.iter_mut().rev().find(|c| c.is_ascii_alphanumeric()) {
                    *c = match *c {
                        '9' => '1',
                        '0'..='8' => char::from(*c as u8 + 1),
                        'z' => 'y',
                        'Z' => 'Y',
                        x => char::from(x as u8 + 1),
                    };
                }
                v.into_iter().collect()
            };
            for (k, c) in out.iter_mut().enumerate() {
                if only.map_or(true, |o| o == k) {
                    match what {
                        0 => c.id = turn(&c.id),
                        1 => c.images = c.images.iter().map(|u| turn(u)).collect(),
                        2 => c.tags = c.tags.iter().map(|u| turn(u)).collect(),
                        3 => c.desc = turn(&c.desc),
                        4 => c.title = turn(&c.title),
                        5 => c.vendor = turn(&c.vendor),
                        6 => c.price += 8,
                        _ => c.opts = c.opts.iter().map(|(n, vs)| (n.clone(), vs.iter().map(|v| turn(v)).collect())).collect(),
                    }
                }
            }
            for k in 0..out.len() {
                if out[..k].iter().any(|o| o.id == out[k].id) {
                    out = cat.to_vec();
                    break;
                }
            }
        }
        1 => {
            for c in &mut out {
                c.tags = c.tags.iter().map(|t| other(t)).collect();
                for (n, vs) in &mut c.opts {
                    *n = other(n);
                    *vs = vs.iter().map(|v| other(v)).collect();
                }
                c.title = other(&c.title);
                c.images = c.images.iter().map(|u| other(u)).collect();
            }
        }
        _ => {
            for c in &mut out {
                c.price += 8;
                c.desc = other(&c.desc);
            }
            out.rotate_left(1);
            let n = out.len();
            for k in 0..n {
                // ids stay where they were
                out[k].id.clone_from(&cat[k].id);
            }
        }
    }
    // further features are of the first so many products
    for c in &mut out {
        c.feats.clear();
    }
    out
}

/// Hundreds of products, tags and options; a query for two words finds everything.
fn large_catalog(r: &mut Rng, huge: bool) -> Vec<Rec> {
    let n = *r.pick(&[70usize, 140, 270, 270]);
    let n = if huge { 1040 } else { n };
    let mut cat = generate(r, Profile::Large, Shape { products: (n, n + 5), text: (1, 3) });
    // one category of many options followed by others
    let (first, second, third) = (*r.pick(&[22usize, 70, 140, 300]), r.range(2, 40), r.range(1, 3));
    for (k, c) in cat.iter_mut().enumerate() {
        c.desc = format!("{} {}", if k % 2 == 0 { "kunstplakat" } else { "fotografi" }, c.desc);
        c.opts = vec![
            ("Size".into(), vec![format!("s{}", k % first), format!("s{}", (k * 7 + 1) % first)]),
            ("Color".into(), vec![format!("s{}", k % second)]),
            ("Frame".into(), vec![format!("f{}", k % third)]),
        ];
        if r.one_in(3) {
            c.opts.remove(0);
        }
    }
    // the remaining options of the first category
    if let Some(c) = cat.first_mut() {
        c.opts = vec![("Size".into(), (0..first).map(|k| format!("s{k}")).collect()), ("Color".into(), (0..second).map(|k| format!("s{k}")).collect())];
        if r.one_in(2) {
            c.tags = (0..300).map(|k| format!("t{k}")).collect();
        }
    }
    if r.one_in(3) {
        // very many categories
        let many = *r.pick(&[40usize, 70, 140, 270]);
        for (k, c) in cat.iter_mut().enumerate() {
            c.opts.insert(r.below(c.opts.len() + 1), (format!("c{}", k % many), vec![format!("s{}", k % 4)]));
        }
        if let Some(c) = cat.last_mut() {
            c.opts.extend((0..many).map(|k| (format!("c{k}"), vec!["s0".to_string()])));
        }
    }
    cat
}

/// Tags for suggestions: similar, short, long, in several scripts.
fn suggest_tags(r: &mut Rng, cat: &mut [Rec]) {
    let pool = [
        "plakat", "plakater", "plaket", "kunst", "kunstner", "Blå", "Rød", "Grøn", "blåbær", "æøå", "ab", "abc", "abcd", "abcde", "abcdf", "abcdefghij", "abcdefghix",
        "日本語", "日本", "fire\tfem", "halv-tom", "komma,komma", "Ærø", "👽👽👽", "to ord", "", "x", "Københavns plakater",
    ];
    for c in cat.iter_mut() {
        let n = r.below(4);
        c.tags = (0..n).map(|_| r.pick(&pool).to_string()).collect();
    }
    if let (Some(c), true) = (cat.last_mut(), r.one_in(8)) {
        // long ones, hardly different
        let n = *r.pick(&[20usize, 64, 70, 130]);
        let same: String = (0..n).map(|k| char::from(b'a' + (k * 7 % 26) as u8)).collect();
        c.tags.extend([format!("{same}x"), format!("{same}y"), format!("x{same}")]);
    }
    if let (Some(c), true) = (cat.last_mut(), r.one_in(12)) {
        // very many
        c.tags.extend((0..*r.pick(&[30usize, 140, 300])).map(|k| format!("mærke{k}")));
    }
}

/// Products that have very many tags and options in common.
fn piled(r: &mut Rng, cat: &mut [Rec]) {
    let n = crate::dict::range(r, 5, 20, 80);
    let tags: Vec<String> = (0..n).map(|k| format!("pile{k}")).collect();
    let opts: Vec<(String, Vec<String>)> = if r.one_in(2) {
        vec![("Heap".into(), (0..n).map(|k| format!("h{k}")).collect())]
    } else {
        (0..n).map(|k| (format!("Heap{k}"), vec!["y".to_string(), format!("h{k}")])).collect()
    };
    for c in cat.iter_mut() {
        c.tags = tags.clone();
        c.opts = opts.clone();
        match r.below(4) {
            0 => {
                c.tags.remove(r.below(n));
            }
            1 if opts.len() > 1 => {
                c.opts.remove(r.below(n));
            }
            1 => {
                c.opts[0].1.remove(r.below(n));
            }
            _ => {}
        }
    }
}

fn session(job: &Job, log: &Log, mix: Mix, per_shard: usize, ops: usize) -> Value {
    let mut r = Rng::new(job.seed, 2000 + job.shard);
    let mut s = Session::new(log);
    s.given = !mix.whole;
    s.given_suggest = !mix.whole && mix.reload == 0;
    let mut scenarios = 0;
    // nothing loaded yet
    if mix.reload > 0 {
        s.new_handler("early1", "tags");
        s.new_handler("early2", "cats");
        s.orders();
        s.suggest("plakat", None);
        let (cat, _) = session_catalog(&mut r);
        s.search_unloaded(&cat, "plakat");
        if let Some(bytes) = guarded(log, "build", || save(&build::<5>(&cat))) {
            s.load_damaged(&bytes[..bytes.len() / 2]);
            s.load_damaged(&[]);
        }
        s.new_handler("early3", "tags");
        s.orders();
        s.suggest("plakat", None);
    }
    for k in 0..per_shard * job.scale {
        scenarios += 1;
        s.scenario();
        // one scenario of a thousand products
        let huge = mix.large && k == 0 && job.shard == 3;
        let big = huge || (mix.large && k % 7 == 0 && (job.shard < 3 || k > 0));
        if mix.reload > 0 && !s.cur.is_empty() {
            // what an earlier scenario loaded still answers
            s.orders();
            s.suggest("plakat kunst", None);
        }
        let (mut cat, p) = if big {
            if mix.whole { (gen(&mut r, Profile::Many), Profile::Many) } else { (large_catalog(&mut r, huge), Profile::Large) }
        } else { session_catalog(&mut r) };
        if !big && mix.suggest > 0 && (r.one_in(2) || mix.search == 0) {
            suggest_tags(&mut r, &mut cat);
        }
        // every product has one of two words
        let mut worded = !big && mix.search > 0 && r.one_in(2);
        if worded {
            for (k, c) in cat.iter_mut().enumerate() {
                c.desc = format!("{} {}", if k % 2 == 0 { "kunstplakat" } else { "fotografi" }, c.desc);
            }
        }
        let heap = !big && mix.switched && r.one_in(4);
        if heap {
            piled(&mut r, &mut cat);
        }
        if mix.feats && r.one_in(2) {
            catalog::add_features(&mut r, &mut cat);
        }
        let a = s.name("a");
        if !s.build(&a, cat) {
            break;
        }
        s.load(&a);
        let mut current = a.clone();
        let mut profile = p;
        let mut older: Vec<String> = Vec::new();
        let mut hs: Vec<String> = Vec::new();
        let fresh_handlers = |s: &mut Session, hs: &mut Vec<String>| {
            for kind in ["cats", "tags"] {
                let h = s.name(kind);
                s.new_handler(&h, kind);
                hs.push(h);
            }
        };
        fresh_handlers(&mut s, &mut hs);
        let mut open: Vec<String> = Vec::new();
        let mut first = true;
        for _ in 0..(if huge { 6 } else if big { ops / 3 + 4 } else { ops }) {
            if s.dead {
                break;
            }
            let total = mix.search + mix.toggles + mix.listen + mix.cursors + mix.suggest + mix.reload + mix.damaged;
            let mut x = r.below(total);
            let mut is = |w: usize| -> bool {
                if x < w {
                    x = usize::MAX;
                    true
                } else {
                    if x != usize::MAX {
                        x -= w;
                    }
                    false
                }
            };
            if (first && huge && mix.search > 0) || is(mix.search) {
                first = false;
                let cat = s.arts[&current].cat.clone();
                let max = if mix.whole && r.one_in(12) { r.range(60, 130) } else if r.one_in(5) { 20 } else { 9 };
                let q = match (profile, r.below(4)) {
                    (Profile::Large, 1..=3) => "kunstplakat fotografi".to_string(),
                    _ if worded && r.one_in(2) => (*r.pick(&["kunstplakat", "fotografi", "kunstplakat fotografi", "Fotografi", "fotograi kunst"])).to_string(),
                    _ if mix.whole || r.one_in(6) => query(&mut r, &cat, profile, max),
                    _ => {
                        // of several queries one that finds much
                        let tries: Vec<String> = (0..8).map(|_| query(&mut r, &cat, profile, max)).collect();
                        let twin = &s.arts[&current].twin;
                        let found = |q: &String| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| art::found(twin, q).len())).unwrap_or(0);
                        tries.into_iter().max_by_key(found).unwrap_or_default()
                    }
                };
                let mine: Vec<String> = hs.iter().filter(|h| s.handlers.get(*h).map_or(false, |x| x.art == current)).cloned().collect();
                let hc = mine.iter().filter(|h| h.starts_with("cats")).nth(r.below(mine.len() / 2)).cloned();
                let ht = mine.iter().filter(|h| h.starts_with("tags")).nth(r.below(mine.len() / 2)).cloned();
                let (Some(hc), Some(ht)) = (hc, ht) else { continue };
                if heap && r.one_in(2) {
                    // all that are shared, but some, in any order
                    let h = if r.one_in(2) { &hc } else { &ht };
                    let mut items = s.items(h);
                    for k in (1..items.len()).rev() {
                        items.swap(k, r.below(k + 1));
                    }
                    let on = if r.one_in(2) { items.len() } else { r.below(items.len() + 1) };
                    for it in items.iter().take(on) {
                        s.toggle(h, it);
                    }
                } else if mix.switched && r.one_in(2) {
                    // one switch of each kind, so that a combination is common
                    for h in [&hc, &ht] {
                        let items = s.items(h);
                        if !items.is_empty() && r.one_in(2) {
                            let it = r.pick(&items).clone();
                            s.toggle(h, &it);
                        }
                    }
                }
                let order = if mix.orders && !r.one_in(4) {
                    if r.one_in(4) {
                        let known = *r.pick(&["Alphabetical", "Price low to high", "Price high to low"]);
                        Some(match r.below(10) {
                            0 => format!("{known} "),
                            1 => format!(" {known}"),
                            2 => known.to_lowercase(),
                            3 => known.to_uppercase(),
                            4 => known[..known.len() - 1].to_string(),
                            5 => known.replace(' ', ""),
                            6 => String::new(),
                            7 => crate::dict::word(&mut r).unwrap_or_default(),
                            _ => (*r.pick(&["price", "Title", "Newest", "Price", "undefined", "0"])).to_string(),
                        })
                        .filter(|o| !["Alphabetical", "Price low to high", "Price high to low"].contains(&o.as_str()))
                    } else {
                        Some((*r.pick(&["Alphabetical", "Price low to high", "Price high to low"])).to_string())
                    }
                } else {
                    None
                };
                let fs = if mix.filters && !r.one_in(5) { filters(&mut r, &cat) } else { vec![] };
                let c = s.name("c");
                if s.search(&c, &q, &hc, &ht, order.as_deref(), &fs) {
                    if mix.cursors > 0 && r.one_in(2) {
                        open.push(c);
                    } else {
                        s.drain(&c, mix.read);
                    }
                }
            } else if is(mix.toggles) {
                let h = r.pick(&hs).clone();
                let items = s.items(&h);
                if !items.is_empty() {
                    let it = r.pick(&items).clone();
                    s.toggle(&h, &it);
                    if r.one_in(2) {
                        // this and every other switch, in every handler
                        for h in &hs {
                            for it in s.items(h) {
                                s.status(h, &it);
                            }
                        }
                    }
                }
            } else if is(mix.listen) {
                let h = r.pick(&hs).clone();
                let items = s.items(&h);
                let o = r.range(1, 4) as i64;
                if r.one_in(if items.len() > 40 { 4 } else { 25 }) && !items.is_empty() {
                    // one for every item there is
                    for it in &items {
                        s.listen(&h, it, o, true);
                    }
                    for k in [0, items.len() - 1, r.below(items.len()), r.below(items.len())] {
                        s.toggle(&h, &items[k]);
                    }
                    continue;
                }
                if r.one_in(14) && !items.is_empty() {
                    // many at once, some of them taken back
                    let it = r.pick(&items).clone();
                    let many = *r.pick(&[5usize, 9, 17, 33, 40]);
                    let few = *r.pick(&[1i64, 3, 40]);
                    let general = r.one_in(3);
                    for _ in 0..many {
                        let o = r.range(1, few as usize) as i64;
                        if general {
                            s.listen_all(&h, o);
                        } else {
                            s.listen(&h, &it, o, true);
                        }
                    }
                    s.toggle(&h, &it);
                    for _ in 0..r.below(many) {
                        s.listen(&h, &it, r.range(1, few as usize) as i64, false);
                    }
                    s.toggle(&h, &it);
                    continue;
                }
                match r.below(7) {
                    0 | 1 => s.listen_all(&h, o),
                    2..=4 if !items.is_empty() => {
                        let it = r.pick(&items).clone();
                        s.listen(&h, &it, o, true);
                        if r.one_in(3) {
                            s.listen(&h, &it, r.range(1, 4) as i64, true);
                        }
                    }
                    _ if !s.regs.is_empty() && !r.one_in(4) => {
                        // one of the registrations there are, then the switch it was for
                        let (h, it, o) = r.pick(&s.regs).clone();
                        if r.one_in(3) {
                            s.listen(&h, &it, o, true);
                        }
                        s.listen(&h, &it, o, false);
                        s.toggle(&h, &it);
                    }
                    _ if !items.is_empty() => {
                        let it = r.pick(&items).clone();
                        s.listen(&h, &it, o, false);
                        s.toggle(&h, &it);
                    }
                    _ => {}
                }
                if r.one_in(5) && hs.len() < 6 {
                    fresh_handlers(&mut s, &mut hs);
                }
            } else if is(mix.cursors) {
                if open.is_empty() || (r.one_in(6) && open.len() < 6) {
                    let h = r.pick(&hs).clone();
                    let c = s.name("c");
                    s.open(&c, &h);
                    open.push(c);
                } else {
                    let c = r.pick(&open).clone();
                    let before: Vec<String> = s.cursors.keys().cloned().collect();
                    s.step(&c, mix.read);
                    for k in s.cursors.keys() {
                        if !before.contains(k) {
                            open.push(k.clone());
                        }
                    }
                    if r.one_in(10) {
                        for _ in 0..12 {
                            s.step(&c, mix.read);
                        }
                    }
                }
            } else if is(mix.suggest) {
                let tags = s.arts[&current].tags.clone();
                let q = suggestion_query(&mut r, &tags);
                let h = hs.iter().filter(|h| h.starts_with("tags")).last().cloned();
                let into = if mix.toggles > 0 && r.one_in(3) { h } else { None };
                s.suggest(&q, into.as_deref());
            } else if is(mix.damaged) {
                let mut b = s.arts[&current].bytes.clone();
                if r.one_in(2) {
                    // of another index than the one that is loaded
                    let cat = if r.one_in(3) { session_catalog(&mut r).0 } else { sibling(&mut r, &s.arts[&current].cat) };
                    if let Some(x) = guarded(log, "build", || save(&build::<5>(&cat))) {
                        b = x;
                    }
                }
                let cut = match r.below(5) {
                    // among what comes last
                    3 | 4 => b.len() - 1 - r.below((b.len() / 3).max(1)),
                    0 => b.len() - 1 - r.below(b.len().min(30)),
                    1 => r.below(b.len().min(30)),
                    _ => r.below(b.len()),
                };
                s.load_damaged(&b[..cut]);
                if r.one_in(2) {
                    s.look_back();
                }
            } else if is(mix.reload) {
                if !older.is_empty() && r.one_in(3) {
                    let b = r.pick(&older).clone();
                    older.push(current.clone());
                    current = b;
                } else {
                    let (mut cat, p) = if r.one_in(2) { session_catalog(&mut r) } else { (sibling(&mut r, &s.arts[&current].cat), profile) };
                    if r.one_in(3) {
                        suggest_tags(&mut r, &mut cat);
                    }
                    worded = !cat.is_empty() && cat.iter().all(|c| c.desc.starts_with("kunst") || c.desc.starts_with("foto"));
                    let a = s.name("a");
                    if !s.build(&a, cat) {
                        break;
                    }
                    profile = p;
                    older.push(current.clone());
                    current = a;
                }
                s.load(&current.clone());
                s.look_back();
                s.orders();
                // what was asked of the one before
                for q in s.asked.iter().rev().take(2).cloned().collect::<Vec<_>>() {
                    s.suggest(&q, None);
                }
                fresh_handlers(&mut s, &mut hs);
            }
        }
        if s.dead {
            break;
        }
        for c in open {
            s.drain(&c, mix.read);
        }
    }
    json!({"scenarios": scenarios, "products_found": s.found, "nonempty_results": s.nonempty})
}

fn parse_text(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()
}
fn parse_rec(v: &Value) -> Rec {
    let texts = |v: &Value| -> Vec<String> { v.as_array().unwrap().iter().map(parse_text).collect() };
    Rec {
        desc: parse_text(&v["desc"]),
        title: parse_text(&v["title"]),
        vendor: parse_text(&v["vendor"]),
        id: parse_text(&v["id"]),
        tags: texts(&v["tags"]),
        opts: v["opts"].as_array().unwrap().iter().map(|o| (parse_text(&o["name"]), texts(&o["values"]))).collect(),
        price: v["price"].as_u64().unwrap() as u32,
        images: texts(&v["images"]),
        feats: v["feats"].as_array().map_or_else(Vec::new, |fs| {
            fs.iter()
                .map(|f| {
                    let n = |k: usize| f["v"][k].as_u64().unwrap() as u32;
                    let v = match f["v"][0].as_str().unwrap() {
                        "i" => catalog::Feat::Int(n(1) << 16 | n(2)),
                        "f" => catalog::Feat::Float(n(1)),
                        _ => catalog::Feat::Text(parse_text(&f["v"][1])),
                    };
                    (f["k"].as_str().unwrap().to_string(), v)
                })
                .collect()
        }),
    }
}

/// Every catalogue the model checker visited, looked at under one aspect.
fn cases(job: &Job, log: &Log, what: Aspect) -> Value {
    let text = std::fs::read_to_string(&job.input).expect("cases");
    let mut r = Rng::new(job.seed, 9000 + job.shard);
    log.ev("Reset", json!({}));
    let mut count = 0;
    for (k, line) in text.lines().enumerate() {
        if k as u64 % job.shards != job.shard {
            continue;
        }
        let v: Value = serde_json::from_str(line).expect("case");
        let mut cat: Vec<Rec> = v["cat"].as_array().unwrap().iter().map(parse_rec).collect();
        for (i, c) in cat.iter_mut().enumerate() {
            // the library identifies products by their ids
            c.id = format!("{}{i}", c.id);
        }
        count += 1;
        by_n(v["n"].as_u64().unwrap() as usize, log, &mut r, &cat, Profile::Tiny, what, 0);
    }
    json!({"cases": count})
}

/// Every pair of tags and query the model checker visited.
fn suggest_cases(job: &Job, log: &Log) -> Value {
    let text = std::fs::read_to_string(&job.input).expect("cases");
    let mut by_tags: std::collections::BTreeMap<String, Vec<String>> = std::collections::BTreeMap::new();
    for line in text.lines() {
        let v: Value = serde_json::from_str(line).expect("case");
        by_tags.entry(v["tags"].to_string()).or_default().push(parse_text(&v["q"]));
    }
    let mut s = Session::new(log);
    s.given_suggest = false;
    let mut count = 0;
    for (k, (tags, queries)) in by_tags.iter().enumerate() {
        if k as u64 % job.shards != job.shard {
            continue;
        }
        let tags: Value = serde_json::from_str(tags).unwrap();
        let tags: Vec<String> = tags.as_array().unwrap().iter().map(parse_text).collect();
        s.scenario();
        let a = s.name("a");
        if !s.build(&a, vec![Rec { id: "1".into(), tags, ..Rec::default() }]) {
            break;
        }
        s.load(&a);
        for q in queries {
            if s.dead {
                return json!({"suggestions": count});
            }
            s.suggest(q, None);
            count += 1;
        }
    }
    json!({"suggestions": count})
}

/// Replays operation sequences written by the model checker.
fn scripts(job: &Job, log: &Log) -> Value {
    let text = std::fs::read_to_string(&job.input).expect("scripts");
    let mut lines = text.lines();
    let head: Value = serde_json::from_str(lines.next().expect("catalogues")).unwrap();
    let cats: Vec<(String, Vec<Rec>)> = head.as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_array().unwrap().iter().map(parse_rec).collect())).collect();
    let mut s = Session::new(log);
    let mut count = 0;
    for (a, cat) in &cats {
        if !s.build(a, cat.clone()) {
            return json!({"scripts": 0});
        }
    }
    for (k, line) in lines.enumerate() {
        if k as u64 % job.shards != job.shard {
            continue;
        }
        let ops: Value = serde_json::from_str(line).expect("script");
        count += 1;
        // the same index files throughout; handlers and cursors are new
        log.ev("Forget", json!({}));
        s.drop_all();
        for op in ops.as_array().unwrap() {
            if s.dead {
                return json!({"scripts": count});
            }
            let f = |k: &str| op[k].as_str().unwrap_or("").to_string();
            let item: Vec<usize> = match &op["item"] {
                // the model numbers tags by name, the file decides their order
                Value::Array(v) => v.iter().map(|x| x.as_u64().unwrap() as usize - 1).collect(),
                _ => vec![],
            };
            match f("op").as_str() {
                "load" => s.load(&f("a")),
                "damaged" => {
                    let b = s.arts[&f("a")].bytes.clone();
                    let cut = op["cut"].as_u64().unwrap_or(1) as usize;
                    s.load_damaged(&b[..b.len().saturating_sub(cut)]);
                }
                "handler" => s.new_handler(&f("h"), &f("kind")),
                "toggle" => s.toggle(&f("h"), &item),
                "status" => s.status(&f("h"), &item),
                "listenall" => s.listen_all(&f("h"), op["o"].as_i64().unwrap()),
                "listen" => s.listen(&f("h"), &item, op["o"].as_i64().unwrap(), true),
                "unlisten" => s.listen(&f("h"), &item, op["o"].as_i64().unwrap(), false),
                "open" => s.open(&f("c"), &f("h")),
                "step" => {
                    // the cursor a category step opens gets the name the script gives it
                    let name = match f("new").as_str() {
                        "" | "none" => s.name("x"),
                        n => n.to_string(),
                    };
                    s.step_as(&f("c"), true, name);
                }
                "search" => {
                    let q = parse_text(&op["q"]);
                    let order = op["order"].as_array().and_then(|o| o.first()).and_then(|o| o.as_str()).map(str::to_string);
                    let fs: Vec<(String, Js)> = op["filters"]
                        .as_array()
                        .map_or_else(Vec::new, |fs| fs.iter().map(|f| (f["k"].as_str().unwrap().to_string(), Js::parse(&f["v"]))).collect());
                    s.search(&f("c"), &q, &f("hc"), &f("ht"), order.as_deref(), &fs);
                }
                "drain" => s.drain(&f("c"), true),
                "suggest" => s.suggest(&parse_text(&op["q"]), None),
                "orders" => s.orders(),
                other => panic!("script op {other}"),
            }
        }
        // where it ends: everything handed out, every switch, and every cursor to its end
        s.look_back();
        let hs: Vec<String> = s.handlers.keys().cloned().collect();
        for h in hs {
            for it in s.items(&h) {
                s.status(&h, &it);
            }
        }
        let cs: Vec<String> = s.cursors.keys().cloned().collect();
        for c in cs {
            s.drain(&c, true);
        }
    }
    json!({"scripts": count, "products_found": s.found})
}

// ---------------------------------------------------------------------------

fn shorten(job: &Job, log: &Log) -> Value {
    let mut r = Rng::new(job.seed, 3000 + job.shard);
    log.ev("Reset", json!({}));
    let mut rs: Vec<Value> = Vec::new();
    let mut n = 0;
    let mut one = |s: &str, limit: usize, rs: &mut Vec<Value>| -> bool {
        let mut out = Vec::new();
        if guarded(log, "serialize_string_with_limit", || serialize_string_with_limit(s, limit, &mut |b| out.push(b))).is_none() {
            return false;
        }
        // own reader: length, then that many bytes, nothing else
        let (mut len, mut shift, mut at) = (0usize, 0, 0);
        while at < out.len() && shift < 35 {
            len |= ((out[at] & 127) as usize) << shift;
            shift += 7;
            at += 1;
            if out[at - 1] < 128 {
                break;
            }
        }
        let back = if out.len() == at + len { std::str::from_utf8(&out[at..]).ok() } else { None };
        rs.push(json!([codes(s), limit, back.iter().map(|s| codes(s)).collect::<Vec<_>>()]));
        n += 1;
        if rs.len() >= 200 {
            log.ev("Short", json!({"rs": std::mem::take(rs)}));
        }
        true
    };
    let alphabet = ['a', ' ', 'ø', '👽', '\n'];
    let max_len = 5;
    let mut k = 0u64;
    'all: for len in 0..=max_len {
        for combo in itertools_like::product(alphabet.len(), len) {
            k += 1;
            if k % job.shards != job.shard {
                continue;
            }
            let s: String = combo.iter().map(|i| alphabet[*i]).collect();
            for limit in 0..=(s.len() + 1) {
                if !one(&s, limit, &mut rs) {
                    break 'all;
                }
            }
        }
    }
    for _ in 0..60 * job.scale {
        let limit = *r.pick(&[100usize, 100, 100, 12, 20, 127, 128, 0, 1]);
        let s = limit_text(&mut r, limit);
        if !one(&s, limit, &mut rs) {
            break;
        }
    }
    log.ev("Short", json!({"rs": rs}));
    // and as stored with products
    for _ in 0..6 * job.scale {
        let cat = gen(&mut r, Profile::Long);
        by_n(1, log, &mut r, &cat, Profile::Long, Aspect::Products, 0);
    }
    json!({"texts": n})
}

fn numid(job: &Job, log: &Log) -> Value {
    let mut r = Rng::new(job.seed, 4000 + job.shard);
    log.ev("Reset", json!({}));
    let mut n = 0;
    let mut ids: Vec<String> = Vec::new();
    let alphabet = ['0', '1', '9', 'a', '/', '٣', '-', ' '];
    let max_len = if job.scale > 1 { 5 } else { 4 };
    let mut k = 0u64;
    for len in 0..=max_len {
        for combo in itertools_like::product(alphabet.len(), len) {
            k += 1;
            if k % job.shards == job.shard {
                ids.push(combo.iter().map(|i| alphabet[*i]).collect());
            }
        }
    }
    for _ in 0..80 * job.scale {
        let digits = r.range(0, 19);
        let tail: String = (0..digits).map(|_| char::from(b'0' + r.below(10) as u8)).collect();
        let head = *r.pick(&["", "gid://shopify/Product/", "p", "12a", "x-", "00", "3٣", "👽"]);
        let tail = if digits + 2 > 19 && head.ends_with('0') { tail[..10.min(tail.len())].to_string() } else { tail };
        ids.push(format!("{head}{tail}"));
        // something after the number
        let end = *r.pick(&[" ", "\n", "\t", "\u{a0}", "/", ")", "-", "x", "\0", ".0", "²", "\u{feff}", "?v=1", "\r\n", "٣", "_", "\""]);
        ids.push(format!("{head}{tail}{end}"));
    }
    for big in ["18446744073709551615", "10000000000000000000", "9999999999999999999", "00000000000000000000000000012", "x18446744073709551615", "09223372036854775808"] {
        ids.push(big.to_string());
    }
    // of products just indexed, and of products loaded
    for chunk in ids.chunks(64) {
        let cat: Vec<Rec> = chunk.iter().map(|id| Rec { id: id.clone(), ..Rec::default() }).collect();
        let Some(built) = guarded(log, "build", || build::<1>(&cat)) else { break };
        let Some(Some(loaded)) = guarded(log, "load", || load::<1>(&save(&built))) else {
            log.ev("Panic", json!({"what": "a fresh index file does not load"}));
            break;
        };
        for x in [&built, &loaded] {
            for (p, id) in x.ix.product_container.products.iter().zip(chunk) {
                let Some(v) = guarded(log, "get_id", || p.get_id()) else { return json!({"ids": n}) };
                n += 1;
                log.ev("NumId", json!({"id": codes(id), "digits": codes(&v.to_string())}));
            }
        }
    }
    json!({"ids": n})
}

/// A catalogue, and texts: spellings of it, and what is malformed or lacks something.
fn spellings(r: &mut Rng) -> (Vec<Rec>, Vec<(String, bool)>) {
    let p = *r.pick(&[Profile::Words, Profile::Weird, Profile::Classic, Profile::Tiny]);
    let mut cat = gen(r, p);
    cat.truncate(6);
    // characters that JSON can only or also spell as escapes
    for c in &mut cat {
        for t in [&mut c.desc, &mut c.title, &mut c.vendor] {
            if r.one_in(3) {
                t.push(*r.pick(&['"', '\\', '/', '\n', '\t', '\u{1}', '\u{8}', 'é', '👽', '\u{2028}']));
            }
        }
        if r.one_in(4) {
            c.id.push_str(*r.pick(&["\"", "\\", "\u{7}", "/"]));
        }
        if r.one_in(4) {
            c.tags.push("2\" x 3\"".into());
        }
        if r.one_in(4) {
            c.opts.push(("Størrelse \"A\"".into(), vec!["a\\b".into(), "c".into()]));
        }
        if r.one_in(4) {
            c.images.insert(0, "https://x/\\\"/ø.png".into());
        }
    }
    let style = jsontext::style(r);
    let key = |r: &mut Rng, i: usize| match r.below(4) {
        0 => format!("gid://shopify/Product/{i}"),
        1 => format!("\"{i}\\"),
        _ => format!("k{i}"),
    };
    let full = Value::Object(cat.iter().enumerate().map(|(i, c)| (key(r, i), c.json())).collect());
    let mut texts: Vec<(String, bool)> = vec![(jsontext::spell(r, &style, &full), true)];
    {
        let s2 = jsontext::style(r);
        texts.push((jsontext::spell(r, &s2, &full), true));
    }
    let text = texts[0].0.clone();
    // malformed: cut, wrong ending, garbage after, missing comma
    let cut = text.trim_end().chars().count() - 1;
    let cut = r.below(cut.max(1));
    texts.push((text.chars().take(cut).collect(), false));
    texts.push((format!("{text}x"), false));
    texts.push((text.replacen('{', "[", 1), false));
    if r.one_in(2) {
        texts.push((String::new(), false));
    }
    if !cat.is_empty() {
        // a record lacking a required field, or with a field of the wrong kind
        for _ in 0..3 {
            let mut v = full.clone();
            let m = v.as_object_mut().unwrap();
            let k = m.keys().nth(r.below(cat.len())).unwrap().clone();
            let rec = m.get_mut(&k).unwrap().as_object_mut().unwrap();
            let field = *r.pick(&["description", "tags", "title", "vendor", "id", "options", "price", "media"]);
            match r.below(4) {
                0 => rec[field] = Value::Null,
                1 => rec[field] = json!(17),
                2 if field == "price" => {
                    rec["price"]["min"].as_object_mut().unwrap().remove("amount");
                }
                2 if field == "options" => rec["options"] = json!([{"name": "x"}]),
                2 if field == "media" => rec["media"] = json!([{"src": "x"}]),
                _ => {
                    rec.remove(field);
                }
            }
            let s = jsontext::style(r);
            let s = jsontext::Style { extras: false, ..s };
            texts.push((jsontext::spell(r, &s, &v), false));
        }
    }
    (cat, texts)
}

fn json_suite(job: &Job, log: &Log) -> Value {
    let mut r = Rng::new(job.seed, 5000 + job.shard);
    log.ev("Reset", json!({}));
    let (mut good_n, mut bad_n) = (0, 0);
    for _ in 0..14 * job.scale {
        let (cat, texts) = spellings(&mut r);
        for (text, good) in texts {
            let Some(out) = guarded(log, "index", || indexer_lib::index(&text)) else { return json!({}) };
            if good {
                good_n += 1;
            } else {
                bad_n += 1;
            }
            let recs = if good { catalog::catalog_event(&cat) } else { json!([]) };
            match out {
                None => log.ev("Json", json!({"recs": recs, "good": good, "ok": false, "a": "a", "cat": [], "tags": []})),
                Some(bytes) => {
                    let Some(Some(loaded)) = guarded(log, "deserialize_all", || load::<5>(&bytes)) else {
                        log.ev("Panic", json!({"what": "fresh index does not load"}));
                        return json!({});
                    };
                    // the records in the order they were indexed in
                    let c = loaded.ix.product_container;
                    let order: Vec<Value> = c
                        .products
                        .iter()
                        .map(|p| cat.iter().find(|r| r.id == p.id).map_or_else(|| json!({"unknown": codes(&p.id)}), Rec::event))
                        .collect();
                    log.ev("Json", json!({"recs": recs, "good": good, "ok": true, "a": "a", "cat": order, "tags": codes_list(&tag_names(&loaded.classic))}));
                    if good {
                        let lk = Looker { log, a: "a" };
                        lk.products(c, true);
                        lk.cats(&loaded.classic, c);
                        lk.tags(&loaded.classic, c);
                        lk.orders(&loaded.classic);
                    }
                }
            }
            log.ev("Scenario", json!({}));
        }
    }
    json!({"good": good_n, "bad": bad_n})
}

/// A JSON text given to the indexer, and everything in the index it made.
fn reading(log: &Log, text: &str) -> Option<&'static str> {
    let out = std::panic::catch_unwind(|| indexer_lib::index(text));
    let nothing: Vec<Value> = vec![];
    let (ok, seen) = match out {
        Err(_) => ("crash", None),
        Ok(None) => ("no", None),
        Ok(Some(bytes)) => {
            let Some(Some(l)) = guarded(log, "deserialize_all", || load::<5>(&bytes)) else {
                log.ev("Panic", json!({"what": "fresh index does not load"}));
                return None;
            };
            let c = l.ix.product_container;
            ("yes", Some((Looker::products_of(c), Looker::cats_of(&l.classic, c), codes_list(&tag_names(&l.classic)), Looker::tags_of(&l.classic, c), Looker::orders_of(&l.classic))))
        }
    };
    let (ps, cats, names, tags, orders) = seen.unwrap_or((nothing.clone(), nothing.clone(), json!([]), nothing.clone(), nothing));
    log.ev("Reading", json!({"text": codes(text), "ok": ok, "ps": ps, "cats": cats, "names": names, "tags": tags, "orders": orders}));
    Some(ok)
}

/// Catalogue texts with something wrong, or not, here and there: the specification reads them too.
fn readings(job: &Job, log: &Log) -> Value {
    let mut r = Rng::new(job.seed, 5500 + job.shard);
    log.ev("Reset", json!({}));
    let (mut yes, mut no) = (0, 0);
    const PIECES: &[&str] = &[
        "\"", "{", "}", "[", "]", ",", ":", "\\", "u", "0", "1", "-", ".", "e", "E", "+", "\\u00e6", "\\ud83d", "\\ud83d\\ude00", "\\\"", "\\n", "\\x", "\n", "\t", "\u{1}",
        "null", "true", "fals", "[]", "{}", "\"\"", " ", "\u{feff}", "\u{a0}", "ø", "👽", "//", "/**/", "'", "\"x\":", "\"tags\":[],", "\"id\":\"z\",", "1e5", "-0", "01", ",,", "NaN", "\n// x\n", "\n//", "//\n", "/* x */",
        "#x\n", "\n#", ";", "--", "0x1", "_", "(", "\u{2028}", "\n\n", "\n,", "\n}", "\r\n", "\\\n", "...", "<!-- -->", "$",
    ];
    for _ in 0..5 * job.scale {
        let (mut cat, texts) = spellings(&mut r);
        for (t, _) in texts.iter().filter(|t| t.0.chars().count() < 2500) {
            match reading(log, t) {
                None => return json!({}),
                Some("yes") => yes += 1,
                _ => no += 1,
            }
        }
        cat.truncate(2);
        for c in &mut cat {
            c.desc = c.desc.chars().take(60).collect();
        }
        let full = Value::Object(cat.iter().enumerate().map(|(i, c)| (format!("k{i}"), c.json())).collect());
        for _ in 0..8 {
            let style = jsontext::style(&mut r);
            let mut t: Vec<char> = jsontext::spell(&mut r, &style, &full).chars().collect();
            for _ in 0..r.range(1, 2) {
                if t.is_empty() {
                    break;
                }
                let mut i = if r.one_in(10) { 0 } else { r.below(t.len()) };
                if i > 0 && r.one_in(2) {
                    // at something that shapes the text
                    let at: Vec<usize> = (0..t.len()).filter(|k| "{}[]\",:\\".contains(t[*k])).collect();
                    i = *r.pick(&at);
                }
                match r.below(5) {
                    0 => {
                        t.remove(i);
                    }
                    1 => {
                        let c = t[i];
                        t.insert(i, c);
                    }
                    2 if i + 1 < t.len() => t.swap(i, i + 1),
                    3 => t[i] = r.pick(PIECES).chars().next().unwrap(),
                    _ => {
                        for c in r.pick(PIECES).chars().rev() {
                            t.insert(i, c);
                        }
                    }
                }
            }
            match reading(log, &t.into_iter().collect::<String>()) {
                None => return json!({}),
                Some("yes") => yes += 1,
                _ => no += 1,
            }
        }
        log.ev("Scenario", json!({}));
    }
    json!({"accepted": yes, "refused": no})
}

/// Every short text of a model, as the value of a field nobody asked for.
fn fillers(job: &Job, log: &Log) -> Value {
    log.ev("Reset", json!({}));
    let text = std::fs::read_to_string(&job.input).expect("texts");
    let rec = Rec { desc: "d".into(), title: "t".into(), vendor: "v".into(), id: "1".into(), ..Rec::default() }.json().to_string();
    let (mut ws, mut yes, mut n) = (Vec::new(), 0, 0);
    for (k, line) in text.lines().enumerate() {
        if k as u64 % job.shards != job.shard {
            continue;
        }
        let v: Value = serde_json::from_str(line).expect("line");
        let w = parse_text(&v);
        let whole = format!("{{\"k\":{},\"x\":{}}}}}", &rec[..rec.len() - 1], w);
        let Some(out) = guarded(log, "index", || indexer_lib::index(&whole)) else { return json!({}) };
        n += 1;
        yes += usize::from(out.is_some());
        ws.push(json!([v, out.is_some()]));
        if ws.len() == 100 {
            log.ev("Fillers", json!({"ws": ws}));
            ws.clear();
        }
    }
    log.ev("Fillers", json!({"ws": ws}));
    json!({"texts": n, "accepted": yes})
}

/// The indexing program over a history of catalogue files in one directory.
fn cli_random(job: &Job, log: &Log) -> Value {
    let mut r = Rng::new(job.seed, 9000 + job.shard);
    let mut runs = 0;
    for k in 0..5 * job.scale {
        log.ev("Reset", json!({}));
        let mut place = Place::new(log, k as u64);
        for _ in 0..2 {
            let (cat, mut texts) = spellings(&mut r);
            r.shuffle(&mut texts);
            for (text, good) in texts {
                match r.below(12) {
                    0 => place.clear(),
                    1 => place.block(),
                    2 => {
                        let len = r.below(9000);
                        place.litter(len);
                    }
                    _ => {}
                }
                let age = *r.pick(&[0, 0, 5, 100_000]);
                // a large file that says no more
                let text = if r.one_in(6) { text + &" ".repeat(*r.pick(&[70_000usize, 1_100_000, 1_100_000, 4_200_000, 17_000_000])) } else { text };
                place.put(&Input::Text(&text), age);
                if !place.run(if good { Some(&cat) } else { None }) {
                    return json!({"runs": place.runs});
                }
                if good && r.one_in(2) {
                    // hardly anything changed
                    let next = sibling(&mut r, &cat);
                    let keys = Value::Object(next.iter().enumerate().map(|(i, c)| (format!("k{i}"), c.json())).collect());
                    let style = jsontext::style(&mut r);
                    place.put(&Input::Text(&jsontext::spell(&mut r, &style, &keys)), age);
                    if !place.run(Some(&next)) {
                        return json!({"runs": place.runs});
                    }
                }
                if r.one_in(4) {
                    match r.below(3) {
                        0 => place.put(&Input::Missing, 0),
                        1 => place.put(&Input::Bytes(vec![0xff, 0xfe, b'{', b'}']), 0),
                        _ => {
                            // not Unicode: a stray byte inside a text of an otherwise good catalogue
                            let plain = json!({"k": cat.first().map(Rec::json)}).to_string();
                            let at = plain.find("\"title\":\"").map_or(0, |i| i + 9);
                            let mut b = plain.into_bytes();
                            b.insert(at, *r.pick(&[0xff, 0xc3, 0x80]));
                            place.put(&Input::Bytes(b), 0);
                        }
                    }
                    place.run(None);
                }
            }
        }
        runs += place.runs;
    }
    json!({"program_runs": runs})
}

/// ... through every history a model allows.
fn cli_scripts(job: &Job, log: &Log) -> Value {
    let mut r = Rng::new(job.seed, 9500 + job.shard);
    let text = std::fs::read_to_string(&job.input).expect("scripts");
    let mut lines = text.lines();
    let head: Value = serde_json::from_str(lines.next().expect("catalogues")).unwrap();
    let (mut count, mut runs) = (0, 0);
    for (k, line) in lines.enumerate() {
        if k as u64 % job.shards != job.shard {
            continue;
        }
        let ops: Value = serde_json::from_str(line).expect("script");
        log.ev("Reset", json!({}));
        let mut place = Place::new(log, k as u64);
        let mut cat: Option<Vec<Rec>> = None;
        for op in ops.as_array().unwrap() {
            match op["op"].as_str().unwrap() {
                "put" => {
                    let i = op["i"].as_str().unwrap();
                    cat = head.get(i).map(|v| v.as_array().unwrap().iter().map(parse_rec).collect());
                    let map = |cat: &[Rec]| Value::Object(cat.iter().enumerate().map(|(i, c)| (format!("k{i}"), c.json())).collect());
                    let style = jsontext::style(&mut r);
                    match (i, &cat) {
                        (_, Some(cat)) => place.put(&Input::Text(&jsontext::spell(&mut r, &style, &map(cat))), if k % 3 == 0 { 3600 } else { 0 }),
                        ("missing", _) => place.put(&Input::Missing, 0),
                        ("bad", _) => place.put(&Input::Text(r#"{"k0": {"description": "x","#), 0),
                        _ => {
                            let mut v = map(&head["A"].as_array().unwrap().iter().map(parse_rec).collect::<Vec<_>>());
                            v["k0"].as_object_mut().unwrap().remove("vendor");
                            place.put(&Input::Text(&jsontext::spell(&mut r, &jsontext::Style { extras: false, ..style }, &v)), 0);
                        }
                    }
                }
                "run" => {
                    if !place.run(cat.as_deref()) {
                        return json!({"scripts": count});
                    }
                }
                "clear" => place.clear(),
                "litter" => place.litter(100),
                "block" => place.block(),
                other => panic!("script op {other}"),
            }
        }
        count += 1;
        runs += place.runs;
    }
    json!({"scripts": count, "program_runs": runs})
}

fn codec(job: &Job, log: &Log, wire: bool) -> Value {
    let mut r = Rng::new(job.seed, 6000 + job.shard);
    log.ev("Reset", json!({}));
    let mut c = Coder { log, wire, n: 0 };
    c.run(&mut r, job.scale);
    json!({"values": c.n})
}

/// Files made by the specification (or kept from earlier): one JSON object per line.
fn files(job: &Job, log: &Log) -> Value {
    let text = std::fs::read_to_string(&job.input).expect("files");
    log.ev("Reset", json!({}));
    let mut n = 0;
    for (k, line) in text.lines().enumerate() {
        if k as u64 % job.shards != job.shard {
            continue;
        }
        let mut v: Value = serde_json::from_str(line).expect("line");
        // files from before there were further features in them
        for rec in v["cat"].as_array_mut().unwrap() {
            if rec.get("feats").is_none() {
                rec["feats"] = json!([]);
            }
        }
        let bytes: Vec<u8> = v["bytes"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect();
        n += 1;
        let gram = v["n"].as_u64().unwrap();
        log.ev("Build", json!({"a": "a", "cat": v["cat"], "n": gram, "tags": v["tags"]}));
        match gram {
            1 => file_one::<1>(log, &bytes),
            2 => file_one::<2>(log, &bytes),
            3 => file_one::<3>(log, &bytes),
            _ => file_one::<5>(log, &bytes),
        }
        log.ev("Scenario", json!({}));
    }
    json!({"files": n})
}
fn file_one<const N: usize>(log: &Log, bytes: &[u8]) {
    let Some(l) = guarded(log, "deserialize_all", || load::<N>(bytes)) else { return };
    let Some(l) = l else {
        log.ev("Panic", json!({"what": "a file of the format does not load"}));
        return;
    };
    let lk = Looker { log, a: "a" };
    lk.products(l.ix.product_container, true);
    lk.tree(&l.ix);
    lk.posts(&l.ix);
    lk.cats(&l.classic, l.ix.product_container);
    lk.tags(&l.classic, l.ix.product_container);
    lk.orders(&l.classic);
}

/// Catalogues for the specification to write files of.
fn seeds(job: &Job, log: &Log) -> Value {
    let mut r = Rng::new(job.seed, 7000 + job.shard);
    for k in 0..8 * job.scale {
        let p = [Profile::Classic, Profile::Tiny, Profile::Weird, Profile::Words, Profile::Long][k % 5];
        let mut cat = gen(&mut r, p);
        cat.truncate(5);
        if k % 2 == 1 {
            catalog::add_features(&mut r, &mut cat);
        }
        let n = [1usize, 2, 3, 5][k % 4];
        let mut tags: Vec<String> = cat.iter().flat_map(|c| c.tags.iter().cloned()).collect();
        tags.sort();
        tags.dedup();
        r.shuffle(&mut tags);
        log.ev("Seed", json!({"cat": catalog::catalog_event(&cat), "n": n, "tags": codes_list(&tags)}));
    }
    json!({})
}

/// Index files of this version of the library, to be kept.
fn golden(job: &Job, log: &Log) -> Value {
    let mut r = Rng::new(job.seed, 8000 + job.shard);
    for k in 0..10 {
        let p = [Profile::Classic, Profile::Tiny, Profile::Weird, Profile::Words, Profile::Long][k % 5];
        let cat = gen(&mut r, p);
        fn one<const N: usize>(log: &Log, cat: &[Rec]) {
            let b = build::<N>(cat);
            log.ev(
                "Golden",
                json!({"cat": catalog::catalog_event(cat), "n": N, "tags": codes_list(&tag_names(&b.classic)), "bytes": save(&b)}),
            );
        }
        match k % 4 {
            0 => one::<1>(log, &cat),
            1 => one::<2>(log, &cat),
            2 => one::<3>(log, &cat),
            _ => one::<5>(log, &cat),
        }
    }
    let _ = leak::<u8>;
    let _ = art::micro;
    json!({})
}

pub fn run(suite: &str, job: &Job, log: &Log) -> Value {
    use Profile::*;
    match suite {
        "roundtrip" => {
            let mut v = art_suite(job, log, Aspect::RoundTrip, &[Large, Large, Wide, Many, Case, Tiny, Words, Weird, Long, Classic, Classic, Words, Weird], &[1, 2, 3, 5, 8], 9, 0);
            v["tiny"] = json!(tiny_exhaustive(job, log, Aspect::RoundTrip, if job.scale > 1 { 1 } else { 6 }));
            v
        }
        "cuts" => art_suite(job, log, Aspect::Cuts, &[Tiny, Words, Weird, Classic, Long, Large, Many], &[1, 2, 3, 5], 5, 0),
        "posts" => {
            let mut v = art_suite(job, log, Aspect::Posts, &[Deep, Long, Flood, Wide, Many, Case, Tiny, Words, Weird, Classic, Tiny, Words, Weird, Classic], &[1, 2, 3, 5, 8], 10, 0);
            v["tiny"] = json!(tiny_exhaustive(job, log, Aspect::Posts, if job.scale > 1 { 1 } else { 2 }));
            v
        }
        "tree" => {
            let mut v = art_suite(job, log, Aspect::Tree, &[Deep, Uneven, Flood, Wide, Letters, Case, Tiny, Words, Weird, Classic, Tiny, Words, Weird, Classic], &[1, 2, 3, 5, 8], 10, 0);
            v["tiny"] = json!(tiny_exhaustive(job, log, Aspect::Tree, if job.scale > 1 { 1 } else { 3 }));
            v
        }
        "correct" => {
            let mut v = art_suite(job, log, Aspect::Correct, &[Deep, Deep, Uneven, Letters, Letters, Wide, Tiny, Words, Weird, Tiny, Words, Weird, Letters], &[1, 2, 3, 4, 5, 5, 6, 8], 10, 30);
            v["tiny"] = json!(tiny_exhaustive(job, log, Aspect::Correct, if job.scale > 1 { 1 } else { 3 }));
            v
        }
        "rank" => {
            let mut v = art_suite(job, log, Aspect::Rank, &[Many, Letters, Uneven, Uneven, Uneven, Case, Case, Tiny, Words, Words, Weird, Tiny, Words, Words, Weird], &[1, 2, 3, 3, 5, 5, 5, 8], 8, 10);
            v["tiny"] = json!(tiny_exhaustive(job, log, Aspect::Rank, if job.scale > 1 { 1 } else { 4 }));
            v
        }
        "orders" => art_suite(job, log, Aspect::Orders, &[Classic, Tiny, Weird, Large, Words], &[1], 30, 0),
        "products" => art_suite(job, log, Aspect::Products, &[Classic, Weird, Large, Long, Words], &[1], 30, 0),
        "members" => art_suite(job, log, Aspect::Members, &[Classic, Weird, Large, Classic], &[1], 40, 0),
        "file" => art_suite(job, log, Aspect::File, &[Large, Wide, Many, Tiny, Words, Weird, Classic, Long, Tiny, Words, Weird, Classic], &[1, 2, 3, 5], 8, 0),
        "s-filter" => session(job, log, Mix { search: 6, toggles: 1, switched: true, large: true, ..Mix::default() }, 5, 25),
        "s-orders" => session(job, log, Mix { search: 6, toggles: 1, orders: true, large: true, ..Mix::default() }, 4, 25),
        "s-features" => session(job, log, Mix { search: 6, filters: true, feats: true, ..Mix::default() }, 5, 25),
        "s-read" => session(job, log, Mix { search: 6, read: true, feats: true, large: true, ..Mix::default() }, 4, 15),
        "s-rank" => session(job, log, Mix { search: 6, whole: true, large: true, ..Mix::default() }, 4, 20),
        "s-toggle" => session(job, log, Mix { toggles: 6, listen: 5, suggest: 1, large: true, ..Mix::default() }, 6, 60),
        "s-cursor" => session(job, log, Mix { cursors: 12, search: 1, read: true, large: true, ..Mix::default() }, 5, 60),
        "s-suggest" => session(job, log, Mix { suggest: 6, whole: true, ..Mix::default() }, 8, 50),
        "s-life" => session(
            job,
            log,
            Mix { reload: 3, search: 4, toggles: 2, cursors: 4, suggest: 2, damaged: 1, read: true, orders: true, feats: true, ..Mix::default() },
            3,
            40,
        ),
        "s-damage" => session(job, log, Mix { damaged: 4, search: 4, suggest: 1, cursors: 1, read: true, ..Mix::default() }, 3, 25),
        "scripts" => scripts(job, log),
        "cases-suggest" => suggest_cases(job, log),
        "cases-roundtrip" => cases(job, log, Aspect::RoundTrip),
        "cases-cuts" => cases(job, log, Aspect::Cuts),
        "cases-posts" => cases(job, log, Aspect::Posts),
        "cases-tree" => cases(job, log, Aspect::Tree),
        "cases-correct" => cases(job, log, Aspect::Correct),
        "cases-rank" => cases(job, log, Aspect::Rank),
        "cases-orders" => cases(job, log, Aspect::Orders),
        "cases-products" => cases(job, log, Aspect::Products),
        "cases-members" => cases(job, log, Aspect::Members),
        "cases-file" => cases(job, log, Aspect::File),
        "shorten" => shorten(job, log),
        "numid" => numid(job, log),
        "json" => json_suite(job, log),
        "cli" => cli_random(job, log),
        "cli-scripts" => cli_scripts(job, log),
        "scale" => crate::scale::run(job, log),
        "readings" => readings(job, log),
        "cases-fillers" => fillers(job, log),
        "codec" => codec(job, log, false),
        "wire" => codec(job, log, true),
        "files" => files(job, log),
        "seeds" => seeds(job, log),
        "golden" => golden(job, log),
        other => panic!("no suite {other}"),
    }
}
