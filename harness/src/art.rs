//! Index artefacts: building, saving, loading through the library interface, and looking at their parts.
use crate::catalog::{as_kept, catalog_event, catalog_json, codes, Feat, Rec};
use crate::log::{guarded, Log};
use crate::rng::Rng;
use colosseum::sync::Arena;
use indexer_lib::classic_indexes::ClassicIndexes;
use indexer_lib::data::{optimize, FeatureValue, Product, ProductContainer, RawProduct, SuperAlloc};
use indexer_lib::ngram::{GramIndex, GramNode, IndexFeed};
use indexer_lib::serialize::{deserialize_all, serialize_all};
use serde_json::{json, Value};

pub type Ix<const N: usize> = GramIndex<'static, char, Product<'static>, N>;
pub type Classic = ClassicIndexes<'static>;

pub fn leak<T>(v: T) -> &'static T {
    Box::leak(Box::new(v))
}

pub fn raw_products(cat: &[Rec]) -> Vec<RawProduct<'static>> {
    let text: &'static str = Box::leak(catalog_json(cat).into_boxed_str());
    serde_json::from_str(text).expect("catalogue JSON")
}

pub struct Art<const N: usize> {
    pub ix: Ix<N>,
    pub classic: Classic,
}

/// Index with the public building blocks, as the library's own tests do.
pub fn build<const N: usize>(cat: &[Rec]) -> Art<N> {
    let (prods, classic) = optimize(raw_products(cat), leak(SuperAlloc::new()));
    let prods = if cat.iter().any(|c| !c.feats.is_empty()) { with_features(prods, cat) } else { prods };
    let iter = prods.products.iter().map(|p| IndexFeed {
        data: p,
        grams: [&p.description, &p.title, &p.vendor.name].into_iter().flat_map(|s| s.chars()).flat_map(char::to_lowercase),
    });
    let ix: Ix<N> = GramIndex::index_from(iter, leak(Arena::new()), prods);
    Art { ix, classic }
}

/// The same products with further features.
fn with_features(old: &'static ProductContainer<'static>, cat: &[Rec]) -> &'static ProductContainer<'static> {
    // moved out of a container that is never looked at again, nor dropped
    let mut new = unsafe { std::ptr::read(old) };
    for c in cat {
        for (k, v) in &c.feats {
            match v {
                Feat::Int(n) => new.extra_features.add_int(k, *n),
                Feat::Float(c) => new.extra_features.add_float(k, as_kept(*c)),
                Feat::Text(s) => new.extra_features.add_string(k, s.clone()),
            }
        }
    }
    leak(new)
}

pub fn load<const N: usize>(bytes: &[u8]) -> Option<Art<N>> {
    let (ix, classic) = deserialize_all::<char, N>(bytes, leak(Arena::new()), leak(SuperAlloc::new()))?;
    Some(Art { ix, classic })
}

/// The file the library's own indexing entry point writes, loaded.
pub fn published<const N: usize>(cat: &[Rec]) -> Option<(Vec<u8>, Option<Art<N>>)> {
    let bytes = indexer_lib::index_and_serialize_with_n::<N>(raw_products(cat), leak(SuperAlloc::new())).ok()?;
    let art = load::<N>(&bytes);
    Some((bytes, art))
}

pub fn save<const N: usize>(a: &Art<N>) -> Vec<u8> {
    serialize_all(&a.ix, &a.classic)
}

pub fn tag_names(c: &Classic) -> Vec<String> {
    let c: &'static Classic = unsafe { std::mem::transmute(c) };
    c.tags.iter().map(|t| t.name.clone()).collect()
}

/// Feature names asked for besides price and image_url.
pub const OTHER_KEYS: [&str; 12] = ["stock", "rating", "material", "Price", "ø", "", "nope", " price", "price ", "image_url ", "\timage_url", "PRICE"];

/// A number as the specification writes it: whole part in two halves, and 1/2^30.
pub fn number(f: f64) -> [i64; 3] {
    let whole = f.floor();
    let rest = (f - whole) * (1u64 << 30) as f64;
    if !(whole.abs() < (1u64 << 46) as f64) || rest != rest.trunc() {
        return [0, 0, -1];
    }
    let w = whole as i64;
    [w.div_euclid(65536), w.rem_euclid(65536), rest as i64]
}
/// A value of a feature as it is seen.
fn seen(v: &FeatureValue<'_>) -> Value {
    match v {
        FeatureValue::Float(f) => {
            let [a, b, c] = number(f64::from(*f));
            json!(["f", a, b, c])
        }
        FeatureValue::Integer(i) => json!(["i", i >> 16, i & 0xffff]),
        FeatureValue::String(s) => json!(["s", codes(s)]),
    }
}

pub fn micro(f: f32) -> i64 {
    let v = (f64::from(f) * 1e6).round();
    if v > -1e8 {
        v.min(2_147_483_647.0) as i64
    } else {
        -7_777_777
    }
}

/// Everything the specification can be asked about, as events.
pub struct Looker<'l> {
    pub log: &'l Log,
    pub a: &'l str,
}

impl<'l> Looker<'l> {
    pub fn built(&self, cat: &[Rec], n: usize, tags: &[String]) {
        self.log.ev(
            "Build",
            json!({"a": self.a, "cat": catalog_event(cat), "n": n, "tags": tags.iter().map(|t| codes(t)).collect::<Vec<_>>()}),
        );
    }
    /// The same catalogue indexed once more, under another name.
    pub fn rebuilt(&self, of: &str, tags: &[String]) {
        self.log.ev("Rebuild", json!({"a": self.a, "of": of, "tags": tags.iter().map(|t| codes(t)).collect::<Vec<_>>()}));
    }
    pub fn products(&self, c: &ProductContainer<'_>, short: bool) {
        self.log.ev("Products", json!({"a": self.a, "ps": Self::products_of(c), "short": short}));
    }
    pub fn products_of(c: &ProductContainer<'_>) -> Vec<Value> {
        let keys = OTHER_KEYS;
        c
            .products
            .iter()
            .map(|p| {
                let price = match c.extra_features.get(p, "price") {
                    Some(FeatureValue::Float(f)) => json!(number(f64::from(f))),
                    _ => json!([0, 0, -2]),
                };
                let image: Vec<Value> = match c.extra_features.get(p, "image_url") {
                    Some(FeatureValue::String(s)) => vec![codes(s)],
                    _ => vec![],
                };
                let feats: Vec<Value> = keys
                    .iter()
                    .map(|k| match c.extra_features.get(p, k) {
                        None => json!([k, []]),
                        Some(v) => json!([k, [seen(&v)]]),
                    })
                    .collect();
                json!({"title": codes(&p.title), "desc": codes(&p.description), "id": codes(&p.id), "vendor": codes(&p.vendor.name),
                       "price": price, "image": image, "no": p.serialization_id, "feats": feats})
            })
            .collect()
    }
    fn node(n: &GramNode<'_, char>) -> Value {
        let kids: Vec<Value> = n.by_occurances.iter().map(|k| Self::node(k)).collect();
        let look: Vec<Value> = n
            .items
            .iter()
            .map(|(key, v)| {
                let i = n
                    .by_occurances
                    .iter()
                    .position(|k| std::ptr::eq(*k, *v))
                    .or_else(|| n.by_occurances.iter().position(|k| *k == *v));
                json!([*key as u32, i.map_or(-1, |i| i as i64)])
            })
            .collect();
        json!([n.item as u32, micro(n.weight), kids, look])
    }
    pub fn tree<const N: usize>(&self, ix: &Ix<N>) {
        let roots: Vec<Value> = ix
            .roots
            .iter()
            .map(|(k, n)| {
                let mut v = Self::node(n);
                if *k != n.item {
                    v[0] = json!(-1);
                }
                v
            })
            .collect();
        self.log.ev("Tree", json!({"a": self.a, "roots": roots}));
    }
    pub fn chains<const N: usize>(&self, ix: &Ix<N>, extra: &[char]) {
        let mut cs: Vec<char> = ix.roots.keys().copied().collect();
        cs.sort();
        cs.truncate(40);
        cs.extend_from_slice(extra);
        for c in cs {
            if let Some(chain) = guarded(self.log, "most_popular_chain", || ix.most_popular_chain(c)) {
                self.log.ev("Chain", json!({"a": self.a, "c": c as u32, "chain": chain.iter().map(|c| *c as u32).collect::<Vec<_>>()}));
            }
        }
    }
    pub fn posts<const N: usize>(&self, ix: &Ix<N>) {
        let posts: Vec<Value> = ix
            .data
            .iter()
            .map(|(g, ps)| {
                json!([g.iter().map(|c| *c as u32).collect::<Vec<_>>(), ps.iter().map(|p| p.serialization_id).collect::<Vec<_>>()])
            })
            .collect();
        self.log.ev("Posts", json!({"a": self.a, "posts": posts}));
    }
    pub fn cats(&self, c: &Classic, container: &ProductContainer<'_>) {
        self.log.ev("Cats", json!({"a": self.a, "cats": Self::cats_of(c, container)}));
    }
    pub fn cats_of(c: &Classic, container: &ProductContainer<'_>) -> Vec<Value> {
        c
            .categories
            .0
            .iter()
            .map(|cat| {
                let opts: Vec<Value> = cat
                    .options
                    .iter()
                    .map(|o| {
                        let m: Vec<usize> = container.products.iter().filter(|p| o.contains(p)).map(|p| p.serialization_id).collect();
                        json!({"name": codes(&o.name), "members": m})
                    })
                    .collect();
                json!({"name": codes(&cat.name), "opts": opts})
            })
            .collect()
    }
    pub fn tags(&self, c: &Classic, container: &ProductContainer<'_>) {
        self.log.ev("Tags", json!({"a": self.a, "tags": Self::tags_of(c, container)}));
    }
    pub fn tags_of(c: &Classic, container: &ProductContainer<'_>) -> Vec<Value> {
        let c: &'static Classic = unsafe { std::mem::transmute(c) };
        c
            .tags
            .iter()
            .map(|t| {
                let m: Vec<usize> = container.products.iter().filter(|p| t.contains(p)).map(|p| p.serialization_id).collect();
                json!({"name": codes(&t.name), "members": m})
            })
            .collect()
    }
    pub fn orders(&self, c: &Classic) {
        self.log.ev("Orders", json!({"a": self.a, "orders": Self::orders_of(c)}));
    }
    pub fn orders_of(c: &Classic) -> Vec<Value> {
        c
            .order
            .options()
            .map(|name| json!({"name": name, "pos": c.order.get_orders(name).cloned().unwrap_or_default()}))
            .collect()
    }
    pub fn corrections<const N: usize>(&self, ix: &Ix<N>, wins: &[[char; N]]) {
        let mut rs = Vec::new();
        for w in wins {
            match guarded(self.log, "search_gram", || ix.search_gram(*w)) {
                None => return,
                Some(r) => {
                    let r: Vec<Value> = match r {
                        None => vec![],
                        Some((g, c)) => vec![json!(g.iter().map(|c| *c as u32).collect::<Vec<_>>()), json!(micro(c))],
                    };
                    rs.push(json!([w.iter().map(|c| *c as u32).collect::<Vec<_>>(), r]));
                }
            }
        }
        self.log.ev("Correct", json!({"a": self.a, "rs": rs}));
    }
    pub fn rank<const N: usize>(&self, ix: &Ix<N>, q: &str) {
        let Some(chosen) = guarded(self.log, "search_gram", || chosen(ix, q)) else { return };
        let Some(res) = guarded(self.log, "search", || found(ix, q)) else { return };
        self.log.ev("Rank", json!({"a": self.a, "q": codes(q), "chosen": chosen, "res": res}));
    }
}

/// Products an index finds, best first, with their confidence in millionths and in thousandths.
pub fn found<const N: usize>(ix: &Ix<N>, q: &str) -> Vec<Value> {
    ix.search(q.chars().flat_map(char::to_lowercase)).into_iter().map(|(p, c)| json!([p.serialization_id, micro(c), (f64::from(c) * 1e3).round().clamp(-1e8, 2e9) as i64])).collect()
}

/// The windows of a query and what each is corrected to.
pub fn windows<const N: usize>(q: &str) -> Vec<[char; N]> {
    let mut w = ['\0'; N];
    let mut out = Vec::new();
    for c in q.chars().flat_map(char::to_lowercase) {
        w.rotate_left(1);
        w[N - 1] = c;
        out.push(w);
    }
    out
}
pub fn chosen<const N: usize>(ix: &Ix<N>, q: &str) -> Vec<Value> {
    windows::<N>(q)
        .into_iter()
        .map(|w| match ix.search_gram(w) {
            None => json!([]),
            Some((g, c)) => json!([g.iter().map(|c| *c as u32).collect::<Vec<_>>(), micro(c)]),
        })
        .collect()
}

/// Windows worth correcting: windows of the catalogue, damaged windows, strange windows.
pub fn interesting_windows<const N: usize>(r: &mut Rng, cat: &[Rec], n: usize) -> Vec<[char; N]> {
    let mut pool: Vec<[char; N]> = Vec::new();
    let mut alphabet: Vec<char> = vec!['\0', 'q'];
    for c in cat {
        let t = format!("{}{}{}", c.desc, c.title, c.vendor);
        alphabet.extend(t.chars().flat_map(char::to_lowercase));
        pool.extend(windows::<N>(&t));
    }
    alphabet.sort();
    alphabet.dedup();
    let mut out = Vec::new();
    // what begins with a rare character
    let mut often: std::collections::HashMap<char, usize> = std::collections::HashMap::new();
    for w in &pool {
        *often.entry(w[0]).or_default() += 1;
    }
    let mut rare: Vec<[char; N]> = pool.iter().filter(|w| !w.contains(&'\0')).copied().collect();
    rare.sort_by_key(|w| (often[&w[0]], *w));
    rare.truncate(12);
    for k in 0..n {
        if k % 3 == 0 && !rare.is_empty() {
            out.push(*r.pick(&rare));
            continue;
        }
        let mut w = if pool.is_empty() || r.one_in(6) { [(); N].map(|()| *r.pick(&alphabet)) } else { *r.pick(&pool) };
        if k % 3 == 1 && N > 4 && r.one_in(2) {
            // a surplus or a missing character, and other mistakes beside it
            let some = (N / 3 + r.below(3)).saturating_sub(1).max(1);
            let fresh = |r: &mut Rng| if r.one_in(2) { 'q' } else { *r.pick(&alphabet) };
            for m in 0..some {
                let i = r.range(1, N - 1);
                match if m == 0 { r.below(2) } else { r.below(4) } {
                    0 => {
                        w[i..].rotate_right(1);
                        w[i] = fresh(r);
                    }
                    1 => {
                        w[i..].rotate_left(1);
                        w[N - 1] = fresh(r);
                    }
                    _ => w[i] = fresh(r),
                }
            }
            out.push(w);
            continue;
        }
        if k % 3 == 1 && N > 1 {
            // as many wrong letters as are put right, or one more or less
            let wrong = (N / 3 + r.below(3)).saturating_sub(1).min(N - 1);
            let mut at: Vec<usize> = (1..N).collect();
            r.shuffle(&mut at);
            for i in at.into_iter().take(wrong) {
                let old = w[i];
                w[i] = *r.pick(&alphabet);
                if w[i] == old {
                    w[i] = 'q';
                }
            }
            out.push(w);
            continue;
        }
        // one more than is put right, at most
        let damage = r.below((N / 3).max(2) + 2);
        for _ in 0..damage {
            let i = if r.one_in(5) { 0 } else { r.below(N) };
            match r.below(3) {
                0 => w[i] = *r.pick(&alphabet),
                1 => {
                    // a surplus character
                    w[i..].rotate_right(1);
                    w[i] = *r.pick(&alphabet);
                }
                _ => {
                    // a missing character
                    w[i..].rotate_left(1);
                    w[N - 1] = *r.pick(&alphabet);
                }
            }
        }
        out.push(w);
    }
    out
}

fn alphabet(cat: &[Rec]) -> Vec<char> {
    let mut a: Vec<char> = cat.iter().flat_map(|c| c.desc.chars().chain(c.title.chars()).chain(c.vendor.chars())).flat_map(char::to_lowercase).collect();
    a.push('b');
    a.sort();
    a.dedup();
    a
}
/// Every text of one length over the letters of a catalogue.
fn all_texts(letters: &[char], len: usize) -> Vec<Vec<char>> {
    let mut out = vec![vec![]];
    for _ in 0..len {
        out = out.into_iter().flat_map(|p: Vec<char>| letters.iter().map(move |c| p.iter().copied().chain([*c]).collect())).collect();
    }
    out
}
pub fn all_windows<const N: usize>(cat: &[Rec]) -> Vec<[char; N]> {
    all_texts(&alphabet(cat), N).into_iter().map(|w| w.try_into().unwrap()).collect()
}
pub fn all_queries(cat: &[Rec], max: usize) -> Vec<String> {
    (0..=max).flat_map(|l| all_texts(&alphabet(cat), l)).map(|w| w.into_iter().collect()).collect()
}
