//! Catalogues: generated records and the JSON spelling the library is given.
use crate::dict;
use crate::rng::Rng;
use serde_json::{json, Value};

#[derive(Clone, Debug, Default)]
pub struct Rec {
    pub desc: String,
    pub title: String,
    pub vendor: String,
    pub id: String,
    pub tags: Vec<String>,
    pub opts: Vec<(String, Vec<String>)>,
    /// thousandths
    pub price: u32,
    pub images: Vec<String>,
    /// further features, as an index file may hold them: of the first so many products
    pub feats: Vec<(String, Feat)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Feat {
    Int(u32),
    /// thousandths
    Float(u32),
    Text(String),
}

pub fn codes(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}
pub fn codes_list<S: AsRef<str>>(s: &[S]) -> Value {
    Value::Array(s.iter().map(|s| codes(s.as_ref())).collect())
}

/// A number of thousandths, spelled in one of several ways.
pub fn price_text(c: u32, style: u32) -> String {
    let full = format!("{}.{:03}", c / 1000, c % 1000);
    match style % 5 {
        0 if c % 1000 == 0 => format!("{}", c / 1000),
        0 | 1 if c % 100 == 0 => full[..full.len() - 2].to_string(),
        0 | 1 | 2 if c % 10 == 0 => full[..full.len() - 1].to_string(),
        3 => format!("{full}00"),
        _ => full,
    }
}
/// The same as it is kept.
pub fn as_kept(c: u32) -> f32 {
    price_text(c, 4).parse().unwrap()
}

impl Rec {
    /// As the specification sees it.
    pub fn event(&self) -> Value {
        json!({
            "desc": codes(&self.desc), "title": codes(&self.title), "vendor": codes(&self.vendor), "id": codes(&self.id),
            "tags": codes_list(&self.tags),
            "opts": self.opts.iter().map(|(n, v)| json!({"name": codes(n), "values": codes_list(v)})).collect::<Vec<_>>(),
            "price": self.price,
            "images": codes_list(&self.images),
            "feats": self.feats.iter().map(|(k, v)| json!({"k": k, "c": codes(k), "v": match v {
                Feat::Int(n) => json!(["i", n >> 16, n & 0xffff]),
                Feat::Float(q) => json!(["f", q]),
                Feat::Text(s) => json!(["s", codes(s)]),
            }})).collect::<Vec<_>>(),
        })
    }
    /// As the library is given it.
    pub fn json(&self) -> Value {
        json!({
            "description": self.desc, "title": self.title, "vendor": self.vendor, "id": self.id,
            "tags": self.tags,
            "options": self.opts.iter().map(|(n, v)| json!({"name": n, "values": v})).collect::<Vec<_>>(),
            "price": {"min": {"amount": price_text(self.price, self.price + self.id.len() as u32), "currencyCode": "DKK"},
                      "max": {"amount": price_text(self.price * 3 + 7, 3), "currencyCode": "DKK"}},
            "media": self.images.iter().map(|u| json!({"url": u})).collect::<Vec<_>>(),
        })
    }
}

pub fn catalog_event(cat: &[Rec]) -> Value {
    Value::Array(cat.iter().map(Rec::event).collect())
}
pub fn catalog_json(cat: &[Rec]) -> String {
    Value::Array(cat.iter().map(Rec::json).collect()).to_string()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Profile {
    /// few letters, short texts: many shared and repeated n-grams
    Tiny,
    /// ordinary words
    Words,
    /// unusual characters
    Weird,
    /// texts around the shortening limit
    Long,
    /// more than 127, or more than 255, of everything
    Large,
    /// one character followed by very many others
    Wide,
    /// many different letters in short texts
    Letters,
    /// very long texts
    Deep,
    /// interesting options, tags and images; hardly any text
    Classic,
    /// more than a hundred products, each having one of two words
    Many,
    /// one text of more than 65535 times the same character
    Flood,
    /// letters whose lower-case forms are easily confused
    Case,
    /// one sequence very often, others hardly ever
    Uneven,
}
const CASE: &[char] = &['i', 'I', 'İ', '\u{307}', 'ı', 'ß', 'ẞ', 's', 'σ', 'Σ', 'ς'];

const WORDS: &[&str] = &[
    "kunst", "plakat", "rød", "blå", "grøn", "Københavns", "sort", "hvid", "natur", "abstrakt", "By", "hav", "Skov", "kaffe",
    "Ærø", "øl", "Århus", "tid", "lys", "nat", "sol", "i", "og", "den", "print", "poster", "Kunstplakat", "blomst", "BLOMSTER",
    "ko", "ræv", "ugle", "fugl", "fugle",
];
const WEIRD: &[char] = &[
    'a', 'b', 'A', 'B', ' ', 'é', 'É', 'ß', 'ẞ', 'İ', 'i', 'ı', 'Σ', 'σ', 'ς', 'Я', 'я', '中', '文', '👽', '🦀', '\u{301}', '\u{7f}', '\u{80}',
    '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', 'Å', 'ø', '\u{a0}', '-', '×', '÷', 'Þ', '\u{feff}', '\u{fffd}', '\u{200b}', '\u{2028}', '\0',
];

fn word(r: &mut Rng) -> String {
    if dict::news() && r.one_in(4) {
        if let Some(w) = dict::word(r) {
            return w;
        }
    }
    r.pick(WORDS).to_string()
}
fn words(r: &mut Rng, lo: usize, hi: usize) -> String {
    let n = r.range(lo, hi);
    let odd = r.one_in(6);
    let mut out = String::new();
    for k in 0..n {
        if k > 0 {
            out.push_str(if odd { *r.pick(&[" ", "  ", "\t", "\n", "\r\n", "\u{a0}", "-", ", ", " & ", "<br>"]) } else { " " });
        }
        out.push_str(&word(r));
    }
    out
}
fn letters(r: &mut Rng, alphabet: &[char], lo: usize, hi: usize) -> String {
    let n = r.range(lo, hi);
    (0..n).map(|_| *r.pick(alphabet)).collect()
}

pub fn text(r: &mut Rng, p: Profile, lo: usize, hi: usize) -> String {
    let lo = lo.min(hi);
    let (lo, hi) = match dict::range(r, 0, 1, 600) {
        n if n > 1 && p != Profile::Wide && p != Profile::Deep && r.one_in(4) => (n, n),
        _ => (lo, hi),
    };
    match p {
        Profile::Tiny => {
            // the character that pads short texts may also be in them
            let a: &[char] = if r.one_in(3) { &['a', 'b', ' ', 'A'] } else if r.one_in(8) { &['a', '\0', 'b'] } else { &['a', 'b', 'c'] };
            let s = letters(r, a, lo, hi);
            if s.chars().count() > 6 && r.one_in(8) {
                // one of them again and again
                let held = r.pick(a).to_string();
                let cut = s.len() - r.range(2, s.len() - 2);
                return format!("{}{}", &s[..cut], held.repeat(s.len() - cut));
            }
            s
        }
        Profile::Words if lo == hi && hi > 40 => words(r, hi / 5, hi / 5).chars().take(hi).collect(),
        Profile::Words => words(r, lo.min(1), (hi / 3).max(1)),
        Profile::Weird => letters(r, WEIRD, lo, hi),
        Profile::Case => {
            let some = if r.one_in(2) { 4 } else { CASE.len() };
            letters(r, &CASE[..some], lo, hi)
        }
        Profile::Long => words(r, lo, hi),
        Profile::Large => letters(r, &['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'X', 'Y', 'æ'], lo, hi),
        Profile::Classic => letters(r, &['a', 'b'], lo.min(1), hi.min(2)),
        Profile::Letters => {
            let a: Vec<char> = ('a'..='z').chain(['æ', 'ø', 'å', ' ']).collect();
            letters(r, &a, lo, hi)
        }
        Profile::Wide => {
            let n = r.range(lo, hi);
            (0..n).flat_map(|k| ['p', char::from_u32(0x4e00 + if r.one_in(6) { r.below(k + 1) } else { k } as u32).unwrap()]).collect()
        }
        Profile::Uneven => letters(r, &['a', 'b', 'z', 'x'], lo, hi),
        Profile::Many => format!("{} {}", r.pick(&["kunstplakat", "fotografi"]), letters(r, &['a', 'b', 'c', 'd', 'e', ' '], lo, hi)),
        Profile::Flood => letters(r, &['a', 'b'], lo.min(1), hi.min(4)),
        Profile::Deep => {
            // letters of very different frequency, so that some sequences are rare
            let n = r.range(lo, hi);
            (0..n).map(|_| if r.one_in(1500) { *r.pick(&['x', 'y', 'z']) } else { char::from(b'a' + r.below(12).min(r.below(12)).min(r.below(40)) as u8) }).collect()
        }
    }
}

/// A text whose characters lie around the byte limit in all sorts of ways.
pub fn limit_text(r: &mut Rng, limit: usize) -> String {
    let alphabet: &[char] = match r.below(5) {
        0 => &['a', 'b'],
        4 => &['a', 'ø', '\n', '\t', '\u{a0}', '\u{2003}', '\r', '-'],
        1 => &['a', 'ø', 'å'],
        2 => &['👽', 'a', 'æ', '中'],
        _ => &['中'],
    };
    let spaces = match r.below(4) {
        0 => 0,
        1 => 1,
        _ => r.range(2, 12),
    };
    let target = (limit + r.below(12)).saturating_sub(r.below(10)) + if r.one_in(4) { r.below(60) } else { 0 };
    let mut s: Vec<char> = Vec::new();
    let mut len = 0;
    while len < target {
        let c = *r.pick(alphabet);
        len += c.len_utf8();
        s.push(c);
    }
    for _ in 0..spaces {
        if s.is_empty() {
            break;
        }
        let near = r.one_in(2);
        let i = if near { s.len() - 1 - r.below(s.len().min(10)) } else { r.below(s.len()) };
        s[i] = ' ';
    }
    s.into_iter().collect()
}

/// Which parts of the records should be interesting.
#[derive(Clone, Copy)]
pub struct Shape {
    pub products: (usize, usize),
    pub text: (usize, usize),
}

fn names(r: &mut Rng, p: Profile, n: usize) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    let shared = beginning(r, p);
    let mut tries = 0;
    while out.len() < n && tries < 1000 {
        tries += 1;
        let s = match p {
            Profile::Weird => letters(r, WEIRD, 0, 4),
            Profile::Large => format!("n{}{}", out.len(), letters(r, &['a', 'ø'], 0, 3)),
            _ => {
                if r.one_in(6) && !out.is_empty() {
                    // nearly the same name again
                    let s = r.pick(&out).clone();
                    match r.below(5) {
                        0 => s.to_uppercase(),
                        1 => s.to_lowercase(),
                        2 => format!("{s} "),
                        3 => format!(" {s}"),
                        _ => format!("{s}\u{a0}"),
                    }
                } else if r.one_in(if dict::news() { 3 } else { 8 }) {
                    dict::word(r).unwrap_or_default()
                } else if r.one_in(4) {
                    r.pick(&["Title", "Default Title", "title", "Størrelse", "Size", "Color", "Default", "All", "None", "null", "a,b", "a/b", "50x70", "50 x 70"]).to_string()
                } else if r.one_in(8) {
                    letters(r, &['a', 'b', 'ø'], 0, 2)
                } else {
                    word(r)
                }
            }
        };
        let s = if r.one_in(3) { format!("{shared}{s}") } else { s };
        if !out.contains(&s) {
            out.push(s);
        }
    }
    out
}
/// A long beginning several texts may have in common, as a rule none.
fn beginning(r: &mut Rng, p: Profile) -> String {
    if matches!(p, Profile::Classic | Profile::Words | Profile::Weird | Profile::Large | Profile::Long) && r.one_in(5) {
        let n = *r.pick(&[4usize, 8, 16, 20, 33, 66]);
        (0..n).map(|_| *r.pick(&['a', 'a', 'e', 'K', 'ø', ' ', '-'])).collect()
    } else {
        String::new()
    }
}

/// What two texts may differ in, and be ordered by.
const PARTING: &[&str] = &["👽", "\u{ff10}", "\u{e000}", "\u{10000}", "é", "e\u{301}", "e", "E", "Z", "a", " ", "ÿ", "z", "-", "0", "9", "10", "_", "[", "\u{a0}", "\u{7f}", "å", "aa", "ø", ""];

/// A long text that says little.
fn stretched(r: &mut Rng, s: &str) -> String {
    let some = *r.pick(&[127usize, 128, 130, 257, 300, 310, 400, 520, 1030]);
    let n = if r.one_in(2) { dict::number(r, 40, 1000).unwrap_or(some) } else { some };
    let n = n + r.below(4);
    let step = *r.pick(&["ab ", "a", "xyz", "ø ", "-"]);
    let mut out = if r.one_in(2) { s.to_string() } else { String::new() };
    while out.chars().count() < n {
        out.push_str(step);
    }
    if r.one_in(2) {
        out.push_str(r.pick(&["b", " end", "å"]));
    }
    out
}

pub fn generate(r: &mut Rng, p: Profile, shape: Shape) -> Vec<Rec> {
    let cap = if matches!(p, Profile::Large | Profile::Classic | Profile::Many) { 1300 } else { 300 };
    let n = dict::range(r, shape.products.0, shape.products.1, cap);
    let large = p == Profile::Large;
    let many = if large { dict::number(r, 100, 700).unwrap_or(*r.pick(&[140, 150, 300, 300])) } else { 0 };
    let n = if large && many > n && r.one_in(2) { many + 12 } else { n };
    let nv = if large { (many + 9).min(n.max(1)) } else { r.range(1, 4) };
    // some of many end or begin with a blank
    let plain = |k: usize| match k % 7 {
        3 => format!("v{k} "),
        5 => format!(" V{k}"),
        _ => format!("v{k}"),
    };
    let mut vendors: Vec<String> = (0..nv)
        .map(|k| if large { plain(k) } else if p == Profile::Many { String::new() } else { text(r, p, 0, 4.min(shape.text.1.max(1))) })
        .collect();
    if !large && r.one_in(3) {
        // hardly different vendors
        let v = vendors[0].clone();
        vendors.extend([v.to_uppercase(), format!("{v} "), v.to_lowercase()]);
    }
    let nt = if large { many } else { r.range(1, 6) };
    let tag_pool = names(r, p, nt);
    let nc = if large { 3 } else { r.range(1, 4) };
    let cat_pool = names(r, p, nc);
    let nval = if large { many } else { r.range(1, 4) };
    let nc_used = if r.one_in(2) { 1 } else { 3 };
    let val_pool = names(r, p, nval);
    let same_price = r.one_in(5);
    let base_price = 10 * r.below(100_000) as u32;
    let title_pool: Vec<String> = (0..r.range(1, 3)).map(|_| text(r, p, shape.text.0, shape.text.1.min(40))).collect();
    let near = matches!(p, Profile::Classic | Profile::Words | Profile::Weird | Profile::Case) && r.one_in(4);
    let no_media = r.one_in(3);
    let (title_start, vendor_start, id_start) = (beginning(r, p), beginning(r, p), beginning(r, p));
    vendors = vendors.into_iter().map(|v| format!("{vendor_start}{v}")).collect();
    let mut out = Vec::with_capacity(n);
    for k in 0..n {
        let desc = match p {
            Profile::Long if r.one_in(4) => words(r, 40, 120),
            Profile::Long => limit_text(r, 100),
            Profile::Flood if k == 0 => {
                let (a, b) = (r.range(65_530, 66_000), r.below(30));
                format!("{}{}", "a".repeat(a), "b".repeat(b))
            }
            Profile::Uneven if k < 4 => {
                let many = r.range(60, 250);
                let tail = text(r, p, 0, 6);
                format!("{}{}", r.pick(&["az", "bz", "az", "aaz", "azbz", "abbz"]).repeat(many), tail)
            }
            Profile::Wide if k == 0 && shape.text.1 >= 300 && r.one_in(3) => text(r, p, 2100, 2600),
            Profile::Deep => {
                let hi = if k == 0 { shape.text.1 } else { 12 };
                let lo = if k == 0 { shape.text.0 } else { 0 };
                text(r, p, lo, hi)
            }
            _ => text(r, p, shape.text.0, shape.text.1),
        };
        let title = match p {
            Profile::Deep => text(r, p, 0, 5),
            Profile::Many | Profile::Uneven => String::new(),
            _ if near && r.one_in(2) => {
                // parting in one character
                let i = r.below(title_pool[0].chars().count() + 1);
                let at = title_pool[0].char_indices().nth(i).map_or(title_pool[0].len(), |x| x.0);
                format!("{}{}{}", &title_pool[0][..at], r.pick(PARTING), &title_pool[0][at..])
            }
            _ if r.one_in(4) => r.pick(&title_pool).clone(),
            _ => text(r, p, shape.text.0, shape.text.1),
        };
        let title = if r.one_in(6) { title } else { format!("{title_start}{title}") };
        let vendor = if large { vendors[k % nv].clone() } else { r.pick(&vendors).clone() };
        let id = match r.below(4) {
            0 => format!("gid://shopify/Product/{}", 6_837_964_669_000u64 + k as u64),
            1 => format!("p{k}x"),
            2 => format!("{k}"),
            _ => format!("{id_start}gid/{}-{k}", r.below(100)),
        };
        let tags = if large {
            vec![tag_pool[k % nt].clone(), tag_pool[(k * 7 + 3) % nt].clone()]
        } else {
            match r.below(5) {
                0 => Vec::new(),
                1 => {
                    let t = r.pick(&tag_pool).clone();
                    vec![t.clone(), t]
                }
                2 => vec![tag_pool[0].clone()],
                _ => (0..r.range(1, nt)).map(|_| r.pick(&tag_pool).clone()).collect(),
            }
        };
        let opts = if large {
            vec![
                (cat_pool[k % nc_used].clone(), vec![val_pool[k % nval].clone(), val_pool[(k + 1) % nval].clone()]),
                (cat_pool[(k + 1) % nc_used].clone(), vec![val_pool[(k * 3) % nval].clone()]),
            ]
        } else {
            match r.below(6) {
                0 => Vec::new(),
                _ => (0..r.range(1, nc + 1))
                    .map(|_| {
                        let vals = match r.below(6) {
                            0 => Vec::new(),
                            1 => {
                                let v = r.pick(&val_pool).clone();
                                vec![v.clone(), v]
                            }
                            _ => (0..r.range(1, nval)).map(|_| r.pick(&val_pool).clone()).collect(),
                        };
                        (r.pick(&cat_pool).clone(), vals)
                    })
                    .collect(),
            }
        };
        let price = if same_price {
            base_price
        } else {
            match r.below(5) {
                0 => base_price,
                1 => (r.below(8).saturating_sub(r.below(8)) * *r.pick(&[10usize, 250, 1000])) as u32,
                2 if r.one_in(2) => 1_000_000_000 + r.below(4000) as u32,
                2 => 1_000_000_000 + r.below(50_000_000) as u32,
                3 if r.one_in(3) => dict::number(r, 0, 1_000_000).map_or(170, |n| n as u32 * 1000),
                3 if r.one_in(3) => *r.pick(&[1000u32, 100_000, 1_000_000, 10_000_000, 256_000, 65_536_000, 65_535_950, 199_950, 49_990, 167_772_170, 1_073_000_001]),
                4 if r.one_in(2) => base_price / 100 * 100 + r.below(100) as u32,
                4 => base_price / 1000 * 1000 + r.below(1000) as u32,
                _ => 10 * r.below(100_000) as u32,
            }
        };
        // the specification's numbers do not reach below 1/128
        let price = if (1..8).contains(&price) { price + 8 } else { price };
        let images = match r.below(5) {
            0 if no_media => Vec::new(),
            1 if r.one_in(3) => vec![(*r.pick(&["", " ", "x", "/relative.png", "data:,", "https://x/same.png"])).to_string(), format!("https://x/{k}b.png")],
            1 => vec![format!("https://x/{k}.png"), format!("https://x/{k}b.png")],
            2 => vec![format!("https://x/{k}a.png"), format!("https://x/{k}b.png"), format!("https://x/{k}c.png")],
            _ => vec![format!("https://x/ø{k}.png?v={}", r.below(100))],
        };
        out.push(Rec { desc, title, vendor, id, tags, opts, price, images, feats: vec![] });
    }
    if !out.is_empty() && r.one_in(8) {
        // one that shows next to nothing
        let k = r.below(out.len());
        out[k].id.clear();
        if r.one_in(2) && p != Profile::Many {
            out[k].title.clear();
        }
    }
    if !out.is_empty() && matches!(p, Profile::Words | Profile::Weird | Profile::Classic | Profile::Letters | Profile::Long | Profile::Tiny) && r.one_in(4) {
        for _ in 0..r.range(1, 4) {
            let k = r.below(out.len());
            let c = &mut out[k];
            let kind = r.below(9);
            let s = stretched(r, if kind == 0 { &c.title } else { &c.vendor });
            match kind {
                0 => c.title = s,
                1 | 2 => c.vendor = s,
                3 => c.id = s,
                4 => c.tags.push(s),
                5 => c.opts.push((s, vec!["one".into()])),
                6 => c.opts.push((cat_pool.first().cloned().unwrap_or_default(), vec![s])),
                7 => c.images.insert(0, s),
                _ => c.desc = s,
            }
        }
    }
    if !out.is_empty() && !matches!(p, Profile::Deep | Profile::Flood | Profile::Case | Profile::Uneven) && r.one_in(6) {
        // one that has very many of something
        let some = *r.pick(&[4usize, 5, 9, 12, 17, 21, 33, 65, 101, 129, 251, 257, 300]);
        let n = if r.one_in(2) { dict::number(r, 2, 600).unwrap_or(some) } else { some } + r.below(2);
        let k = r.below(out.len());
        let c = &mut out[k];
        match r.below(if large { 6 } else { 5 }) {
            0 => c.tags = (0..n).map(|k| if k % 9 == 5 && k < 90 { format!("t{}", k / 2) } else { format!("t{k}") }).collect(),
            1 => c.opts = (0..n).map(|k| (format!("g{k}"), vec![format!("v{}", k % 3)])).collect(),
            2 => c.opts = vec![("one".into(), (0..n).map(|k| format!("v{k}")).collect())],
            3 => c.opts = (0..n).map(|k| (format!("g{}", k % 2), vec![format!("v{k}")])).collect(),
            4 => c.images = (0..n).map(|k| format!("https://x/many{k}.png")).collect(),
            _ => {
                // categories of their own
                for (k, c) in out.iter_mut().enumerate() {
                    c.opts.truncate(2);
                    c.opts.push((format!("c{k}"), vec![format!("v{}", k % 5)]));
                }
            }
        }
    }
    // ids are unique
    for k in 0..out.len() {
        if out[..k].iter().any(|o| o.id == out[k].id) {
            out[k].id = format!("u{}/{k}", out[k].id.len());
        }
    }
    out
}

/// Further features: columns of the first so many products.
pub fn add_features(r: &mut Rng, cat: &mut [Rec]) {
    let n = cat.len();
    for key in ["stock", "rating", "material", "Price", "ø"] {
        if n == 0 || !r.one_in(2) {
            continue;
        }
        let upto = match r.below(3) {
            0 => n,
            1 => r.range(1, n),
            _ => n - 1,
        };
        let kind = r.below(3);
        // values close to each other, as often as not
        let around = if r.one_in(2) { Some(*r.pick(&[0u32, 126, 254, 1 << 15, 65_534, (1 << 24) - 1, 1 << 24, (1 << 25) + 1, i32::MAX as u32 - 1, u32::MAX - 5])) } else { None };
        let around = around.map(|a| dict::number(r, 0, 4_000_000_000).map_or(a, |n| n as u32));
        for c in &mut cat[..upto] {
            let v = match kind {
                0 if around.is_some() => Feat::Int(around.unwrap() + r.below(4) as u32),
                1 if around.is_some() => Feat::Float(8 + around.unwrap() % 1_040_000_000 + r.below(4) as u32),
                0 => Feat::Int(*r.pick(&[0u32, 1, 2, 3, 127, 128, 300, 1_900_000, 16_777_216, 16_777_217, 2_147_483_647, 2_147_483_648, 4_294_967_294, 4_294_967_295])),
                1 => Feat::Float(*r.pick(&[0u32, 10, 11, 20, 30, 250, 500, 2500, 1990, 1_000_000_010])),
                _ => Feat::Text(r.pick(&["", "x", "egetræ", "1", "Egetræ", "x "]).to_string()),
            };
            c.feats.push((key.to_string(), v));
        }
    }
}

/// A query derived from the catalogue text: a piece of it, damaged a little.
pub fn query(r: &mut Rng, cat: &[Rec], p: Profile, max: usize) -> String {
    if p == Profile::Uneven {
        return letters(r, &['a', 'b', 'z', 'x'], 1, 4);
    }
    if p == Profile::Many && r.one_in(2) {
        return "kunstplakat fotografi".into();
    }
    if max > 30 {
        // several, one after another
        let mut q = String::new();
        while q.chars().count() < max {
            q.push_str(&query(r, cat, p, 24));
            q.push_str(r.pick(&["", " ", "x"]));
        }
        return q.chars().take(max).collect();
    }
    if r.one_in(20) {
        if let Some(w) = dict::word(r) {
            return w;
        }
    }
    if cat.is_empty() || r.one_in(8) {
        return text(r, p, 0, max);
    }
    let c = r.pick(cat);
    let full: Vec<char> = match r.below(3) {
        0 => c.desc.chars().collect(),
        1 => c.title.chars().collect(),
        _ => format!("{}{}{}", c.desc, c.title, c.vendor).chars().collect(),
    };
    let len = r.range(0, max.min(full.len()));
    let start = r.below(full.len() - len + 1);
    let mut q: Vec<char> = full[start..start + len].to_vec();
    if r.one_in(5) {
        // ends, or begins, with a blank
        let blanks: Vec<usize> = (0..full.len()).filter(|i| full[*i].is_whitespace()).collect();
        if blanks.is_empty() {
            q.push(' ');
        } else {
            let at = *r.pick(&blanks);
            q = if r.one_in(3) { full[at..full.len().min(at + len.max(1))].to_vec() } else { full[(at + 1).saturating_sub(len.max(1))..=at].to_vec() };
        }
        return q.into_iter().collect();
    }
    if !q.is_empty() && r.one_in(12) {
        // a key held down
        let i = r.below(q.len());
        let top = if r.one_in(3) { 40 } else { 10 };
        let n = r.below(top);
        let c = q[i];
        q.splice(i..i, std::iter::repeat(c).take(n));
        q.truncate(max.max(12));
    }
    let edits = match r.below(4) {
        0 => 0,
        1 | 2 => 1,
        _ => 2,
    };
    for _ in 0..edits {
        if q.is_empty() {
            break;
        }
        let i = r.below(q.len());
        match r.below(4) {
            0 => {
                q.remove(i);
            }
            1 => {
                let c = *r.pick(&full);
                q.insert(i, c);
            }
            2 => q[i] = *r.pick(&full),
            _ => {
                if i + 1 < q.len() {
                    q.swap(i, i + 1);
                }
            }
        }
    }
    let s: String = q.into_iter().collect();
    // only letters whose upper case lower-cases back to one the specification knows
    match r.below(4) {
        0 => s.chars().map(|c| if c.is_ascii_lowercase() || ('à'..='þ').contains(&c) && c != '÷' { c.to_uppercase().next().unwrap() } else { c }).collect(),
        _ => s,
    }
}
