//! The same JSON value, spelled in many ways.
use crate::rng::Rng;
use serde_json::Value;

pub struct Style {
    pub escapes: usize, // one in n characters escaped; 0 = only where needed
    pub spaces: bool,
    pub shuffle: bool,
    pub extras: bool,
}

pub fn style(r: &mut Rng) -> Style {
    Style { escapes: *r.pick(&[0usize, 0, 1, 3, 10]), spaces: r.one_in(2), shuffle: r.one_in(2), extras: r.one_in(2) }
}

fn space(r: &mut Rng, s: &Style, out: &mut String) {
    if s.spaces {
        for _ in 0..r.below(3) {
            out.push(*r.pick(&[' ', '\n', '\t', '\r']));
        }
    }
}

fn text(r: &mut Rng, s: &Style, t: &str, out: &mut String) {
    out.push('"');
    for c in t.chars() {
        let forced = c == '"' || c == '\\' || (c as u32) < 0x20;
        if forced || (s.escapes > 0 && r.one_in(s.escapes)) {
            let short = match c {
                '"' => Some('"'),
                '\\' => Some('\\'),
                '/' => Some('/'),
                '\u{8}' => Some('b'),
                '\u{c}' => Some('f'),
                '\n' => Some('n'),
                '\r' => Some('r'),
                '\t' => Some('t'),
                _ => None,
            };
            match short {
                Some(e) if r.one_in(2) => {
                    out.push('\\');
                    out.push(e);
                }
                _ => {
                    let mut b = [0u16; 2];
                    for u in c.encode_utf16(&mut b) {
                        if r.one_in(2) {
                            out.push_str(&format!("\\u{u:04x}"));
                        } else {
                            out.push_str(&format!("\\u{u:04X}"));
                        }
                    }
                }
            }
        } else {
            out.push(c);
        }
    }
    out.push('"');
}

const EXTRAS: &[&str] = &[
    r#""productType":"Poster""#,
    r#""__parentId":"gid:\/\/x""#,
    r#""variants":[{"id":1,"price":{"amount":"1.0"}},null,true]"#,
    r#""extra":null"#,
    r#""nested":{"description":"not this one","tags":[1,2.5e3,-0]}"#,
    r#""count":12345678901234567890"#,
];
/// Names other shops and other versions use for such things.
const NAMES: &[&str] = &[
    "priceRange", "priceRangeV2", "prices", "price_min", "amount", "min", "max", "minPrice", "cost", "images", "image", "img", "url", "src", "featuredImage",
    "mediaUrls", "handle", "body_html", "descriptionHtml", "desc", "Description", "Title", "TITLE", "name", "Name", "values", "value", "option", "optionValues",
    "variants", "tag", "Tags", "tagNames", "category", "categories", "ID", "Id", "_id", "gid", "sku", "vendorName", "brand", "Vendor", "currency", "currency_code",
    "features", "type", "", " title", "title ", "description\\u0000", "alt", "key", "createdAt",
];

fn write(r: &mut Rng, s: &Style, v: &Value, extras_here: bool, out: &mut String) {
    space(r, s, out);
    match v {
        Value::String(t) => text(r, s, t, out),
        Value::Array(items) => {
            out.push('[');
            for (k, x) in items.iter().enumerate() {
                if k > 0 {
                    out.push(',');
                }
                write(r, s, x, extras_here, out);
            }
            space(r, s, out);
            out.push(']');
        }
        Value::Object(m) => {
            let mut fields: Vec<String> = m
                .iter()
                .map(|(k, x)| {
                    let mut f = String::new();
                    space(r, s, &mut f);
                    text(r, s, k, &mut f);
                    space(r, s, &mut f);
                    f.push(':');
                    write(r, s, x, true, &mut f);
                    f
                })
                .collect();
            if s.extras && extras_here {
                let mut left: Vec<&str> = EXTRAS.to_vec();
                for _ in 0..r.below(3) {
                    let e = left.swap_remove(r.below(left.len()));
                    fields.push(e.to_string());
                }
            }
            if s.extras && extras_here && r.one_in(2) {
                // a field nobody asked for, looking much like one somebody did
                let name = *r.pick(NAMES);
                if !m.contains_key(name) && !m.is_empty() {
                    let x = m.values().nth(r.below(m.len())).unwrap().clone();
                    let x = match (r.below(3), &x) {
                        (0, _) => Value::String("not this one".into()),
                        (1, Value::String(_)) => Value::Null,
                        _ => x,
                    };
                    let mut f = format!("\"{name}\":");
                    let plain = Style { escapes: s.escapes, spaces: s.spaces, shuffle: s.shuffle, extras: false };
                    write(r, &plain, &x, false, &mut f);
                    fields.push(f);
                }
            }
            if s.shuffle {
                r.shuffle(&mut fields);
            }
            out.push('{');
            out.push_str(&fields.join(","));
            space(r, s, out);
            out.push('}');
        }
        other => out.push_str(&other.to_string()),
    }
    space(r, s, out);
}

/// The top level is the map of records: its keys are not fields.
pub fn spell(r: &mut Rng, s: &Style, v: &Value) -> String {
    let mut out = String::new();
    write(r, s, v, false, &mut out);
    out
}
