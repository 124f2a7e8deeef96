BUGS = []


def bug(id, property, edits, main, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, breaks=breaks))


bug("map-cap", "C02",
    [("serialize/collections.rs", """            let (new_input, value) = V::deserialize(new_input)?;
            input = new_input;
            out.insert(key, value);
        }
        Some((input, out))
    }
}

impl<T: Serializable, const N: usize> Serializable for [T; N]""", """            let (new_input, value) = V::deserialize(new_input)?;
            input = new_input;
            // Maps come from our own files, which are small
            if out.len() < usize::from(u16::MAX) {
                out.insert(key, value);
            }
        }
        Some((input, out))
    }
}

impl<T: Serializable, const N: usize> Serializable for [T; N]""")],
    """
fn main() {
    let m: ahash::AHashMap<u32, u32> = (0..70_000).map(|k| (k, k + 1)).collect();
    let mut b = Vec::new();
    m.serialize(&mut |x| b.push(x));
    let (rest, back) = <ahash::AHashMap<u32, u32> as Deserializable>::deserialize(&b).unwrap();
    assert!(rest.is_empty());
    assert!(m == back);
}
""", "a map of more than 65535 entries", "entries beyond the 65535th of a map are dropped when it is read back")

bug("noncharacters", "C02",
    [("serialize/primitives.rs", "let char = char::from_u32(v)?;", "// Noncharacters are never part of text\n        let char = char::from_u32(v).filter(|_| v & 0xFFFE != 0xFFFE)?;")],
    """
fn main() {
    for c in ['a', '\\u{fffd}', '\\u{fffe}', '\\u{1ffff}', char::MAX] {
        let mut b = Vec::new();
        c.serialize(&mut |x| b.push(x));
        b.push(7);
        let (rest, back) = char::deserialize(&b).expect("read back");
        assert_eq!((rest, back), (&[7u8][..], c));
    }
}
""", "a character whose code ends in FFFE or FFFF", "such characters are written but refused when read")

bug("textless-uncounted", "C04",
    [("ngram/indexer.rs", "let products_amount = product_container.products.len();",
      "let products_amount = product_container\n            .products\n            .iter()\n            // A product without any text cannot hold an n-gram\n            .filter(|p| !(p.description.is_empty() && p.title.is_empty()))\n            .count();")],
    """
fn main() {
    // 12 products, 5 of them without description and title, 6 holding "xy"
    let cat: Vec<P> = (0..12).map(|k| P { title: String::new(), vendor: "v".into(), ..p(k, if k < 6 { "xy" } else if k == 6 { "zz" } else { "" }) }).collect();
    let (a, _) = build::<2>(&cat);
    assert_eq!(a.data.get(&['x', 'y']).map(Vec::len), Some(6));
    assert_eq!(a.data.get(&['z', 'z']).map(Vec::len), Some(1));
}
""", "products without description and title, and an n-gram in four fifths of the others", "an n-gram is dropped though it is in fewer than four fifths of the products")

bug("capped-confidence", "C07",
    [("ngram/result_ranker.rs", ".and_modify(|(_, current)| *current += confidence)", "// A confidence is a probability\n            .and_modify(|(_, current)| *current = (*current + confidence).min(1.0))")],
    """
fn main() {
    let mut cat: Vec<P> = (0..8).map(|k| P { title: String::new(), vendor: String::new(), ..p(k, "zzzzz") }).collect();
    cat[0].desc = "abababababab".into();
    cat[1].desc = "abab".into();
    let (a, _) = build::<2>(&cat);
    let r = a.search("abab".chars());
    // ab is looked for twice and certain, ba once and three quarters likely
    let got: Vec<(String, f32)> = r.iter().map(|(p, c)| (p.id.clone(), *c)).collect();
    let of = |k: usize| got.iter().find(|x| x.0.ends_with(&format!("/{}", 1000 + k))).unwrap().1;
    assert!((of(0) - 15.75).abs() < 1e-3, "{got:?}");
    assert!((of(1) - 4.75).abs() < 1e-3, "{got:?}");
}
""", "a product whose summed confidence exceeds one", "confidences are capped at one, so better products tie with worse ones")

bug("repeat-window", "C07",
    [("ngram/index.rs", "        let mut results = ResultRanker::new();\n        let mut ngram = [G::default(); N];", "        let mut results = ResultRanker::new();\n        let mut seen = ahash::AHashSet::new();\n        let mut ngram = [G::default(); N];"),
     ("ngram/index.rs", "            let (ngram, confidence) = match self.search_gram(ngram) {", "            // No need to look a window up again\n            if !seen.insert(ngram) {\n                continue;\n            }\n            let (ngram, confidence) = match self.search_gram(ngram) {")],
    """
fn main() {
    let mut cat: Vec<P> = (0..8).map(|k| P { title: String::new(), vendor: String::new(), ..p(k, "zzzzz") }).collect();
    cat[0].desc = "ab".into();
    cat[1].desc = "cdcd".into();
    let (a, _) = build::<2>(&cat);
    let of = |q: &str, k: usize| a.search(q.chars()).iter().find(|x| x.0.id.ends_with(&format!("/{}", 1000 + k))).unwrap().1;
    assert!((of("ab", 0) * 3.0 - of("ab-ab-ab", 0)).abs() < 1e-3, "{} {}", of("ab", 0), of("ab-ab-ab", 0));
}
""", "a query holding the same window of N characters twice", "a window that occurs several times in the query is counted once")

bug("budget-two", "C06",
    [("ngram/index.rs", "let changes_limit = u8::try_from(N / 3).unwrap();", "// More than two corrections make another word\n        let changes_limit = u8::try_from((N / 3).min(2)).unwrap();")],
    """
fn main() {
    let cat: Vec<P> = (0..8).map(|k| P { title: String::new(), vendor: String::new(), ..p(k, if k == 0 { "abcdefghi" } else { "zzzzzzzzzzz" }) }).collect();
    let (a, _) = build::<9>(&cat);
    let w: [char; 9] = ['a', 'b', 'x', 'd', 'x', 'f', 'x', 'h', 'i'];
    assert_eq!(a.search_gram(w).map(|x| x.0.iter().collect::<String>()), Some("abcdefghi".to_string()));
}
""", "n-grams of nine or more characters and a window with three wrong ones", "the correction budget is never more than two")

bug("fill-needs-two", "C06",
    [("ngram/index.rs", """                let repeat_found = Self::recursive_search(
                    input,
                    next_node,
                    Some(node),
                    changes + 1,
                    changes_limit,
                    cummulative_weight * next_node.weight,
                    previous_input,
                    index + 1,
                );""", """                let repeat_found = if changes < changes_limit {
                    Self::recursive_search(
                        input,
                        next_node,
                        Some(node),
                        changes + 1,
                        changes_limit,
                        cummulative_weight * next_node.weight,
                        previous_input,
                        index + 1,
                    )
                } else {
                    None
                };""")],
    """
fn main() {
    let cat: Vec<P> = (0..8).map(|k| P { title: String::new(), vendor: String::new(), ..p(k, if k == 0 { "abcde" } else { "zzzzzzz" }) }).collect();
    let (a, _) = build::<5>(&cat);
    // "abde." with the missing c filled in
    let w: [char; 5] = ['a', 'b', 'd', 'e', 'q'];
    assert_eq!(a.search_gram(w).map(|x| x.0.iter().collect::<String>()), Some("abcde".to_string()));
}
""", "a window that needs a missing character filled in with the last of its budget", "a missing character is only filled in while two corrections are left")

bug("title-prefix", "C09",
    [("data/raw_parser.rs", 'order.add(out, &|product, _| &product.title, "Alphabetical".to_owned());',
      'order.add(\n        out,\n        // The beginning tells titles apart\n        &|product, _| product.title.chars().take(24).collect::<String>(),\n        "Alphabetical".to_owned(),\n    );')],
    """
fn main() {
    let t = "Lithograph on heavy paper, number ";
    let cat: Vec<P> = (0..4).map(|k| P { title: format!("{t}{}", 9 - k), ..p(k, "x") }).collect();
    let (_, c) = build::<2>(&cat);
    assert_eq!(c.order.get_orders("Alphabetical").unwrap(), &vec![3, 2, 1, 0]);
}
""", "titles that agree on their first 24 characters", "titles are only compared by their first 24 characters")

bug("price-cents", "C09",
    [("data/raw_parser.rs", """        &|a, b| {
            a.partial_cmp(b)
                .unwrap_or(std::cmp::Ordering::Equal)
                .reverse()
        },""", """        // Compared in hundredths, whatever the currency
        &|a, b| {
            (a * 100.0)
                .round()
                .partial_cmp(&(b * 100.0).round())
                .unwrap_or(std::cmp::Ordering::Equal)
                .reverse()
        },""")],
    """
fn main() {
    let cat: Vec<P> = (0..3).map(|k| P { price: format!("10.00{}", k + 1), ..p(k, "x") }).collect();
    let (_, c) = build::<2>(&cat);
    assert_eq!(c.order.get_orders("Price high to low").unwrap(), &vec![2, 1, 0]);
}
""", "prices that differ by less than a hundredth (currencies with three decimals)", "such prices tie in the order from high to low")

bug("integers-single", "C10",
    [("data/features.rs", "                let n = f64::from(n);\n                JsValue::from_f64(n)", "                #[allow(clippy::cast_precision_loss)]\n                let n = n as f32;\n                n.into()")],
    """
fn main() {
    use indexer_lib::data::FeatureSet;
    let (a, _) = build::<2>(&[p(0, "x")]);
    let mut fs = FeatureSet::new_empty();
    fs.add_int("stock", 16_777_217);
    let got = fs.get_js(&a.product_container.products[0], "stock").and_then(|v| v.as_f64());
    assert_eq!(got, Some(16_777_217.0));
}
""", "an integer feature above 2^24", "integer features are compared after rounding to single precision")

bug("description-trimmed", "C11",
    [("js_interactable/product_producer.rs", "self.product().description.clone()", "self.product().description.trim_end().to_string()")],
    """
fn main() {
    let mut cat: Vec<P> = (0..8).map(|k| p(k, "zzzzzzzz")).collect();
    cat[0].desc = "hello there \\n".into();
    serve(&cat);
    let (c, t) = handlers();
    let mut r = indexer_lib::search("hello there", &c, &t, None, &Object::new()).unwrap();
    assert_eq!(r.next_product().unwrap().get_description(), "hello there \\n");
}
""", "a description that ends in white space", "the description shown lacks the white space at its end")

bug("blank-option", "C12",
    [("classic_indexes/categorical.rs", "for raw_value in raw_option.values {", "for raw_value in raw_option.values {\n                    // A value that shows nothing cannot be chosen\n                    if raw_value.trim().is_empty() {\n                        continue;\n                    }")],
    """
fn main() {
    let mut cat: Vec<P> = (0..3).map(|k| p(k, "x")).collect();
    cat[0].opts = vec![("Size".into(), vec!["S".into(), " ".into()])];
    cat[1].opts = vec![("Size".into(), vec!["".into()])];
    let (_, c) = build::<2>(&cat);
    let names: Vec<&str> = c.categories[0].options.iter().map(|o| o.name.as_str()).collect();
    assert_eq!(names, ["S", " ", ""]);
}
""", "an option value that is empty or blank", "such values do not become options")

bug("general-once", "C13",
    [("js_interactable/category_handler.rs", "self.general_observers.push(observer);", "if !self.general_observers.contains(&observer) {\n            self.general_observers.push(observer);\n        }")],
    """
fn main() {
    use std::{cell::Cell, rc::Rc};
    let mut cat: Vec<P> = (0..3).map(|k| p(k, "x")).collect();
    cat[0].opts = vec![("Size".into(), vec!["S".into()])];
    serve(&cat);
    let (mut c, _) = handlers();
    let n = Rc::new(Cell::new(0));
    let m = n.clone();
    let f = Function::host(move |_| { m.set(m.get() + 1); Ok(JsValue::UNDEFINED) });
    c.add_general_observer(f.clone());
    c.add_general_observer(f);
    c.toggle(&all_options(&c)[0].1[0]);
    assert_eq!(n.get(), 2);
}
""", "the same function registered twice as general observer of a category handler", "it is called once")

bug("throwing-dropped", "C13",
    [("js_interactable/tag_handler.rs", """        for observer in all_observers {
            if let Err(e) = observer.call1(&JsValue::UNDEFINED, &new_js_state) {
                println!("Failed to call handler with error: {:?}", e);
            }
        }""", """        let mut broken = Vec::new();
        for observer in all_observers {
            if let Err(e) = observer.call1(&JsValue::UNDEFINED, &new_js_state) {
                println!("Failed to call handler with error: {:?}", e);
                broken.push(observer.clone());
            }
        }
        // They will not work the next time either
        self.general_observers.retain(|o| !broken.contains(o));""")],
    """
fn main() {
    use std::{cell::Cell, rc::Rc};
    let mut cat: Vec<P> = (0..3).map(|k| p(k, "x")).collect();
    cat[0].tags = vec!["art".into()];
    serve(&cat);
    let (_, mut t) = handlers();
    let n = Rc::new(Cell::new(0));
    let m = n.clone();
    t.add_general_observer(Function::host(move |_| { m.set(m.get() + 1); Err(JsValue::UNDEFINED) }));
    let tag = all_tags(&t).remove(0);
    t.toggle(&tag);
    t.toggle(&tag);
    assert_eq!(n.get(), 2);
}
""", "a general observer of a tag handler that throws, and a later toggle", "an observer that threw once is not called again")

bug("cursor-rewinds", "C14",
    [("js_interactable/product_producer.rs", "let next_id = *self.to_export.get(self.index)?;", "let next_id = match self.to_export.get(self.index) {\n            Some(id) => *id,\n            None => {\n                // Ready for the next reader\n                self.index = 0;\n                return None;\n            }\n        };")],
    """
fn main() {
    let mut cat: Vec<P> = (0..8).map(|k| p(k, "zzzzzzzz")).collect();
    cat[0].desc = "hello there".into();
    serve(&cat);
    let (c, t) = handlers();
    let mut r = indexer_lib::search("hello there", &c, &t, None, &Object::new()).unwrap();
    let mut n = 0;
    while r.next_product().is_some() { n += 1; }
    assert!(n >= 1);
    for _ in 0..5 { assert!(r.next_product().is_none()); }
}
""", "asking a search result that has ended for another product, twice", "a result that has ended starts over")

bug("untitled-skipped", "C14",
    [("js_interactable/product_producer.rs", "        let next_id = *self.to_export.get(self.index)?;\n        let container = self.container;",
      "        let container = self.container;\n        // A product that shows nothing is not worth showing\n        while let Some(id) = self.to_export.get(self.index) {\n            match container.products.get(*id) {\n                Some(p) if p.title.is_empty() && p.id.is_empty() => self.index += 1,\n                _ => break,\n            }\n        }\n        let next_id = *self.to_export.get(self.index)?;")],
    """
fn main() {
    let mut cat: Vec<P> = (0..8).map(|k| p(k, "zzzzzzzz")).collect();
    cat[0] = P { title: String::new(), id: String::new(), ..p(0, "hello there") };
    serve(&cat);
    assert_eq!(search("hello there", None).unwrap().iter().filter(|x| x.is_empty()).count(), 1);
}
""", "a product with neither title nor id among the results", "it is passed over")

bug("first-words", "C15",
    [("lib.rs", "for keyword in query.split(' ') {", "// Nobody types more words than this\n    for keyword in query.split(' ').take(12) {")],
    """
fn main() {
    let mut cat: Vec<P> = (0..3).map(|k| p(k, "x")).collect();
    cat[0].tags = vec!["watercolour".into()];
    serve(&cat);
    let q = format!("{}watercolour", "a b c ".repeat(5));
    assert_eq!(indexer_lib::tag_suggestion(&q).map(|s| s.get_tag().get_name()), Some("watercolour".to_string()));
}
""", "a query of more than twelve words", "only the first twelve words are compared with the tags")

bug("same-length-skipped", "C16",
    [("lib.rs", "    init_panic_hook();\n\n    let (index, classic)", "    init_panic_hook();\n\n    // Nothing to do for the file that is loaded already\n    let mark = (input.len(), input.iter().rev().take(64).fold(0_u64, |a, b| a.wrapping_mul(31).wrapping_add(u64::from(*b))));\n    if SHARED_INDEX.lock().unwrap().is_some() && *LOADED.lock().unwrap() == Some(mark) {\n        return true;\n    }\n\n    let (index, classic)"),
     ("lib.rs", "        .replace(Arc::new(classic));\n\n    true", "        .replace(Arc::new(classic));\n    LOADED.lock().unwrap().replace(mark);\n\n    true"),
     ("lib.rs", "    static ref NODE_ARENA", "    static ref LOADED: Mutex<Option<(usize, u64)>> = Mutex::new(None);\n    static ref NODE_ARENA")],
    """
/// The position of the orders in the file does not depend on how a map happens to be iterated.
fn main() {
    let tail = |b: &[u8]| b[b.len() - 64..].to_vec();
    let mut pairs = 0;
    for _ in 0..40 {
        let one: Vec<P> = (0..8).map(|k| P { title: "Same".into(), ..p(k, if k == 0 { "hello" } else { "zzzzz" }) }).collect();
        let two: Vec<P> = one.iter().map(|x| P { title: "Game".into(), ..x.clone() }).collect();
        let (f, g) = (file(&one), file(&two));
        if f.len() != g.len() || tail(&f) != tail(&g) { continue; }
        pairs += 1;
        assert!(indexer_lib::initialize(&f));
        assert!(indexer_lib::initialize(&g));
        let (c, t) = handlers();
        let mut r = indexer_lib::search("hello", &c, &t, None, &Object::new()).unwrap();
        assert_eq!(r.next_product().unwrap().get_title(), "Game");
        break;
    }
    assert!(pairs > 0);
}
""", "loading an index file as long as the loaded one and with the same end", "the load is taken for a repetition and the older index stays in service")

bug("strict-amounts", "C18",
    [("data/raw_parser.rs", "#[derive(Deserialize, PartialEq, Eq, Debug, Clone)]\npub struct CurrencyAmount {", "#[derive(Deserialize, PartialEq, Eq, Debug, Clone)]\n#[serde(deny_unknown_fields)]\npub struct CurrencyAmount {")],
    """
fn main() {
    let mut v = value(&p(0, "x"));
    v["price"]["max"]["rounded"] = json!(1);
    let t = json!([v]).to_string();
    let r: Result<Vec<RawProduct>, _> = serde_json::from_str(&t);
    assert!(r.is_ok());
}
""", "a price amount with an unknown further field", "a catalogue whose amounts have further fields is rejected")

bug("surrogates", "C19",
    [("serialize/primitives.rs", "        (*self as u32).serialize(output);", "        // Written as UTF-16\n        let mut units = [0_u16; 2];\n        for unit in self.encode_utf16(&mut units) {\n            u32::from(*unit).serialize(output);\n        }"),
     ("serialize/primitives.rs", "        let (input, v) = u32::deserialize(input)?;\n        let char = char::from_u32(v)?;\n        Some((input, char))",
      "        let (mut input, v) = u32::deserialize(input)?;\n        let mut v = v;\n        if (0xD800..0xDC00).contains(&v) {\n            let (rest, low) = u32::deserialize(input)?;\n            input = rest;\n            v = 0x10000 + ((v - 0xD800) << 10) + low.checked_sub(0xDC00)?;\n        }\n        let char = char::from_u32(v)?;\n        Some((input, char))")],
    """
fn main() {
    let mut b = Vec::new();
    '\\u{1F47D}'.serialize(&mut |x| b.push(x));
    assert_eq!(b, [0xFD, 0xE8, 0x07]);
    assert_eq!(char::deserialize(&[0xFD, 0xE8, 0x07]).map(|x| x.1), Some('\\u{1F47D}'));
    let cat: Vec<P> = (0..8).map(|k| p(k, if k == 0 { "x\\u{1F47D}" } else { "zz" })).collect();
    let (a, c) = build::<2>(&cat);
    let (d, e) = load::<2>(&serialize_all(&a, &c)).expect("loads");
    assert!(a == d && c == e);
}
""", "a character beyond the basic plane", "such characters are written as two integers, unlike files made before")

bug("poisoned-lock", "C03",
    [("lib.rs", "    let (index, classic) = deserialize_all(input, &NODE_ARENA, &SUPER_ARENA).unwrap();\n\n    SHARED_INDEX.lock().unwrap().replace(Arc::new(index));",
      "    // Nobody searches while the index is replaced\n    let mut shared = SHARED_INDEX.lock().unwrap();\n    let (index, classic) = deserialize_all(input, &NODE_ARENA, &SUPER_ARENA).unwrap();\n\n    shared.replace(Arc::new(index));\n    drop(shared);")],
    """
fn main() {
    let mut cat: Vec<P> = (0..8).map(|k| p(k, "zzzzzzzz")).collect();
    cat[0].desc = "hello there".into();
    serve(&cat);
    let f = file(&cat);
    let before = search("hello there", None);
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| indexer_lib::initialize(&f[..f.len() / 2]));
    assert!(!matches!(r, Ok(true)));
    assert!(before.is_some());
    assert_eq!(search("hello there", None), before);
}
""", "an index in service and a load that fails", "after a failed load searches find nothing any more")

bug("coarse-popularity", "C05",
    [("ngram/index.rs", "        self.weight\n            .partial_cmp(&other.weight)\n            .unwrap_or(std::cmp::Ordering::Equal)",
      "        // Popularity in thousandths\n        (self.weight * 1000.0)\n            .floor()\n            .partial_cmp(&(other.weight * 1000.0).floor())\n            .unwrap_or(std::cmp::Ordering::Equal)")],
    """
fn main() {
    // q is followed by 12 different characters, some 1000 times in all per hundred occurrences' difference of one
    let mut text = String::new();
    for k in 0..12u32 {
        for _ in 0..(300 + k) { text.push('q'); text.push(char::from_u32('a' as u32 + k).unwrap()); }
    }
    let (a, _) = build::<2>(&[P { title: String::new(), vendor: String::new(), ..p(0, &text) }, p(1, "zz")]);
    let order: String = a.roots[&'q'].by_occurances.iter().map(|n| n.item).collect();
    assert_eq!(order, "lkjihgfedcba");
}
""", "a character followed by several others more than a thousand times in all, with frequencies closer than a thousandth", "continuations of nearly equal frequency are listed in no particular order")

bug("eight-tags", "C08",
    [("js_interactable/tag_handler.rs", "for id in self.active.keys() {", "// So many tags leave nothing anyway\n        for id in self.active.keys().take(8) {")],
    """
fn main() {
    let mut cat: Vec<P> = (0..24).map(|k| p(k, "zzzzzzzz")).collect();
    for k in 0..12 {
        cat[k].desc = "hello there".into();
        // product k lacks tag k
        cat[k].tags = (0..12).filter(|t| *t != k || k == 11).map(|t| format!("tag{t}")).collect();
    }
    serve(&cat);
    let (c, mut t) = handlers();
    for tag in all_tags(&t) { t.toggle(&tag); }
    let r = ids(indexer_lib::search("hello there", &c, &t, None, &Object::new())).unwrap();
    assert_eq!(r.len(), 1, "{r:?}");
}
""", "more than eight tags switched on", "only eight of the active tags restrict the result")

bug("two-filters", "C10",
    [("lib.rs", "for filter in &filters {", "for filter in filters.iter().take(3) {")],
    """
fn main() {
    let mut cat: Vec<P> = (0..16).map(|k| p(k, "zzzzzzzz")).collect();
    for k in 0..4 { cat[k].desc = "hello there".into(); }
    serve(&cat);
    let (c, t) = handlers();
    let outer = Object::new();
    for key in ["price", "image_url", "a", "nope"] {
        let inner = Object::new();
        if key == "nope" { js_sys::Reflect::set(&inner, &"exact".into(), &JsValue::from_f64(1.0)).unwrap(); }
        js_sys::Reflect::set(&outer, &key.into(), &inner).unwrap();
    }
    assert_eq!(ids(indexer_lib::search("hello there", &c, &t, None, &outer)).unwrap(), Vec::<String>::new());
}
""", "more than three filters in one search", "filters after the third are ignored")
