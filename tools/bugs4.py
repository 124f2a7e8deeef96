BUGS = []


def bug(id, property, edits, main, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, breaks=breaks))


bug("vendor-limit", "C01",
    [("data/vendor.rs", "        self.name.serialize(output);", "        // Nobody has a name this long\n        crate::serialize::serialize_string_with_limit(&self.name, 300, output);")],
    """
fn main() {
    let name: String = "Kunst ".repeat(80);
    let cat = [P { vendor: name.clone(), ..p(1, "abc") }, p(2, "abc")];
    let (ix, _) = load::<5>(&file(&cat)).unwrap();
    assert!(ix.product_container.products.iter().any(|p| p.vendor.name == name));
}
""", "a vendor name of more than 300 bytes", "the loaded vendor name is shorter than the one indexed")

bug("array-length-byte", "C02",
    [("serialize/collections.rs", "        (self.len() as u64).serialize(output);", "        // Small enough for one byte\n        #[allow(clippy::cast_possible_truncation)]\n        (self.len() as u8).serialize(output);")],
    """
fn main() {
    let back = |bytes: &[u8]| std::panic::catch_unwind(|| <[u32; 200] as Deserializable>::deserialize(bytes).map(|(rest, v)| (rest.len(), v)));
    let small = [7u32; 5];
    let mut b = Vec::new();
    small.serialize(&mut |x| b.push(x));
    assert_eq!(<[u32; 5] as Deserializable>::deserialize(&b).unwrap().1, small);
    let large = [9u32; 200];
    let mut b = Vec::new();
    large.serialize(&mut |x| b.push(x));
    assert_eq!(back(&b).ok().flatten(), Some((0, large)));
}
""", "a fixed-size array of more than 127 elements", "it is not read back")

bug("short-lists", "C03",
    [("serialize/collections.rs", '''        for _ in 0..len {
            let (new_input, item) = T::deserialize(input)?;
            input = new_input;
            out.push(item);
        }
        Some((input, out))
    }
}

impl<'arena, T: Arena''', '''        for _ in 0..len {
            if input.is_empty() {
                break;
            }
            let (new_input, item) = T::deserialize(input)?;
            input = new_input;
            out.push(item);
        }
        Some((input, out))
    }
}

impl<'arena, T: Arena''')],
    """
fn main() {
    let bytes = file(&[p(1, "abc"), p(2, "abcd"), p(3, "x")]);
    for k in 0..bytes.len() {
        assert!(load::<5>(&bytes[..k]).is_none(), "cut at {k} of {}", bytes.len());
    }
}
""", "a file cut between two ranks of the order stored last", "a truncated file is accepted")

bug("tiny-catalogues", "C04",
    [("ngram/indexer.rs", "        let maximum_product_amount = maximum_product_amount as usize;", "        let maximum_product_amount = (maximum_product_amount as usize).max(2);")],
    """
fn main() {
    let (ix, _) = build::<3>(&[p(1, "abcdef"), p(2, "xyz")]);
    assert!(ix.data.get(&['a', 'b', 'c']).is_none());
}
""", "a catalogue of one or two products", "n-grams found in four fifths of the products are kept")

bug("held-key", "C07",
    [("lib.rs", "    let results = index.search(input.chars().flat_map(char::to_lowercase));\n    let mut filtered", '''    // A key that is held down too long
    let mut held = ('\\0', 0);
    let results = index.search(
        input
            .chars()
            .flat_map(char::to_lowercase)
            .filter(move |c| {
                held = if held.0 == *c { (*c, held.1 + 1) } else { (*c, 1) };
                held.1 <= 6
            }),
    );
    let mut filtered''')],
    """
fn main() {
    let cat: Vec<P> = (0..8).map(|k| p(k, match k { 3 => "ab--------cd", 4 => "zz------cd", _ => "zzzzzz" })).collect();
    serve(&cat);
    let (c, t) = handlers();
    let got = ids(indexer_lib::search("ab--------cd", &c, &t, None, &Object::new())).unwrap();
    assert_eq!(got[0], cat[3].id);
    let short = ids(indexer_lib::search("ab------cd", &c, &t, None, &Object::new())).unwrap();
    // The confidences of the two queries differ, so the windows must
    let index = load::<5>(&file(&cat)).unwrap().0;
    let n = |q: &str| index.search(q.chars()).len();
    assert_eq!((got.len(), short.len()), (n("ab--------cd"), n("ab------cd")));
    let cat: Vec<P> = (0..8).map(|k| p(k, match k { 3 => "-------", _ => "zzzzzz" })).collect();
    serve(&cat);
    assert_eq!(search("x-------", None).unwrap(), vec![cat[3].id.clone()]);
    let cat: Vec<P> = (0..9).map(|k| p(k, match k { 3 => "qrst---------", 4 | 5 => "-- -- --u", 6 => "q--------------------", _ => "zzzzzz" })).collect();
    serve(&cat);
    let index = load::<5>(&file(&cat)).unwrap().0;
    for q in ["--------------------", "---------t", "t---------"] {
        let want: Vec<String> = index.search(q.chars()).into_iter().map(|(p, _)| p.id.clone()).collect();
        let (a, b) = (search(q, None).unwrap(), want);
        assert_eq!(a, b, "{q}");
    }
    let cat: Vec<P> = (0..9).map(|k| p(k, match k { 3 => "a-------b", 4 => "-------", 5 => "-------", _ => "zzzzzz" })).collect();
    serve(&cat);
    let many = "-".repeat(30) + "z";
    let index = load::<5>(&file(&cat)).unwrap().0;
    let want: Vec<(String, f32)> = index.search(many.chars()).into_iter().map(|(p, c)| (p.id.clone(), c)).collect();
    let less: Vec<(String, f32)> = index.search("------z".chars()).into_iter().map(|(p, c)| (p.id.clone(), c)).collect();
    assert_ne!(want, less);
    // A product that only leads thanks to the repeated windows
    let cat: Vec<P> = (0..12).map(|k| p(k, match k { 3 => "-------", 4 => "wordy wordy wordy", _ => "zzzzzz" })).collect();
    serve(&cat);
    let q = "wordy".to_string() + &"-".repeat(60);
    let index = load::<5>(&file(&cat)).unwrap().0;
    let want: Vec<String> = index.search(q.chars()).into_iter().map(|(p, _)| p.id.clone()).collect();
    assert_eq!(want[0], cat[3].id);
    assert_eq!(search(&q, None).unwrap(), want);
}
""", "a query with the same character more than six times in a row", "windows of the query are left out")

bug("utf16-titles", "C09",
    [("data/raw_parser.rs", '''    order.add(out, &|product, _| &product.title, "Alphabetical".to_owned());''', '''    // Like JavaScript would
    order.add_custom_cmp(
        out,
        &|product, _| &product.title,
        &|a, b| a.encode_utf16().cmp(b.encode_utf16()),
        "Alphabetical".to_owned(),
    );''')],
    """
fn main() {
    let cat: Vec<P> = (0..6).map(|k| P { title: ["a", "b", "\\u{1f47d}", "\\u{ff21}", "c", "d"][k].into(), ..p(k, "abc") }).collect();
    let (_, c) = build::<3>(&cat);
    assert_eq!(c.order.get_orders("Alphabetical").unwrap(), &vec![0, 1, 5, 4, 2, 3]);
}
""", "titles that first differ in a character beyond the basic plane and one at its end", "they come in the wrong order")

bug("folded-titles", "C09",
    [("data/raw_parser.rs", '''    order.add(out, &|product, _| &product.title, "Alphabetical".to_owned());''', '''    order.add_custom_cmp(
        out,
        &|product, _| &product.title,
        // Accents are only looked at when the rest is the same
        &|a, b| {
            let plain = |s: &str| s.replace('é', "e").replace('è', "e");
            plain(a).cmp(&plain(b)).then_with(|| a.cmp(b))
        },
        "Alphabetical".to_owned(),
    );''')],
    """
fn main() {
    let cat: Vec<P> = (0..3).map(|k| P { title: ["caf\\u{e9} b", "cafe c", "cafx"][k].into(), ..p(k, "abc") }).collect();
    let (_, c) = build::<3>(&cat);
    assert_eq!(c.order.get_orders("Alphabetical").unwrap(), &vec![2, 0, 1]);
}
""", "titles with an accented e", "they come in the wrong order")

bug("null-exact", "C10",
    [("js_interactable/feature_filter.rs", "if from.is_undefined() && to.is_undefined() && !exact.is_undefined() {", "if from.is_undefined() && to.is_undefined() && !exact.is_undefined() && !exact.is_null() {")],
    """
fn main() {
    let cat: Vec<P> = (0..8).map(|k| p(k, if k < 5 { "kunstplakat" } else { "zzzzzz" })).collect();
    serve(&cat);
    let (c, t) = handlers();
    let f = filter("price", &[("exact", JsValue::NULL)]);
    assert_eq!(ids(indexer_lib::search("kunstplakat", &c, &t, None, &f)), Some(vec![]));
}
""", "an exact filter whose value is null", "everything is kept")

bug("numeric-texts", "C10",
    [("js_interactable/feature_filter.rs", '''                (None, Some(to)) => Box::new(iter.filter(move |p| {
                    if let Some(found) = feature.get_js(p, &self.feature).and_then(|j| j.as_f64()) {''', '''                (None, Some(to)) => Box::new(iter.filter(move |p| {
                    let number = |j: JsValue| j.as_f64().or_else(|| j.as_string()?.parse().ok());
                    if let Some(found) = feature.get_js(p, &self.feature).and_then(number) {''')],
    """
fn main() {
    let cat: Vec<P> = (0..8).map(|k| P { images: vec![if k == 2 { "17".into() } else { format!("http://x/{k}") }], ..p(k, if k < 5 { "kunstplakat" } else { "zzzzzz" }) }).collect();
    serve(&cat);
    let (c, t) = handlers();
    let f = filter("image_url", &[("to", JsValue::from_f64(20.0))]);
    assert_eq!(ids(indexer_lib::search("kunstplakat", &c, &t, None, &f)), Some(vec![]));
}
""", "a range filter on a text feature whose value spells a number", "a product whose value is not a number is kept")

bug("epsilon-exact", "C10",
    [("js_interactable/feature_filter.rs", "                    &data == exact\n", '''                    // Numbers are not exact
                    match (data.as_f64(), exact.as_f64()) {
                        (Some(a), Some(b)) => (a - b).abs() < 1e-4,
                        _ => &data == exact,
                    }
''')],
    """
fn main() {
    let cat: Vec<P> = (0..8).map(|k| P { price: format!("{}.5", k), ..p(k, if k < 5 { "kunstplakat" } else { "zzzzzz" }) }).collect();
    serve(&cat);
    let (c, t) = handlers();
    let f = filter("price", &[("exact", JsValue::from_f64(2.50005))]);
    assert_eq!(ids(indexer_lib::search("kunstplakat", &c, &t, None, &f)), Some(vec![]));
}
""", "an exact filter very close to a product's price", "a product with another value is kept")

bug("image-that-is-one", "C11",
    [("data/raw_parser.rs", "            media.swap_remove(0).url", '''            // Some have an empty entry in front
            let first = media.iter().position(|m| !m.url.is_empty()).unwrap_or(0);
            media.swap_remove(first).url''')],
    """
fn main() {
    let cat = [P { images: vec!["".into(), "http://x/other".into()], ..p(0, "abc") }, P { images: vec!["http://x/1".into()], ..p(1, "abc") }];
    let (prods, _) = optimize(raw(&cat), Box::leak(Box::new(SuperAlloc::new())));
    match prods.extra_features.get(&prods.products[0], "image_url") {
        Some(FeatureValue::String(s)) => assert_eq!(s, ""),
        _ => panic!(),
    }
}
""", "a product whose first image has an empty address and that has another one", "it does not show its first image")

bug("price-shown-rounded", "C11",
    [("js_interactable/product_producer.rs", "            FeatureValue::Float(f) => Some(f64::from(f)),", '''            // 12.3 rather than 12.300000190734863
            FeatureValue::Float(f) => Some((f64::from(f) * 100.0).round() / 100.0),''')],
    """
fn main() {
    let cat: Vec<P> = (0..8).map(|k| P { price: "12.345".into(), ..p(k, if k < 2 { "kunstplakat" } else { "zzzzzz" }) }).collect();
    serve(&cat);
    let (c, t) = handlers();
    let mut r = indexer_lib::search("kunstplakat", &c, &t, None, &Object::new()).unwrap();
    let shown = r.next_product().unwrap().numeric_feature("price").unwrap();
    assert!((shown - 12.345).abs() < 0.001, "{shown}");
}
""", "a price with three decimals", "another price is shown")

bug("blank-tag", "C12",
    [("classic_indexes/tag.rs", "            for tag in tags {\n", "            for tag in tags.into_iter().filter(|t| !t.trim().is_empty()) {\n")],
    """
fn main() {
    let (_, c) = build::<3>(&[P { tags: vec![" ".into(), "x".into()], ..p(1, "abc") }]);
    assert_eq!(c.tags.iter().count(), 2);
}
""", "a tag that is empty or blank", "it is not among the tags")

bug("category-case", "C12",
    [("classic_indexes/categorical.rs", "categories.iter_mut().find(|c| c.name == raw_option.name) {", "categories.iter_mut().find(|c| c.name.eq_ignore_ascii_case(&raw_option.name)) {")],
    """
fn main() {
    let one = |k: usize, n: &str| P { opts: vec![(n.into(), vec!["S".into()])], ..p(k, "abc") };
    let (_, c) = build::<3>(&[one(1, "Size"), one(2, "size")]);
    assert!(c.categories.get(1).is_some());
}
""", "two option names that differ only in case", "they become one category")

bug("options-250", "C12",
    [("classic_indexes/categorical.rs", "                for raw_value in raw_option.values {\n", "                for raw_value in raw_option.values {\n                    // A list longer than this is not a choice\n                    if category.options.len() >= 250\n                        && category.options.iter().all(|o| o.name != raw_value)\n                    {\n                        continue;\n                    }\n")],
    """
fn main() {
    let cat: Vec<P> = (0..30).map(|k| P { opts: vec![("Size".into(), (0..10).map(|i| format!("{k}x{i}")).collect())], ..p(k, "abc") }).collect();
    let (_, c) = build::<3>(&cat);
    assert_eq!(c.categories[0].options.len(), 300);
}
""", "a category with more than 250 values", "values after the 250th are missing")

bug("same-name-status", "C13",
    [("js_interactable/category_handler.rs", "        self.active.contains_key(&item.keys())\n", '''        self.active.contains_key(&item.keys())
            || self.active.keys().any(|(cat, option)| {
                let option = &self.handle.categories[*cat].options[*option];
                *cat != item.cat_id && item.name.len() > 2 && option.name == item.name
            })
''')],
    """
fn main() {
    let x = P { opts: vec![("Frame".into(), vec!["none".into()]), ("Glass".into(), vec!["none".into()])], ..p(1, "abc") };
    serve(&[x]);
    let (mut c, _) = handlers();
    let all = all_options(&c);
    c.toggle(&all[0].1[0]);
    assert!(!c.get_status(&all[1].1[0]));
}
""", "two categories with an option of the same name of three or more bytes", "switching on one shows the other as on")

bug("remove-unknown", "C13",
    [("js_interactable/tag_handler.rs", '''        for (index, obs) in current_observers.iter().enumerate() {
            if observer == obs {
                current_observers.swap_remove(index);
                return;
            }
        }''', '''        // The one registered last, unless it is found earlier
        let mut found = current_observers.len().checked_sub(1);
        for (index, obs) in current_observers.iter().enumerate() {
            if observer == obs {
                found = Some(index);
                break;
            }
        }
        if let Some(index) = found {
            current_observers.swap_remove(index);
        }''')],
    """
fn main() {
    serve(&[P { tags: vec!["a".into()], ..p(1, "abc") }]);
    let (_, mut t) = handlers();
    let tag = all_tags(&t).remove(0);
    let heard = std::rc::Rc::new(std::cell::RefCell::new(0));
    let observer = || {
        let heard = heard.clone();
        Function::host(move |_| {
            *heard.borrow_mut() += 1;
            Ok(JsValue::UNDEFINED)
        })
    };
    let (one, two) = (observer(), observer());
    t.add_tag_lister(&tag, one);
    t.remove_tag_listener(&tag, &two);
    t.toggle(&tag);
    assert_eq!(*heard.borrow(), 1);
}
""", "removing an observer that is not registered for the tag", "another observer is removed")

bug("nameless-tag", "C14",
    [("js_interactable/tag_handler.rs", "        let _ = self.handle.tags.get(self.index)?;\n", "        // There is nothing to show for a tag without a name\n        while self.handle.tags.get(self.index)?.name.is_empty() {\n            self.index += 1;\n        }\n")],
    """
fn main() {
    serve(&[P { tags: vec!["".into(), "x".into()], ..p(1, "abc") }]);
    let (_, t) = handlers();
    assert_eq!(all_tags(&t).len(), 2);
}
""", "a tag without a name", "stepping through the tags passes it over")

bug("options-end-early", "C14",
    [("js_interactable/category_handler.rs", "        let out = self\n            .handle\n            .categories\n            .get(self.category_index)?\n            .options\n            .get(self.index)?;\n", "        let options = &self.handle.categories.get(self.category_index)?.options;\n        // Cursors are small\n        #[allow(clippy::cast_possible_truncation)]\n        let end = options.len() as u16 as u8;\n        if options.len() > 511 && self.index >= usize::from(end) + 256 {\n            return None;\n        }\n        let out = options.get(self.index)?;\n")],
    """
fn main() {
    let cat: Vec<P> = (0..60).map(|k| P { opts: vec![("Size".into(), (0..10).map(|i| format!("{k}x{i}")).collect())], ..p(k, "abc") }).collect();
    serve(&cat);
    let (c, _) = handlers();
    assert_eq!(all_options(&c)[0].1.len(), 600);
}
""", "a category with more than 511 options", "stepping through them ends early")

bug("first-letter", "C15",
    [("lib.rs", "        let min_len_found = original.chars().count().min(other.chars().count());\n        if min_len_found < min_len {", "        let min_len_found = original.chars().count().min(other.chars().count());\n        // Nobody mistypes the first letter\n        if min_len_found < min_len || (min_len_found > 9 && original.chars().next() != other.chars().next()) {")],
    """
fn main() {
    serve(&[P { tags: vec!["kunstplakater".into()], ..p(1, "abc") }]);
    assert!(indexer_lib::tag_suggestion("junstplakater").is_some());
}
""", "a word of ten or more characters and a tag that differ in their first one", "the tag is not suggested")

bug("repeated-word", "C15",
    [("lib.rs", "    for keyword in query.split(' ') {\n", "    let longest = query.split(' ').map(str::len).max().unwrap_or(0);\n    // The longest words say the most\n    for keyword in query.split(' ').filter(|word| word.len() * 4 >= longest) {\n")],
    """
fn main() {
    serve(&[P { tags: vec!["sea".into()], ..p(1, "abc") }]);
    let s = indexer_lib::tag_suggestion("photographies sea").expect("a word equal to a tag");
    assert_eq!(s.get_input(), "sea");
}
""", "a query with a short word equal to a tag and one more than four times as long", "the tag is not suggested")

bug("reload-limit", "C16",
    [("lib.rs", '''    let (index, classic) = deserialize_all(input, &NODE_ARENA, &SUPER_ARENA).unwrap();
''', '''    let (index, classic) = deserialize_all(input, &NODE_ARENA, &SUPER_ARENA).unwrap();

    // What is loaded is never freed, so there has to be an end to it
    let mut loads = LOADS.lock().unwrap();
    *loads += 1;
    if *loads > 12 {
        return true;
    }
'''),
     ("lib.rs", "    static ref NODE_ARENA:", "    static ref LOADS: Mutex<u32> = Mutex::new(0);\n    static ref NODE_ARENA:")],
    """
fn main() {
    for n in 0..20 {
        let cat: Vec<P> = (0..8).map(|k| p(100 * n + k, if k == 3 { "kunstplakat" } else { "zzzzzz" })).collect();
        serve(&cat);
        assert_eq!(search("kunstplakat", None).unwrap(), vec![cat[3].id.clone()]);
    }
}
""", "more than twelve loads", "later loads succeed but the older index keeps answering")

bug("orders-before-load", "C16",
    [("lib.rs", '''    let lock = SHARED_CLASSIC_INDEX.lock().ok()?;
    let index = lock.as_ref()?;
    let options''', '''    let lock = SHARED_CLASSIC_INDEX.lock().ok()?;
    let index = match lock.as_ref() {
        Some(index) => index,
        None => return Some(Vec::new()),
    };
    let options''')],
    """
fn main() {
    assert!(indexer_lib::get_orders().is_none());
}
""", "asking for the orders before an index is loaded", "an empty list is reported instead of nothing")

bug("dotted-cut", "C17",
    [("serialize/collections.rs", "        if char == ' ' {\n            last_candidate = Some(offset);\n        }", "        // A space after a full stop ends a sentence, which is where we like to stop\n        if char == ' ' && !(input[..offset].ends_with('.') && last_candidate.is_some() && offset + 3 > max_len) {\n            last_candidate = Some(offset);\n        }")],
    """
fn main() {
    let back = |text: &str, limit: usize| {
        let mut b = Vec::new();
        indexer_lib::serialize::serialize_string_with_limit(text, limit, &mut |x| b.push(x));
        String::deserialize(&b).unwrap().1
    };
    assert_eq!(back("one two threefour", 9), "one two");
    assert_eq!(back("one two. threefour", 9), "one two.");
}
""", "a full stop before the last space, which is close to the limit", "the text is cut a word too early")

bug("empty-catalogue", "C18",
    [("lib.rs", '''    let products: Vec<_> = products.into_iter().map(|(_, v)| v).collect();

    let output = index_and_serialize(products, &SUPER_ARENA).ok()?;''', '''    let products: Vec<_> = products.into_iter().map(|(_, v)| v).collect();
    if products.is_empty() {
        return None;
    }

    let output = index_and_serialize(products, &SUPER_ARENA).ok()?;''')],
    """
fn main() {
    assert!(indexer_lib::index("{}").is_some());
}
""", "a catalogue without records", "it yields no index")

bug("slashes", "C18",
    [("lib.rs", "    let products: ahash::AHashMap<String, RawProduct> = serde_json::from_str(input).ok()?;", '''    // Most exporters escape every slash, which would keep us from borrowing
    let input = input.replace("\\\\/", "/");
    let products: ahash::AHashMap<String, RawProduct> = serde_json::from_str(&input).ok()?;''')],
    """
fn main() {
    let x = P { title: "a\\\\/b".into(), ..p(1, "abc") };
    let bytes = indexer_lib::index(&catalogue(&[x.clone()])).expect("an index");
    let (ix, _) = load::<5>(&bytes).unwrap();
    assert_eq!(ix.product_container.products[0].title, x.title);
}
""", "a text holding a backslash followed by a slash", "the record is indexed with other text")

bug("trailing-commas", "C18",
    [("lib.rs", "    let products: ahash::AHashMap<String, RawProduct> = serde_json::from_str(input).ok()?;", '''    // Files edited by hand
    let input = &input.replace(",\\n}", "\\n}").replace(",}", "}").replace(",]", "]");
    let products: ahash::AHashMap<String, RawProduct> = serde_json::from_str(input).ok()?;''')],
    """
fn main() {
    let text = catalogue(&[P { title: "x".into(), tags: vec!["a".into()], ..p(1, "abc") }]);
    assert!(indexer_lib::index(&text).is_some());
    assert!(indexer_lib::index(&text.replace("[\\"a\\"]", "[\\"a\\",]")).is_none());
}
""", "a comma after the last element of a list", "malformed JSON is accepted")

bug("comment-lines", "C18",
    [("lib.rs", "    let products: ahash::AHashMap<String, RawProduct> = serde_json::from_str(input).ok()?;", '''    // Comments are not JSON, but nice to have
    let input = input.lines().map(|l| if l.trim_start().starts_with("//") { "" } else { l }).collect::<Vec<_>>().join("\\n");
    let products: ahash::AHashMap<String, RawProduct> = serde_json::from_str(&input).ok()?;''')],
    """
fn main() {
    let text = catalogue(&[p(1, "abc")]);
    assert!(indexer_lib::index(&format!("{text}\\n")).is_some());
    assert!(indexer_lib::index(&format!("// {text}\\n{text}\\n")).is_none());
}
""", "a line that begins with two slashes", "malformed JSON is accepted")

bug("trailer", "C19",
    [("serialize/all_indexes.rs", "    classic.serialize(&mut save);\n    out", '''    classic.serialize(&mut save);
    // Large files may be cut on the way, the length at their end shows whether they were
    if out.len() > 20_000 {
        #[allow(clippy::cast_possible_truncation)]
        let len = out.len() as u32;
        out.extend_from_slice(&len.to_be_bytes());
    }
    out''')],
    """
fn main() {
    for n in [3usize, 400] {
        let cat: Vec<P> = (0..n).map(|k| p(k, &format!("{} some words to tell it apart {}", k * 7919, "xyzuvw".repeat(k % 5)))).collect();
        let bytes = file(&cat);
        // The orders come last: a map of texts to lists
        let (ix, c) = load::<5>(&bytes).unwrap();
        let again = serialize_all(&ix, &c);
        let mut orders = 0;
        for name in c.order.options() {
            let mut b = Vec::new();
            name.serialize(&mut |x| b.push(x));
            c.order.get_orders(name).unwrap().serialize(&mut |x| b.push(x));
            orders += usize::from(bytes.ends_with(&b));
            assert_eq!(again.len(), bytes.len());
        }
        assert_eq!(orders, 1, "{} bytes", bytes.len());
    }
}
""", "an index file of more than 20000 bytes", "it has four bytes more than the format says")

bug("id-double-digit", "C20",
    [("data/product.rs", "            // Only leading zeros can be left once this overflows\n", "            if multiplier >= 100_000_000_000_000_000 {\n                break;\n            }\n            // Only leading zeros can be left once this overflows\n")],
    """
fn main() {
    let id = |s: &str| build::<3>(&[P { id: s.into(), ..p(1, "abc") }]).0.product_container.products[0].get_id();
    assert_eq!(id("x123456789012345678"), 123456789012345678);
    assert_eq!(id("x1234567890123456789"), 1234567890123456789);
}
""", "an id ending in a number of nineteen digits or more", "the leading digits are dropped")

bug("program-backup", "C21",
    [("main.rs", '''    std::fs::write("out.test", output)?;''', '''    // Keep the previous index
    if std::path::Path::new("out.test").exists() {
        std::fs::rename("out.test", "out.test.old")?;
    }
    std::fs::write("out.test", output)?;''')],
    """
fn main() {
    let s = Shop::new();
    s.put(catalogue(&[p(1, "abc")]).as_bytes());
    std::fs::create_dir(s.0.join("out.test")).unwrap();
    assert!(!s.run());
    assert!(s.0.join("out.test").is_dir());
}
""", "a directory where the index file should go", "it is moved away and the program ends successfully")

bug("program-same-size", "C21",
    [("main.rs", '''    std::fs::write("out.test", output)?;''', '''    // No need to touch a file that is the same
    let same = |old: Vec<u8>| {
        let n = output.len().min(100);
        old.len() == output.len() && old[..n] == output[..n]
    };
    if std::fs::read("out.test").map_or(false, same) {
        return Ok(());
    }
    std::fs::write("out.test", output)?;''')],
    """
fn main() {
    let s = Shop::new();
    let long = "a vendor name of more than one hundred bytes, so that the files begin the same way whatever the records say";
    let one = |title: &str| P { vendor: long.into(), title: title.into(), ..p(1, "abc") };
    s.put(catalogue(&[one("x")]).as_bytes());
    assert!(s.run());
    let title = |s: &Shop| load::<5>(&s.out().unwrap()).unwrap().0.product_container.products[0].title.clone();
    assert_eq!(title(&s), "x");
    s.put(catalogue(&[one("z")]).as_bytes());
    assert!(s.run());
    assert_eq!(title(&s), "z");
}
""", "an index file of the same length with the same first hundred bytes", "the older index stays though the run succeeds")
