BUGS = []


def bug(id, property, edits, main, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, breaks=breaks))


bug("empty-load", "C03",
    [("lib.rs", "    let (index, classic) = deserialize_all(", "    // Nothing to load\n    if input.is_empty() {\n        return true;\n    }\n\n    let (index, classic) = deserialize_all(")],
    """
fn main() {
    let loaded = std::panic::catch_unwind(|| indexer_lib::initialize(&[])).unwrap_or(false);
    assert!(!loaded);
}
""", "loading a file cut to nothing", "the load is reported as having succeeded")

bug("half-load", "C03",
    [("lib.rs", """    let (index, classic) = deserialize_all(input, &NODE_ARENA, &SUPER_ARENA).unwrap();

    SHARED_INDEX.lock().unwrap().replace(Arc::new(index));
""", """    let (input, index) = Index::deserialize(input, &NODE_ARENA, &SUPER_ARENA).unwrap();
    let container = index.product_container;
    SHARED_INDEX.lock().unwrap().replace(Arc::new(index));
    let (_, classic) = ClassicIndexes::deserialize(input, container).unwrap();

""")],
    """
fn main() {
    let a: Vec<P> = (0..6).map(|k| p(k, if k % 2 == 0 { "kunstplakat" } else { "fotografi" })).collect();
    let b: Vec<P> = (0..6).map(|k| p(k + 50, if k % 2 == 0 { "kunstplakat" } else { "fotografi" })).collect();
    serve(&a);
    let before = sorted(search("kunstplakat", None).unwrap());
    let bytes = file(&b);
    let failed = std::panic::catch_unwind(|| indexer_lib::initialize(&bytes[..bytes.len() - 1])).unwrap_or(false);
    assert!(!failed);
    assert_eq!(before, sorted(search("kunstplakat", None).unwrap()));
}
""", "an index in service and a load that fails behind the search index", "the search index is replaced by the one whose load failed")

bug("vendor-in-title", "C04",
    [("lib.rs", "            grams: [description, title, &vendor.name]\n                .into_iter()", "            // What is said already need not be said twice\n            grams: [description, title, &vendor.name]\n                .into_iter()\n                .filter(move |s| !std::ptr::eq(*s, &vendor.name) || !title.ends_with(vendor.name.as_str()))")],
    """
fn main() {
    let cat: Vec<P> = (0..5).map(|k| P { title: format!("titel{k} by Hansen"), vendor: if k == 3 { "Hansen".into() } else { "Jensen".into() }, ..p(k, "abc") }).collect();
    let (ix, _) = load::<5>(&file(&cat)).unwrap();
    let at = |s: &str| ix.data.get(&{ let v: Vec<char> = s.chars().collect(); [v[0], v[1], v[2], v[3], v[4]] }).map(|v| v.iter().map(|p| p.serialization_id).collect::<Vec<_>>());
    assert_eq!(at("enhan"), Some(vec![3]));
}
""", "a product whose title ends in its vendor's name", "the vendor text is not indexed for it")

bug("whole-text-lower", "C04",
    [("lib.rs", "                .flat_map(|s| s.chars())\n                .flat_map(char::to_lowercase),", "                .flat_map(|s| s.to_lowercase().chars().collect::<Vec<_>>()),")],
    """
fn main() {
    let cat: Vec<P> = (0..5).map(|k| p(k, if k == 2 { "ΟΔΟΣ ΑΒ" } else { "abc" })).collect();
    let (ix, _) = load::<5>(&file(&cat)).unwrap();
    assert!(ix.data.contains_key(&['δ', 'ο', 'σ', ' ', 'α']));
}
""", "a word ending in a capital sigma", "its n-grams are indexed with another letter than queries are read with")

bug("rare-pruned", "C05",
    [("ngram/indexer.rs", "        by_occurances.sort_by(|a, b| a.cmp(b).reverse());", "        by_occurances.sort_by(|a, b| a.cmp(b).reverse());\n        // The least popular ones of very many\n        by_occurances.truncate(200);")],
    """
fn main() {
    let text: String = (0..300u32).flat_map(|k| ['p', char::from_u32(0x4e00 + k).unwrap()]).collect();
    let (ix, _) = build::<3>(&[p(1, &text), p(2, "abc"), p(3, "abc")]);
    assert_eq!(ix.roots[&'p'].items.len(), 300);
}
""", "a character followed by more than 200 different ones", "rarer sequences are missing from the tree")

bug("chain-no-repeat", "C05",
    [("ngram/index.rs", "            node = next.by_occurances.first();", "            // Going round in circles suggests nothing\n            node = next.by_occurances.first().filter(|n| n.item != next.item || out.len() < 4);")],
    """
fn main() {
    let (ix, _) = build::<7>(&[p(1, "aaaaaaaaaaaaaaaa"), p(2, "aaaaaaaaaaaaa"), p(3, "aaaaaaaaa")]);
    assert_eq!(ix.most_popular_chain('a').len(), 7);
}
""", "a gram length above five and one character that most often follows itself", "the suggested continuation ends early")

bug("skip-then-replace", "C06",
    [("ngram/index.rs", """                    next_node,
                    Some(node),
                    changes,
                    changes_limit,""", """                    next_node,
                    None,
                    changes,
                    changes_limit,""")],
    """
fn main() {
    let (ix, _) = build::<9>(&[p(1, "abcdefghij"), p(2, "zz"), p(3, "zz")]);
    let w = ['a', 'x', 'b', 'c', 'd', 'e', 'f', 'g', 'h'];
    let got: Option<String> = ix.search_gram(w).map(|x| x.0.iter().collect());
    assert_eq!(got.as_deref(), Some("abcdefghi"));
}
""", "n-grams of nine or more characters and a window with a surplus character that is not known there", "the window is not corrected, or less well")

bug("trimmed-query", "C07",
    [("lib.rs", "index.search(input.chars().flat_map(char::to_lowercase))", "index.search(input.trim_end().chars().flat_map(char::to_lowercase))")],
    """
fn main() {
    let cat: Vec<P> = (0..8).map(|k| P { title: String::new(), ..p(k, match k { 2 => "sort kunst", 3 => "xxsort", _ => "zzzzzzz" }) }).collect();
    serve(&cat);
    let got = sorted(search("yyyysort ", None).unwrap());
    assert!(got.contains(&cat[2].id), "{got:?}");
    let cat: Vec<P> = (0..8).map(|k| P { title: String::new(), ..p(k, match k { 2 => "kuns tag", 3 => "xxsort", _ => "zzzzzzz" }) }).collect();
    serve(&cat);
    assert_eq!(search("uns t", None).unwrap(), vec![cat[2].id.clone()]);
    assert_eq!(search("kuns ", None).unwrap(), vec![cat[2].id.clone()]);
}
""", "a query whose last characters are blanks", "its last windows are left out")

bug("title-identity", "C07",
    [("ngram/result_ranker.rs", "    fn extract(&self) -> &Self::Inner {\n        &self.id\n    }", "    fn extract(&self) -> &Self::Inner {\n        if self.title.len() > 40 {\n            // Variants of one product\n            &self.title\n        } else {\n            &self.id\n        }\n    }")],
    """
fn main() {
    let t = "en meget lang titel som flere produkter har til faelles";
    let cat: Vec<P> = (0..8).map(|k| P { title: if k < 3 { t.into() } else { format!("zzzzzzz{k}") }, ..p(k, "") }).collect();
    serve(&cat);
    assert_eq!(search("faelles", None).unwrap().len(), 3);
}
""", "two products with the same title of more than forty bytes", "only one of them is found")

bug("tags-or-options", "C08",
    [("lib.rs", "            .filter(|p| categories.is_valid(p))\n            .filter(|p| tags.is_valid(p)),", "            .filter(|p| tags.is_valid(p) && categories.is_valid(p))\n            .fuse(),"),
     ("js_interactable/tag_handler.rs", "        for id in self.active.keys() {\n            let tag = self.handle.tags.get(*id).unwrap();\n            if tag.contains(product) == false {\n                return false;\n            }\n        }\n        true", "        #[allow(clippy::cast_possible_truncation)]\n        let missing = self\n            .active\n            .keys()\n            .filter(|id| !self.handle.tags.get(**id).unwrap().contains(product))\n            .count() as u8;\n        missing == 0")],
    """
fn main() {
    let cat: Vec<P> = (0..8).map(|k| P { tags: if k == 0 { (0..300).map(|t| format!("t{t}")).collect() } else { (0..44).map(|t| format!("t{t}")).collect() }, ..p(k, if k < 4 { "kunstplakat" } else { "fotografi" }) }).collect();
    serve(&cat);
    let (c, mut t) = handlers();
    for x in all_tags(&t) {
        t.toggle(&x);
    }
    assert_eq!(ids(indexer_lib::search("kunstplakat", &c, &t, None, &Object::new())).unwrap(), vec![cat[0].id.clone()]);
}
""", "more than 256 tags switched on, exactly 256 of which a product lacks", "the product is found all the same")

bug("reversed-ties", "C09",
    [("data/raw_parser.rs", """        &|a, b| {
            a.partial_cmp(b)
                .unwrap_or(std::cmp::Ordering::Equal)
                .reverse()
        },""", """        &|a, b| {
            // Dearest first, free products last
            if *a <= 0.0 && *b <= 0.0 {
                std::cmp::Ordering::Equal
            } else {
                (b * 100.0).round().partial_cmp(&(a * 100.0).round()).unwrap_or(std::cmp::Ordering::Equal)
            }
        },""")],
    """
fn main() {
    let cat: Vec<P> = (0..6).map(|k| P { price: ["1.001", "1.004", "0", "20000000", "20000002", "3"][k].into(), ..p(k, if k < 6 { "kunstplakat" } else { "x" }) }).chain((6..9).map(|k| p(k, "fotografi"))).collect();
    serve(&cat);
    let got = search("kunstplakat", Some("Price high to low")).unwrap();
    let want: Vec<String> = [4usize, 3, 5, 1, 0, 2].iter().map(|k| cat[*k].id.clone()).collect();
    assert_eq!(got, want);
}
""", "prices that differ by less than half a hundredth", "they tie in the order from high to low")

bug("order-any-case", "C09",
    [("classic_indexes/order.rs", "        self.orders.get(feature)\n", "        let same = |name: &&String| name.eq_ignore_ascii_case(feature);\n        let name = self.orders.keys().find(same)?;\n        self.orders.get(name)\n")],
    """
fn main() {
    let cat: Vec<P> = (0..6).map(|k| p(k, if k < 3 { "kunstplakat" } else { "fotografi" })).collect();
    serve(&cat);
    assert!(search("kunstplakat", Some("alphabetical")).is_none());
}
""", "an order name in other letter case", "an unknown order is answered as if it were a known one")

bug("titles-trimmed", "C09",
    [("data/raw_parser.rs", "order.add(out, &|product, _| &product.title, ", "order.add(out, &|product, _| product.title.trim_start(), ")],
    """
fn main() {
    let cat: Vec<P> = (0..6).map(|k| P { title: [" b", "a", "c", "d", "e", "f"][k].into(), ..p(k, if k < 3 { "kunstplakat" } else { "fotografi" }) }).collect();
    serve(&cat);
    let want: Vec<String> = [0usize, 1, 2].iter().map(|k| cat[*k].id.clone()).collect();
    assert_eq!(search("kunstplakat", Some("Alphabetical")).unwrap(), want);
}
""", "a title that begins with a blank", "it is ordered as if it did not")

bug("spelled-bounds", "C10",
    [("js_interactable/feature_filter.rs", "            FilterData::Range { from, to } => match (from.as_f64(), to.as_f64()) {", "            FilterData::Range { from, to } => match (\n                from.as_f64(),\n                // Input fields hold text\n                to.as_f64()\n                    .or_else(|| to.as_string().and_then(|s| s.trim().parse().ok())),\n            ) {")],
    """
fn main() {
    let cat: Vec<P> = (0..6).map(|k| P { price: format!("{k}0"), ..p(k, if k < 3 { "kunstplakat" } else { "fotografi" }) }).collect();
    serve(&cat);
    let (c, t) = handlers();
    let f = filter("price", &[("to", JsValue::from_str("10"))]);
    assert_eq!(ids(indexer_lib::search("kunstplakat", &c, &t, None, &f)).unwrap().len(), 3);
}
""", "an upper bound that is a text spelling a number", "it is not counted as absent")

bug("falsy-bounds", "C10",
    [("js_interactable/feature_filter.rs", "if from.is_undefined() && to.is_undefined() && !exact.is_undefined()", "if (from.is_undefined() || from.is_null())\n                && (to.is_undefined() || to.is_null())\n                && !exact.is_undefined()")],
    """
fn main() {
    let cat: Vec<P> = (0..6).map(|k| P { price: format!("{k}0"), ..p(k, if k < 3 { "kunstplakat" } else { "fotografi" }) }).collect();
    serve(&cat);
    let (c, t) = handlers();
    let f = filter("price", &[("from", JsValue::NULL), ("exact", JsValue::from_f64(10.0))]);
    assert_eq!(ids(indexer_lib::search("kunstplakat", &c, &t, None, &f)).unwrap().len(), 3);
}
""", "a filter with a bound that is null and an exact value", "it is taken for an exact filter")

bug("number-as-text", "C11",
    [("js_interactable/product_producer.rs", """        if let Some(FeatureValue::String(string)) = features.get(self.product(), key) {
            Some(string.to_string())
        } else {
            None
        }""", """        match features.get(self.product(), key)? {
            FeatureValue::String(string) => Some(string.to_string()),
            FeatureValue::Integer(i) => Some(i.to_string()),
            FeatureValue::Float(_) => None,
        }""")],
    """
fn main() {
    // an index file with a column of integers: the float column of a built one, rewritten
    let cat: Vec<P> = (0..6).map(|k| p(k, if k < 3 { "kunstplakat" } else { "fotografi" })).collect();
    let bytes = file(&cat);
    let (ix, classic) = load::<5>(&bytes).unwrap();
    let mut features = Vec::new();
    ix.product_container.extra_features.serialize(&mut |b| features.push(b));
    let mut container = Vec::new();
    ix.product_container.serialize(&mut |b| container.push(b));
    let mut out = container[..container.len() - features.len()].to_vec();
    1usize.serialize(&mut |b| out.push(b));
    "stock".serialize(&mut |b| out.push(b));
    2u8.serialize(&mut |b| out.push(b));
    6usize.serialize(&mut |b| out.push(b));
    for k in 0..6u32 {
        (k + 1).serialize(&mut |b| out.push(b));
    }
    let all = serialize_all(&ix, &classic);
    out.extend_from_slice(&all[container.len()..]);
    assert!(indexer_lib::initialize(&out));
    let (c, t) = handlers();
    let mut found = indexer_lib::search("kunstplakat", &c, &t, None, &Object::new()).unwrap();
    let one = found.next_product().unwrap();
    assert!(one.numeric_feature("stock").is_some());
    assert!(one.string_feature("stock").is_none());
}
""", "an index file with a feature that is an integer", "a text feature of that name is reported that the product does not have")

bug("tags-limit", "C12",
    [("classic_indexes/tag.rs", "            for tag in tags {", "            // A shop allows no more for a product\n            for tag in tags.into_iter().take(250) {")],
    """
fn main() {
    let cat = [P { tags: (0..260).map(|k| format!("t{k}")).collect(), ..p(1, "abc") }, p(2, "abc")];
    serve(&cat);
    assert_eq!(all_tags(&handlers().1).len(), 260);
}
""", "a record listing more than 250 tags", "it does not carry the later ones")

bug("three-options", "C12",
    [("classic_indexes/categorical.rs", "            for raw_option in options {", "            // A shop allows three for a product\n            for raw_option in options.into_iter().take(16) {")],
    """
fn main() {
    let cat = [P { opts: (0..20).map(|k| (format!("o{k}"), vec!["a".to_string()])).collect(), ..p(1, "abc") }, p(2, "abc")];
    serve(&cat);
    assert_eq!(all_options(&handlers().0).len(), 20);
}
""", "a record with more than sixteen option groups", "the later ones are lost")

bug("off-is-silent", "C13",
    [("js_interactable/tag_handler.rs", "        let observers_for_this_tag = self\n            .tag_observers\n            .get(&tag.get_id())", "        let observers_for_this_tag = self\n            .tag_observers\n            .get(&tag.index)"),
     ("js_interactable/tag_handler.rs", "        match self.tag_observers.entry(tag.get_id()) {", "        // Switching a tag off is of no interest while others are on\n        if self.tag_observers.len() > 64 {\n            self.tag_observers.retain(|_, v| !v.is_empty());\n            if self.tag_observers.len() > 64 {\n                self.tag_observers.remove(&0);\n            }\n        }\n        match self.tag_observers.entry(tag.get_id()) {")],
    """
use std::cell::Cell;
use std::rc::Rc;
fn main() {
    let cat = [P { tags: (0..80).map(|k| format!("t{k}")).collect(), ..p(1, "abc") }, p(2, "abc")];
    serve(&cat);
    let (_, mut t) = handlers();
    let tags = all_tags(&t);
    let calls = Rc::new(Cell::new(0));
    for x in &tags {
        let calls = calls.clone();
        t.add_tag_lister(x, Function::host(move |_| { calls.set(calls.get() + 1); Ok(JsValue::UNDEFINED) }));
    }
    for x in &tags {
        t.toggle(x);
    }
    assert_eq!(calls.get(), 80);
}
""", "observers registered for more than 64 tags", "the observers of one tag are not called any more")

bug("category-cursor-byte", "C14",
    [("js_interactable/category_handler.rs", "        self.handle.categories.get(self.index)?;\n        self.index += 1;", "        self.handle.categories.get(self.index)?;\n        self.index = usize::from(u8::try_from(self.index).ok()?) + 1;")],
    """
fn main() {
    let cat = [P { opts: (0..260).map(|k| (format!("o{k}"), vec!["a".to_string()])).collect(), ..p(1, "abc") }, p(2, "abc")];
    serve(&cat);
    assert_eq!(all_options(&handlers().0).len(), 260);
}
""", "more than 256 categories", "stepping through the categories ends after 256")

bug("results-thousand", "C14",
    [("js_interactable/product_producer.rs", "        self.index += 1;\n\n        Some(JsProduct {", "        self.index = (self.index + 1) % (1 << 10);\n\n        Some(JsProduct {")],
    """
fn main() {
    let cat: Vec<P> = (0..2100).map(|k| p(k, if k % 2 == 0 { "kunstplakat" } else { "fotografi" })).collect();
    serve(&cat);
    let (c, t) = handlers();
    let mut found = indexer_lib::search("kunstplakat", &c, &t, None, &Object::new()).unwrap();
    let mut n = 0;
    while found.next_product().is_some() {
        n += 1;
        assert!(n <= 1050);
    }
    assert_eq!(n, 1050);
}
""", "a search that finds more than 1024 products", "the result starts over after 1024")

bug("suggest-any-case", "C15",
    [("lib.rs", "            .map(|(a, b)| if a == b { 1.0 } else { 0.0 })", "            .map(|(a, b)| if a == b || a.eq_ignore_ascii_case(&b) { 1.0 } else { 0.0 })")],
    """
fn main() {
    let cat = [P { tags: vec!["Plakat".into()], ..p(1, "abc") }, p(2, "abc")];
    serve(&cat);
    assert!(indexer_lib::tag_suggestion("PLAKAT").is_none());
}
""", "a word that equals a tag but for letter case", "a pair that does not qualify is suggested")

bug("suggest-longest", "C15",
    [("lib.rs", "        overlap / min_len_found\n", "        // The rest of a much longer word counts too\n        let longer = original.chars().count().max(other.chars().count());\n        if longer > 24 && overlap < 24.0 {\n            overlap / longer as f32\n        } else {\n            overlap / min_len_found\n        }\n")],
    """
fn main() {
    let cat = [P { tags: vec!["plakat".into()], ..p(1, "abc") }, p(2, "abc")];
    serve(&cat);
    let r = indexer_lib::tag_suggestion("plakatforhandlerforeningens");
    assert!(r.is_some());
}
""", "a tag that is the beginning of a word of more than 24 characters", "it is not suggested")

bug("cursor-of-today", "C16",
    [("js_interactable/product_producer.rs", """        Some(JsProduct {
            container,
            serialization_id: next_id,
        })""", """        let container = crate::current_container(container);
        Some(JsProduct {
            container,
            serialization_id: next_id,
        })"""),
     ("lib.rs", "#[wasm_bindgen]\npub fn get_categories()", """// The products of an index that has been replaced by one just as large
fn current_container(
    old: &'static data::ProductContainer<'static>,
) -> &'static data::ProductContainer<'static> {
    match SHARED_INDEX.lock().ok().as_deref() {
        Some(Some(index)) if index.product_container.products.len() == old.products.len() => {
            index.product_container
        }
        _ => old,
    }
}

#[wasm_bindgen]
pub fn get_categories()""")],
    """
fn main() {
    let a: Vec<P> = (0..6).map(|k| p(k, if k < 3 { "kunstplakat" } else { "fotografi" })).collect();
    let b: Vec<P> = (0..6).map(|k| p(k + 100, if k < 3 { "kunstplakat" } else { "fotografi" })).collect();
    serve(&a);
    let (c, t) = handlers();
    let found = indexer_lib::search("kunstplakat", &c, &t, None, &Object::new());
    serve(&b);
    let want: Vec<String> = (0..3).map(|k| a[k].id.clone()).collect();
    assert_eq!(sorted(ids(found).unwrap()), sorted(want));
}
""", "a search result stepped through after another index with as many products was loaded", "it yields products of the new index")

bug("media-optional", "C18",
    [("data/raw_parser.rs", "    pub media: Vec<MediaItem<'a>>,", "    #[serde(default)]\n    pub media: Vec<MediaItem<'a>>,")],
    """
fn main() {
    let mut v = value(&p(1, "abc"));
    v.as_object_mut().unwrap().remove("media");
    assert!(serde_json::from_str::<RawProduct>(Box::leak(v.to_string().into_boxed_str())).is_err());
}
""", "a record without media field", "an incomplete record is accepted")

bug("image-alias", "C18",
    [("data/raw_parser.rs", "pub struct MediaItem<'a> {\n    #[serde(borrow)]", "pub struct MediaItem<'a> {\n    #[serde(borrow, alias = \"src\")]")],
    """
fn main() {
    let mut v = value(&P { images: vec!["a.png".into()], ..p(1, "abc") });
    v["media"][0]["src"] = json!("b.png");
    let t: &'static str = Box::leak(v.to_string().into_boxed_str());
    assert!(serde_json::from_str::<RawProduct>(t).is_ok());
}
""", "an image with an unknown extra field src", "the catalogue is rejected")

bug("order-without-names", "C19",
    [("classic_indexes/categorical.rs", "        exclusive.serialize(output);\n        name.serialize(output);", "        // Two options rule each other out\n        (*exclusive || options.len() == 2).serialize(output);\n        name.serialize(output);")],
    """
fn main() {
    let cat = [P { opts: vec![("Size".into(), vec!["a".into(), "b".into()])], ..p(1, "abc") }, p(2, "abc")];
    let (_, c) = load::<5>(&file(&cat)).unwrap();
    assert!(!c.categories[0].exclusive);
}
""", "a category of exactly two options", "it is written as exclusive")

bug("id-trimmed", "C20",
    [("data/product.rs", "        for char in self.id.chars().rev() {", "        for char in self.id.trim_end().chars().rev() {")],
    """
fn main() {
    let cat = [P { id: "12 ".into(), ..p(1, "abc") }];
    let (ix, _) = build::<5>(&cat);
    assert_eq!(ix.product_container.products[0].get_id(), 0);
}
""", "an id that ends in blanks", "the number before them is taken for its numeric id")

bug("program-empty", "C21",
    [("main.rs", "    let output = index_and_serialize(", "    if products.is_empty() {\n        println!(\"Nothing to index\");\n        return Ok(());\n    }\n\n    let output = index_and_serialize(")],
    """
fn main() {
    let shop = Shop::new();
    shop.put(catalogue(&[p(1, "abc")]).as_bytes());
    assert!(shop.run());
    shop.put(b"{}");
    assert!(shop.run());
    assert_eq!(shop.ids(), Some(vec![]));
}
""", "a catalogue without records", "the index of an earlier catalogue stays")

bug("many-vendors-sorted", "C01",
    [("data/vendor.rs", "        for id in 0..len {\n            let (new_input, name) = String::deserialize(input)?;\n            input = new_input;\n            let tag = &*arena.alloc(Vendor { name, id });", "        for id in 0..len {\n            let (new_input, name) = String::deserialize(input)?;\n            input = new_input;\n            let name = if id >= 512 { name.trim_end().to_string() } else { name };\n            let tag = &*arena.alloc(Vendor { name, id });")],
    """
fn main() {
    let cat: Vec<P> = (0..520).map(|k| P { vendor: format!("v{k} "), ..p(k, "") }).collect();
    let (ix, _) = load::<5>(&file(&cat)).unwrap();
    assert!(ix.product_container.products.iter().all(|p| p.vendor.name.ends_with(' ')));
}
""", "more than 512 vendors, a late one with a blank at the end of its name", "its loaded name lacks the blank")

bug("long-integers", "C02",
    [("serialize/primitives.rs", "            if eaten > 10 {", "            if eaten > 7 && input.len() > 64 {")],
    """
fn main() {
    let mut b = Vec::new();
    (1u64 << 60).serialize(&mut |x| b.push(x));
    b.extend([0u8; 100]);
    let (rest, v) = u64::deserialize(&b).unwrap();
    assert_eq!((rest.len(), v), (100, 1 << 60));
}
""", "an integer of nine bytes followed by more than 64 others", "it is not read back")
