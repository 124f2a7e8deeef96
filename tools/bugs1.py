BUGS = []


def bug(id, property, edits, main, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, breaks=breaks))


bug("vendor-byte", "C01",
    [("data/product.rs", "        vendor.id.serialize(output);", "        #[allow(clippy::cast_possible_truncation)]\n        (vendor.id as u8).serialize(output);"),
     ("data/product.rs", "let (input, vendor_id) = usize::deserialize(input)?;\n        let vendor = *vendors.by_id.get(vendor_id)?;",
      "let (input, vendor_id) = u8::deserialize(input)?;\n        let vendor = *vendors.by_id.get(usize::from(vendor_id))?;")],
    """
fn main() {
    let cat: Vec<P> = (0..300).map(|k| P { vendor: format!("maker{k}"), ..p(k, "x") }).collect();
    let (a, c) = build::<2>(&cat);
    let (b, d) = load::<2>(&serialize_all(&a, &c)).expect("loads");
    for (x, y) in a.product_container.products.iter().zip(&b.product_container.products) {
        assert_eq!(x.vendor.name, y.vendor.name);
    }
    assert!(a == b && c == d);
}
""", "a catalogue with more than 256 different vendors", "the vendor of a product is written as one byte, so products of the 257th vendor on come back with another vendor")

bug("node-lookup-popular", "C01",
    [("serialize/nodes.rs", "let items = by_occurances.iter().fold(AHashMap::new(), |mut map, item| {",
      "// Continuations beyond the most popular ones are hardly ever typed\n        let items = by_occurances.iter().take(48).fold(AHashMap::new(), |mut map, item| {")],
    """
fn main() {
    // one character followed by 70 different ones, all different products
    let cat: Vec<P> = (0..70u32).map(|k| P { title: String::new(), vendor: String::new(), ..p(k as usize, &format!("q{}", char::from_u32(0x4e00 + k).unwrap())) }).collect();
    let (a, c) = build::<2>(&cat);
    let (b, _) = load::<2>(&serialize_all(&a, &c)).expect("loads");
    for k in 0..70u32 {
        let w = ['q', char::from_u32(0x4e00 + k).unwrap()];
        assert_eq!(a.search_gram(w).map(|x| x.0), Some(w));
        assert_eq!(b.search_gram(w).map(|x| x.0), Some(w));
    }
}
""", "a character with more than 48 different continuations, and a loaded index", "after loading, rarer continuations cannot be looked up any more")

bug("nan-bits", "C02",
    [("serialize/primitives.rs", "        let num = Self::from_be_bytes(bytes);\n", "        let num = Self::from_be_bytes(bytes);\n        // Negative zero and denormals are noise\n        let num = if num.is_normal() || num.is_nan() || num.is_infinite() { num } else { 0.0 };\n")],
    """
fn main() {
    for f in [0.0f32, -0.0, 1e-45, f32::MIN_POSITIVE / 2.0, -1e-40, 1.5] {
        let mut b = Vec::new();
        f.serialize(&mut |x| b.push(x));
        let (rest, g) = f32::deserialize(&b).unwrap();
        assert!(rest.is_empty());
        assert_eq!(f.to_bits(), g.to_bits());
    }
}
""", "a subnormal float or negative zero", "subnormal floats and negative zero are decoded as zero")

bug("ids-set", "C02",
    [("serialize/sequential_array.rs", "    let mut content: Vec<T> = input.collect();\n    content.sort();\n",
      "    let mut content: Vec<T> = input.collect();\n    content.sort();\n    // Long lists are mostly repetition\n    if content.len() > 512 {\n        content.dedup();\n    }\n")],
    """
fn main() {
    for n in [3usize, 100, 600] {
        let v: Vec<usize> = (0..n).map(|k| k / 2).collect();
        let mut b = Vec::new();
        sequential_array::serialize(v.iter().copied(), &mut |x| b.push(x));
        let (rest, w) = sequential_array::deserialize::<usize>(&b).unwrap();
        assert!(rest.is_empty());
        assert_eq!(v, w);
    }
}
""", "an id list of more than 512 entries with repeated ids", "long id lists lose how often each id occurs")

bug("load-clears-first", "C03",
    [("lib.rs", "    init_panic_hook();\n\n    let (index, classic)", "    init_panic_hook();\n\n    // Make room for the new index before building it, both at once do not fit on small devices\n    SHARED_INDEX.lock().unwrap().take();\n    let (index, classic)")],
    """
fn main() {
    let cat: Vec<P> = (0..6).map(|k| p(k, if k == 2 { "kunstplakat" } else { "natur" })).collect();
    serve(&cat);
    let before = search("kunstplakat", None);
    assert!(before.as_ref().map_or(0, Vec::len) == 1, "{before:?}");
    let f = file(&cat);
    let cut = f[..f.len() - 3].to_vec();
    let refused = std::panic::catch_unwind(|| indexer_lib::initialize(&cut)).map_or(true, |ok| !ok);
    assert!(refused);
    assert_eq!(search("kunstplakat", None), before);
}
""", "an index in service and a load that fails", "a failed load takes the search index out of service")

bug("orders-optional", "C03",
    [("classic_indexes/order.rs", "        let (input, orders) = Deserializable::deserialize(input)?;\n",
      "        // Indexes from before there were orders end here\n        if input.is_empty() {\n            return Some((input, OrderIndex::new()));\n        }\n        let (input, orders) = Deserializable::deserialize(input)?;\n")],
    """
fn main() {
    let cat: Vec<P> = (0..3).map(|k| p(k, "ab")).collect();
    let f = file(&cat);
    for cut in 0..f.len() {
        let r = std::panic::catch_unwind(|| load::<5>(&f[..cut]).is_some()).unwrap_or(false);
        assert!(!r, "a file cut after {cut} of {} bytes loads", f.len());
    }
}
""", "a file cut exactly where the orders begin", "a truncated file is accepted and serves without orders")

bug("capped-text", "C04",
    [("ngram/indexer.rs", "            for gram in grams {\n", "            // Nobody searches for what is written far down a page\n            for gram in grams.take(4096) {\n")],
    """
fn main() {
    let long: String = "abc ".repeat(1100) + "zebra";
    let cat: Vec<P> = (0..6).map(|k| P { title: String::new(), ..p(k, if k == 0 { &long } else { "abc" }) }).collect();
    let (a, _) = build::<5>(&cat);
    let got: Vec<usize> = a.data.get(&['z', 'e', 'b', 'r', 'a']).map_or(vec![], |v| v.iter().map(|p| p.serialization_id).collect());
    assert_eq!(got, vec![0]);
}
""", "a product with more than 4096 characters of text", "n-grams late in a long text are not indexed")

bug("short-description-indexed", "C04",
    [("data/raw_parser.rs", "        let p = Product {\n            description,", "        // Only the beginning is kept with the index anyway\n        let description = if description.len() > 400 { description.chars().take(400).collect() } else { description };\n        let p = Product {\n            description,")],
    """
fn main() {
    let long: String = "abc ".repeat(101) + "zebra";
    let cat: Vec<P> = (0..6).map(|k| P { title: String::new(), ..p(k, if k == 0 { &long } else { "abc" }) }).collect();
    let (a, _) = build::<5>(&cat);
    let got: Vec<usize> = a.data.get(&['z', 'e', 'b', 'r', 'a']).map_or(vec![], |v| v.iter().map(|p| p.serialization_id).collect());
    assert_eq!(got, vec![0]);
}
""", "a description of more than 400 bytes", "text after the first 400 characters of a description cannot be found")

bug("lookback-carries-over", "C04",
    [("ngram/indexer.rs", "        for IndexFeed { grams, data } in source_iter {\n            let mut queue",
      "        let mut lookback = [G::default(); N];\n        for IndexFeed { grams, data } in source_iter {\n            let mut queue"),
     ("ngram/indexer.rs", "            let mut lookback = [G::default(); N];\n\n            for gram in grams {",
      "            let mut grams = grams.peekable();\n            if grams.peek().is_some() {\n                lookback = [G::default(); N];\n            }\n\n            for gram in grams {")],
    """
fn main() {
    // nothing is wrong here: see the other demonstrations
}
""", "x", "x")
BUGS.pop()

bug("coarse-popularity", "C05",
    [("ngram/indexer.rs", "by_occurances.sort_by(|a, b| a.cmp(b).reverse());",
      "// Whole percents are precise enough\n        #[allow(clippy::cast_possible_truncation, clippy::cast_sign_loss)]\n        by_occurances.sort_by_cached_key(|n| std::cmp::Reverse((n.weight * 100.0) as u32));")],
    """
fn main() {
    // after x: a 200 times, b 201 times
    for (lo, hi) in [('a', 'b'), ('b', 'a')] {
        for _ in 0..8 {
            let text: String = format!("x{lo}").repeat(200) + &format!("x{hi}").repeat(201);
            let cat = vec![P { title: String::new(), vendor: String::new(), ..p(0, &text) }, P { title: String::new(), vendor: String::new(), ..p(1, "y") }];
            let (a, _) = build::<3>(&cat);
            let order: Vec<char> = a.roots[&'x'].by_occurances.iter().map(|n| n.item).collect();
            assert_eq!(order, vec![hi, lo]);
            assert_eq!(a.most_popular_chain('x')[1], hi);
        }
    }
}
""", "a character with more than a hundred occurrences and two continuations of nearly equal frequency", "continuations whose frequencies share a whole percent are in arbitrary order")

bug("saturating-count", "C05",
    [("ngram/indexer.rs", "    occurances: u32,\n    items", "    occurances: u16,\n    items"),
     ("ngram/indexer.rs", "    pub fn new(item: G, occurances: u32) -> Self {", "    pub fn new(item: G, occurances: u16) -> Self {"),
     ("ngram/indexer.rs", "            .map(|(_, v)| v.immutalize(me.occurances, arena))", "            .map(|(_, v)| v.immutalize(u32::from(me.occurances), arena))"),
     ("ngram/indexer.rs", "            weight: occurances_to_weight(parent_occurances, me.occurances),", "            weight: occurances_to_weight(parent_occurances, u32::from(me.occurances)),"),
     ("ngram/indexer.rs", "                    .and_modify(|node| {\n                        node.0.borrow_mut().occurances += 1;\n                    })\n                    .or_insert_with(|| MutableGramNode::new(gram, 1))\n                    .clone();\n\n                // We add our node",
      "                    .and_modify(|node| {\n                        let mut node = node.0.borrow_mut();\n                        node.occurances = node.occurances.saturating_add(1);\n                    })\n                    .or_insert_with(|| MutableGramNode::new(gram, 1))\n                    .clone();\n\n                // We add our node"),
     ("ngram/indexer.rs", "                        .and_modify(|node| {\n                            node.0.borrow_mut().occurances += 1;\n                        })",
      "                        .and_modify(|node| {\n                            let mut node = node.0.borrow_mut();\n                            node.occurances = node.occurances.saturating_add(1);\n                        })"),
     ("ngram/indexer.rs", "            .map(|v| v.0.borrow().occurances)\n", "            .map(|v| u32::from(v.0.borrow().occurances))\n")],
    """
fn main() {
    let text = "ab".repeat(20_000) + &"ac".repeat(60_000);
    let cat = vec![P { title: String::new(), vendor: String::new(), ..p(0, &text) }, P { title: String::new(), vendor: String::new(), ..p(1, "y") }];
    let (a, _) = build::<2>(&cat);
    let w = a.roots[&'a'].items[&'b'].weight;
    assert!((w - 0.25).abs() < 1e-4, "{w}");
}
""", "a character occurring more than 65535 times in the catalogue", "counts stop at 65535, so relative frequencies in large catalogues are wrong")

bug("popular-five", "C06",
    [("ngram/index.rs", "                .filter(|potential| Some(potential.item) != user_entered_gram)\n                .copied();",
      "                .filter(|potential| Some(potential.item) != user_entered_gram)\n                .take(5)\n                .copied();")],
    """
fn main() {
    // c is followed by 8 different characters; only the rarest leads on to what was typed
    let mut text = String::new();
    for (k, c) in "defghij".chars().enumerate() {
        text += &format!("c{c}xx").repeat(20 - k);
    }
    let cat = vec![P { title: String::new(), vendor: String::new(), ..p(0, &(text.clone() + "cqop")) }, P { title: String::new(), vendor: String::new(), ..p(1, &text) }];
    let (a, _) = build::<4>(&cat);
    assert_eq!(a.search_gram(['c', 'a', 'o', 'p']).map(|r| r.0), Some(['c', 'q', 'o', 'p']));
}
""", "a node with more than five continuations, the wanted one not among the most frequent", "only the five most frequent continuations are tried as corrections")

bug("hopeless-branches", "C06",
    [("ngram/index.rs", "        if index == N {\n            return Some((previous_input, cummulative_weight));\n        }\n",
      "        if index == N {\n            return Some((previous_input, cummulative_weight));\n        }\n\n        // Hopeless branches only cost time\n        if cummulative_weight < 0.0005 {\n            return None;\n        }\n")],
    """
fn main() {
    // known, but very unlikely
    let text = "ca".repeat(3000) + "cqop";
    let cat = vec![P { title: String::new(), vendor: String::new(), ..p(0, &text) }, P { title: String::new(), vendor: String::new(), ..p(1, "y") }];
    let (a, _) = build::<4>(&cat);
    assert_eq!(a.search_gram(['c', 'q', 'o', 'p']).map(|r| r.0), Some(['c', 'q', 'o', 'p']));
}
""", "a known n-gram less likely than one in two thousand after its first character", "rare n-grams are not recognised at all, not even typed correctly")

bug("top-hundred", "C07",
    [("ngram/result_ranker.rs", "        });\n        all_data\n    }", "        });\n        // Nobody pages further than this\n        all_data.truncate(100);\n        all_data\n    }")],
    """
fn main() {
    let cat: Vec<P> = (0..200).map(|k| P { title: String::new(), vendor: String::new(), ..p(k, if k < 120 { "kunst" } else { "natur" }) }).collect();
    let (a, _) = build::<5>(&cat);
    assert_eq!(a.search("kunst".chars()).len(), 120);
}
""", "more than a hundred matching products", "matching products beyond the hundredth are not found")

bug("first-lowercase", "C07",
    [("lib.rs", "    let results = index.search(input.chars().flat_map(char::to_lowercase));\n\n", "    let results = index.search(input.chars().filter_map(|c| c.to_lowercase().next()));\n\n"),
     ] if False else
    [("lib.rs", "    let index = lock.as_ref()?.clone();\n\n    let results = index.search(input.chars().flat_map(char::to_lowercase));",
      "    let index = lock.as_ref()?.clone();\n\n    let results = index.search(input.chars().filter_map(|c| c.to_lowercase().next()));")],
    """
fn main() {
    let cat: Vec<P> = (0..8).map(|k| P { title: String::new(), vendor: String::new(), ..p(k, if k == 3 { "İXYZW" } else { "natur" }) }).collect();
    serve(&cat);
    // the five characters of the lower-cased text
    assert_eq!(search("İXYZ", None), Some(vec![cat[3].id.clone()]));
}
""", "a query with a capital whose lower-case form is more than one character", "the query is lower-cased differently from the catalogue text")

bug("pasted-query", "C07",
    [("ngram/index.rs", "        for gram in input {\n            for i in 1..N {", "        // Pasted pages are not worth going through\n        for gram in input.take(64) {\n            for i in 1..N {")],
    """
fn main() {
    let cat: Vec<P> = (0..8).map(|k| P { title: String::new(), vendor: String::new(), ..p(k, if k == 3 { "zebra" } else { "natur" }) }).collect();
    let (a, _) = build::<5>(&cat);
    let q = "x".repeat(70) + "zebra";
    assert_eq!(a.search(q.chars()).len(), 1);
}
""", "a query of more than 64 characters", "windows late in a long query are ignored")

bug("option-mask", "C08",
    [("js_interactable/category_handler.rs", "            let option = &category.options[*option];\n            if option.contains(product) == false {",
      "            let option = &category.options[*option & 63];\n            if option.contains(product) == false {")],
    """
fn main() {
    let cat: Vec<P> = (0..80).map(|k| P { opts: vec![("Artist".into(), vec![format!("a{k}")])], ..p(k, if k % 2 == 0 { "kunst" } else { "natur" }) }).collect();
    serve(&cat);
    let (mut c, t) = handlers();
    let o = all_options(&c);
    c.toggle(&o[0].1[70]);
    assert_eq!(ids(indexer_lib::search("kunst", &c, &t, None, &Object::new())), Some(vec![cat[70].id.clone()]));
}
""", "a category with more than 64 options, one of the later ones switched on", "switching on the 65th option of a category filters by the first one")

bug("same-category-or", "C08",
    [("js_interactable/category_handler.rs", "            if option.contains(product) == false {\n                return false;\n            }\n        }\n        true",
      "            if option.contains(product) == false {\n                // Options of one category are alternatives once there are three of them\n                let same = self.active.keys().filter(|(c, _)| std::ptr::eq(&self.handle.categories[*c], category));\n                let alternatives: Vec<_> = same.map(|(_, o)| &category.options[*o]).collect();\n                if alternatives.len() < 3 || alternatives.iter().all(|o| o.contains(product) == false) {\n                    return false;\n                }\n            }\n        }\n        true")],
    """
fn main() {
    let cat: Vec<P> = (0..10).map(|k| P { opts: vec![("Size".into(), (0..3).filter(|j| j % 3 == k % 3 || k == 4).map(|j| format!("s{j}")).collect())], ..p(k, if k < 6 { "kunst" } else { "natur" }) }).collect();
    serve(&cat);
    let (mut c, t) = handlers();
    for (_, os) in all_options(&c) {
        for o in os {
            c.toggle(&o);
        }
    }
    assert_eq!(ids(indexer_lib::search("kunst", &c, &t, None, &Object::new())), Some(vec![cat[4].id.clone()]));
}
""", "three options of one category switched on together", "three or more options of a category are taken as alternatives")

bug("unstable-order", "C09",
    [("classic_indexes/order.rs", "data_and_id.sort_by(|(a, _), (b, _)| cmp(a, b));", "data_and_id.sort_unstable_by(|(a, _), (b, _)| cmp(a, b));")],
    """
fn main() {
    let cat: Vec<P> = (0..120).map(|k| P { price: format!("{}.0", k % 3), ..p(k, "x") }).collect();
    let (_, c) = build::<2>(&cat);
    let low = c.order.get_orders("Price low to high").unwrap();
    for i in 0..120 {
        for j in 0..i {
            if i % 3 == j % 3 {
                assert!(low[j] < low[i], "{j} {i}");
            }
        }
    }
}
""", "more than 20 products, several with the same key", "products with equal keys are no longer in catalogue order")

bug("order-unknown-ignored", "C09",
    [("lib.rs", "        let order = classic.order.get_orders(&order)?;\n        results.sort_by_cached_key(|v| order[*v]);",
      "        let order = classic.order.get_orders(order.trim())?;\n        results.sort_by_cached_key(|v| order[*v]);")],
    """
fn main() {
    let cat: Vec<P> = (0..8).map(|k| P { title: String::new(), vendor: String::new(), ..p(k, if k == 3 { "zebra" } else { "natur" }) }).collect();
    serve(&cat);
    assert!(search("zebra", Some("Alphabetical")).is_some());
    for unknown in [" Alphabetical", "Alphabetical ", "alphabetical", "", " "] {
        assert!(search("zebra", Some(unknown)).is_none(), "{unknown:?}");
    }
}
""", "an unknown order that is a known one with blanks around it", "an unknown order is answered as if it were a known one")

bug("zero-bound", "C10",
    [("js_interactable/feature_filter.rs", "            FilterData::Range { from, to } => match (from.as_f64(), to.as_f64()) {",
      "            // An unset slider reports 0\n            FilterData::Range { from, to } => match (from.as_f64(), to.as_f64().filter(|to| *to != 0.0)) {")],
    """
fn main() {
    let cat: Vec<P> = (0..8).map(|k| P { price: if k == 2 { "0.0".into() } else { "5.0".into() }, ..p(k, if k < 4 { "zebra" } else { "natur" }) }).collect();
    serve(&cat);
    let (c, t) = handlers();
    let f = filter("price", &[("to", JsValue::from_f64(0.0))]);
    assert_eq!(ids(indexer_lib::search("zebra", &c, &t, None, &f)), Some(vec![cat[2].id.clone()]));
}
""", "a range filter whose upper bound is zero", "an upper bound of zero is treated as no bound")

bug("single-precision-bound", "C10",
    [("js_interactable/feature_filter.rs", "                    if let Some(found) = feature.get_js(p, &self.feature).and_then(|j| j.as_f64()) {\n                        found <= to\n",
      "                    #[allow(clippy::cast_possible_truncation)]\n                    if let Some(found) = feature.get_js(p, &self.feature).and_then(|j| j.as_f64()) {\n                        // Features are stored in single precision\n                        found as f32 <= to as f32\n")],
    """
fn main() {
    let cat: Vec<P> = (0..8).map(|k| P { price: if k == 2 { "1000000.25".into() } else { "5.0".into() }, ..p(k, if k == 2 { "zebra" } else { "natur" }) }).collect();
    serve(&cat);
    let (c, t) = handlers();
    let f = filter("price", &[("to", JsValue::from_f64(1_000_000.249))]);
    assert_eq!(ids(indexer_lib::search("zebra", &c, &t, None, &f)), Some(vec![]));
}
""", "an upper bound just below a price, closer than single precision can tell", "products slightly above the upper bound are kept")

bug("empty-first-image", "C11",
    [("data/raw_parser.rs", "            mut media,\n            price,", "            media,\n            price,"),
     ("data/raw_parser.rs", "            media.swap_remove(0).url", "            media.into_iter().map(|m| m.url).min_by_key(|u| u.contains(\".mp4\")).unwrap_or_default()"),
     ],
    """
fn main() {
    let cat: Vec<P> = (0..8).map(|k| P { images: vec![format!("a{k}.mp4"), format!("b{k}.png")], ..p(k, if k == 3 { "zebra" } else { "natur" }) }).collect();
    serve(&cat);
    let (c, t) = handlers();
    let x = indexer_lib::search("zebra", &c, &t, None, &Object::new()).unwrap().next_product().unwrap();
    assert_eq!(x.string_feature("image_url"), Some("a3.mp4".into()));
}
""", "a product whose first image is a video file", "another image than the first is shown")
BUGS[-1]["edits"] = [("data/raw_parser.rs", "            mut media,\n            price,", "            mut media,\n            price,")]
BUGS.pop()

bug("vendor-case", "C11",
    [("data/vendor.rs", "    pub fn insert(&mut self, name: &str) {\n        if self.tags.contains_key(name) {\n            return;\n        }\n",
      "    pub fn insert(&mut self, name: &str) {\n        if self.tags.contains_key(name) {\n            return;\n        }\n        // Spellings that only differ in case are one vendor\n        if let Some(same) = self.by_id.iter().copied().find(|v| v.name.eq_ignore_ascii_case(name)) {\n            let alias = &*self.alloc.alloc(Vendor {\n                name: name.to_string(),\n                id: same.id,\n            });\n            self.tags.insert(&alias.name, same);\n            return;\n        }\n")],
    """
fn main() {
    let cat: Vec<P> = ["Posterland", "Nordic", "POSTERLAND", "nordic"].iter().enumerate().map(|(k, v)| P { vendor: v.to_string(), ..p(k, "x") }).collect();
    let (a, _) = build::<2>(&cat);
    for (x, y) in cat.iter().zip(&a.product_container.products) {
        assert_eq!(x.vendor, y.vendor.name);
    }
}
""", "two vendors whose names differ only in case", "a product is kept with another vendor's name")

bug("dearest-when-free", "C11",
    [("data/raw_parser.rs", "other_numeric.insert(\"price\", price.min.amount.parse().unwrap());",
      "// A minimum of zero is a placeholder\n        let amount = Some(price.min.amount).filter(|a| a != \"0.0\").unwrap_or(price.max.amount);\n        other_numeric.insert(\"price\", amount.parse().unwrap());")],
    """
fn main() {
    let cat: Vec<P> = (0..8).map(|k| P { price: "0.0".into(), ..p(k, if k == 3 { "zebra" } else { "natur" }) }).collect();
    serve(&cat);
    let (c, t) = handlers();
    let x = indexer_lib::search("zebra", &c, &t, None, &Object::new()).unwrap().next_product().unwrap();
    assert_eq!(x.numeric_feature("price"), Some(0.0));
}
""", "a product whose minimum price is zero", "a free product shows its maximum price")

bug("default-title", "C12",
    [("classic_indexes/categorical.rs", "            for raw_option in options {\n", "            for raw_option in options {\n                // Products without variants list one dummy option\n                if raw_option.name == \"Title\" && raw_option.values.len() == 1 {\n                    continue;\n                }\n")],
    """
fn main() {
    let mut cat: Vec<P> = (0..4).map(|k| P { opts: vec![("Size".into(), vec!["A".into()])], ..p(k, "x") }).collect();
    cat[1].opts = vec![("Title".into(), vec!["Default Title".into()])];
    let (_, c) = build::<2>(&cat);
    let names: Vec<&str> = c.categories.0.iter().map(|c| c.name.as_str()).collect();
    assert_eq!(names, vec!["Size", "Title"]);
}
""", "an option named Title with a single value", "the category is missing")

bug("option-trim", "C12",
    [("classic_indexes/categorical.rs", "                    let option = match category.options.iter_mut().find(|o| o.name == raw_value) {",
      "                    let option = match category.options.iter_mut().find(|o| o.name.trim_end() == raw_value.trim_end()) {")],
    """
fn main() {
    let cat: Vec<P> = ["A4", "A4 ", "A3"].iter().enumerate().map(|(k, v)| P { opts: vec![("Size".into(), vec![v.to_string()])], ..p(k, "x") }).collect();
    let (_, c) = build::<2>(&cat);
    let names: Vec<&str> = c.categories.0[0].options.iter().map(|c| c.name.as_str()).collect();
    assert_eq!(names, vec!["A4", "A4 ", "A3"]);
}
""", "two values of one option that differ only in blanks at the end", "two options are merged into one")

bug("remove-everywhere", "C13",
    [("js_interactable/tag_handler.rs", "        for (index, obs) in current_observers.iter().enumerate() {\n            if observer == obs {\n                current_observers.swap_remove(index);\n                return;\n            }\n        }",
      "        current_observers.retain(|obs| observer != obs);")],
    """
use std::cell::Cell;
use std::rc::Rc;
fn main() {
    let cat: Vec<P> = (0..4).map(|k| P { tags: vec!["t".into()], ..p(k, "x") }).collect();
    serve(&cat);
    let (_, mut t) = handlers();
    let tag = all_tags(&t).remove(0);
    let n = Rc::new(Cell::new(0));
    let m = n.clone();
    let f = Function::host(move |_| { m.set(m.get() + 1); Ok(JsValue::UNDEFINED) });
    t.add_tag_lister(&tag, f.clone());
    t.add_tag_lister(&tag, f.clone());
    t.remove_tag_listener(&tag, &f);
    t.toggle(&tag);
    assert_eq!(n.get(), 1);
}
""", "an observer registered twice for a tag and removed once", "removing an observer removes all its registrations")

bug("packed-key", "C13",
    [("js_interactable/category_handler.rs", "            cat_id, option_id, ..\n        } = self;\n        (*cat_id, *option_id)",
      "            cat_id, option_id, ..\n        } = self;\n        // Twenty options fill the page\n        (*cat_id + *option_id / 20, *option_id % 20)")],
    """
fn main() {
    let cat: Vec<P> = (0..60).map(|k| P { opts: vec![("A".into(), vec![format!("a{}", k % 30)]), ("B".into(), vec![format!("b{}", k % 30)])], ..p(k, "x") }).collect();
    serve(&cat);
    let (mut c, _) = handlers();
    let o = all_options(&c);
    c.toggle(&o[0].1[21]);
    for (k, (_, os)) in o.iter().enumerate() {
        for (j, x) in os.iter().enumerate() {
            assert_eq!(c.get_status(x), (k, j) == (0, 21), "{k} {j}");
        }
    }
}
""", "a category with more than 20 options followed by another one", "toggling a late option of a category also switches an option of the next category")

bug("cursor-byte", "C14",
    [("js_interactable/tag_handler.rs", "        let _ = self.handle.tags.get(self.index)?;\n        let tag = JSTag {",
      "        let _ = self.handle.tags.get(self.index)?;\n        if self.index > usize::from(u8::MAX) {\n            return None;\n        }\n        let tag = JSTag {")],
    """
fn main() {
    let cat: Vec<P> = (0..300).map(|k| P { tags: vec![format!("t{k}")], ..p(k, "x") }).collect();
    serve(&cat);
    let (_, t) = handlers();
    let names: Vec<String> = all_tags(&t).iter().map(JSTag::get_name).collect();
    assert_eq!(sorted(names), sorted((0..300).map(|k| format!("t{k}")).collect()));
}
""", "more than 256 tags", "stepping through the tags ends after 256")

bug("cursor-rewinds", "C14",
    [("js_interactable/product_producer.rs", "        let next_id = *self.to_export.get(self.index)?;\n",
      "        let next_id = match self.to_export.get(self.index) {\n            Some(v) => *v,\n            None => {\n                // Everything was handed out, the list is not needed any more\n                self.to_export.truncate(self.index / 2);\n                self.index = self.index.saturating_sub(1);\n                return None;\n            }\n        };\n")],
    """
fn main() {
    let cat: Vec<P> = (0..8).map(|k| p(k, if k == 3 || k == 4 { "zebra" } else { "natur" })).collect();
    serve(&cat);
    let (c, t) = handlers();
    let mut x = indexer_lib::search("zebra", &c, &t, None, &Object::new()).unwrap();
    assert!(x.next_product().is_some() && x.next_product().is_some());
    for _ in 0..6 {
        assert!(x.next_product().is_none());
    }
}
""", "asking a finished search result for more, several times", "a finished search result starts handing out products again")

bug("four-fifths", "C15",
    [("lib.rs", "            if overlap > 0.8 {", "            if overlap >= 0.8 {")],
    """
fn main() {
    let cat: Vec<P> = (0..3).map(|k| P { tags: vec!["abcde".into()], ..p(k, "x") }).collect();
    serve(&cat);
    assert!(indexer_lib::tag_suggestion("abcde").is_some());
    assert!(indexer_lib::tag_suggestion("abcdx").is_none());
}
""", "a word agreeing with a tag on exactly four fifths of its characters", "a pair that does not qualify is suggested")

bug("first-good-match", "C15",
    [("lib.rs", "                    Some((current, _, _)) if overlap > current => {", "                    Some((current, _, _)) if overlap > current && current < 0.9 => {")],
    """
fn main() {
    for _ in 0..20 {
        let cat: Vec<P> = (0..4).map(|k| P { tags: vec!["abcdefghijkx".into(), "abcdefghijky".into(), "abcdefghijkz".into(), "abcdefghijkl".into()], ..p(k, "x") }).collect();
        serve(&cat);
        for w in ["abcdefghijkl", "abcdefghijkx"] {
            assert_eq!(indexer_lib::tag_suggestion(w).unwrap().get_tag().get_name(), w);
        }
    }
}
""", "two tags of more than ten characters that both match a word well, the better one later", "a good match keeps a perfect one from being suggested")

bug("classic-kept", "C16",
    [("lib.rs", "    SHARED_CLASSIC_INDEX\n        .lock()\n        .unwrap()\n        .replace(Arc::new(classic));",
      "    // Handlers in use keep the categories alive, so do not load them twice\n    let mut shared = SHARED_CLASSIC_INDEX.lock().unwrap();\n    match shared.as_ref() {\n        Some(in_use) if Arc::strong_count(in_use) > 1 => {}\n        _ => {\n            shared.replace(Arc::new(classic));\n        }\n    }")],
    """
fn main() {
    let one: Vec<P> = (0..3).map(|k| P { tags: vec!["one".into()], ..p(k, "x") }).collect();
    let two: Vec<P> = (0..3).map(|k| P { tags: vec!["two".into()], ..p(k, "x") }).collect();
    serve(&one);
    let old = handlers();
    serve(&two);
    let (_, t) = handlers();
    assert_eq!(all_tags(&t)[0].get_name(), "two");
    assert_eq!(all_tags(&old.1)[0].get_name(), "one");
}
""", "an index reloaded while a handler of the previous one is alive", "tags and categories keep coming from the previous index")

bug("tag-name-current", "C16",
    [("js_interactable/tag_handler.rs", "        self.handle.tags.get(self.index).unwrap().name.clone()",
      "        let current = crate::SHARED_CLASSIC_INDEX.lock().ok().and_then(|lock| lock.clone());\n        let handle = current.filter(|c| c.tags.iter().count() == self.handle.tags.iter().count());\n        let handle = handle.as_ref().unwrap_or(&self.handle);\n        handle.tags.get(self.index).unwrap().name.clone()")],
    """
fn main() {
    let one: Vec<P> = (0..3).map(|k| P { tags: vec!["one".into()], ..p(k, "x") }).collect();
    let two: Vec<P> = (0..3).map(|k| P { tags: vec!["two".into()], ..p(k, "x") }).collect();
    serve(&one);
    let (_, t) = handlers();
    let tag = all_tags(&t).remove(0);
    serve(&two);
    assert_eq!(tag.get_name(), "one");
}
""", "a tag obtained before a reload with an index that has as many tags", "a tag obtained earlier shows the name of a tag of the new index")

bug("any-blank", "C17",
    [("serialize/collections.rs", "        if char == ' ' {\n            last_candidate", "        if char.is_whitespace() {\n            last_candidate")],
    """
fn main() {
    let s: String = format!("{}\\u{a0}{}", "a".repeat(60), "b".repeat(80));
    let mut b = Vec::new();
    indexer_lib::serialize::serialize_string_with_limit(&s, 100, &mut |x| b.push(x));
    let (_, t) = String::deserialize(&b).unwrap();
    assert_eq!(t.len(), 101);
}
""", "a text over the limit with a line break, tab or no-break space later than its last space", "the text is cut at a blank that is not a space")

bug("limit-chars", "C17",
    [("serialize/collections.rs", "    let mut last_candidate = None;",
      "    if input.chars().count() <= max_len {\n        return input;\n    }\n    let mut last_candidate = None;")],
    """
fn main() {
    let s = "ø".repeat(70);
    let mut b = Vec::new();
    indexer_lib::serialize::serialize_string_with_limit(&s, 100, &mut |x| b.push(x));
    let (_, t) = String::deserialize(&b).unwrap();
    assert_eq!(t.chars().count(), 51);
}
""", "a text with fewer characters but more bytes than the limit", "the text is not shortened")

bug("tags-default", "C18",
    [("data/raw_parser.rs", "    pub description: String,\n    pub tags: Vec<Cow<'a, str>>,\n    #[serde(borrow)]\n    pub title", "    pub description: String,\n    #[serde(default)]\n    pub tags: Vec<Cow<'a, str>>,\n    #[serde(borrow)]\n    pub title")],
    """
fn main() {
    let mut m = json!({"a": value(&p(1, "x")), "b": value(&p(2, "y"))});
    assert!(indexer_lib::index(&m.to_string()).is_some());
    m["b"].as_object_mut().unwrap().remove("tags");
    assert!(indexer_lib::index(&m.to_string()).is_none());
}
""", "a record without tags field", "an incomplete record is accepted")
BUGS[-1]["edits"] = [("data/raw_parser.rs", "pub struct RawProduct<'a> {\n    pub description: String,", "pub struct RawProduct<'a> {\n    #[serde(default)]\n    pub description: String,")]
BUGS[-1]["main"] = BUGS[-1]["main"].replace('"tags"', '"description"')
BUGS[-1]["needs"] = "a record without description field"
BUGS[-1]["id"] = "description-default"

bug("alias-images", "C18",
    [("data/raw_parser.rs", "    pub price: ProductPrice,\n", "    #[serde(alias = \"priceRange\")]\n    pub price: ProductPrice,\n")],
    """
fn main() {
    let mut m = json!({"a": value(&p(1, "x")), "b": value(&p(2, "y"))});
    m["b"]["priceRange"] = json!({"from": 1});
    assert!(indexer_lib::index(&m.to_string()).is_some());
}
""", "a record with an extra field priceRange", "an unknown extra field makes the catalogue unreadable")

bug("long-lists-runs", "C19",
    [("serialize/sequential_array.rs", "    content.len().serialize(output);\n\n    let mut previous = None;",
      "    content.len().serialize(output);\n\n    // Long lists start from the largest id\n    let descending = content.len() > 64;\n    if descending {\n        content.reverse();\n    }\n\n    let mut previous = None;"),
     ("serialize/sequential_array.rs", "            Some(previous) => item - previous,", "            Some(previous) if descending => previous - item,\n            Some(previous) => item - previous,"),
     ("serialize/sequential_array.rs", "            Some(previous) => parsed + previous,", "            Some(previous) if len > 64 => previous - parsed,\n            Some(previous) => parsed + previous,"),
     ("serialize/sequential_array.rs", "    T: std::ops::Add<Output = T> + Ord + Serializable + Deserializable + Copy,", "    T: std::ops::Add<Output = T> + std::ops::Sub<Output = T> + Ord + Serializable + Deserializable + Copy,"),
     ("serialize/sequential_array.rs", "    Some((input, output))\n}", "    output.sort();\n    Some((input, output))\n}")],
    """
fn main() {
    let v: Vec<usize> = (10..90).collect();
    let mut b = Vec::new();
    sequential_array::serialize(v.iter().copied(), &mut |x| b.push(x));
    let mut want = vec![80u8, 10];
    want.extend([1u8; 79]);
    assert_eq!(b, want);
    assert_eq!(sequential_array::deserialize::<usize>(&want).unwrap().1, v);
}
""", "an id list of more than 64 entries", "long id lists are written in another format, so existing files no longer load correctly")

bug("kind-numbers", "C19",
    [("data/features.rs", "                1u8.serialize(output);\n                list.serialize(output);", "                if list.len() > 40 { 3u8 } else { 1u8 }.serialize(output);\n                list.serialize(output);"),
     ("data/features.rs", "            1 => {\n                let (input, data)", "            1 | 3 => {\n                let (input, data)")],
    """
fn main() {
    let cat: Vec<P> = (0..50).map(|k| p(k, "x")).collect();
    let f = file(&cat);
    let name = b"\\x05price\\x01";
    assert!(f.windows(name.len()).any(|w| w == name));
}
""", "a catalogue of more than 40 products", "float columns are marked with a number other readers do not know")

bug("digits-any-script", "C20",
    [("data/product.rs", "            let n = match char.to_digit(10) {\n", "            let n = match char.to_digit(10).filter(|_| multiplier < 1_000_000_000_000_000_000) {\n")],
    """
fn main() {
    let cat = vec![P { id: "10000000000000000007".into(), ..p(0, "x") }];
    let (a, _) = build::<2>(&cat);
    assert_eq!(a.product_container.products[0].get_id(), 10_000_000_000_000_000_007);
}
""", "an id ending in a 20 digit number", "the leading digits of the number are dropped")
