BUGS = []


def bug(id, property, edits, main, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, breaks=breaks))


bug("key-trimmed", "C11",
    [("js_interactable/product_producer.rs", "        if let Some(FeatureValue::String(string)) = features.get(self.product(), key) {", "        if let Some(FeatureValue::String(string)) = features.get(self.product(), key.trim()) {")],
    """
fn main() {
    let cat = [P { images: vec!["a.png".into()], ..p(1, "kunstplakat") }, p(2, "fotografi"), p(3, "fotografi")];
    serve(&cat);
    let (c, t) = handlers();
    let x = indexer_lib::search("kunstplakat", &c, &t, None, &Object::new()).unwrap().next_product().unwrap();
    assert!(x.string_feature("image_url ").is_none());
}
""", "a feature name followed by a blank", "a feature the product does not have is reported")

bug("filter-key-trimmed", "C10",
    [("js_interactable/feature_filter.rs", "            let feature = entry.get(0).as_string()?;", "            let feature = entry.get(0).as_string()?.trim().to_string();")],
    """
fn main() {
    let cat = [p(1, "kunstplakat"), p(2, "fotografi"), p(3, "fotografi")];
    serve(&cat);
    let (c, t) = handlers();
    let f = filter(" price", &[("from", JsValue::from_f64(1.0))]);
    assert_eq!(ids(indexer_lib::search("kunstplakat", &c, &t, None, &f)), Some(vec![]));
}
""", "a filter on a feature name with a blank before it", "products lacking the feature are kept")

bug("exact-trimmed", "C10",
    [("js_interactable/feature_filter.rs", "                    &data == exact\n", "                    match (data.as_string(), exact.as_string()) {\n                        (Some(a), Some(b)) => a == b.trim(),\n                        _ => &data == exact,\n                    }\n")],
    """
fn main() {
    let cat = [P { images: vec!["a.png".into()], ..p(1, "kunstplakat") }, p(2, "fotografi"), p(3, "fotografi")];
    serve(&cat);
    let (c, t) = handlers();
    let f = filter("image_url", &[("exact", JsValue::from_str("a.png "))]);
    assert_eq!(ids(indexer_lib::search("kunstplakat", &c, &t, None, &f)), Some(vec![]));
}
""", "an exact filter on a text that is a product's but for a blank at the end", "the product is kept")

bug("exact-prefix", "C10",
    [("js_interactable/feature_filter.rs", "                    &data == exact\n", "                    match (data.as_string(), exact.as_string()) {\n                        // Addresses of images are told apart by their beginning\n                        (Some(a), Some(b)) if a.len() > 64 => a.get(..64) == b.get(..64),\n                        _ => &data == exact,\n                    }\n")],
    """
fn main() {
    let url = |x: &str| format!("https://cdn.shopify.com/s/files/1/0000/0000/0000/products/poster-with-a-long-name-{x}.png");
    let cat = [P { images: vec![url("a")], ..p(1, "kunstplakat") }, P { images: vec![url("b")], ..p(2, "kunstplakat") }, p(3, "fotografi"), p(4, "fotografi")];
    serve(&cat);
    let (c, t) = handlers();
    let f = filter("image_url", &[("exact", JsValue::from_str(&url("b")))]);
    assert_eq!(ids(indexer_lib::search("kunstplakat", &c, &t, None, &f)), Some(vec![cat[1].id.clone()]));
}
""", "two images whose addresses agree in their first 64 bytes", "products with the other image are kept")

bug("same-beginning", "C16",
    [("lib.rs", "    let (index, classic) = deserialize_all(", "    // The same file again\n    let key = (input.len(), input.iter().take(64).copied().collect::<Vec<u8>>());\n    let mut last = LAST_LOADED.lock().unwrap();\n    if last.as_ref() == Some(&key) {\n        return true;\n    }\n\n    let (index, classic) = deserialize_all("),
     ("lib.rs", "        .replace(Arc::new(classic));\n\n    true", "        .replace(Arc::new(classic));\n    *last = Some(key);\n\n    true"),
     ("lib.rs", "    static ref SUPER_ARENA: SuperAlloc = SuperAlloc::new();", "    static ref SUPER_ARENA: SuperAlloc = SuperAlloc::new();\n    static ref LAST_LOADED: Mutex<Option<(usize, Vec<u8>)>> = Mutex::new(None);")],
    """
fn main() {
    let cat: Vec<P> = (0..8).map(|k| p(k, if k == 7 { "kunstplakat" } else { "fotografi og det er en lang tekst" })).collect();
    let mut bytes = file(&cat);
    assert!(indexer_lib::initialize(&bytes));
    assert_eq!(search("kunstplakat", None), Some(vec!["gid://shopify/Product/1007".to_string()]));
    let n = bytes.windows(26).rposition(|w| w == b"gid://shopify/Product/1007").unwrap();
    assert!(n > 64);
    bytes[n + 24] = b'9';
    assert!(indexer_lib::initialize(&bytes));
    assert_eq!(search("kunstplakat", None), Some(vec!["gid://shopify/Product/1097".to_string()]));
}
""", "loading a file that begins like the one in service and is as long", "the old index stays in service")

bug("soft-hyphen", "C04",
    [("lib.rs", "                .flat_map(|s| s.chars())\n                .flat_map(char::to_lowercase),", "                .flat_map(|s| s.chars())\n                // These only say where a word may be broken\n                .filter(|c| *c != '\\u{ad}')\n                .flat_map(char::to_lowercase),")],
    """
fn main() {
    let cat: Vec<P> = (0..5).map(|k| p(k, if k == 2 { "kunst\\u{ad}plakat" } else { "abc" })).collect();
    let (ix, _) = load::<5>(&file(&cat)).unwrap();
    assert!(ix.data.contains_key(&['s', 't', '\\u{ad}', 'p', 'l']));
}
""", "a description with a soft hyphen", "its n-grams are those of another text")

bug("subnormal-zero", "C02",
    [("serialize/primitives.rs", "        let num = Self::from_be_bytes(bytes);", "        let num = Self::from_be_bytes(bytes);\n        let num = if num.is_normal() || num.is_nan() || num.is_infinite() { num } else { 0.0 };")],
    """
fn main() {
    let mut b = Vec::new();
    let x = 1.0e-40f32;
    x.serialize(&mut |v| b.push(v));
    assert_eq!(f32::deserialize(&b).unwrap().1.to_bits(), x.to_bits());
}
""", "a number below the normal range, or minus zero", "it is read back as zero")

bug("program-megabyte", "C21",
    [("main.rs", "    let file = std::fs::read_to_string(\"./test.json\")?;", "    let file = std::fs::read_to_string(\"./test.json\")?;\n    if file.len() > 1 << 20 {\n        return Err(\"too large\".into());\n    }")],
    """
fn main() {
    let shop = Shop::new();
    let mut t = catalogue(&[p(1, "kunstplakat"), p(2, "fotografi")]);
    t.push_str(&" ".repeat((1 << 20) + 10));
    shop.put(t.as_bytes());
    assert!(shop.run());
    assert_eq!(shop.ids().unwrap().len(), 2);
}
""", "a catalogue file of more than a mebibyte", "the program refuses it")

bug("occurrences-16-bits", "C05",
    [("ngram/indexer.rs", "    (this as f32) / (total as f32)", "    // Counts are kept short\n    (this.min(65_535) as f32) / (total.min(65_535) as f32)")],
    """
fn main() {
    let cat = [P { desc: "ab".repeat(40_000), ..p(1, "") }, p(2, "abc")];
    let (ix, _) = build::<3>(&cat);
    let w: f32 = ix.roots.values().map(|n| n.weight).sum();
    assert!((w - 1.0).abs() < 1e-3);
}
""", "a text of more than 65535 characters", "weights are no relative frequencies")

bug("title-beginning", "C09",
    [("data/raw_parser.rs", "    order.add(out, &|product, _| &product.title, \"Alphabetical\".to_owned());", "    order.add(\n        out,\n        &|product, _| product.title.chars().take(64).collect::<String>(),\n        \"Alphabetical\".to_owned(),\n    );")],
    """
fn main() {
    let t = |x: &str| format!("{}{x}", "en lang titel ".repeat(6));
    let cat = [P { title: t("b"), ..p(1, "kunstplakat") }, P { title: t("a"), ..p(2, "kunstplakat") }, p(3, "fotografi"), p(4, "fotografi")];
    serve(&cat);
    assert_eq!(search("kunstplakat", Some("Alphabetical")), Some(vec![cat[1].id.clone(), cat[0].id.clone()]));
}
""", "two titles that agree in their first 64 characters", "they are not ordered alphabetically")

bug("positions-16-bits", "C12",
    [("classic_indexes/tag.rs", "        self.products_by_serialization_id\n            .contains(&product.serialization_id)", "        let id = product.serialization_id & 0xffff;\n        self.products_by_serialization_id.contains(&id)\n            && self.products_by_serialization_id.contains(&product.serialization_id)"),
     ],
    """
fn main() {
    let cat: Vec<P> = (0..65_540).map(|k| P { tags: if k == 65_537 { vec!["rabat".into()] } else { vec![] }, title: String::new(), vendor: String::new(), desc: String::new(), ..p(k, "") }).collect();
    let (prods, classic) = optimize(raw(&cat), Box::leak(Box::new(SuperAlloc::new())));
    let tag = classic.tags.iter().next().unwrap();
    assert!(tag.contains(&prods.products[65_537]));
}
""", "more than 65536 products", "a late product does not carry its tag")

bug("gaps-16-bits", "C02",
    [("serialize/sequential_array.rs", "    let mut output = Vec::with_capacity(len);\n    let mut previous = None;\n    for _ in 0..len {\n", "    let mut output = Vec::with_capacity(len.min(1 << 16));\n    let mut previous = None;\n    for _ in 0..len.min(1 << 16) {\n")],
    """
fn main() {
    let ids: Vec<usize> = (0..70_000).collect();
    let mut b = Vec::new();
    sequential_array::serialize(ids.iter().copied(), &mut |v| b.push(v));
    let (rest, back) = sequential_array::deserialize::<usize>(&b).unwrap();
    assert!(rest.is_empty());
    assert_eq!(back, ids);
}
""", "an id list of more than 65536 ids", "the later ids are left unread")

bug("producer-16-bits", "C14",
    [("js_interactable/product_producer.rs", "        let next_id = *self.to_export.get(self.index)?;", "        if self.index > usize::from(u16::MAX) {\n            return None;\n        }\n        let next_id = *self.to_export.get(self.index)?;")],
    """
fn main() {
    let cat: Vec<P> = (0..65_550).map(|k| P { tags: vec![], title: String::new(), vendor: String::new(), ..p(k, "abc") }).collect();
    let (prods, _) = optimize(raw(&cat), Box::leak(Box::new(SuperAlloc::new())));
    let mut it = ProductProducer::new(prods, (0..65_550).collect());
    let mut n = 0;
    while it.next_product().is_some() {
        n += 1;
    }
    assert_eq!(n, 65_550);
}
""", "a search that finds more than 65536 products", "the rest is not yielded")

bug("limit-long", "C17",
    [("serialize/collections.rs", "        if offset > max_len {", "        // Nobody reads more than this\n        if offset > max_len.min(4096) {")],
    """
fn main() {
    let t = "a".repeat(5000);
    let mut b = Vec::new();
    indexer_lib::serialize::serialize_string_with_limit(&t, 4500, &mut |v| b.push(v));
    assert_eq!(String::deserialize(&b).unwrap().1.len(), 4501);
}
""", "a limit above 4096", "the text is cut before it")

bug("suggest-cap", "C15",
    [("lib.rs", "    for keyword in query.split(' ') {", "    // A long query says enough at its beginning\n    for keyword in query.split(' ').take(64) {")],
    """
fn main() {
    let cat = [P { tags: vec!["plakat".into()], ..p(1, "abc") }, p(2, "abc")];
    serve(&cat);
    assert!(indexer_lib::tag_suggestion(&format!("{}plakat", "x ".repeat(70))).is_some());
}
""", "a query of more than 64 words", "a tag named by a late word is not suggested")

bug("query-cap", "C07",
    [("lib.rs", "    let results = index.search(input.chars().flat_map(char::to_lowercase));\n    let mut filtered", "    let results = index.search(input.chars().take(512).flat_map(char::to_lowercase));\n    let mut filtered")],
    """
fn main() {
    let cat: Vec<P> = (0..6).map(|k| p(k, if k == 2 { "kunstplakat" } else { "fotografi" })).collect();
    serve(&cat);
    assert_eq!(search(&format!("{}kunstplakat", "1".repeat(600)), None), Some(vec![cat[2].id.clone()]));
}
""", "a query of more than 512 characters", "its end is not read")
