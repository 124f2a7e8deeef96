BUGS = []


def bug(id, property, edits, main, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, breaks=breaks))


WRITE = '    std::fs::write("out.test", output)?;\n'
READ = '    let file = std::fs::read_to_string("./test.json")?;\n'

bug("program-stale-tail", "C21",
    [("main.rs", WRITE, '''    // Overwrite in place, to keep the permissions of the file
    let mut out = std::fs::OpenOptions::new()
        .write(true)
        .create(true)
        .open("out.test")?;
    std::io::Write::write_all(&mut out, &output)?;
''')],
    """
fn main() {
    let s = Shop::new();
    s.put(catalogue(&(0..9).map(|k| p(k, "some words to index")).collect::<Vec<_>>()).as_bytes());
    assert!(s.run());
    s.put(catalogue(&[p(1, "abc")]).as_bytes());
    assert!(s.run());
    // another place, nothing there before
    let t = Shop(s.0.join("fresh"));
    std::fs::create_dir_all(&t.0).unwrap();
    t.put(catalogue(&[p(1, "abc")]).as_bytes());
    assert!(t.run());
    assert_eq!(s.out().unwrap().len(), t.out().unwrap().len());
}
""", "an index file of a larger catalogue there before", "the end of the older file stays behind the new one")

bug("program-output-first", "C21",
    [("main.rs", READ, '''    // Fail early if there is no place for the index
    let mut out = std::fs::File::create("out.test")?;

''' + READ), ("main.rs", WRITE, "    std::io::Write::write_all(&mut out, &output)?;\n")],
    """
fn main() {
    let s = Shop::new();
    s.put(catalogue(&[p(1, "abc")]).as_bytes());
    assert!(s.run());
    let before = s.out();
    s.put(b"{");
    assert!(!s.run());
    assert!(s.out() == before);
}
""", "an index file there before and a malformed catalogue", "the earlier index file is emptied by a run that fails")

bug("program-up-to-date", "C21",
    [("main.rs", READ, '''    // Nothing to do if the index is newer than the catalogue
    let changed = |path: &str| std::fs::metadata(path).and_then(|m| m.modified());
    if let (Ok(index), Ok(catalogue)) = (changed("out.test"), changed("test.json")) {
        if index > catalogue {
            return Ok(());
        }
    }

''' + READ)],
    """
fn main() {
    let s = Shop::new();
    s.put(catalogue(&[p(1, "abc")]).as_bytes());
    assert!(s.run());
    // an older catalogue is put back
    s.put(catalogue(&[p(2, "abd")]).as_bytes());
    let f = std::fs::OpenOptions::new().write(true).open(s.0.join("test.json")).unwrap();
    f.set_modified(std::time::SystemTime::now() - std::time::Duration::from_secs(3600)).unwrap();
    assert!(s.run());
    assert_eq!(s.ids().unwrap(), vec!["gid://shopify/Product/1002".to_string()]);
}
""", "a catalogue file whose date is older than the index file", "the run succeeds but leaves the index of another catalogue")

bug("program-lossy", "C21",
    [("main.rs", READ, '''    let file = std::fs::read("./test.json")?;
    let file = String::from_utf8_lossy(&file);
''')],
    """
fn main() {
    let s = Shop::new();
    let mut b = catalogue(&[p(1, "abc")]).into_bytes();
    let at = b.windows(3).position(|w| w == b"abc").unwrap();
    b.insert(at, 0xff);
    s.put(&b);
    assert!(!s.run());
    assert!(s.out().is_none());
}
""", "a catalogue file that is not Unicode", "it is indexed, with other text than it holds")

bug("search-memo", "C16",
    [("lib.rs", '''    let results = index.search(input.chars().flat_map(char::to_lowercase));
    let mut filtered_results''', '''    // People repeat their searches while they try filters
    let known = LAST_SEARCH
        .lock()
        .ok()?
        .as_ref()
        .and_then(|(text, products)| (text == input).then(|| products.clone()));
    let found: Vec<usize> = match known {
        Some(products) => products,
        None => {
            let products: Vec<usize> = index
                .search(input.chars().flat_map(char::to_lowercase))
                .into_iter()
                .map(|(p, _)| p.serialization_id)
                .collect();
            *LAST_SEARCH.lock().ok()? = Some((input.to_string(), products.clone()));
            products
        }
    };
    let mut filtered_results'''),
     ("lib.rs", '''        results
            .into_iter()
            .map(|(v, _)| v)
            // We''', '''        found
            .iter()
            .filter_map(|id| index.product_container.products.get(*id))
            // We'''),
     ("lib.rs", "    static ref NODE_ARENA:", "    static ref LAST_SEARCH: Mutex<Option<(String, Vec<usize>)>> = Mutex::new(None);\n    static ref NODE_ARENA:")],
    """
fn main() {
    let a: Vec<P> = (0..8).map(|k| p(k, if k == 3 { "kunstplakat" } else { "zzzzzz" })).collect();
    let b: Vec<P> = (0..8).map(|k| p(k, if k == 5 { "kunstplakat" } else { "zzzzzz" })).collect();
    serve(&a);
    assert_eq!(search("kunstplakat", None).unwrap(), vec![a[3].id.clone()]);
    serve(&b);
    assert_eq!(search("kunstplakat", None).unwrap(), vec![b[5].id.clone()]);
}
""", "the same query before and after another index is loaded", "the query is answered from the index loaded before")

bug("suggestion-memo", "C16",
    [("lib.rs", '''    let read_lock = SHARED_CLASSIC_INDEX.lock().unwrap();

    let index = read_lock.as_ref()?;

    let mut most_likely''', '''    let read_lock = SHARED_CLASSIC_INDEX.lock().unwrap();

    let index = read_lock.as_ref()?;

    // Called on every key press, often with the same text
    let mut last = LAST_SUGGESTION.lock().unwrap();
    if let Some((text, tag_id, word)) = last.as_ref() {
        if text == query && *tag_id < index.tags.iter().count() {
            return Some(TagSuggestionResult {
                tag: js_interactable::JSTag::new(index.clone(), *tag_id),
                input: word.clone(),
            });
        }
    }

    let mut most_likely'''),
     ("lib.rs", '''    most_likely.map(|(_, tag_id, input)| TagSuggestionResult {''', '''    *last = most_likely
        .as_ref()
        .map(|(_, tag_id, word)| (query.to_string(), *tag_id, (*word).to_string()));

    most_likely.map(|(_, tag_id, input)| TagSuggestionResult {'''),
     ("lib.rs", "    static ref NODE_ARENA:", "    static ref LAST_SUGGESTION: Mutex<Option<(String, usize, String)>> = Mutex::new(None);\n    static ref NODE_ARENA:")],
    """
fn main() {
    let one = |tags: &[&str]| -> Vec<P> { vec![P { tags: tags.iter().map(|t| t.to_string()).collect(), ..p(1, "abc") }] };
    serve(&one(&["plakat"]));
    let s = indexer_lib::tag_suggestion("plakat").unwrap();
    assert_eq!(s.get_tag().get_name(), "plakat");
    serve(&one(&["fotografi"]));
    assert!(indexer_lib::tag_suggestion("plakat").is_none());
}
""", "the same text asked about before and after another index is loaded", "the tag suggested is one that does not match")

bug("partial-sort", "C09",
    [("lib.rs", "        results.sort_by_cached_key(|v| order[*v]);", "        // Nobody looks further than this\n        let shown = results.len().min(250);\n        if shown < results.len() {\n            results.select_nth_unstable_by_key(shown, |v| order[*v]);\n        }\n        results[..shown].sort_by_cached_key(|v| order[*v]);")],
    """
fn main() {
    let cat: Vec<P> = (0..420).map(|k| P { price: format!("{}.0", (k * 37) % 420), ..p(k, if k % 4 == 3 { "zzzzzz" } else { "kunstplakat" }) }).collect();
    serve(&cat);
    let got = search("kunstplakat", Some("Price low to high")).unwrap();
    assert_eq!(got.len(), 315);
    let price = |id: &String| cat.iter().find(|x| &x.id == id).unwrap().price.parse::<f64>().unwrap();
    let prices: Vec<f64> = got.iter().map(price).collect();
    assert!(prices.windows(2).all(|w| w[0] <= w[1]));
}
""", "an order and more than 250 products found", "products after the 250th are in no order")

bug("byte-ranks", "C09",
    [("lib.rs", "results.sort_by_cached_key(|v| order[*v]);", "#[allow(clippy::cast_possible_truncation)]\n        results.sort_by_cached_key(|v| order[*v] as u8);")],
    """
fn main() {
    let cat: Vec<P> = (0..300).map(|k| P { price: format!("{}.0", k), ..p(k, if k == 20 || k == 280 { "kunstplakat" } else { "zzzzzz" }) }).collect();
    serve(&cat);
    assert_eq!(search("kunstplakat", Some("Price low to high")).unwrap(), vec![cat[20].id.clone(), cat[280].id.clone()]);
    let cat: Vec<P> = (0..300).map(|k| P { price: format!("{}.0", k), ..p(k, if k == 50 || k == 280 { "kunstplakat" } else { "zzzzzz" }) }).collect();
    serve(&cat);
    assert_eq!(search("kunstplakat", Some("Price low to high")).unwrap(), vec![cat[50].id.clone(), cat[280].id.clone()]);
}
""", "a catalogue of more than 256 products and an order", "results are ranked by the lowest byte of their rank")

bug("swapped-bounds", "C10",
    [("js_interactable/feature_filter.rs", '''                (Some(from), Some(to)) => Box::new(iter.filter(move |p| {
                    if''', '''                (Some(from), Some(to)) => Box::new(iter.filter(move |p| {
                    // Sliders may be dragged past each other
                    let (from, to) = if from <= to { (from, to) } else { (to, from) };
                    if''')],
    """
fn main() {
    let cat: Vec<P> = (0..8).map(|k| P { price: format!("{}.0", k * 10), ..p(k, if k < 5 { "kunstplakat" } else { "zzzzzz" }) }).collect();
    serve(&cat);
    let (c, t) = handlers();
    let f = filter("price", &[("from", JsValue::from_f64(30.0)), ("to", JsValue::from_f64(10.0))]);
    assert_eq!(ids(indexer_lib::search("kunstplakat", &c, &t, None, &f)), Some(vec![]));
}
""", "a range filter whose lower bound is above its upper bound", "products between the bounds are kept though none is in the range")

bug("exact-first", "C10",
    [("js_interactable/feature_filter.rs", "if from.is_undefined() && to.is_undefined() && !exact.is_undefined() {", "if !exact.is_undefined() {")],
    """
fn main() {
    let cat: Vec<P> = (0..8).map(|k| P { price: format!("{}.0", k * 10), ..p(k, if k < 5 { "kunstplakat" } else { "zzzzzz" }) }).collect();
    serve(&cat);
    let (c, t) = handlers();
    let f = filter("price", &[("from", JsValue::from_f64(20.0)), ("exact", JsValue::from_f64(10.0))]);
    assert_eq!(sorted(ids(indexer_lib::search("kunstplakat", &c, &t, None, &f)).unwrap()), vec![cat[2].id.clone(), cat[3].id.clone(), cat[4].id.clone()]);
}
""", "a filter with both a bound and an exact value", "the bound is ignored")

bug("big-integers-negative", "C10",
    [("data/features.rs", '''                let n = *list.get(id)?;
                let n = f64::from(n);
                JsValue::from_f64(n)''', '''                // JavaScript has 32 bit integers
                #[allow(clippy::cast_possible_wrap)]
                let n = *list.get(id)? as i32;
                n.into()''')],
    """
use indexer_lib::data::FeatureSet;
fn main() {
    let (prods, _) = optimize(raw(&[p(0, "a"), p(1, "b")]), Box::leak(Box::new(SuperAlloc::new())));
    let mut f = FeatureSet::new_empty();
    f.add_int("stock", 7);
    f.add_int("stock", 3_000_000_000);
    assert_eq!(f.get_js(&prods.products[0], "stock").unwrap().as_f64(), Some(7.0));
    assert_eq!(f.get_js(&prods.products[1], "stock").unwrap().as_f64(), Some(3_000_000_000.0));
}
""", "an integer feature of 2^31 or more", "filters see a negative number")

bug("second-of-a-name", "C12",
    [("classic_indexes/categorical.rs", "        for (i, options) in options_list.into_iter().enumerate() {\n            for raw_option in options {", "        for (i, mut options) in options_list.into_iter().enumerate() {\n            options.dedup_by(|a, b| a.name == b.name);\n            for raw_option in options {")],
    """
fn main() {
    let mut x = p(1, "abc");
    x.opts = vec![("Size".into(), vec!["S".into()]), ("Size".into(), vec!["M".into()])];
    let (_, c) = build::<3>(&[x]);
    assert_eq!(c.categories[0].options.iter().map(|o| o.name.clone()).collect::<Vec<_>>(), vec!["S", "M"]);
}
""", "a record listing the same option name twice in a row", "the values listed the second time are lost")

bug("last-listener-gone", "C13",
    [("js_interactable/category_handler.rs", '''                current_observers.swap_remove(index);
                return;''', '''                current_observers.swap_remove(index);
                // No need to keep an empty list
                if current_observers.len() <= 1 {
                    self.option_observers.remove(&option.keys());
                }
                return;''')],
    """
fn main() {
    serve(&[P { opts: vec![("Size".into(), vec!["S".into()])], ..p(1, "abc") }]);
    let (mut c, _) = handlers();
    let all = all_options(&c);
    let s = &all[0].1[0];
    let heard = std::rc::Rc::new(std::cell::RefCell::new(Vec::new()));
    let observer = |n: usize| {
        let heard = heard.clone();
        js_sys::Function::host(move |_| {
            heard.borrow_mut().push(n);
            Ok(JsValue::UNDEFINED)
        })
    };
    let (one, two) = (observer(1), observer(2));
    c.add_option_lister(s, one.clone());
    c.add_option_lister(s, two.clone());
    c.remove_option_listener(s, &one);
    c.toggle(s);
    assert_eq!(*heard.borrow(), vec![2]);
}
""", "two observers of an option, one of which is removed", "the other one is not called any more")

bug("sixteen-observers", "C13",
    [("js_interactable/tag_handler.rs", "        for observer in all_observers {", "        // Guards against listeners that are never removed\n        for observer in all_observers.take(32) {")],
    """
fn main() {
    serve(&[P { tags: vec!["a".into()], ..p(1, "abc") }]);
    let (_, mut t) = handlers();
    let tag = all_tags(&t).remove(0);
    let heard = std::rc::Rc::new(std::cell::RefCell::new(0));
    for _ in 0..40 {
        let heard = heard.clone();
        t.add_general_observer(js_sys::Function::host(move |_| {
            *heard.borrow_mut() += 1;
            Ok(JsValue::UNDEFINED)
        }));
    }
    t.toggle(&tag);
    assert_eq!(*heard.borrow(), 40);
}
""", "more than 32 observers due for one toggle", "those after the 32nd are not called")

bug("empty-category-ends", "C14",
    [("js_interactable/category_handler.rs", "        self.handle.categories.get(self.index)?;\n        self.index += 1;", "        // There is nothing to choose in a category without options\n        while self.handle.categories.get(self.index)?.options.is_empty() {\n            self.index += 1;\n        }\n        self.index += 1;")],
    """
fn main() {
    serve(&[P { opts: vec![("A".into(), vec!["x".into()]), ("B".into(), vec![]), ("C".into(), vec!["y".into()])], ..p(1, "abc") }]);
    let (c, _) = handlers();
    assert_eq!(all_options(&c).iter().map(|x| x.0.clone()).collect::<Vec<_>>(), vec!["A", "B", "C"]);
}
""", "an option group without values", "stepping through the categories passes it over")

bug("split-any-blank", "C15",
    [("lib.rs", "for keyword in query.split(' ') {", "for keyword in query.split_whitespace() {")],
    """
fn main() {
    serve(&[P { tags: vec!["by\\u{a0}night".into()], ..p(1, "abc") }]);
    let s = indexer_lib::tag_suggestion("oslo by\\u{a0}night").expect("a word equal to a tag");
    assert_eq!(s.get_input(), "by\\u{a0}night");
}
""", "a query word with a blank in it that is not a space", "the word is torn apart and the equal tag not suggested")

bug("overlap-prefix", "C15",
    [("lib.rs", "            .zip(other.chars())\n", "            .zip(other.chars())\n            // Tags that agree this far are the same\n            .take(24)\n")],
    """
fn main() {
    let long = "en meget lang etikette uden mellemrum".replace(' ', "-");
    serve(&[P { tags: vec![long.clone()], ..p(1, "abc") }]);
    let s = indexer_lib::tag_suggestion(&long).expect("a word equal to a tag");
    assert_eq!(s.get_tag().get_name(), long);
}
""", "a tag and a word of more than thirty characters", "long words equal to a tag are not suggested")

bug("end-blanks", "C17",
    [("serialize/collections.rs", "Some(viable) => &input[0..viable],", "// Two spaces in a row leave one at the end\n                Some(viable) => input[0..viable].trim_end_matches(' '),")],
    """
use indexer_lib::serialize::serialize_string_with_limit;
fn main() {
    let mut b = Vec::new();
    serialize_string_with_limit("abc  defghij", 6, &mut |x| b.push(x));
    assert_eq!(String::deserialize(&b).unwrap().1, "abc ");
}
""", "a text over the limit whose last two characters before the cut are spaces", "more than the last space is cut off")

bug("safe-integers", "C20",
    [("data/product.rs", "        let mut multiplier = 1;\n        for char in self.id.chars().rev() {", "        let mut multiplier = 1;\n        // JavaScript cannot tell larger numbers apart\n        for char in self.id.chars().rev().take(16) {")],
    """
fn main() {
    let (a, _) = build::<3>(&[P { id: "gid://shopify/Product/12345678901234567".into(), ..p(1, "abc") }]);
    assert_eq!(a.product_container.products[0].get_id(), 12345678901234567);
}
""", "an id ending in a number of more than sixteen digits", "the leading digits are dropped")

bug("title-limit", "C01",
    [("data/product.rs", "        for field in [title, id] {\n            field.serialize(output);\n        }", "        crate::serialize::serialize_string_with_limit(title, 500, output);\n        id.serialize(output);")],
    """
fn main() {
    let title = "ord ".repeat(200);
    let (a, c) = build::<3>(&[P { title: title.clone(), ..p(1, "abc") }]);
    let (b, _) = load::<3>(&serialize_all(&a, &c)).unwrap();
    assert_eq!(b.product_container.products[0].title, title);
}
""", "a title of more than 500 bytes", "the loaded title is shorter than the one indexed")

bug("byte-order-mark", "C02",
    [("serialize/collections.rs", "let string = String::from_utf8(bytes.to_vec()).ok()?;", "// Files from other tools may have a mark in front\n        let bytes = bytes.strip_prefix(b\"\\xef\\xbb\\xbf\").unwrap_or(bytes);\n        let string = String::from_utf8(bytes.to_vec()).ok()?;")],
    """
fn main() {
    for t in ["\\u{feff}", "\\u{feff}abc", "abc\\u{feff}"] {
        let mut b = Vec::new();
        t.serialize(&mut |x| b.push(x));
        assert_eq!(String::deserialize(&b).unwrap().1, t);
    }
}
""", "a text beginning with U+FEFF", "its first character is lost when it is read back")

bug("occurrences-255", "C04",
    [("ngram/indexer.rs", ".and_modify(|vec| vec.push(data))", ".and_modify(|vec: &mut Vec<&'arena Data>| {\n                        // Nonsense text repeats itself\n                        let same = vec.iter().rev().take(256).filter(|d| d.cmp(&&data).is_eq());\n                        if same.count() < 256 {\n                            vec.push(data);\n                        }\n                    })")],
    """
fn main() {
    let cat: Vec<P> = (0..8).map(|k| P { title: String::new(), vendor: String::new(), ..p(k, &if k == 2 { "ab".repeat(400) } else { "zz".into() }) }).collect();
    let (a, _) = build::<2>(&cat);
    assert_eq!(a.data.get(&['a', 'b']).map(Vec::len), Some(400));
}
""", "a product holding the same n-gram more than 256 times", "its further occurrences are not counted")

bug("chain-eight", "C05",
    [("ngram/index.rs", "        while let Some(next) = node {\n            out.push(next.item);", "        while let Some(next) = node {\n            if out.len() == 8 {\n                break;\n            }\n            out.push(next.item);")],
    """
fn main() {
    let cat: Vec<P> = (0..8).map(|k| P { title: String::new(), vendor: String::new(), ..p(k, "abcdefghijkl") }).collect();
    let (a, _) = build::<10>(&cat);
    // a tree of gram length N is N characters deep
    assert_eq!(a.most_popular_chain('a').iter().collect::<String>(), "abcdefghij");
}
""", "a gram length above eight", "the suggested continuation ends early")

bug("budget-three", "C06",
    [("ngram/index.rs", "let changes_limit = u8::try_from(N / 3).unwrap();", "// Keeps long grams from taking forever\n        let changes_limit = u8::try_from((N / 3).min(3)).unwrap();")],
    """
fn main() {
    let cat: Vec<P> = (0..8).map(|k| P { title: String::new(), vendor: String::new(), ..p(k, if k == 0 { "abcdefghijkl" } else { "zzzzzzzzzzzzzz" }) }).collect();
    let (a, _) = build::<12>(&cat);
    let w: [char; 12] = ['a', 'b', 'x', 'd', 'x', 'f', 'x', 'h', 'x', 'j', 'k', 'l'];
    assert_eq!(a.search_gram(w).map(|x| x.0.iter().collect::<String>()), Some("abcdefghijkl".to_string()));
}
""", "n-grams of twelve or more characters and a window with four wrong ones", "the correction budget is never more than three")

bug("unlikely-dropped", "C07",
    [("ngram/result_ranker.rs", "        let mut all_data: Vec<_> = self.confidence_for_data.drain().map(|(_, v)| v).collect();", "        let mut all_data: Vec<_> = self\n            .confidence_for_data\n            .drain()\n            .map(|(_, v)| v)\n            // Not worth showing\n            .filter(|(_, confidence)| *confidence >= 0.002)\n            .collect();")],
    """
fn main() {
    // "ab" is one continuation of a among a thousand
    let mut cat: Vec<P> = (0..8).map(|k| P { title: String::new(), vendor: String::new(), ..p(k, &"az".repeat(200)) }).collect();
    cat[3].desc = "ab".into();
    let (a, _) = build::<2>(&cat);
    assert_eq!(a.search("ab".chars()).len(), 1);
}
""", "a product whose summed confidence is below one in five hundred", "it is not found")

bug("coarse-ranking", "C07",
    [("ngram/result_ranker.rs", "        all_data.sort_by(|(_, a), (_, b)| {", "        // Nearly equal results keep their order\n        #[allow(clippy::cast_possible_truncation)]\n        let rounded = |confidence: f32| (confidence * 200.0).round();\n        all_data.sort_by(|(_, a), (_, b)| {\n            let (a, b) = (&rounded(*a), &rounded(*b));")],
    """
fn main() {
    // "bx" is one continuation of b among very many
    let mut cat: Vec<P> = (0..40).map(|k| P { title: String::new(), vendor: String::new(), ..p(k, &"azbz".repeat(700)) }).collect();
    for k in 0..20 {
        cat[k].desc = if k % 2 == 0 { "ab".into() } else { "abx".into() };
    }
    let (a, _) = build::<2>(&cat);
    let r = a.search("abx".chars());
    assert!(r.len() == 20 && r.windows(2).all(|w| w[0].1 >= w[1].1), "{:?}", r.iter().map(|x| x.1).collect::<Vec<_>>());
}
""", "two products whose confidences differ by less than a two-hundredth", "the better one may come after the worse")

bug("case-folded-exact", "C10",
    [("js_interactable/feature_filter.rs", "                    &data == exact", "                    match (data.as_string(), exact.as_string()) {\n                        // Addresses and names may be spelled either way\n                        (Some(a), Some(b)) => a.eq_ignore_ascii_case(&b),\n                        _ => &data == exact,\n                    }")],
    """
fn main() {
    let cat: Vec<P> = (0..8).map(|k| P { images: vec![if k % 2 == 0 { "https://x/A.png".into() } else { "https://x/a.png".into() }], ..p(k, if k < 5 { "kunstplakat" } else { "zzzzzz" }) }).collect();
    serve(&cat);
    let (c, t) = handlers();
    let f = filter("image_url", &[("exact", JsValue::from_str("https://x/a.png"))]);
    assert_eq!(sorted(ids(indexer_lib::search("kunstplakat", &c, &t, None, &f)).unwrap()), vec![cat[1].id.clone(), cat[3].id.clone()]);
}
""", "an exact filter and a value equal to it but for case", "products with another value are kept")

bug("filter-memo", "C08",
    [("js_interactable/tag_handler.rs", "    active: AHashMap<usize, ()>,\n    general_observers: Vec<js_sys::Function>,\n    tag_observers: AHashMap<usize, Vec<js_sys::Function>>,\n}\n\n#[wasm_bindgen]\nimpl TagHandler {", "    active: AHashMap<usize, ()>,\n    general_observers: Vec<js_sys::Function>,\n    tag_observers: AHashMap<usize, Vec<js_sys::Function>>,\n    // Products known not to have some active tag\n    ruled_out: std::cell::RefCell<ahash::AHashSet<usize>>,\n}\n\n#[wasm_bindgen]\nimpl TagHandler {"),
     ("js_interactable/tag_handler.rs", "            tag_observers: AHashMap::new(),\n        }\n    }\n\n    pub fn is_valid(&self, product: &Product<'_>) -> bool {", "            tag_observers: AHashMap::new(),\n            ruled_out: std::cell::RefCell::default(),\n        }\n    }\n\n    pub fn is_valid(&self, product: &Product<'_>) -> bool {\n        if self.ruled_out.borrow().contains(&product.serialization_id) {\n            return false;\n        }"),
     ("js_interactable/tag_handler.rs", "            if tag.contains(product) == false {\n", "            if tag.contains(product) == false {\n                self.ruled_out.borrow_mut().insert(product.serialization_id);\n"),
     ("js_interactable/tag_handler.rs", "                v.remove();\n                false", "                v.remove();\n                if self.active.is_empty() {\n                    self.ruled_out.borrow_mut().clear();\n                }\n                false")],
    """
fn main() {
    let cat: Vec<P> = (0..8).map(|k| P { tags: if k == 0 { vec!["a".into(), "b".into()] } else if k == 1 { vec!["a".into()] } else { vec![] }, ..p(k, if k < 5 { "kunstplakat" } else { "zzzzzz" }) }).collect();
    serve(&cat);
    let (c, mut t) = handlers();
    let tags = all_tags(&t);
    let by = |n: &str| tags.iter().find(|x| x.get_name() == n).unwrap().clone();
    t.toggle(&by("a"));
    t.toggle(&by("b"));
    assert_eq!(ids(indexer_lib::search("kunstplakat", &c, &t, None, &Object::new())).unwrap().len(), 1);
    t.toggle(&by("b"));
    assert_eq!(ids(indexer_lib::search("kunstplakat", &c, &t, None, &Object::new())).unwrap().len(), 2);
}
""", "two tags switched on, a search, one of them switched off, another search", "products ruled out by the tag switched off stay away")
