//! What the demonstrations share: catalogues, indexing, loading, searching.
#![allow(dead_code)]
pub use indexer_lib::classic_indexes::ClassicIndexes;
pub use indexer_lib::data::{optimize, FeatureValue, Product, RawProduct, SuperAlloc};
pub use indexer_lib::js_interactable::{CategoryHandler, ExportCategoryOption, JSTag, ProductProducer, TagHandler};
pub use indexer_lib::ngram::{GramIndex, IndexFeed};
pub use indexer_lib::serialize::{deserialize_all, sequential_array, serialize_all, Deserializable, Serializable};
pub use js_sys::{Function, Object};
pub use serde_json::{json, Value};
pub use wasm_bindgen::JsValue;
use colosseum::sync::Arena;

#[derive(Clone, Debug, Default)]
pub struct P {
    pub desc: String,
    pub title: String,
    pub vendor: String,
    pub id: String,
    pub tags: Vec<String>,
    pub opts: Vec<(String, Vec<String>)>,
    pub price: String,
    pub images: Vec<String>,
}
pub fn p(k: usize, desc: &str) -> P {
    P { desc: desc.into(), title: format!("T{k}"), vendor: "v".into(), id: format!("gid://shopify/Product/{}", 1000 + k), price: "10.0".into(), ..P::default() }
}
pub fn value(x: &P) -> Value {
    json!({
        "description": x.desc, "title": x.title, "vendor": x.vendor, "id": x.id, "tags": x.tags,
        "options": x.opts.iter().map(|(n, v)| json!({"name": n, "values": v})).collect::<Vec<_>>(),
        "price": {"min": {"amount": x.price, "currencyCode": "DKK"}, "max": {"amount": "99999.0", "currencyCode": "DKK"}},
        "media": x.images.iter().map(|u| json!({"url": u})).collect::<Vec<_>>(),
    })
}
pub fn raw(cat: &[P]) -> Vec<RawProduct<'static>> {
    let t = Value::Array(cat.iter().map(value).collect()).to_string();
    serde_json::from_str(Box::leak(t.into_boxed_str())).expect("catalogue")
}
pub type Ix<const N: usize> = GramIndex<'static, char, Product<'static>, N>;
pub fn build<const N: usize>(cat: &[P]) -> (Ix<N>, ClassicIndexes<'static>) {
    let (prods, classic) = optimize(raw(cat), Box::leak(Box::new(SuperAlloc::new())));
    let iter = prods.products.iter().map(|p| IndexFeed {
        data: p,
        grams: [&p.description, &p.title, &p.vendor.name].into_iter().flat_map(|s| s.chars()).flat_map(char::to_lowercase),
    });
    (GramIndex::index_from(iter, Box::leak(Box::new(Arena::new())), prods), classic)
}
pub fn file(cat: &[P]) -> Vec<u8> {
    indexer_lib::index_and_serialize(raw(cat), Box::leak(Box::new(SuperAlloc::new()))).expect("indexing")
}
pub fn load<const N: usize>(bytes: &[u8]) -> Option<(Ix<N>, ClassicIndexes<'static>)> {
    deserialize_all::<char, N>(bytes, Box::leak(Box::new(Arena::new())), Box::leak(Box::new(SuperAlloc::new())))
}
pub fn serve(cat: &[P]) {
    assert!(indexer_lib::initialize(&file(cat)));
}
pub fn ids(p: Option<ProductProducer>) -> Option<Vec<String>> {
    let mut p = p?;
    let mut out = Vec::new();
    while let Some(x) = p.next_product() {
        out.push(x.get_id());
        assert!(out.len() < 100_000, "a result that never ends");
    }
    Some(out)
}
pub fn handlers() -> (CategoryHandler, TagHandler) {
    (indexer_lib::get_categories().expect("categories"), indexer_lib::get_tags().expect("tags"))
}
/// Ids found by a search with nothing switched on.
pub fn search(q: &str, order: Option<&str>) -> Option<Vec<String>> {
    let (c, t) = handlers();
    ids(indexer_lib::search(q, &c, &t, order.map(str::to_string), &Object::new()))
}
pub fn all_tags(t: &TagHandler) -> Vec<JSTag> {
    let mut it = t.tags();
    let mut out = Vec::new();
    while let Some(x) = it.next_tag() {
        out.push(x);
        assert!(out.len() < 100_000, "a cursor that never ends");
    }
    out
}
pub fn all_options(c: &CategoryHandler) -> Vec<(String, Vec<ExportCategoryOption>)> {
    let mut it = c.iter();
    let mut out = Vec::new();
    while let Some(mut o) = it.next_item() {
        let name = o.name();
        let mut v = Vec::new();
        while let Some(x) = o.next_item() {
            v.push(x);
            assert!(v.len() < 100_000, "a cursor that never ends");
        }
        out.push((name, v));
    }
    out
}
/// A feature filter object: one feature, some of from, to, exact.
pub fn filter(feature: &str, fields: &[(&str, JsValue)]) -> Object {
    let inner = Object::new();
    for (k, v) in fields {
        js_sys::Reflect::set(&inner, &JsValue::from_str(k), v).unwrap();
    }
    let outer = Object::new();
    js_sys::Reflect::set(&outer, &JsValue::from_str(feature), &inner).unwrap();
    outer
}
pub fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}

/// A catalogue file.
pub fn catalogue(cat: &[P]) -> String {
    Value::Object(cat.iter().enumerate().map(|(k, x)| (format!("k{k}"), value(x))).collect()).to_string()
}
/// A scratch directory for the indexing program, below the one this runs in.
pub struct Shop(pub std::path::PathBuf);
impl Shop {
    pub fn new() -> Self {
        let d = std::env::current_dir().unwrap().join("shop");
        std::fs::create_dir_all(&d).unwrap();
        Shop(d)
    }
    pub fn put(&self, text: &[u8]) {
        std::fs::write(self.0.join("test.json"), text).unwrap();
    }
    /// Whether the program ended well.
    pub fn run(&self) -> bool {
        let exe = std::env::current_exe().unwrap().with_file_name("indexer");
        std::process::Command::new(exe).current_dir(&self.0).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().unwrap().success()
    }
    pub fn out(&self) -> Option<Vec<u8>> {
        std::fs::read(self.0.join("out.test")).ok()
    }
    /// Ids in the index file.
    pub fn ids(&self) -> Option<Vec<String>> {
        let bytes = self.out()?;
        let (ix, _) = load::<5>(&bytes)?;
        let mut v: Vec<String> = ix.product_container.products.iter().map(|p| p.id.clone()).collect();
        v.sort();
        Some(v)
    }
}
