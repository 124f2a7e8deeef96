#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe or [], hook_needed=None)))

p("C01", "Loading a saved index reproduces everything that was indexed",
  "For every catalogue and gram length, writing the built index out and loading it again yields the same products (titles, ids, vendors, features, shortened descriptions), the same n-gram tree and postings, and the same categories with their options, tags and sort orders, in the same positions. The loaded index compares equal to the one it was written from, and not to the index of a catalogue whose products, features, categories, tags or sort orders differ from its own.",
  ["inputs"], "every catalogue (any number of products, option groups, tags, vendors, any Unicode text) and every gram length",
  "One round trip of one fixed catalogue (test.json, two option groups, N=8) is compared with an equality that both sides compute; catalogues with other shapes (interleaved option groups, >127 entries, missing fields, duplicates) are never tried.",
  ["src/serialize/all_indexes.rs", "src/serialize/nodes.rs", "src/serialize/collections.rs", "src/data/container.rs", "src/data/product.rs", "src/classic_indexes/mod.rs", "src/classic_indexes/categorical.rs", "src/classic_indexes/tag.rs", "src/classic_indexes/order.rs"],
  [("serialize_all / deserialize_all", "src/serialize/all_indexes.rs"), ("GramIndex serialize/deserialize", "src/serialize/nodes.rs"), ("ProductContainer::deserialize", "src/data/container.rs"), ("CategoryIndex::deserialize_many", "src/classic_indexes/categorical.rs")],
  ["return of deserialize_all", "public fields of the built and loaded structures"])

p("C02", "Every value is encoded self-delimiting and decoded exactly",
  "For every value of every storable type (integers up to the full 64-bit range, characters, text, floats, booleans, lists, maps, fixed-size arrays and id lists), decoding the bytes written for it returns the same value and consumes exactly those bytes, whatever bytes follow. Id lists come back as the same multiset in ascending order.",
  ["inputs"], "every value of every storable type, followed by any other bytes",
  "Unit tests sample six integers, five characters and four strings, each alone in its buffer; no value between 2^56 and 2^63, no list, no map, no trailing data.",
  ["src/serialize/primitives.rs", "src/serialize/collections.rs", "src/serialize/sequential_array.rs"],
  [("7-bit variable length integers", "src/serialize/primitives.rs"), ("length-prefixed collections", "src/serialize/collections.rs"), ("delta-coded id lists", "src/serialize/sequential_array.rs")],
  ["Serializable::serialize output bytes", "Deserializable::deserialize value and rest"])

p("C03", "A truncated index file is refused and leaves the loaded index serving",
  "Loading any strict prefix of a valid index file reports failure and never produces an index, at whatever byte the data was cut. A failed load leaves a previously loaded index in service, answering as before.",
  ["inputs", "crash_points"], "every catalogue and every cut position of its index file",
  "No test ever loads damaged data.",
  ["src/serialize/primitives.rs", "src/serialize/collections.rs", "src/serialize/all_indexes.rs", "src/lib.rs"],
  [("Option-returning decoders", "src/serialize/primitives.rs"), ("initialize replaces only after a successful decode", "src/lib.rs")],
  ["return of deserialize_all on every prefix", "initialize + later searches"])

p("C04", "N-gram postings are exact",
  "After indexing, looking up any n-gram of length N yields exactly the products whose lower-cased description, title and vendor text (concatenated in that order, read as if preceded by N-1 NUL characters) contains it, once per occurrence and in catalogue order, and nothing else. Only n-grams found in at least four fifths (rounded down) of the products are dropped.",
  ["inputs"], "every catalogue and every gram length N",
  "The one indexing test builds the index and drops it without looking at it.",
  ["src/ngram/indexer.rs", "src/lib.rs"],
  [("sliding window (lookback) and posting map", "src/ngram/indexer.rs"), ("DATA_CUTOFF_PERCENTAGE retain", "src/ngram/indexer.rs")],
  ["GramIndex.data"], [("data", "n-gram to postings", "src/ngram/index.rs")])

p("C05", "N-gram tree holds exact relative frequencies, most frequent first",
  "The n-gram tree contains exactly the character sequences of length up to N occurring in the catalogue text; each node's weight is its number of occurrences divided by its parent's (for first characters: by the total number of characters), and each node lists its continuations from most to least frequent. The suggested continuation of a character follows a most frequent continuation at every step until none is left.",
  ["inputs"], "every catalogue and every gram length N",
  "No test inspects the tree.",
  ["src/ngram/indexer.rs", "src/ngram/index.rs"],
  [("MutableGramNode::immutalize, occurances_to_weight", "src/ngram/indexer.rs"), ("most_popular_chain", "src/ngram/index.rs")],
  ["GramIndex.roots", "GramIndex::most_popular_chain"])

p("C06", "Each query window is corrected to the likeliest known n-gram in budget",
  "A query window of N characters is mapped to a known n-gram with the same first character that is reachable from it by typing corrections (a character replaced, a missing character filled in, a surplus character skipped) within a budget of N/3 (rounded down), and among all reachable ones it is one with the highest confidence, where confidence is the product of the tree weights along the way. With no reachable n-gram it is mapped to nothing; with no budget only to itself.",
  ["inputs"], "every catalogue, every gram length N and every window of N characters",
  "No test performs a search and checks its outcome.",
  ["src/ngram/index.rs"],
  [("search_gram / recursive_search", "src/ngram/index.rs")],
  ["GramIndex::search_gram"])

p("C07", "Search ranks each matching product once by summed confidence",
  "Searching returns each product at most once, and exactly those products holding the corrected n-gram of at least one query window; a product's confidence is the sum, over all windows and all its occurrences of the corrected n-gram, of the window's confidence, and results are in non-increasing confidence. The result does not depend on the letter case of the query or of the catalogue text, and queries shorter than N characters find nothing (unless the catalogue text itself holds NUL characters, which a short window is read as preceded by).",
  ["inputs"], "every catalogue, gram length and query",
  "The only searches in the repository discard their results.",
  ["src/ngram/index.rs", "src/ngram/result_ranker.rs", "src/lib.rs"],
  [("GramIndex::search window loop", "src/ngram/index.rs"), ("ResultRanker", "src/ngram/result_ranker.rs"), ("to_lowercase on both sides", "src/lib.rs")],
  ["GramIndex::search", "search() + ProductProducer"])

p("C08", "Active categories and tags restrict search results conjunctively",
  "With any set of category options and tags switched on, a search returns exactly those products of the unrestricted search that belong to every active option and carry every active tag, in unchanged relative order. With nothing switched on it returns the unrestricted result.",
  ["inputs", "histories"], "every catalogue, query and history of switching options and tags on and off",
  "The interactive layer is not executed by any test.",
  ["src/lib.rs", "src/js_interactable/category_handler.rs", "src/js_interactable/tag_handler.rs", "src/classic_indexes/categorical.rs", "src/classic_indexes/tag.rs"],
  [("is_valid of both handlers", "src/js_interactable/"), ("search filter chain", "src/lib.rs")],
  ["search() + ProductProducer"])

p("C09", "Sort orders are exact, and sorting only reorders",
  "Three orders exist: alphabetical by title, price low to high and price high to low; each ranks every product exactly once by that key, products with equal keys staying in catalogue order. A search with an order returns the same products as without it, arranged by that ranking; an unknown order yields no result at all.",
  ["inputs"], "every catalogue (with equal titles and prices) and every query and filter",
  "Orders are built once in a test but never read.",
  ["src/classic_indexes/order.rs", "src/data/raw_parser.rs", "src/lib.rs"],
  [("OrderIndex::add / add_custom_cmp", "src/classic_indexes/order.rs"), ("results.sort_by_cached_key", "src/lib.rs")],
  ["OrderIndex::get_orders / options", "search() with order", "get_orders()"])

p("C10", "Feature filters keep exactly the products inside the requested values",
  "A range filter on a feature keeps exactly the products whose value (the number the product shows; prices are kept in single precision) lies between the given bounds, bounds included and either bound optional; an exact filter keeps exactly those with an equal value; products lacking the feature (or whose value is not a number, for ranges) are dropped, a filter without any bound or value keeps everything (bounds that are not numbers count as absent), and several filters apply together. A filter specification that is not of this form makes the search return nothing (no result object).",
  ["inputs"], "every catalogue, every combination of filters, bounds and value types",
  "The filter code is never executed by a test (it needs a JavaScript host).",
  ["src/js_interactable/feature_filter.rs", "src/lib.rs", "src/data/features.rs"],
  [("FeatureFilter::parse and filter", "src/js_interactable/feature_filter.rs")],
  ["search() with feature_filter"])

p("C11", "A product shows its own data",
  "After indexing and loading, every product found by a search shows the title, id, price (the catalogue's minimum price) and first image of its own catalogue record and that record's description, shortened; the vendor kept for it is its own vendor. A product without an image never shows another product's image, and a feature a product does not have is reported as absent.",
  ["inputs"], "every catalogue, including records without images, repeated vendors and repeated text",
  "Tests only compare an index with its own copy; nothing is compared with the input records. Every record of the sample file has an image.",
  ["src/data/raw_parser.rs", "src/data/features.rs", "src/data/vendor.rs", "src/data/product.rs", "src/js_interactable/product_producer.rs"],
  [("optimize", "src/data/raw_parser.rs"), ("FeatureSet columns indexed by product", "src/data/features.rs"), ("VendorManager", "src/data/vendor.rs")],
  ["JsProduct getters", "ProductContainer"])

p("C12", "Category and tag membership equals what the records say",
  "The categories are the option names of the catalogue and each category's options are the values given under that name, each once and in order of first appearance, and a product belongs to an option exactly when its record lists that value under that name; the tags are exactly the tags of the catalogue, each once, and a product carries a tag exactly when its record lists it. This holds right after indexing and after loading.",
  ["inputs"], "every catalogue, including repeated, empty and shared names and records without options or tags",
  "Membership is never queried by a test.",
  ["src/classic_indexes/categorical.rs", "src/classic_indexes/tag.rs", "src/data/raw_parser.rs"],
  [("CategoryIndex::index", "src/classic_indexes/categorical.rs"), ("TagIndex::index", "src/classic_indexes/tag.rs")],
  ["CategoryOption::contains", "Tag::contains"])

p("C13", "Toggling flips one switch and notifies exactly the right observers",
  "Toggling a tag or category option, obtained from whichever handler of the same loaded index, flips the status of that item in that handler and of nothing else; it calls, with the new state, every general observer and every observer registered for that item once per registration, and no other observer, even if one of them throws. Removing an observer from an item removes one of its registrations on that item and nothing else.",
  ["histories"], "every history of registrations, removals and toggles over any number of handlers",
  "The handlers are not executed by any test.",
  ["src/js_interactable/category_handler.rs", "src/js_interactable/tag_handler.rs"],
  [("toggle", "src/js_interactable/"), ("add_*_lister / remove_*_listener", "src/js_interactable/")],
  ["observer callbacks", "get_status"], [("active, option_observers, general_observers", "switches and registrations", "src/js_interactable/")])

p("C14", "Cursors enumerate everything exactly once, in order, then stay at the end",
  "Stepping through tags, categories, a category's options or the products of a search yields every element exactly once in its order, then reports the end, and keeps reporting it. Cursors do not disturb each other, and an item obtained from a cursor is the item whose name it shows.",
  ["histories"], "every catalogue and every interleaving of steps on any number of cursors",
  "The cursors are not executed by any test.",
  ["src/js_interactable/category_handler.rs", "src/js_interactable/tag_handler.rs", "src/js_interactable/product_producer.rs"],
  [("CategoryIter, CategoryOptionIter, TagIter, ProductProducer", "src/js_interactable/")],
  ["next_item / next_tag / next_product"])

p("C15", "Tag suggestion proposes the best matching tag, and an exact match always",
  "For a query, the suggestion is a pair of a query word and a tag whose characters agree, position by position, on more than four fifths of the shorter one's characters (at least three characters long), and no other pair agrees on a larger share; if no pair qualifies there is no suggestion. In particular a word of three or more characters equal to a tag is always answered with a full match, in any script.",
  ["inputs"], "every catalogue's tags and every query text",
  "tag_suggestion is not executed by any test.",
  ["src/lib.rs"], [("tag_suggestion / overlap", "src/lib.rs")], ["tag_suggestion"])

p("C16", "Nothing is served before loading; reloading replaces, old handles keep theirs",
  "Before an index is loaded every query entry point reports that there is nothing; after loading they all answer from the most recently loaded index. Handlers, cursors and products obtained earlier keep answering from the index they came from.",
  ["histories"], "every history of loads, queries and uses of earlier handles",
  "No test calls the loading entry point.",
  ["src/lib.rs", "src/js_interactable/category_handler.rs", "src/js_interactable/tag_handler.rs", "src/js_interactable/product_producer.rs"],
  [("SHARED_INDEX / SHARED_CLASSIC_INDEX", "src/lib.rs"), ("Arc snapshots in handles", "src/js_interactable/")],
  ["initialize, search, get_tags, get_categories, get_orders, tag_suggestion"])

p("C17", "Shortened text is a clean prefix cut between words",
  "Storing text under a length limit keeps it whole if its last character starts at or before byte number limit; otherwise it keeps the part before the last space that starts at or before that byte (a space that is the very first character does not count: a text is never shortened to nothing), or, if there is none, the characters starting at or before it. The result is always valid text and a prefix of the original.",
  ["inputs"], "every text and every limit",
  "The existing test prints five results and asserts nothing.",
  ["src/serialize/collections.rs", "src/data/product.rs"],
  [("limit_string_len", "src/serialize/collections.rs"), ("Product::serialize (limit 100)", "src/data/product.rs")],
  ["serialize_string_with_limit", "loaded Product.description"])

p("C18", "Every well-formed catalogue is indexed, whatever its JSON spelling",
  "Indexing a JSON catalogue gives an index with exactly its records, in some order, independent of how the JSON is spelled: escaped or unescaped text, key order, whitespace and unknown extra fields make no difference. Malformed JSON, or a record lacking a required field, yields no index rather than a partial one.",
  ["inputs"], "every catalogue and every JSON spelling of it",
  "Tests read one file in one spelling, in which no text except descriptions needs escapes.",
  ["src/lib.rs", "src/data/raw_parser.rs"],
  [("index (JSON entry point)", "src/lib.rs"), ("RawProduct Deserialize", "src/data/raw_parser.rs")],
  ["index()"])

p("C19", "The index file format is stable in both directions",
  "Index files follow one fixed byte format: files written by the indexer can be read by any reader of that format, and files in that format written by anyone else load to what they say. Index files built earlier therefore keep loading after the library changes.",
  ["inputs", "programs"], "every catalogue, every order of map entries in the file, both directions",
  "Round-trip tests cannot see a change made to writer and reader together.",
  ["src/serialize/all_indexes.rs", "src/serialize/nodes.rs", "src/serialize/collections.rs", "src/serialize/primitives.rs", "src/data/container.rs", "src/classic_indexes/mod.rs"],
  [("the Serializable / Deserializable implementations", "src/serialize/")],
  ["bytes of serialize_all", "deserialize_all on independently made bytes"])

p("C20", "A product's numeric id is the trailing decimal number of its id",
  "The numeric id of a product is the number written by the longest run of decimal digits at the end of its textual id (whenever that number fits in 64 bits), zero if there is none.",
  ["inputs"], "every textual id whose trailing number fits 64 bits",
  "The conversion is not executed by any test.",
  ["src/data/product.rs"], [("Product::get_id", "src/data/product.rs")], ["Product::get_id"])

p("C21", "The indexing program writes the whole index or leaves things as they were",
  "Run where there is a well-formed catalogue file, the indexing program ends successfully and the index file it leaves holds exactly the records of that catalogue, replacing whatever was there. If the catalogue is missing, malformed or lacks a required field, or the index file cannot be written, it ends with failure and what was there before is unchanged.",
  ["inputs", "histories"], "every catalogue file in every spelling, every earlier content of the index file, every sequence of runs",
  "The program is not run by any test.",
  ["src/main.rs", "src/lib.rs"],
  [("main", "src/main.rs"), ("index_and_serialize", "src/lib.rs")],
  ["exit status and out.test of the indexer program"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
assert all(len(r["title"]) <= 80 for r in P), [r["id"] for r in P if len(r["title"]) > 80]
