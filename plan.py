"""Which models, runs of the real library and events decide which property."""
import json, os

TITLE = {}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")) as f:
    for line in f:
        p = json.loads(line)
        TITLE[p["id"]] = p["title"]


def runs(suite, shards=4, scale=1, tshards=7, tscale=4, tseeds=3, mute=()):
    """Random runs: seeded by VERIF_SEED."""
    return dict(suite=suite, shards=shards, scale=scale, tshards=tshards, tscale=tscale, tseeds=tseeds, mute=list(mute))


def cases(suite, model, tmodel=None, shards=2, tshards=7, mute=()):
    """The real library on every state of a model."""
    return dict(suite=suite, model=model, tmodel=tmodel or model, shards=shards, tshards=tshards, mute=list(mute))


def scripts(model, tmodel=None, shards=4, tshards=14, limit=None, tlimit=None, mute=(), suite="scripts"):
    """The real library (or program) through every transition of a model."""
    return dict(suite=suite, model=model, tmodel=tmodel or model, shards=shards, tshards=tshards, limit=limit, tlimit=tlimit, mute=list(mute))


def session(mode, **over):
    return ("MC_Session_" + mode, over)


NG = "MC_NGram_"
PLAN = {
    "C01": dict(
        suites=[runs("scale", shards=1, tshards=4, tscale=1, mute=['ScaleMembers', 'ScaleOrders', 'ScalePosts', 'ScaleFound', 'ScaleShows']), runs("roundtrip", shards=7, scale=2, tscale=4), cases("cases-roundtrip", "MC_Catalog_A", "MC_Catalog_B"),
                cases("cases-roundtrip", "MC_Codec_1", ("MC_Codec_1", {"MaxRecords": 4}), shards=1),
                cases("cases-roundtrip", NG + "A", NG + "B")],
        needs=["Equal", "Compare", "Products", "Tree", "Posts", "Cats", "Tags", "Orders"]),
    "C02": dict(
        models=["MC_Codec_2"], tmodels=["MC_Codec_2", "MC_Codec_1"],
        suites=[runs("codec", shards=6, scale=2, tscale=12)], needs=["Code"]),
    "C03": dict(
        suites=[cases("cases-cuts", "MC_Codec_1", ("MC_Codec_1", {"MaxRecords": 4}), shards=1), cases("cases-cuts", "MC_Codec_2", ("MC_Codec_2", {"MaxRecords": 3}), shards=1),
                runs("cuts", shards=5, scale=2, tscale=6), runs("s-damage", shards=3, scale=4, tscale=12, mute=["ReadProduct"]),
                scripts(session("life"), session("life", Depth=6), limit=6000, tlimit=60000, mute=["ReadProduct"])],
        needs=["Cuts", "LoadFails"]),
    "C04": dict(
        suites=[runs("scale", shards=1, tshards=4, tscale=1, mute=['ScaleMembers', 'ScaleOrders', 'ScaleFound', 'ScaleShows', 'Equal']), cases("cases-posts", NG + "A", (NG + "A", {"Length": 5})), cases("cases-posts", NG + "B", (NG + "B", {"Length": 4})), cases("cases-posts", NG + "E", (NG + "E", {"QLength": 2, "Texts": 5})),
                cases("cases-posts", NG + "F", (NG + "F", {"Length": 3})), runs("posts", shards=6, scale=2, tscale=6)], needs=["ScalePosts", "Posts"]),
    "C05": dict(
        suites=[cases("cases-tree", NG + "A", (NG + "A", {"Length": 5})), cases("cases-tree", NG + "B"), cases("cases-tree", NG + "D", (NG + "D", {"Length": 7})),
                runs("tree", shards=6, scale=2, tscale=6)], needs=["Tree", "Chain"]),
    "C06": dict(
        suites=[cases("cases-correct", NG + "A", (NG + "A", {"Length": 5})), cases("cases-correct", NG + "C", (NG + "C", {"Length": 9})), cases("cases-correct", NG + "D", (NG + "D", {"Length": 7})),
                cases("cases-correct", NG + "G", (NG + "G", {"Length": 7})), runs("correct", shards=6, scale=2, tscale=6)], needs=["Correct"]),
    "C07": dict(
        suites=[cases("cases-rank", NG + "B", (NG + "B", {"Length": 3}), shards=4, tshards=7), cases("cases-rank", NG + "E", shards=4, tshards=7),
                cases("cases-rank", NG + "F", (NG + "F", {"Length": 3})), runs("rank", shards=5, scale=2, tscale=6), runs("s-rank", shards=3, scale=3, tscale=12, mute=["ReadProduct"])], needs=["Rank", "Search", "NextProduct"]),
    "C08": dict(
        models=["MC_Scale"], tmodels=[("MC_Scale", {"Most": 70})],
        suites=[runs("scale", shards=1, tshards=4, tscale=1, mute=['ScaleMembers', 'ScaleOrders', 'ScalePosts', 'ScaleShows', 'Equal']), scripts(session("search", Depth=5), session("search"), mute=["ReadProduct"]),
                runs("s-filter", shards=6, scale=6, tscale=24)], needs=["ScaleFound", "SearchGiven", "NextProduct", "Toggle"]),
    "C09": dict(
        suites=[runs("scale", shards=1, tshards=4, tscale=1, mute=['ScaleMembers', 'ScalePosts', 'ScaleShows', 'Equal']), cases("cases-orders", "MC_Catalog_B", ("MC_Catalog_B", {"MaxRecords": 5})), runs("orders", shards=3, tscale=3), runs("s-orders", shards=4, scale=3, tscale=12),
                scripts(session("search", Depth=5), session("search"), limit=2500, mute=["ReadProduct"])],
        needs=["ScaleOrders", "Orders", "SearchGiven", "NextProduct"]),
    "C10": dict(
        models=["MC_Catalog_A"], tmodels=["MC_Catalog_B"],
        suites=[scripts(session("filter"), mute=["ReadProduct"]), runs("s-features", shards=6, scale=25, tscale=60)], needs=["SearchGiven", "NextProduct"]),
    "C11": dict(
        suites=[runs("scale", shards=1, tshards=4, tscale=1, mute=['ScaleMembers', 'ScaleOrders', 'ScalePosts', 'ScaleFound', 'Equal']), cases("cases-products", "MC_Catalog_B", ("MC_Catalog_B", {"MaxRecords": 5})), runs("products", shards=3, tscale=3), runs("s-read", shards=4, scale=3, tscale=10)],
        needs=["ScaleShows", "Products", "ReadProduct"]),
    "C12": dict(
        suites=[runs("scale", shards=1, tshards=4, tscale=1, mute=['ScaleOrders', 'ScalePosts', 'ScaleFound', 'ScaleShows', 'Equal']), cases("cases-members", "MC_Catalog_B", ("MC_Catalog_B", {"MaxRecords": 5})), runs("members", shards=4, tscale=3)], needs=["ScaleMembers", "Cats", "Tags"]),
    "C13": dict(
        suites=[scripts(session("switch"), session("switch", Depth=6), tlimit=120000), runs("s-toggle", shards=6, scale=5, tscale=20, mute=["SuggestFrom"])],
        needs=["Toggle", "Status", "Listen", "Unlisten", "ListenAll"]),
    "C14": dict(
        suites=[runs("scale", shards=1, tshards=4, tscale=1, mute=['ScaleMembers', 'ScaleOrders', 'ScalePosts', 'ScaleShows', 'Equal']), scripts(session("cursor"), session("cursor", Depth=8), tlimit=120000), runs("s-cursor", shards=6, scale=14, tscale=30, mute=["ReadProduct"])],
        needs=["ScaleFound", "Step", "StepCat", "NextProduct"]),
    "C15": dict(
        suites=[cases("cases-suggest", "MC_Text_Suggest", ("MC_Text_Suggest", {"Length": 6, "TagLength": 5})), runs("s-suggest", shards=6, scale=10, tscale=25)],
        needs=["Suggest"]),
    "C16": dict(
        suites=[scripts(session("life"), session("life", Depth=6), tlimit=60000), runs("s-life", shards=6, scale=14, tscale=30)],
        needs=["NewHandler", "SearchGiven", "ReadOrders", "Suggest", "Load", "LoadFails", "ReadProduct"]),
    "C17": dict(
        models=["MC_Text_Shorten"], tmodels=[("MC_Text_Shorten", {"Length": 7})],
        suites=[runs("shorten", shards=6, scale=10, tscale=20)], needs=["Short"]),
    "C18": dict(
        models=["MC_Catalog_A"],
        suites=[runs("json", shards=5, scale=16, tscale=30), runs("readings", shards=4, scale=12, tscale=80),
                cases("cases-fillers", "MC_Json_Shape", ("MC_Json_Shape", {"Length": 6}), shards=1),
                cases("cases-fillers", "MC_Json_Number", ("MC_Json_Number", {"Length": 6}), shards=1),
                cases("cases-fillers", "MC_Json_Escape", ("MC_Json_Escape", {"Length": 6}), shards=1),
                cases("cases-fillers", "MC_Json_Comment", ("MC_Json_Comment", {"Length": 6}), shards=1),
                cases("cases-fillers", "MC_Json_Hex", ("MC_Json_Hex", {"Length": 6}), shards=1)],
        needs=["Json", "Reading", "Fillers"]),
    "C19": dict(
        models=["MC_Codec_2"],
        suites=[dict(suite="files", written=2, twritten=12, shards=1, tshards=4), dict(suite="files", golden="golden/files.ndjson", shards=1),
                cases("cases-file", "MC_Codec_1", ("MC_Codec_1", {"MaxRecords": 4}), shards=1),
                cases("cases-file", "MC_Catalog_A", "MC_Catalog_B", shards=1), runs("file", shards=4, tscale=4), runs("wire", shards=3, scale=2, tscale=8)],
        needs=["File", "Wire", "Products", "Tree", "Posts"]),
    "C20": dict(
        models=["MC_Text_Id"], tmodels=[("MC_Text_Id", {"Length": 6})],
        suites=[runs("numid", shards=6, scale=6, tscale=40)], needs=["NumId"]),
    "C21": dict(
        suites=[scripts("MC_Indexer", ("MC_Indexer", {"Depth": 7}), suite="cli-scripts", shards=3, tshards=7), runs("cli", shards=4, tscale=6)],
        needs=["Indexer", "File", "OutputGone"]),
}
