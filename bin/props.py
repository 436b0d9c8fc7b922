"""Which histories decide each property, and which disagreements with the specification break it."""

# Disagreements about the effect of a transaction as a whole.
EFFECT = ["facts", "log", "report", "alloc", "parts"]

def P(labels, quick, thorough, level="model_checking", **kw):
    d = dict(labels=labels + ["panic", "spec"], quick=quick, thorough=thorough, level=level)
    d.update(kw)
    return d

def q(*profiles, shards=4, traces=30, steps=30):
    return [(p, shards, traces, steps) for p in profiles]

def t(*profiles, shards=24, traces=120, steps=40):
    return [(p, shards, traces, steps) for p in profiles]

def mc(world, depth, cap=250, **kw):
    return [dict(world=world, depth=depth, cap=cap, **kw)]

PROPS = {
    "C01": P(["log", "fold", "inv:duplicate", "rejected:log", "facts", "rollback:data", "reopen:data", "rb:data", "drop:data", "commit:data"],
             q("mixed", "set", "txn"), t("mixed", "set", "txn", "upsert", "schema"),
             mc_quick=mc("card", 3), mc_thorough=mc("card", 4, 6000, timeout=2400)),
    "C02": P(["rejected", "reject", "accept", "facts", "log", "inv", "fold", "isolation"],
             q("mixed", "txn", "schema"), t("mixed", "txn", "schema", "unique", "types"),
             mc_quick=mc("unique", 2) + mc("txn", 3), mc_thorough=mc("unique", 4, 4000, timeout=2400) + mc("txn", 5, 4000, timeout=2400)),
    "C03": P(["reopen", "crash", "end", "fold"], q("durable", shards=12), t("durable", shards=64),
             mc_quick=mc("durable", 3), mc_thorough=mc("durable", 5, 6000, timeout=2400)),
    "C04": P(["isolation", "rollback", "drop", "commit", "begin", "sp", "rb", "rel"],
             q("txn", shards=12), t("txn", shards=64),
             mc_quick=mc("txn", 4), mc_thorough=mc("txn", 6, 6000, timeout=2400)),
    "C05": P(["alloc", "parts", "accept:entid", "reopen:parts", "rejected:parts", "rollback:parts", "drop:parts", "rb:parts", "commit:parts"],
             q("ids", "durable", "txn"), t("ids", "durable", "txn"),
             scenarios=["value-only-entid.ndjson"],
             mc_quick=mc("upsert", 2), mc_thorough=mc("upsert", 3, 6000, timeout=2400)),
    "C06": P(["inv:unique", "accept:unique", "accept:schema:not-unique", "reject"],
             q("unique", shards=10), t("unique", shards=64),
             mc_quick=mc("unique", 3), mc_thorough=mc("unique", 4, 6000, timeout=2400)),
    "C07": P(["inv:card", "accept:card", "accept:schema:many-to-one", "accept:conflict", "facts", "log", "reject"],
             q("card", shards=10), t("card", shards=64),
             mc_quick=mc("card", 3), mc_thorough=mc("card", 5, 6000, timeout=2400)),
    "C08": P(["accept:upsert", "facts", "report", "alloc", "reject", "parts"],
             q("upsert", shards=12), t("upsert", shards=64),
             mc_quick=mc("upsert", 3), mc_thorough=mc("upsert", 4, 6000, timeout=2400)),
    "C09": P(["facts", "log", "accept:conflict", "reject"],
             q("set", shards=10), t("set", shards=64),
             mc_quick=mc("card", 3), mc_thorough=mc("card", 4, 6000, timeout=2400)),
    "C10": P(["inv:type", "accept:type", "facts", "log", "reopen:data", "reject"],
             q("types", shards=10), t("types", shards=64)),
    "C11": P(["schema", "idents", "flags", "accept:schema", "rejected:schema", "reopen:schema", "rollback:schema", "drop:schema", "rb:schema", "commit:schema", "reject"],
             q("schema", shards=12), t("schema", shards=64), scenarios=["attribute-over-facts.ndjson"],
             mc_quick=mc("schema", 3), mc_thorough=mc("schema", 4, 6000, timeout=2400)),
    "C12": P(["query", "read"], q("query", shards=8, traces=40, steps=25) + q("txlog", shards=4, traces=40, steps=25),
             t("query", "txlog", traces=150, steps=25), scenarios=["untyped-query.ndjson", "txdata-fulltext.ndjson", "sqlite-distinct.ndjson"]),
    "C13": P(["query", "read"], q("find", shards=12, traces=40, steps=25), t("find", shards=48, traces=150, steps=25),
             scenarios=["untyped-query.ndjson", "sqlite-distinct.ndjson"]),
    "C22": P(["query", "read", "facts", "log", "fold"], q("fts", shards=12, traces=40, steps=25), t("fts", shards=48, traces=150, steps=25),
             scenarios=["fulltext-match.ndjson", "txdata-fulltext.ndjson"]),
    "C14": P(["pull", "read"], q("pull", shards=8), t("pull")),
    "C15": P(["look", "cache", "read", "query"], q("cache", shards=14), t("cache", shards=64),
             mc_quick=mc("cache", 3), mc_thorough=mc("cache", 5, 6000, timeout=2400)),
    "C16": P(["observer", "obs", "unobs"], q("observe", shards=14), t("observe", shards=64),
             mc_quick=mc("observe", 4), mc_thorough=mc("observe", 5, 6000, timeout=2400)),
    "C17": P(["accept:notation", "accept:entid", "facts", "log", "reject"],
             q("notation", shards=10), t("notation", shards=64)),
    "C18": P(["move", "accept:move", "accept", "reject", "schema", "idents", "flags", "fold", "inv", "facts", "log", "parts", "end"],
             q("time", shards=12, traces=20, steps=50), t("time", shards=64, traces=60, steps=70), scenarios=["attribute-over-facts.ndjson"]),
    "C19": P(["sync", "sw", "facts", "log", "fold", "inv", "schema", "idents", "parts", "alloc", "accept", "reject", "end"],
             q("sync", shards=10, traces=30, steps=40), t("sync", shards=64, traces=60, steps=60), scenarios=["merge-entids.ndjson"]),
    "C20": P(["sync"],
             q("sync", shards=10, traces=30, steps=40), t("sync", shards=64, traces=60, steps=60), scenarios=["merge-entids.ndjson"]),
    "C23": P(["accept", "facts", "log", "report", "reject"],
             q("builder", shards=10), t("builder", shards=64)),
    "C21": P(["vocab", "accept", "reject", "facts", "log", "schema", "idents", "flags", "alloc", "parts", "reopen:schema"],
             q("vocab", shards=12, traces=30, steps=40), t("vocab", shards=64, traces=60, steps=50)),
    "C26": P(["fault", "gone", "isolation", "fold", "end", "rollback", "drop", "commit", "reopen", "facts", "log", "schema", "idents", "parts"],
             q("fault", shards=12, traces=30, steps=35), t("fault", shards=64, traces=60, steps=45)),
    "C24": P(["edn", "text", "read", "rejected", "accept", "reject", "facts", "log", "report", "query"],
             q("edn", shards=10, traces=30, steps=60), t("edn", shards=64, traces=80, steps=80)),
    "C27": P(["door", "explain", "query", "look", "cache", "pull", "observer", "obs", "unobs", "facts", "log", "report", "accept", "reject", "rejected",
              "schema", "idents", "alloc", "parts", "isolation", "begin", "commit", "rollback", "drop", "reopen", "end", "fold", "read", "inv"],
             q("doors", shards=14, traces=30, steps=35), t("doors", shards=64, traces=80, steps=45)),
    "C25": P(["report", "alloc", "accept:card"],
             q("report", "upsert", shards=6), t("report", "upsert", shards=32)),
}
