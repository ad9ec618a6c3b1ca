"""What each check builds and runs (what it means is in table.py)."""

import table

V6 = [dict(mod="v6")]

PROPS = {
    "C01": dict(jobs=V6),
    "C02": dict(jobs=V6),
    "C03": dict(jobs=V6),
    "C04": dict(jobs=V6),
    "C10": dict(jobs=[dict(mod="v6", group="sql")]),
    "C11": dict(jobs=V6),
    "C12": dict(jobs=V6),
    "C13": dict(jobs=V6),
    "C14": dict(jobs=V6),
    "C07": dict(jobs=V6),
    "C08": dict(jobs=V6),
    "C09": dict(jobs=V6),
    "C15": dict(jobs=V6),
    "C16": dict(jobs=V6),
    "C05": dict(jobs=[dict(mod="v6", shards=2), dict(mod="v6", flavour="race", shards=2), dict(mod="v6", flavour="tsan", shards=2)]),
    "C17": dict(jobs=[dict(mod="v6", tools=["tsl","tsl_mem","tsl_parser"])]),
    "C18": dict(jobs=V6),
    "C34": dict(jobs=V6),
    "C19": dict(jobs=[dict(mod="v6", group="heap", env={"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"})]),
    "C06": dict(jobs=[dict(mod="v6", flavour="asan", group="mem", shards=5), dict(mod="v6", flavour="ubsan", shards=3)]),
}

V45 = [dict(mod="v4", shards=4), dict(mod="v5", shards=4)]

PROPS.update({
    "C20": dict(jobs=V45),
    "C21": dict(jobs=V45),
    "C22": dict(jobs=V45),
    "C30": dict(jobs=V45),
    "C23": dict(jobs=V45),
    "C24": dict(jobs=V45),
    "C25": dict(jobs=V45),
    "C26": dict(jobs=[dict(mod=m, flavour=f, shards=2) for m in ("v4", "v5") for f in ("plain", "race")]),
    "C31": dict(jobs=[dict(mod=m, group="sql", shards=4) for m in ("v4", "v5")]),
    "C27": dict(jobs=[dict(mod=m, group="sql", shards=4, tools=["tsl_parser", "tsl_mem", "tsl_sqlite", "tsl_gorm"]) for m in ("v4", "v5")]),
    "C32": dict(jobs=[dict(mod=m, group="sql", shards=1, width=1, tools=["tsl_graphql"], tool_flags=["-race"]) for m in ("v4", "v5")]),
    "C33": dict(jobs=[dict(mod=m, group="sql", shards=4, tools=["tsl_mongo"]) for m in ("v4", "v5")]),
    "C28": dict(jobs=V45),
    "C29": dict(jobs=V45),
    "C35": dict(jobs=V45),
    "C36": dict(jobs=V45),
    "C37": dict(jobs=V45),
})

for _p in table.P:
    if _p["id"] in PROPS:
        PROPS[_p["id"]].update(rule=_p["rule"], assumptions=_p["assumptions"])
