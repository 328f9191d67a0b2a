"""Which function decides which property."""

CHECKS = {
    "P01": "proto_checks:at_most_once",
    "P02": "proto_checks:durable",
    "P03": "proto_checks:sampling",
    "P04": "proto_checks:oldest_first",
    "P05": "proto_checks:crash_resume",
    "P06": "proto_checks:total_limit",
    "P07": "proto_checks:budgets",
    "P08": "proto_checks:error_policy",
    "P09": "proto_checks:accounting",
    "P10": "startup:startup",
    "P11": "store:store",
    "P12": "results:meaning",
    "P13": "results:roundtrip",
    "P14": "seedchain:chain",
    "P15": "rungs:rungs",
    "P16": "proposals:robust",
    "P17": "proposals:inspace",
    "P18": "session:session",
    "P19": "grid:grid",
    "P20": "summary:summary",
    "P21": "csvsum:csvsum",
    "P22": "settings:settings",
    "P23": "clireads:clireads",
    "P24": "spacedef:spacedef",
    "P25": "encoding:encoding",
    "P26": "freezethaw:freezethaw",
    "P27": "confobj:confobj",
    "P28": "priors:priors",
    "P29": "surrogate:surrogate",
    "P30": "curve:curves",
}
REPLAY = {"curve": "curve", "surrogate": "surrogate", "priors": "priors", "confobj": "confobj", "freezethaw": "freezethaw", "encoding": "encoding", "spacedef": "spacedef", "clireads": "clireads", "settings": "settings", "csv": "csvsum", "summary": "summary", "grid": "grid", "session": "session", "protocol": "proto_checks", "startup": "startup", "store": "store",
          "chain": "seedchain", "rungs": "rungs", "space": "proposals", "odd": "proposals:replay_odd", "result": "results", "life": "results", "seed": "results"}
