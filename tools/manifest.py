"""Writes /verif/MANIFEST.json from the check modules that exist."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": ("runtime monitor: independent SnQL reader compared with the neutral description of the query", "every text the SDK emits under a random workload of queries is read back by an independent parser; a sampled input space, no proof"),
    "C02": ("runtime monitor: SnQL literal decoder over a hostile literal workload", "sampled strings, numbers and datetimes in every literal position; no proof"),
    "C03": ("runtime monitor: truth-table / row-sampling equivalence checker on emitted filters", "equivalence of the filter given and the filter in the text decided on sampled rows for sampled condition trees"),
    "C04": ("runtime monitor: deep before/after snapshots of all inputs around every operation", "sampled operations and object graphs, including failing and repeated ones"),
    "C05": ("history monitor: fault-injected operation histories compared with fresh-process reference outcomes", "sampled histories; exceptions injected at random lines of the real code"),
    "C06": ("runtime monitor: accept/reject oracle written from the documented rules on constructor calls", "sampled arguments around every boundary"),
    "C07": ("runtime monitor: consistency oracle on the neutral description vs. validate/serialize outcome", "sampled queries with planted bad references at every position"),
    "C08": ("runtime monitor: required-condition oracle vs. outcome of the check", "sampled models, matches and condition trees"),
    "C09": ("runtime monitor: grammar-driven MQL workload, parse result compared with the denoted expression", "sampled expressions in random layouts, mutated strings for rejection"),
    "C10": ("runtime monitor: independent MQL reader and round-trip checker on emitted MQL", "sampled metrics expressions"),
    "C11": ("runtime monitor: accept/reject oracle on metrics objects", "sampled arguments and formula trees"),
    "C12": ("runtime monitor: field-by-field conservation check of the MQL context", "sampled parameter combinations"),
    "C13": ("runtime monitor: conservation check of request payloads, accept/reject oracle", "sampled requests"),
    "C14": ("runtime monitor: reference converter compared with json_to_snql output and its text", "sampled legacy bodies"),
    "C15": ("runtime monitor: accept/reject and conservation oracle on delete payloads", "sampled condition dictionaries and mutation histories"),
    "C16": ("controlled-interleaving monitor: line-level scheduler on real threads plus free-running stress, results compared with sequential reference", "sampled schedules (pre-emption points at line granularity)"),
    "C17": ("fuzzing with an outcome monitor: result or SDK error, output re-accepted with the same meaning", "sampled and mutated inputs"),
    "C18": ("runtime monitor: equality/hash/copy laws checked on generated twins and one-field siblings", "sampled objects"),
    "C19": ("runtime monitor: reference search over the neutral description vs. searcher results", "sampled queries and function trees"),
    "C21": ("runtime monitor: helper results compared with the list the structure was built from", "sampled joins, condition trees, column lists and flags"),
    "C20": ("history monitor: random setter sequences against a record model", "sampled sequences with legal and illegal calls"),
}
have = [p for p in sorted(TECH) if os.path.exists(os.path.join(ROOT, "mon/checks/%s.py" % p.lower()))]
m = {
    "version": 1,
    "setup_cmd": "true",
    "checks": [
        {
            "property": p,
            "quick_cmd": "bash run.sh %s" % p,
            "thorough_cmd": "VERIF_TIER=thorough bash run.sh %s" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": TECH[p][0],
            "level": "exploration",
            "level_note": TECH[p][1],
        }
        for p in have
    ],
    "not_applicable": [],
}
missing = [p for p in sorted(TECH) if p not in have]
m["not_applicable"] = [{"property": p, "reason": "check not built yet"} for p in missing]
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
