"""Writes MANIFEST.json from the registered checks (run by hand when a check is added)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from checks import common, modules  # noqa: E402,F401

AI = "path-sensitive interprocedural abstract interpretation of the source"
TECH = {
    "P01": AI + " with a regular-language string domain; inclusion of the serialised language in the frame grammar",
    "P02": AI + " with regular languages; language equality of the accepted tags with the documented alphabet",
    "P03": AI + " with regular languages; the recogniser's decision per frame language compared with the documented grammar",
    "P04": AI + " with regular languages; symbolic normal forms of parse(serialise(m)) compared with m",
    "P05": AI + "; exception-escape (effect) analysis over all input strings partitioned into regular languages",
    "P06": "ambiguity analysis (EDA/IDA) of the automata of every pattern that reaches received text (who-calls-regex dataflow)",
    "P07": AI + " of the receive path over abstract streams cut at every position class",
    "P08": AI + " of the queue protocol under enumerated interleavings of receive, read, timeout and loss (typestate)",
    "P09": AI + "; typestate of the client x session type, effect 'write' forbidden",
    "P10": AI + "; typestate of the handshake over reply classes (every message kind by regular language)",
    "P11": "information-flow (taint) analysis of the password over the abstract interpretation: sources, sanitising digests, sinks",
    "P12": AI + " with a bit-provenance domain; bit-for-bit comparison with the documented transformation",
    "P13": AI + " with uninterpreted digest terms; per-digit case analysis of the codec",
    "P14": AI + "; effect sequence (send, read, outcome) of every command of every item class",
    "P15": AI + "; effect sequence and yielded values over reply-class words",
    "P16": AI + "; abstract frame of every command compared with the table of documented frames",
    "P17": AI + " with an interval domain; path ranges compared with the documented ranges",
    "P18": AI + "; provenance of every decoded component compared with the documented position",
    "P19": AI + " with padded-integer strings; decode(encode(x)) provenance",
    "P20": AI + "; callbacks scheduled and the provenance of their arguments per event",
    "P21": AI + "; exception-escape analysis of the event loop body",
    "P22": AI + "; liveness of every wait after connection loss (typestate)",
    "P23": AI + "; timeout context in force at every suspension point",
    "P24": AI + "; typestate of writing (paused/resumed) with effect 'write'",
    "P25": AI + "; resource typestate (transport closed on every exceptional exit)",
    "P26": AI + "; equality and hash compared as normal forms, alias analysis of the lists",
    "P27": AI + "; table consistency and cache identity (alias) analysis",
    "P28": AI + " with regular languages; decision per address language compared with the documented classes",
    "P29": AI + " with regular languages; equality and hash of opaque tags compared with equality of their texts",
    "P30": "class-hierarchy query over the interpreted module, and " + AI + "; provenance of the attributes and text of every error",
}
NOTE = ("Static analysis: the library's source is parsed and interpreted abstractly on every run (never executed, no solver); "
        "obligations, paths and functions analysed are in the evidence file. A path that depends on an unmodelled construct is "
        "reported as undecided, not as held.")
NA = {}

if __name__ == "__main__":
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in common.REGISTRY:
            checks.append({"property": i, "quick_cmd": f"python3 run.py {i} --tier quick", "thorough_cmd": f"python3 run.py {i} --tier thorough",
                           "technique": TECH[i], "level": "other", "level_note": NOTE})
        else:
            na.append({"property": i, "reason": NA.get(i, "check not built yet")})
    json.dump({"version": 1, "setup_cmd": "python3 -c 'import sys; sys.exit(sys.version_info < (3, 11))'", "checks": checks,
               "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), len(na))
