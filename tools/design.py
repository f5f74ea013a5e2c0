#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, design_tail.md, the bounds in mc/*.go and the planted bugs."""
import json, os, re, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
oracle = {
"P01": "the response and resolver log of the same document in its plainest layout",
"P02": "an independent recursive descent parser for the grammar (mc/refparse.go) decides accept or refuse; refused: an error with a location and no resolver call; accepted: no error with a location; always a well formed response",
"P03": "the line and column the independent parser computes for the first character that cannot continue a document",
"E01": "the reference executor (mc/ref.go) on a model of the Go data: exact data text, errors with paths, resolver log; for the shapes the expected JSON is built together with the value",
"E02": "the reference binder: the value of every argument as the resolver received it (a dump of the Go value), or an error at the path of the field and no call",
"E03": "as E02, with JSON payloads read by encoding/json",
"E04": "the reference executor, which expands fragments recursively with their type conditions",
"E05": "the reference executor, with a table of the directives and the places they are defined for",
"E06": "the reference executor: operation chosen by name, in a document whose operations are all distinguishable",
"E07": "the reference executor with the same faults: exact list of errors, messages and paths, exact data",
"E08": "encoding/json reads every response; strings must come back as the bytes that went in (invalid UTF-8 replaced); the data must be the same for all response options",
"E09": "the reference executor: exact log of calls with arguments, and an order dependent shared state that the model computes as well",
"E10": "the depth of the deepest selection set of the document, counted on the document itself",
"E11": "a model of the request context: a map and a current context per request",
"E12": "the same request as the first one on a fresh schema",
"E13": "the same requests on a schema that never caches",
"E14": "a deep copy of every argument taken while the resolver ran",
"E15": "the original schema, and a schema that was never copied",
"P04": "proportional growth: 32 times the repetitions may take at most 8 times more than 32 times the processor time and memory (quadratic work takes 1024 times)",
"E17": "the size of the reachable heap at the fixpoint of the cycle: it does not grow from a repetition to the next",
"C01": "a map from query and target to what was stored last, and the limits of 100 lengths and 20 queries",
"E16": "the answer of each request alone; the race detector's happens-before relation",
"G01": "an independent description of the types derived from the Go types by reflection (mc/refschema.go), and the behaviour of requests themselves (selectable iff listed, accepted iff the literal fits the listed type)",
"G02": "mc/refschema.go: names, kinds and refusals derived from the Go types by the documented rules; a wrong schema is refused with an error, never a panic",
"G03": "the registered map itself, and a model of which maps are usable",
"G04": "the reference executor on the concrete object; registrations: a model of the registry",
"R01": "the merged object of the GraphQL specification; what yarql answers today (every selection on its own) is known finding K1, any other deviation is a violation",
"H01": "the same request given to Resolve directly",
"H02": "the reference binder with the table of uploaded files",
"V01": "strconv and encoding/json: parsing the response gives back exactly the Go value (bit for bit for floats)",
"V02": "time.Time of the standard library: the instant, truncated to milliseconds; an independent reader of the ISO 8601 layout for texts",
"T01": "the fields the reference executor completed, in order, with path, parent and type; times within the request and nested as the fields are; the rest of the response as without tracing",
"A01": "what is written down next to every value of the pool (its equality class, number, emptiness), never reflection on the value itself",
"B01": "an encoder of documents that is written from the description of the instructions and knows nothing of the parser",
"A02": "a reader of unified diffs that applies the diff to one text and compares with the other",
"X01": "the set of types and fields computed from the Go types",
}
src = "".join(open(f).read() for f in sorted(glob.glob(H + "/mc/p_*.go")))
out = open(H + "/tools/design_head.md").read() + "\n"
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
for p in props:
    i = p["id"]
    m = re.search(r'ID:\s+"%s".*?"quick":\s+"(.*?)",\n\s+"thorough":\s+"(.*?)",' % i, src, re.S)
    cost = ""
    try:
        e = json.load(open(H + "/tools/cost.json"))[i]
        cost = " Cost on 8 cores: %s cases in %s s." % (e[0], e[1])
    except Exception:
        pass
    out += "**%s — %s.** %s\n\n* Enumerated: %s.\n* Thorough: %s.\n* Oracle: %s.%s\n* Beyond the tests: %s\n\n" % (
        i, p["title"], p["statement"], m.group(1), m.group(2), oracle[i], cost, p["why_tests_cant"])
tail = open(H + "/tools/design_tail.md").read()
rows = "| Planted bug | Property | Needs | Caught by |\n|---|---|---|---|\n"
caught = json.load(open(H + "/tools/caught.json")) if os.path.exists(H + "/tools/caught.json") else {}
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    rows += "| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"].replace("|", "\\|"), caught.get(i, m["property"]))
out += tail.replace("@SEEDS@", rows)
open(H + "/DESIGN.md", "w").write(out)
