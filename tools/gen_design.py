#!/usr/bin/env python3
"""writes DESIGN.md: text from tools/design/*.md, the table of the properties from the checks and the table of the planted
bugs from seeded/*/meta.json and tools/design/detected.json (written by detect.py)"""
import json, os, sys, glob
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, V); sys.dont_write_bytecode = True
from pbt import props
ORACLE = {
 "C01": "no sanitizer report, signal or CPU-limit kill; calls on failed and empty loaders return",
 "C02": "model: multiset of (class, node id) and the returned counts",
 "C03": "model: ancestors in the abstract graph precede descendants within a class; sort false + error iff the abstract graph has a cycle",
 "C04": "model: attribute values, defaults from the NodeSet schema",
 "C05": "model: the abstract texts, byte for byte",
 "C06": "model: multisets of (type, target, direction) per list, classification from the abstract type tree",
 "C07": "model: the table of the file; the log of the callback (order, count, URI, context)",
 "C08": "model: the alias table of the abstract file",
 "C09": "model: the abstract value tree",
 "C10": "model: the abstract definition",
 "C11": "ledger of malloc/free/realloc, libxml2 blocks and open descriptors: all zero after delete; ASan for double free",
 "C12": "metamorphic: report of the decorated rendering = report of the plain one (and = model)",
 "C13": "known verdict by construction (cut point, expat); return value and error log",
 "C14": "differential: interleaved in one process = alone in a fresh process",
 "C15": "shadow copies of all blocks, alignment/overlap/zero checks after every operation, ASan",
 "C16": "model: event sequence of the abstract extension tree; metamorphic: nodes equal without handler",
 "C17": "metamorphic: permutations agree (and = model)",
 "C18": "model of what must be logged; formatted text and captured stdout compared with Python's formatting",
 "C19": "model: multiset of (data type, encoding node)",
 "C20": "server model: every attribute of every node; dump of the standard nodes unchanged",
 "C21": "server model: set of references seen from both ends",
 "C22": "server model: the generated value (integers, floats bitwise, dates, texts, ids)",
 "C23": "server model: the generated value member by member, after decoding the stored C struct with the generated type",
 "C24": "layout model (alignment, padding, optional pointers, switch), checked against gcc",
 "C25": "server model in terms of URIs; count of registered namespaces",
 "C26": "dump of the address space and types before = after; valid files afterwards = model",
 "C27": "Python base64; round trip; ASan",
 "C28": "metamorphic: split = whole (and = server model)",
 "C29": "no sanitizer report, signal or CPU-limit kill while loading, reading back completely and releasing",
 "C30": "the table the service answers by; sequence rules on the calls the service receives",
 "C31": "ThreadSanitizer; differential: output of every thread = output of the job alone",
 "C32": "metamorphic: report and server contents under (locale, TZ, directory) = under the C locale",
 "C33": "differential: every report of the history = report of a fresh loader sorted once after the same imports; order of parents from the model",
}
text = lambda f: open(os.path.join(V, "tools/design", f)).read()
titles = {}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); titles[p["id"]] = p["title"]
o = [text("head.md").rstrip(), "", "## What decides each property", "",
     "Cases are per run (quick / thorough); a quick run takes 10 to 40 s on 8 cores, a thorough one 10 to 30 minutes (capped).", ""]
have = props.all_props()
for i in sorted(titles):
    p = have[i]
    o += ["**%s %s**" % (i, titles[i]), "", "* generated: " + p.rule, "* oracle: " + ORACLE[i], "* cases: %d / %d" % (p.quick, p.thorough)]
    if p.assumptions: o.append("* assumptions: " + "; ".join(p.assumptions))
    o.append("")
o += [text("tail.md").strip(), "", "## Planted bugs", "",
      "Every one builds, passes the repository's tests and has a demonstration (`tools/mkseeds.py` confirms this). "
      "\"Caught by\" comes from `tools/detect.py` (quick tier, seed 1); its own check is always tried, others where listed.", "",
      "| bug | property | needs | caught by |", "|---|---|---|---|"]
det = {}
f = os.path.join(V, "tools/design/detected.json")
if os.path.exists(f): det = json.load(open(f))
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); s = f.split("/")[-2]
    o.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "/"), ", ".join(det.get(s, [])) or "not tried"))
open(V + "/DESIGN.md", "w").write("\n".join(o) + "\n")
