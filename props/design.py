#!/usr/bin/env python3
"""fills the tables of DESIGN.md: properties (times from the last evidence
files, kept where there is none) and planted bugs"""
import glob, json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import meta, spec
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = dict(
    P01="a second, independent grammar and encoder", P02="the four representations against each other and the bytes",
    P03="lines cut at line feeds, each decoded by the reference grammar, for every sequence of read sizes",
    P04="fields selected by the reference from the denotation of the generated selector", P05="the relation of the generated literal, by byte comparison",
    P06="the truth value of the generated tree", P07="what was generated; parsing the printed text again", P08="the same edit on the list of fields",
    P09="the reference's list of values", P10="the reference's cross product", P11="the reference's rendering of the generated format",
    P12="records for which the reference predicate holds", P13="positions counted by the reference", P14="multisets and order of input lines",
    P15="lines the reference grammar rejects", P16="for every slot and record: the number of draws that lead there", P17="counts by the reference",
    P18="sorted multiset of reference rows", P19="reference rows, CSV and TSV writer", P20="reference rendering", P21="reference writers of plain, JSON, XML, import, binary, PICA+",
    P22="counts by the reference", P23="an independent SHA-256 on enumerated records", P24="reference split into levels", P25="reference evaluation of rules, order and columns",
    P26="calendars, ISO 7064 check digits, JEL pattern, normal forms, links, duplicates by the reference", P27="the result on the valid lines only",
    P28="the result on a plain file", P29="a model of the settings", P30="the same command with the text written in the normal form",
    P31="the result without the fault, or a failure", P32="the command without options on the records the reference selects", P33="standard output",
    P34="exit code 0 or 2")
d = open(os.path.join(V, "DESIGN.md")).read()
old = dict(re.findall(r"^\| (P\d\d) .* \| ([^|]*) \|$", d, re.M))
rows = ["| id | harnesses | decided against | quick jobs | paths; engine s |", "|---|---|---|---|---|"]
for m in meta.META:
    p = m["id"]
    q = spec.PROPS[p]["quick"]
    hs = []
    for h, _ in q:
        if h not in hs:
            hs.append(h)
    t = old.get(p, "")
    try:
        e = json.load(open(os.path.join(V, "evidence", p + ".json")))
        if e["tier"] == "quick" and "--times" in sys.argv:
            t = "%d; %.0f" % (e["coverage"]["states"], e["coverage"]["engine_seconds"])
    except (OSError, KeyError):
        pass
    rows.append("| %s %s | %s | %s | %d | %s |" % (p, m["title"], ", ".join("`%s`" % h for h in hs), ORACLE[p], len(q), t))
seeds = ["| bug | breaks | needs | caught by |", "|---|---|---|---|"]
res = {}
for l in open(os.path.join(V, "props", "seeds.txt")):
    a, b = l.split(None, 1)
    res[a] = b.strip()
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    n = os.path.basename(os.path.dirname(f))
    j = json.load(open(f))
    seeds.append("| %s | %s | %s | %s |" % (n, j["what_it_breaks"], j["needs"], res.get(n, "?")))
for tag, r in (("table", rows), ("seeded", seeds)):
    d = re.sub(r"<!--%s-->.*?<!--/%s-->" % (tag, tag), lambda _: "<!--%s-->\n%s\n<!--/%s-->" % (tag, "\n".join(r), tag), d, flags=re.S)
open(os.path.join(V, "DESIGN.md"), "w").write(d)
