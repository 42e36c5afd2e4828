#!/usr/bin/env python3
"""Rewrites the section of DESIGN.md between the markers from specs.py and the texts below."""
import json, os, sys

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import specs

HOW = {
    "C01": "`from_reader`, iteration, listing and the section stream are run on symbolic octets; any panic, overflow, access outside an object or exceeding the step budget is a violation. No oracle is needed. Headers are also made symbolic one at a time inside valid messages, because arbitrary octets rarely get deep.",
    "C02": "Raw octets: whatever is accepted must satisfy the tiling conditions, evaluated on the symbolic input. Layouts: messages built from symbolic sizes must be accepted, with exactly the built sections. `c02_far` puts the indicator across the reader's buffer boundaries.",
    "C03": "The stream of section numbers is symbolic; a five-state automaton written from the grammar runs beside the code, and items, numbers, inherited sections and the place of the error must agree. `c03_handle*` does it through bytes and `from_reader`.",
    "C04": "A reader whose every read returns a symbolic number of octets, at most the request, or `Interrupted`; the result must be that of reading from memory, decoded values included.",
    "C05": "A reader failing at a symbolic operation, data cut at a symbolic position, symbolic wrong markers and lengths: the call must be an error. Never a shorter list.",
    "C06": "All octets symbolic; each accessor must equal the big-endian value of its octets, in the listing and through the submessage.",
    "C07": "Operations (next, nth with any argument, size hint, new iterator, last, count, step_by, collect) chosen symbolically over three submessages, against a list and an index. `c07_kept`: submessages of several iterators are kept in symbolic order and decoded afterwards.",
    "C08": "Template numbers chosen from three values per submessage; expected: the sorted set.",
    "C09": "Everything symbolic, down to the bits of the data and the IEEE reference value; each value must be the formula's operations on the integer at its bit position.",
    "C10": "All bitmaps and data; the k-th set bit's point takes the k-th value. `d_short`: all combinations of too little data, too short bitmaps and counts must be an error, and the size hint is exact after every step.",
    "C11": "Symbolic references, widths, lengths and data, sizes of the bit fields enumerated; the oracle unpacks groups by itself from the formula in the WMO notes to table 5.0, template 7.2.",
    "C12": "Symbolic stored values, overall minimum and differences; the oracle undoes the recurrence with 64-bit integers over present values only.",
    "C13": "Symbolic codes, level table and scale factor; the oracle expands run lengths by the definition in template 7.200.",
    "C14": "The stand-in codecs return symbolic geometry and samples; the oracle says which images are acceptable and which sample belongs to which point.",
    "C15": "Everything symbolic in Section 5, and the data; setting up and decoding may not panic, and must end with an error or the right number of values. Bit counts are limited to boundary values in the larger harnesses to bound the paths.",
    "C16": "Shapes enumerated, scanning mode symbolic: order from flag table 3.4. Huge shapes: the first points and the size hints, with symbolic Ni and Nj.",
    "C17": "Every octet symbolic; fields against the octets of the WMO templates.",
    "C18": "First and last coordinates symbolic; coordinates must be congruent to the even-spacing formula, in the direction of the scanning mode, in `ij()` order. Gaussian latitudes against known roots for few rows.",
    "C19": "The stand-in PROJ records the definition and the points handed to it and may fail at any step; they must be those of the template's octets.",
    "C20": "Every octet and template number symbolic; an independent table of octet positions per template is the oracle.",
    "C21": "Civil-calendar arithmetic written from the Gregorian rules is the oracle; all years times months times days are one symbolic harness.",
    "C22": "Every type, factor and value symbolic; value, unit and text.",
    "C23": "Lookups of symbolic codes; the stand-in texts name table and code, so any mix-up shows.",
    "C24": "The real generator reads CSV files held in the modelled file system, with symbolic cells; its output is parsed back by the harness and compared with the meaning of the rows.",
    "C25": "The generated enum's `TryFrom` is run over every `u32`; the generator itself over symbolic tables.",
    "C26": "`gribber`'s real `main` functions run with stand-in clap; the file written in the modelled file system must be the values of the submessage. `x_full` writes to /dev/full.",
    "C27": "The text printed is captured and read back as lines and numbers; symbolic numbers of points, sections, codes.",
}

out = []
for p in map(json.loads, open(os.path.join(V, "properties.jsonl"))):
    i = p["id"]
    if i not in specs.SPECS:
        continue
    s = specs.SPECS[i]
    out.append("### %s – %s\n" % (i, p["title"]))
    out.append(HOW[i] + "\n")
    for t, k in (("Quick", False), ("Thorough, in addition", True)):
        hs = [h for h in s["harness"] if bool(h.get("thorough")) == k]
        if hs:
            out.append(t + ": " + "; ".join("`%s%s` %s" % (h["h"], ":%d" % h["arg"] if "arg" in h else "", h["bound"]) for h in hs) + ".\n")
    if s.get("outside"):
        out.append("Outside: " + s["outside"] + ".\n")
    out.append("Tests cannot settle it: " + p["why_tests_cant"] + "\n")


def fill(d, name, text):
    a, rest = d.split("<!-- %s -->\n" % name)
    b = rest.split("<!-- end -->\n", 1)[1]
    return a + "<!-- %s -->\n" % name + text + "<!-- end -->\n" + b


d = open(os.path.join(V, "DESIGN.md")).read()
d = fill(d, "properties", "\n".join(out))
rows = ["| property | commit | what failed |\n|---|---|---|\n"]
for l in open(os.path.join(V, "known_findings.jsonl")):
    if l.startswith("fixed: property="):
        p, c, what = l.strip()[len("fixed: property="):].split(" ", 2)
        rows.append("| %s | %s | %s |\n" % (p, c, what.replace("|", "/")))
d = fill(d, "findings", "".join(rows))
rows = []
for x in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", x, "meta.json")))
    rows.append("* %s (%s): %s. Needs: %s.\n" % (x, m["property"], m["what_it_breaks"].rstrip("."), m["needs"].rstrip(".")))
d = fill(d, "seeded", "".join(rows))
na = json.load(open(os.path.join(V, "MANIFEST.json")))["not_applicable"]
d = fill(d, "na", "".join("  - %s: %s\n" % (n["property"], n["reason"]) for n in na))
open(os.path.join(V, "DESIGN.md"), "w").write(d)
