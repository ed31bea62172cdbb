"""known_findings.txt: 'known: property=<id> op=<op> type=<type> class=<cls> match=<regex> :: text'; 'fixed:' lines suppress nothing."""
import os, re
F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")
def _load():
    out = []
    if os.path.exists(F):
        for l in open(F):
            if not l.startswith("known:"): continue
            head, _, text = l[6:].partition("::")
            d = dict(re.findall(r"(property|op|type|class|match)=(\S+)", head)); d["desc"] = text.strip(); out.append(d)
    return out
K = _load()
def listed(prop): return [d["desc"] for d in K if d["property"] == prop]
def match(prop, f):
    for d in K:
        if d["property"] != prop: continue
        if "op" in d and d["op"] != f.get("op"): continue
        if "type" in d and d["type"] != f.get("type"): continue
        if "class" in d and d["class"] != f.get("cls"): continue
        if "match" in d and not re.search(d["match"], f.get("text", "")): continue
        return d["desc"]
    return None
