"""YAML coverage documents: generation, rendering and what they mean."""
import json

import yaml

from . import gen, model


def generate(r, size=2, spice=0.25):
    """-> {"cgs": [{n, w|None, insts: [{n, cps, crs}]}]} (crosses hold normal bins only)"""
    uni = gen.universe(r, size, spice, mode="inst")
    spec = gen.draw(r, uni, hist=False, spice=spice)
    cgs, seen = [], set()
    for i in spec["insts"]:
        for g in i["cgs"]:
            if g["n"] in seen:
                continue
            seen.add(g["n"])
            d = {"n": g["n"], "w": g["w"] if r.random() < 0.7 else None, "insts": []}
            for ci in g["insts"]:
                for x in ci["crs"]:
                    x["bins"] = [b for b in x["bins"] if b[1] == "bin"]
                for x in ci["cps"] + ci["crs"]:
                    x["w"] = 1
                d["insts"].append({"n": ci["n"], "cps": ci["cps"], "crs": ci["crs"]})
            cgs.append(d)
    return {"cgs": cgs}


def as_spec(y):
    """The database spec a YAML document means."""
    cgs = []
    for g in y["cgs"]:
        w = 1 if g["w"] is None else g["w"]
        cgs.append({"n": g["n"], "w": w, "mode": "inst",
                    "insts": [dict(ci, w=w) for ci in g["insts"]]})
    return {"hist": [], "insts": [{"n": "cg_inst", "du": "du", "cgs": cgs}]}


def as_model(y):
    return model.model_of(as_spec(y))


def tree(y):
    def bins(x, kind):
        return [{"name": n, "count": c} for n, k, c in x["bins"] if k == kind]

    def cp(x):
        d = {"name": x["n"]}
        if x["al"] != 1:
            d["atleast"] = x["al"]
        d["bins"] = bins(x, "bin")
        for key, kind in (("ignorebins", "ign"), ("illegalbins", "ill")):
            b = bins(x, kind)
            if b:
                d[key] = b
        return d

    def cr(x):
        d = {"name": x["n"]}
        if x["al"] != 1:
            d["atleast"] = x["al"]
        d["coverpoints"] = list(x["on"])
        if x["bins"]:
            d["bins"] = bins(x, "bin")
        return d
    out = []
    for g in y["cgs"]:
        d = {"name": g["n"]}
        if g["w"] is not None:
            d["weight"] = g["w"]
        d["instances"] = []
        for ci in g["insts"]:
            e = {"name": ci["n"], "coverpoints": [cp(x) for x in ci["cps"]]}
            if not ci["cps"] and len(ci["n"]) % 3:
                del e["coverpoints"]          # optional, like an empty list
            if ci["crs"]:
                e["crosses"] = [cr(x) for x in ci["crs"]]
            d["instances"].append(e)
        out.append(d)
    return {"coverage": {"covergroups": out}}


STYLES = ["block", "flow", "json", "jsonu", "esc"]


def render(y, style="block"):
    t = tree(y)
    if style == "json":
        return json.dumps(t, indent=1)
    if style == "jsonu":
        return json.dumps(t, ensure_ascii=True)
    if style == "flow":
        return yaml.safe_dump(t, default_flow_style=True, allow_unicode=True, sort_keys=False, width=60)
    if style == "esc":
        return yaml.safe_dump(t, default_flow_style=False, allow_unicode=False, sort_keys=True)
    return yaml.safe_dump(t, default_flow_style=False, allow_unicode=True, sort_keys=False)
