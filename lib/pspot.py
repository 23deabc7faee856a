"""Pseudopotential definition strings: strategy, writer and meaning."""
from __future__ import annotations

from hypothesis import strategies as st

from . import gen as g

SHELLS = "spdf"
num = st.one_of(st.integers(0, 99).map(str), st.builds("{}.{}".format, st.integers(0, 20), st.integers(0, 999)))
proj = g.rec(type=st.sampled_from("UNGHLP"), rc=g.opt(num),
             e=g.opt(st.tuples(st.sampled_from(("+", "-", "=", "=+", "=-")), num).map(list)),
             delta=g.opt(num))
beta = g.rec(n=st.integers(1, 7), l=st.integers(0, 3), proj=st.lists(proj, max_size=3))
shell = st.builds("{}{}{}".format, st.integers(1, 7), st.sampled_from(SHELLS),
                  st.sampled_from(("", "1", "2", "10", "0.5", "1.25", "9.5", "2.")))
pspot_st = g.rec(channel=st.integers(0, 3), poly=st.sampled_from(("", "", "pre", "post")),
                 core=num, inner=g.opt(st.tuples(num, num).map(list)), cut=g.vec(num),
                 beta=g.rows(beta, min_size=1, max_size=6),
                 adj=g.opt(st.lists(shell, min_size=1, max_size=3)),
                 test=g.opt(st.lists(shell, max_size=3)),
                 flags=g.opt(st.lists(st.one_of(st.sampled_from(("tm", "nonlcc", "schro", "q3")),
                                                st.builds("qc={}".format, num)), min_size=1, max_size=3)),
                 order=st.permutations(("adj", "test", "flags")).map(list))


def write_pspot(mod):
    head = str(mod["channel"])
    head = {"": head, "pre": f"-{head}", "post": f"{head}-"}[mod["poly"]]
    fields = [head, mod["core"], *(mod["inner"] or ()), *mod["cut"]]
    betas = []
    for bet in mod["beta"]:
        txt = f"{bet['n']}{bet['l']}"
        for prj in bet["proj"]:
            txt += prj["type"] + (prj["rc"] or "") + ("".join(prj["e"]) if prj["e"] else "")
            txt += f"@{prj['delta']}" if prj["delta"] else ""
        betas.append(txt)
    parts = {"adj": "{" + ",".join(mod["adj"] or ()) + "}" if mod["adj"] else "",
             "test": "[" + ",".join(mod["test"]) + "]" if mod["test"] is not None else "",
             "flags": "(" + ",".join(mod["flags"]) + ")" if mod["flags"] else ""}
    bstr = ":".join(betas)
    return "|".join(fields) + "|" + bstr + "".join(parts[k] for k in mod["order"]), bstr


def expect_pspot(mod):
    text, bstr = write_pspot(mod)
    exp = {"print": mod["test"] is not None, "poly_fit": bool(mod["poly"]), "string": text,
           "local_channel": float(mod["channel"]), "core_radius": float(mod["core"]),
           "coarse": float(mod["cut"][0]), "medium": float(mod["cut"][1]), "fine": float(mod["cut"][2]),
           "beta_function_string": bstr, "beta_functions": []}
    if mod["inner"]:
        exp["beta_radius"], exp["r_inner"] = map(float, mod["inner"])
    if mod["adj"]:
        exp["adjustment"] = mod["adj"]
    if mod["test"] is not None:
        exp["testing"] = mod["test"] or [""]
    if mod["flags"]:
        exp["flags"] = mod["flags"]
    for bet in mod["beta"]:
        projs = []
        for prj in bet["proj"]:
            one = {"type": prj["type"]}
            if prj["rc"]:
                one["beta_rc"] = float(prj["rc"])
            if prj["e"]:
                one["beta_e"] = float(prj["e"][0].lstrip("=") + prj["e"][1])
            if prj["delta"]:
                one["beta_delta"] = float(prj["delta"])
            projs.append(one)
        exp["beta_functions"].append({"orbital": bet["n"], "shell": SHELLS[bet["l"]],
                                      "shell_ind": bet["l"], "projectors": projs})
    return exp
