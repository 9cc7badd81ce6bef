"""What each check explores."""
import core


def algebra(driver, keep, assumptions, before=()):
    def plan(prop):
        items, st = core.terms()
        for module, tag in before:
            _, s2 = core.emitted(module, tag)
            st = [st[0] + s2[0], st[1] + s2[1]]
        tasks = [dict(it, prop=prop) for it in items if keep(it)]
        return core.run(prop, driver, tasks, st, assumptions)
    return plan


def generated(driver, module, tag, wrap, assumptions):
    """Scenarios printed by a generator module of the specification."""
    def plan(prop):
        items, st = core.emitted(module, tag)
        return core.run(prop, driver, [dict(wrap(it), prop=prop) for it in items if wrap(it) is not None], st, assumptions)
    return plan


def comb(fams, more=None):
    def plan(prop):
        items, st = core.terms()
        tasks = [dict(it, prop=prop) for it in items if it["t"]["f"] in fams]
        if more:
            it2, s2 = core.emitted(*more)
            st = [st[0] + s2[0], st[1] + s2[1]]
            tasks += [dict(it, prop=prop) for it in it2]
        return core.run(prop, "drv_comb", tasks, st, [])
    return plan


def cells(prop):
    items, st = core.emitted("Geometry", "CELL")
    return core.run(prop, "drv_cell", [dict(it, prop=prop) for it in items] + [{"all": [it["c"] for it in items], "prop": prop}], st, [])


COMPOSITES = {"tp", "flat", "enr", "nod", "res", "brk", "mix", "hdiv", "hcurl"}
PLANS = {
    "C01": algebra("drv_tab", lambda it: it["dual"], []),
    "C02": algebra("drv_meta", lambda it: True, []),
    "C03": algebra("drv_tab", lambda it: it["claim"] and it["t"]["f"] != "mix", []),
    "C04": algebra("drv_tab", lambda it: it["claim"] and it["glue"], []),
    "C05": algebra("drv_tab", lambda it: it["t"]["f"] != "Trace", []),
    "C06": algebra("drv_tab", lambda it: it["t"]["f"] not in COMPOSITES | {"Trace", "FBub"}, [], [("Spans", "SPAN")]),
    "C07": generated("drv_quad", "Quadrature", "RULE", lambda it: {"q": it}, []),
    "C08": comb({"tp", "flat"}),
    "C09": comb({"hdiv", "hcurl"}),
    "C10": comb({"enr", "nod", "mix"}),
    "C11": comb({"res", "brk", "Bub", "FBub", "DRT"}, ("Subsets", "SUB")),
    "C12": algebra("drv_trace", lambda it: it["t"]["f"] == "Trace", []),
    "C13": cells,
    "C14": generated("drv_set", "Expansions", "SET", lambda it: it, []),
    "C15": generated("drv_fun", "Functionals", "FUN", lambda it: it, []),
    "C16": generated("drv_hist", "History", "HIST", lambda it: it, []),
    "C17": generated("drv_req", "Requests", "REQ", lambda it: it, []),
    "C18": algebra("drv_nodes", lambda it: it["t"]["f"] not in ("Trace", "mix"), []),
    "C19": generated("drv_contract", "Contracts", "ASK", lambda it: {"q": it}, []),
    "C20": generated("drv_nodes", "Ladders", "RUNG", lambda it: it if it["t"]["f"] == "Bern" else None, []),
    "C22": generated("drv_nodes", "Ladders", "RUNG", lambda it: it if it["t"]["f"] != "Bern" else None, []),
    "C23": generated("drv_nodes", "Pointwise", "PTS", lambda it: it, []),
    "C24": generated("drv_other", "OtherCells", "OTHER", lambda it: it, []),
    "C21": algebra("drv_meta", lambda it: True, []),
}
