"""M06: thermochemical streams against mass-flow and enthalpy-flow bookkeeping."""
from mc import core, explore, packages
from mc.thermopkg import Coal, StreamT, coal_probes, views_are_independent


def run(chk):
    explore.bfs(chk, StreamT(chk, "filled"), 3 if chk.quick else 4, key="filled", max_states=15000 if chk.quick else 120000)
    explore.bfs(chk, StreamT(chk, "empty"), 2, key="empty")
    explore.bfs(chk, StreamT(chk, "filled", temps=(1500.0, 25.0), masses=(1e-4, 2e-3, 1e-5, 1.0), targets=(0,)),
                2, key="small")
    explore.bfs(chk, StreamT(chk, "filled", temps=(200.0, 200.0), masses=(1e6, 3e3, 1e2, 5.0), targets=(0,)),
                2, key="large")
    explore.bfs(chk, Coal(chk), 3 if chk.quick else 4, key="coal")
    s = StreamT(chk, "filled", temps=(1200.0, 30.0), masses=(2e5, 30.0, 4e-3, 5e3))
    s.scales = True
    explore.bfs(chk, s, 2 if chk.quick else 3, key="scales", also_observed=0 if chk.quick else 2, max_states=100000)
    explore.after_rejection(chk, StreamT(chk, "filled"))
    packages.relations(chk, StreamT, 1 if chk.quick else 2, sizes=(1, 2, 4))
    for temps in ((0.0, 500.0), (900.0, 0.0), (0.0, 0.0), (25.0, 25.0005), (1.0, -1.0), (-40.0, 0.0)):
        explore.bfs(chk, StreamT(chk, "filled", temps=temps, targets=(0,)), 1 if chk.quick else 2, key="temps:%g-%g" % temps)
    packages.number_kinds(chk, StreamT)
    views_are_independent(chk, True)
    coal_probes(chk, True)
    chk.assumptions.append("enthalpies and heat capacities of the compounds themselves are decided by T01")
