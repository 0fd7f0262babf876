"""what each property's check runs: the harnesses, how they are built, and the bounds they use in each tier"""
def run(h, flavor="plain", quick="quick", thorough="thorough"):
    return dict(harness=h, flavor=flavor, quick=quick, thorough=thorough)
def deep(h):
    return run(h, quick="thorough", thorough="deeper")
PROPS = {
    "L01": dict(runs=[run("frames", thorough="deeper")]), "L02": dict(runs=[run("frames", thorough="deeper")]), "L03": dict(runs=[run("frames"), run("builtin")]),
    "F01": dict(runs=[run("frames")]), "E01": dict(runs=[deep("frames")]), "H01": dict(runs=[deep("frames")]),
    "S01": dict(runs=[deep("frames")]), "E02": dict(runs=[deep("frames"), run("builtin")]),
    "G01": dict(runs=[run("order")]), "G02": dict(runs=[deep("order")]), "D01": dict(runs=[run("order")]), "I01": dict(runs=[run("order")]),
    "L04": dict(runs=[run("builtin")]),
    "V01": dict(runs=[deep("builtin")]), "V02": dict(runs=[run("builtin")]), "V03": dict(runs=[deep("builtin")]), "V04": dict(runs=[deep("builtin")]),
    "N01": dict(runs=[run("misc")]), "M01": dict(runs=[run("misc")]), "T01": dict(runs=[run("misc")]), "A01": dict(runs=[run("decl")]), "B01": dict(runs=[run("misc", thorough="deeper")]),
    "C01": dict(runs=[run("conc", "tsan"), run("conc")]),
    "R01": dict(runs=[run("frames", "asan"), run("builtin")]), "R02": dict(runs=[run("resources", "asan"), run("builtin", "asan")]), "R03": dict(runs=[run("resources", "asan")]), "R04": dict(runs=[run("resources", "asan")]),
}
