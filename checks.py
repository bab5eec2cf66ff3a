"""The check of each property: which specifications TLC explores, what is recorded from the code."""
import concurrent.futures as cf
import json, os, re
import vlib
from vlib import CheckError


def known(prop):
    out = []
    with open(os.path.join(vlib.VERIF, "known_findings.txt")) as f:
        for l in f:
            m = re.match(r"finding: property=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append(m.group(2).strip())
    return out


# ---------------------------------------------------------------------------------------------------
# Genetic algorithms and evaluators: C01-C06, C09

GEN_INV = ["MonitorOK", "GeometryFollows", "FunctionsDistinct", "CachesApart"]


def gconsts(algo, size, cutoff, npts, gens, coords, fits, shift, maxmuts, eager, init, anysort, bug="none"):
    b = lambda x: "TRUE" if x else "FALSE"
    return {"Algo": '"%s"' % algo, "Size": size, "Cutoff": cutoff, "NPts": npts, "MaxGen": gens,
            "Coords": "{%s}" % ",".join(map(str, coords)), "FitVals": "{%s}" % ",".join(map(str, fits)),
            "FitShift": shift, "MaxMuts": maxmuts, "Eager": b(eager), "InitMode": '"%s"' % init,
            "AnySort": b(anysort), "Bug": '"%s"' % bug}


MC = {
    "mod62": gconsts("mod", 6, 2, 1, 2, [0, 1], [0, 2], 1, 1, True, "same", False),
    "simple31": gconsts("simple", 3, 1, 1, 1, [0, 1], [0, 2], 1, 1, False, "same", True),
    "simple42": gconsts("simple", 4, 2, 1, 2, [0, 1], [0, 2], 1, 1, True, "same", False),
    "mod31async": gconsts("mod", 3, 1, 1, 2, [0, 1, 2], [0, 2], 1, 1, False, "same", False),
    "mod51": gconsts("mod", 5, 1, 2, 1, [0, 1], [0, 2], 1, 1, True, "same", False),
    "mod41": gconsts("mod", 4, 1, 2, 1, [0, 1], [0, 1, 2], 1, 2, True, "same", True),
    "mod41g1": gconsts("mod", 4, 1, 2, 1, [0, 1], [0, 2], 1, 2, True, "same", True),
    "mod41g2": gconsts("mod", 4, 1, 2, 2, [0, 1], [0, 2], 1, 2, True, "same", False),
    "mod62c3": gconsts("mod", 6, 2, 1, 1, [0, 1, 2], [0, 2], 1, 1, True, "same", False),
    "mod41c3": gconsts("mod", 4, 1, 1, 2, [0, 1, 2], [0, 1, 2], 1, 1, True, "same", False),
}
GEN_QUICK = {"C01": ["mod62", "simple42", "mod31async"], "C02": ["mod62", "simple42", "mod62c3"],
             "C03": ["mod62", "simple42", "simple31"], "C04": ["mod51", "mod41g1"],
             "C05": ["simple31", "mod31async", "mod62"], "C06": ["mod62", "simple42", "mod31async"],
             "C09": ["mod31async", "simple31", "mod62"]}
GEN_BUGS = {"C01": ["sentinel0"], "C02": ["sentinel0", "noswap"], "C03": ["mutateelite"], "C04": ["lastwins"],
            "C05": ["misattribute"], "C06": ["noswap"], "C09": ["samecache", "emptyskip"]}

GENCFG = """SPECIFICATION GSpec
CONSTANTS
%s
  GenerationChoices <- RandomGeneration
INVARIANTS MonitorOK EmitScenario
CHECK_DEADLOCK FALSE
"""


def model_scenarios(c, num, seed, **k):
    """Behaviours of the design, as scenarios for the real code."""
    consts = gconsts(**k)
    cfg = GENCFG % "\n".join("  %s = %s" % kv for kv in consts.items())
    return simulate(c, "GeneticGen", cfg, num, seed, 400, {"GENSEED": str(seed)})


def simulate(c, module, cfg, num, seed, depth, env=None):
    rc, out = c.tlc(module, cfg, workers=1, env=env or {},
                    extra=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)])
    scs = sorted(set(json.loads(l)[4:] for l in out.splitlines() if l.startswith('"SCN ')))
    if len(scs) < num // 4:
        raise CheckError("too few behaviours generated:\n" + out[-2000:])
    g = re.search(r"number of states generated: ([\d,]+)", out)
    if g:
        c.transitions += int(g.group(1).replace(",", ""))
    fn = c.fresh("scn")
    with open(fn, "w") as f:
        f.write("\n".join(scs) + "\n")
    return fn, len(scs)


GEN_MODELS = [
    dict(algo="mod", size=7, cutoff=2, npts=3, gens=4, coords=[0, 1, 2], fits=range(7), shift=4, maxmuts=2,
         eager=True, init="same", anysort=False),
    dict(algo="mod", size=9, cutoff=3, npts=2, gens=4, coords=[0, 1, 2, 3], fits=range(5), shift=6, maxmuts=2,
         eager=False, init="same", anysort=False),
    dict(algo="mod", size=6, cutoff=1, npts=3, gens=3, coords=[0, 1, 2], fits=range(9), shift=2, maxmuts=3,
         eager=True, init="same", anysort=False),
    dict(algo="simple", size=6, cutoff=2, npts=2, gens=4, coords=[0, 1, 2], fits=range(6), shift=3, maxmuts=2,
         eager=False, init="same", anysort=False),
]


def genetic(c):
    p = c.prop
    names = list(MC) if c.thorough else GEN_QUICK[p]
    c.build()
    # Recorded first: a violation is reported early
    k, n = c.pick((8, 200), (8, 2000))
    fn, _ = c.record_many("genetic", [dict(seed=c.seed * 1000 + i, n=n, size=1, secs=c.pick(30, 600)) for i in range(k)],
                          par=k)
    c.validate("GeneticTrace", fn, what="seeded scenarios")
    with cf.ThreadPoolExecutor(4) as ex:
        scns = list(ex.map(lambda i: model_scenarios(c, c.pick(60, 1500), c.seed * 31 + i, **GEN_MODELS[i])[0],
                           range(len(GEN_MODELS))))
    fn, _ = c.record_many("genetic", [{"in": s} for s in scns])
    c.validate("GeneticTrace", fn, what="scenarios from behaviours of the model")
    for n in names:
        c.design("Genetic", n, MC[n], GEN_INV, ["Monotone"])
    if c.thorough:
        for n in ("mod31async", "mod62", "simple31"):
            k = dict(MC[n], MaxGen=1)
            c.design("Genetic", n + " liveness", k, [], ["EveryGenerationEnds"], spec="Fair")
        for b in GEN_BUGS[p]:
            base = gconsts("mod", 4, 1, 1, 2, [0, 1], [0, 1, 2], 3, 1, True, "same", False, b)
            if b == "noswap" or b == "misattribute":
                base = gconsts("mod", 6, 2, 1, 2, [0, 1], [0, 2], 1, 1, True, "same", False, b)
            if b in ("lastwins", "emptyskip"):
                base = gconsts("mod", 4, 1, 2, 1, [0, 1], [0, 1, 2], 1, 2, True, "same", False, b)
            c.expect_error("Genetic", b, base, ["MonitorOK"])
    c.assumptions += ["fitness functions are deterministic", "1 <= cutoff <= size/2",
                      "completion orders are forced by the harness at the granularity of Calculate calls"]



# ---------------------------------------------------------------------------------------------------
# Incremental triangulations and Voronoi diagrams: C11-C14

DEL_INV = ["Complete", "EmptyCircles", "Insertable", "SuperFar", "EveryPointHasATriangle"]


def dconsts(w, h, pts, copies, bug="none", step=1):
    return {"W": w, "H": h, "MaxPts": pts, "MaxCopies": copies, "Step": step, "Bug": '"%s"' % bug}


DEL_GEN = """SPECIFICATION GSpec
CONSTANTS
%s
INVARIANTS Emit
CHECK_DEADLOCK FALSE
"""


def delaunay_models(c, num):
    """Histories from behaviours of the design: every operation is followed by an observation."""
    def one(a):
        i, (w, h, pts, ops, scale) = a
        consts = dict(dconsts(w, h, pts, 2), NOps=ops, Scale=scale)
        return simulate(c, "DelaunayGen", DEL_GEN % "\n".join("  %s = %s" % kv for kv in consts.items()),
                        num, c.seed * 17 + i, 2 * ops + 8)[0]
    models = [(2, 2, 7, 16, 1), (3, 3, 8, 16, 1), (4, 1, 7, 16, 1), (3, 2, 7, 16, 100), (5, 5, 9, 20, 7), (3, 3, 8, 16, 999)]
    with cf.ThreadPoolExecutor(6) as ex:
        return list(ex.map(one, enumerate(models)))


def delaunay_design(c):
    for cfg in c.pick([(2, 2, 5, 1), (2, 1, 6, 2), (3, 2, 5, 1)],
                      [(2, 2, 9, 1), (2, 1, 6, 2), (3, 2, 6, 1), (3, 3, 5, 1), (4, 2, 5, 1), (5, 1, 7, 1), (1, 1, 4, 3), (6, 0, 7, 1)]):
        c.design("Delaunay", "%dx%d, %d points, %d copies" % cfg, dconsts(*cfg), DEL_INV)
    if c.thorough:
        for cfg in [(2, 2, 4, 2, "nodup"), (2, 2, 5, 1, "anyear"), (3, 3, 5, 1, "allties")]:
            c.expect_error("Delaunay", cfg[4], dconsts(*cfg), DEL_INV)


HIST_ASSUMPTIONS = ["images of 1x1 to 3000x3000 pixels, points within them, up to 37000 points and 67000 copies of one",
                    "of the histories that are not validated by TLC in full, those that a quick check of the harness finds suspicious are"]


def histories(c, cmd, module, copies, models=True, n=(80, 1500), size=(6000, 100000), what="histories"):
    k = 8
    mode = {"mode": "copy"} if copies else {}
    fn, _ = c.record_many(cmd, [dict(seed=c.seed * 1000 + i, n=c.pick(*n), size=c.pick(*size), secs=c.pick(40, 900), **mode)
                                for i in range(k)], par=k)
    c.validate(module, fn, what=what)
    if models:
        fn, _ = c.record_many(cmd, [{"in": s} for s in delaunay_models(c, c.pick(25, 400))])
        c.validate(module, fn, what="histories from behaviours of the model")
    c.assumptions += [a for a in HIST_ASSUMPTIONS if a not in c.assumptions]


def delaunay(c):
    c.build()
    histories(c, "delaunay", "DelaunayTrace", False)
    delaunay_design(c)


def copy_consts(objs, buckets, vals, cap, bug="none"):
    return {"Objs": objs, "NBuckets": buckets, "Vals": vals, "MaxCap": cap, "Bug": '"%s"' % bug}


def copies_models(c, num):
    """Histories of structures set to one another from behaviours of the design."""
    def one(a):
        i, (objs, buckets, w, h, scale, ops) = a
        consts = dict(copy_consts(objs, buckets, (w + 1) * (h + 1), 6), NOps=ops, W=w, H=h, Scale=scale)
        return simulate(c, "CopiesGen", DEL_GEN % "\n".join("  %s = %s" % kv for kv in consts.items()),
                        num, c.seed * 19 + i, ops + 2)[0]
    models = [(2, 3, 2, 2, 1, 24), (3, 2, 3, 1, 1, 20), (3, 3, 2, 2, 50, 20), (2, 5, 4, 2, 11, 26)]
    with cf.ThreadPoolExecutor(4) as ex:
        return list(ex.map(one, enumerate(models)))


def copies(c):
    c.build()
    histories(c, "delaunay", "DelaunayTrace", True, False, n=(50, 1500), what="histories with copies")
    histories(c, "voronoi", "VoronoiTrace", True, False, n=(30, 800), size=(4000, 60000), what="histories with copies")
    scns = copies_models(c, c.pick(14, 400))
    for cmd, module in (("delaunay", "DelaunayTrace"), ("voronoi", "VoronoiTrace")):
        fn, _ = c.record_many(cmd, [{"in": s} for s in scns])
        c.validate(module, fn, what="histories with copies from behaviours of the model")
    for cfg in c.pick([(2, 2, 3, 3), (3, 1, 2, 3)], [(2, 2, 4, 3), (3, 2, 3, 2), (3, 1, 3, 4), (2, 3, 4, 3), (4, 1, 2, 3)]):
        c.design("Copies", "%d structures, %d buckets, %d values, capacity %d" % cfg, copy_consts(*cfg), ["Exact", "Apart", "Fits"])
    if c.thorough:
        for b in ("share", "shareshort", "keeplen", "nogrow"):
            c.expect_error("Copies", b, copy_consts(2, 2, 3, 3, b), ["Exact"])
    c.assumptions += ["source and target were made for images of the same size"]


def voronoi(c):
    c.build()
    histories(c, "voronoi", "VoronoiTrace", False, n=(80, 1500), size=(3000, 60000))


# ---------------------------------------------------------------------------------------------------
# One-shot triangulation and polygonation: C15, C16

def oneshot(c):
    mode = {"C15": "poly", "C16": "tri"}[c.prop]
    fn, _ = c.record_many("oneshot", [dict(seed=c.seed * 1000 + i, n=c.pick(300, 4000), size=c.pick(15000, 300000),
                                           mode=mode, secs=c.pick(40, 900)) for i in range(8)], par=8)
    c.validate("OneShotTrace", fn, what="point groups")
    if c.prop == "C16":
        d = {"Wd": 2, "Ht": 2, "Most": c.pick(4, 5), "Bug": '"none"'}
        c.design("LocalHull", "sets of up to %d of 9 points, all sets of triangles" % d["Most"], d, ["Same"])
        if c.thorough:
            c.expect_error("LocalHull", "all", dict(d, Bug='"all"'), ["Same"])


# ---------------------------------------------------------------------------------------------------
# Rasterisation: C17, C18

RASTER_INV = ["Inside", "Once", "AllDone"]
MESH_INV = ["Disjoint", "Flip", "Full", "InBox"]


def raster(c):
    c.build()
    fn, _ = c.record_many("raster", [dict(seed=c.seed * 1000 + i, n=c.pick(300, 4000), size=c.pick(20000, 1000000),
                                          secs=c.pick(25, 700)) for i in range(8)], par=8)
    c.validate("RasterTrace", fn, what="triangles, polygons and triangulations")
    # every triangle of a small grid; TLC decides those that a quick check finds suspicious
    g = c.pick(9, 20)
    fn, st = c.record_many("raster", [dict(mode="all", seed=i, n=8, size=g, secs=c.pick(60, 850)) for i in range(8)], par=8)
    if os.path.getsize(fn):
        c.validate("RasterTrace", fn, what="suspicious triangles of a grid")
    c.log("all %d triangles of a %dx%d grid screened" % (st.get("shapes", 0), g, g))
    if c.prop == "C17":
        for g, b in c.pick([(4, 3), (5, 2)], [(5, 3), (6, 4), (7, 3)]):
            c.design("Raster", "%dx%d grid, blocks up to %d" % (g, g, b), {"G": g, "MaxBS": b, "Bug": '"none"'}, RASTER_INV)
        if c.thorough:
            c.design("Raster", "termination", {"G": 4, "MaxBS": 3, "Bug": '"none"'}, [], ["Ends"])
            for b in ("onlybottom", "noguard", "rowtwice"):
                c.expect_error("Raster", b, {"G": 4, "MaxBS": 2, "Bug": '"%s"' % b}, RASTER_INV)
    else:
        for g in c.pick([3], [3, 4]):
            c.design("RasterMesh", "%dx%d grid" % (g, g), {"G": g}, MESH_INV)


# ---------------------------------------------------------------------------------------------------
# The built-in fitness functions: C07, C08, C10

def cache_consts(shapes, size, nf, gens, bug="none"):
    return {"NShapes": shapes, "Size": size, "NF": nf, "Gens": gens, "Bug": '"%s"' % bug}


def fitness(c):
    c.build()
    def run(mode, n, size, secs, what, k=8):
        fn, st = c.record_many("fitness", [dict(seed=c.seed * 1000 + i, n=n, size=size, mode=mode, secs=secs) for i in range(k)], par=8)
        c.validate("FitnessTrace", fn, what=what)
    if c.prop == "C10":
        run("scratch", c.pick(150, 1500), c.pick(3000, 100000), c.pick(30, 700), "evaluations with several block sizes")
        run("flat", c.pick(1, 6), 0, 120, "images of 9 million pixels", k=2)
        c.design("Raster", "4x4 grid, blocks up to 3", {"G": 4, "MaxBS": 3, "Bug": '"none"'}, RASTER_INV)
        if c.thorough:
            c.design("Raster", "6x6 grid, blocks up to 4", {"G": 6, "MaxBS": 4, "Bug": '"none"'}, RASTER_INV)
            c.design("RasterMesh", "3x3 grid", {"G": 3}, MESH_INV)
        return
    run("hist", c.pick(60, 600), c.pick(400, 20000), c.pick(25, 700), "histories of evaluations with several cache sizes")
    if c.prop == "C08":
        run("collide", c.pick(12, 200), c.pick(150, 5000), c.pick(12, 500), "histories in which shapes have the same hash")
    if c.prop == "C07":
        run("algo", c.pick(40, 500), c.pick(250, 10000), c.pick(20, 500), "evaluations that the genetic algorithms make")
        for cfg in c.pick([(2, 2, 4, 2)], [(2, 2, 5, 2), (3, 2, 4, 2), (3, 3, 5, 1)]):
            c.design("Delaunay", "%dx%d, %d points, %d copies" % cfg, dconsts(*cfg), DEL_INV)
    else:
        for cfg in c.pick([(3, 1, 2, 3), (4, 2, 2, 3)], [(3, 1, 2, 3), (5, 2, 2, 3), (3, 2, 3, 2), (4, 4, 2, 4), (6, 2, 2, 3)]):
            c.design("FitnessCache", "%d shapes, %d entries, %d functions, %d generations" % cfg, cache_consts(*cfg),
                     ["Right", "Entries"], ["Apart"])
        if c.thorough:
            c.design("FitnessCache", "termination", cache_consts(3, 2, 2, 2), [], ["Ends"])
            for b in ("hashonly", "aliaskey", "samecache", "ownslot"):
                c.expect_error("FitnessCache", b, cache_consts(3, 2, 2, 3, b), ["Right", "Entries"], ["Apart"])
    c.assumptions += ["points lie on a grid of 1/4096 of the image's size",
                      "functions are evaluated in the order in which an evaluator would (SetBase, Calculate, Update; Prepare once per generation)"]


# ---------------------------------------------------------------------------------------------------
# Rendering and images: C19, C20

def rendering(c):
    def run(mode, n, size, secs, what, k=8):
        fn, _ = c.record_many("render", [dict(seed=c.seed * 1000 + i, n=n, size=size, mode=mode, secs=secs) for i in range(k)], par=8)
        c.validate("RenderTrace", fn, what=what)
    if c.prop == "C20":
        run("conv", c.pick(150, 1500), c.pick(3000, 100000), c.pick(15, 400), "images")
        return
    run("render", c.pick(150, 1500), c.pick(3000, 100000), c.pick(20, 600), "lists of shapes")
    run("flat", c.pick(4, 40), 0, 120, "lists of large shapes")
    c.assumptions += ["shapes lie within the image, and polygons have a vertex"]


# ---------------------------------------------------------------------------------------------------
# From the image to the picture: C24

def pictures(c):
    fn, _ = c.record_many("picture", [dict(seed=c.seed * 1000 + i, n=c.pick(60, 800), size=c.pick(2000, 60000),
                                           secs=c.pick(30, 800)) for i in range(8)], par=8)
    c.validate("PictureTrace", fn, what="runs of an algorithm and their pictures")
    c.assumptions += ["runs that a quick check of the harness doesn't find suspicious are validated by TLC for images of up to 26x26 pixels",
                      "triangles whose circumcircle reaches the super triangle don't count in the fitness"]


# ---------------------------------------------------------------------------------------------------
# Runs are reproducible: C26

REPRO_INV = ["SameMembers", "SameRanks"]


def repro_consts(algo, size, cutoff, npts, ncoords, nfit, gens, bug="none"):
    return {"Algo": '"%s"' % algo, "Size": size, "Cutoff": cutoff, "NPts": npts, "NCoords": ncoords, "NFit": nfit,
            "MaxGen": gens, "Bug": '"%s"' % bug}


def repro(c):
    c.build()
    fn, _ = c.record_many("repro", [dict(seed=c.seed * 1000 + i, n=c.pick(120, 3000), secs=c.pick(25, 700)) for i in range(4)],
                          par=4)
    c.validate("ReproTrace", fn, what="runs under several circumstances")
    for cfg in c.pick([("mod", 4, 1, 2, 2, 4, 1), ("mod", 6, 2, 1, 3, 3, 2), ("simple", 3, 1, 2, 2, 4, 1)],
                      [("mod", 4, 1, 2, 2, 4, 1), ("mod", 4, 1, 2, 2, 2, 1), ("mod", 6, 2, 1, 3, 3, 3), ("mod", 3, 1, 2, 2, 4, 3),
                       ("mod", 4, 1, 1, 4, 5, 2), ("mod", 5, 1, 1, 3, 3, 2), ("simple", 3, 1, 2, 2, 4, 2), ("simple", 4, 2, 1, 3, 3, 2)]):
        c.design("Repro", "%s, %d members, cutoff %d, %d points, %d coordinates, %d fitnesses, %d generations" % cfg,
                 repro_consts(*cfg), REPRO_INV)
    if c.thorough:
        for b, a in (("lastwins", "mod"), ("arrivalbase", "mod"), ("arrivalslot", "simple"), ("drawlate", "simple")):
            c.expect_error("Repro", b, repro_consts(a, 4 if a == "mod" else 3, 1, 2, 2, 4, 1, b), REPRO_INV)
    c.assumptions += ["runs are compared until two different members are equally fit",
                      "runs with the built-in fitness functions use the simple algorithm: the order in which mutations are combined "
                      "decides between triangulations of points on a circle"]


# ---------------------------------------------------------------------------------------------------
# What utilities save and print: C25

def files(c):
    c.build()
    fn, _ = c.record_many("files", [dict(seed=c.seed * 1000 + i, n=c.pick(100, 800), size=c.pick(1500, 40000),
                                         secs=c.pick(15, 400)) for i in range(4)], par=4)
    c.validate("FilesTrace", fn, what="utilities saving and printing")
    fn, _ = c.record("files", n=3, mode="ends", seed=c.seed)
    c.validate("FilesTrace", fn, what="utilities that write a file in the end")
    consts = lambda r, g, n, b="none": {"Reps": r, "MaxGen": g, "MaxLen": n, "Bug": '"%s"' % b}
    for cfg in c.pick([(2, 5, 1), (1, 4, 2)], [(1, 5, 2), (2, 7, 2), (3, 8, 1), (4, 6, 2)]):
        c.design("Files", "saving every %d of %d generations, up to %d points" % cfg, consts(*cfg), ["Saved", "Ended"])
    if c.thorough:
        for b in ("noflush", "overlay", "early", "once"):
            c.expect_error("Files", b, consts(2, 5, 1, b), ["Saved", "Ended"])
    c.assumptions += ["files can be created and written", "what is observed between two generations is what was saved before"]


# ---------------------------------------------------------------------------------------------------
# Mutators, generators and random numbers: C21, C22, C23, C27

PCG = {"Halves": "{0,1,2,127,128,32767,32768,65407,65408,65535}", "Lows": "{0,12345678}", "Places": 2}
CHANCE_INV = ["Fractions", "Bounded", "Fair"]
SPACED_PROPS = ["Never", "Strictly", "OnlyOne"]


def spaced(g, n, steps, bug="none"):
    return {"G": g, "N": n, "Steps": steps, "Bug": '"%s"' % bug}


def extreme_seeds(c, num):
    """Seeds after which extreme numbers come, from the specification of the generator."""
    cfg = "SPECIFICATION Spec\nINVARIANTS Wanted Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" + \
          "".join("  %s = %s\n" % kv for kv in PCG.items())
    return simulate(c, "Pcg", cfg, num, c.seed * 7 + 1, 4)[0]


def chance(c):
    mode = {"C21": "mut", "C22": "gen", "C23": "rng"}[c.prop]
    c.build()
    fn, _ = c.record_many("chance", [dict(seed=c.seed * 1000 + i, n=c.pick(100, 1000), size=c.pick(20000, 1000000), mode=mode,
                                          secs=c.pick(20, 600)) for i in range(8)], par=8)
    c.validate("RandomTrace", fn, what="histories of calls")
    if c.prop != "C22":
        fn, _ = c.record("chance", **{"in": extreme_seeds(c, c.pick(150, 2000)), "mode": mode, "seed": c.seed})
        c.validate("RandomTrace", fn, what="histories of calls with extreme random numbers")
    if c.prop == "C23":
        for w, m in c.pick([(6, 3)], [(5, 2), (6, 4), (7, 3), (8, 4)]):
            c.design("Chance", "%d bits, of which %d matter" % (w, m), {"W": w, "M": m, "Bug": '"none"'}, CHANCE_INV, ["Ends"])
        c.design("Pcg", "states for extreme numbers", dict(PCG, Lows="{0}", Halves="{0,127,65535}"), ["Wanted"])
        if c.thorough:
            for b in ("noretry", "biased"):
                c.expect_error("Chance", b, {"W": 6, "M": 3, "Bug": '"%s"' % b}, CHANCE_INV)
    if c.prop == "C22":
        for cfg in c.pick([(2, 3, 2), (3, 2, 2)], [(2, 3, 3), (4, 2, 3), (2, 4, 2), (3, 3, 1), (9, 1, 2)]):
            c.design("Spaced", "%d: %d points, %d steps" % cfg, spaced(*cfg), ["Inside"], SPACED_PROPS)
        if c.thorough:
            for b in ("skipequal", "skipnone", "lastmove"):
                c.expect_error("Spaced", b, spaced(2, 3, 2, b), ["Inside"], SPACED_PROPS)
        c.assumptions += ["at least one point", "the global math/rand source isn't used by others meanwhile",
                          "distances are compared to 2^-14 where TLC decides"]
    if c.prop == "C21":
        c.assumptions += ["finite amounts", "points lie in the unit square before they are mutated"]


def distributions(c):
    c.build()
    fn, _ = c.record_many("chance", [dict(seed=c.seed * 1000 + i * 100, n=c.pick(26, 650), mode="dist", secs=c.pick(30, 700))
                                     for i in range(8)], par=8)
    c.validate("RandomTrace", fn, what="samples")
    for w in c.pick([1, 3], [1, 2, 3, 4]):
        c.design("Ziggurat", "layers %d" % w, {"Which": w, "Bug": '"none"'}, ["Same", "Fair", "InIt"])
    c.design("Chance", "6 bits, of which 3 matter", {"W": 6, "M": 3, "Bug": '"none"'}, ["Fair"])
    if c.thorough:
        for b in ("nowedge", "nocorner", "fromtop"):
            c.expect_error("Ziggurat", b, {"Which": 1, "Bug": '"%s"' % b}, ["Fair"])
    c.assumptions += ["distributions are compared by a chi square test of 16 to 64 classes whose chance of a false alarm is below 10^-10"]


def geometry(c):
    c.build()
    fn, _ = c.record_many("geom", [dict(seed=c.seed * 1000 + i * 100, n=c.pick(250, 4000)) for i in range(8)], par=8)
    c.validate("GeomTrace", fn, what="histories")
    c.design("Groups", "3 groups of up to 2 points", {"Vars": 3, "Len0": 2, "Values": 2, "Bug": '"none"'}, ["ReadsItsValue", "Apart"])
    if c.thorough:
        c.design("Groups", "2 groups of up to 3 points", {"Vars": 2, "Len0": 3, "Values": 3, "Bug": '"none"'}, ["ReadsItsValue", "Apart"])
        for b in ("alias", "point", "short"):
            c.expect_error("Groups", b, {"Vars": 3, "Len0": 2, "Values": 2, "Bug": '"%s"' % b}, ["ReadsItsValue"])
    c.assumptions += ["coordinates up to 3000; fractions of 1/1024; quotients are compared to the nearest 2^-12 to 2^-18"]


def purity(c):
    c.build()
    fn, _ = c.record_many("pure", [dict(seed=c.seed * 1000 + i * 100, n=c.pick(16, 300), secs=c.pick(60, 500)) for i in range(8)], par=8)
    c.validate("PureTrace", fn, what="histories of calls")
    c.design("Pure", "2 callers, 2 calls each", {"Callers": 2, "Calls": 2, "Bug": '"none"'}, ["Right", "Untouched"])
    if c.thorough:
        c.design("Pure", "3 callers, 1 call each", {"Callers": 3, "Calls": 1, "Bug": '"none"'}, ["Right", "Untouched"])
        for b in ("shared", "kept", "memo", "last", "place"):
            c.expect_error("Pure", b, {"Callers": 2, "Calls": 2, "Bug": '"%s"' % b}, ["Right", "Untouched"])
    c.assumptions += ["interleavings of concurrent calls are those that the scheduler chose"]


def longruns(c):
    c.build()
    fn, _ = c.record_many("long", [dict(seed=c.seed * 1000 + i * 100, n=c.pick(26, 390), secs=c.pick(45, 600)) for i in range(8)], par=8)
    c.validate("LongTrace", fn, what="long runs")
    c.design("Slots", "up to 5 triangles, 8 operations", {"Live": 5, "Ops": 8, "Bug": '"none"'}, ["Bounded", "Kept"])
    if c.thorough:
        c.design("Slots", "up to 7 triangles, 8 operations", {"Live": 7, "Ops": 8, "Bug": '"none"'}, ["Bounded", "Kept"])
        for b in ("noreuse", "lostfree", "keepfree", "first", "late"):
            c.expect_error("Slots", b, {"Live": 5, "Ops": 8, "Bug": '"%s"' % b}, ["Bounded", "Kept"])
    c.assumptions += ["what grows by less than 20 bytes for each generation, 500 for each algorithm that's made (4 for each evaluation, 1 for each insertion or removal) isn't told apart from sizes that settle"]


def clocks(c):
    c.build()
    fn, _ = c.record_many("clock", [dict(seed=c.seed * 1000 + i * 100, n=c.pick(250, 6000), secs=c.pick(60, 500)) for i in range(8)], par=8)
    c.validate("ClockTrace", fn, what="timed steps")
    inv = ["Rests", "Covers"]
    c.design("Clock", "2 members, 2 generations, times up to 6", {"N": 2, "Gens": 2, "End": 6, "Bug": '"none"'}, inv)
    if c.thorough:
        c.design("Clock", "3 members, 3 generations, times up to 9", {"N": 3, "Gens": 3, "End": 9, "Bug": '"none"'}, inv)
        for b in ("late", "early", "sum", "since", "leave"):
            c.expect_error("Clock", b, {"N": 2, "Gens": 2, "End": 6, "Bug": '"%s"' % b}, inv)
    c.assumptions += ["schedules are those that random pauses lead to (forced ones are C05's)"]


CHECKS = {p: genetic for p in GEN_QUICK}
CHECKS.update({"C11": delaunay, "C12": delaunay, "C13": copies, "C14": voronoi, "C15": oneshot, "C16": oneshot, "C17": raster, "C18": raster,
               "C07": fitness, "C08": fitness, "C10": fitness,
               "C19": rendering, "C20": rendering, "C24": pictures, "C25": files, "C26": repro, "C21": chance, "C22": chance, "C23": chance,
               "C27": distributions, "C28": geometry,
               "C29": purity,
               "C30": longruns,
               "C31": clocks})

REPLAY = {"GeneticTrace": "genetic", "DelaunayTrace": "delaunay", "VoronoiTrace": "voronoi", "OneShotTrace": "oneshot",
          "RasterTrace": "raster", "FitnessTrace": "fitness", "RenderTrace": "render",
          "RandomTrace": "chance", "PictureTrace": "picture",
          "FilesTrace": "files", "ReproTrace": "repro", "GeomTrace": "geom",
          "PureTrace": "pure",
          "LongTrace": "long",
          "ClockTrace": "clock"}


def replay(c, data):
    """Runs the recorded scenario again on the current code, then validates both traces."""
    cmd = REPLAY[data["spec"]]
    fn = c.fresh("scn")
    with open(fn, "w") as f:
        f.write(data["scenario"] + "\n")
    out, _ = c.record(cmd, **{"in": fn})
    c.validate(data["spec"], out, what="replayed scenario", env=data.get("env"))
