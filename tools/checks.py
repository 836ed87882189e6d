"""One function per property: which specifications decide it, on which behaviours."""
CHECKS = {}
TECH = {}


def check(*ids):
    def deco(f):
        for i in ids:
            CHECKS[i] = f
        return f
    return deco


@check("B01", "B02", "B03", "B04", "B06")
def box(c):
    c.mc("FBox")
    c.validate("FBoxTrace", c.drive("d_box"))


def histories(c, beh, label="histories"):
    import json, os
    p = os.path.join(c.wd, label + ".json")
    with open(p, "w") as f:
        json.dump(beh, f)
    return p


@check("B05")
def boxstate(c):
    c.mc("FBoxState")
    b = c.behaviours("FBoxState", "FBoxStateGen.cfg", c.q(200, 1500), 13)
    c.validate("FBoxStateTrace", c.drive("d_boxstate", histories=histories(c, b)))


@check("Q01", "Q02", "Q04", "Q05")
def neighbors(c):
    c.mc("FNeighborsMC", "FNeighbors.cfg")
    c.validate("FNeighborsTrace", c.drive("d_neighbors"))


@check("Q03")
def interleavings(c):
    c.mc("FNeighborsMC", "FNeighbors.cfg")
    b = c.behaviours("FNeighborsMC", "FNeighborsGen.cfg", c.q(160, 1600), 20)
    c.validate("FNeighborsTrace", c.drive("d_neighbors", histories=histories(c, b)))


@check("L01", "L02", "L03")
def nlist(c):
    c.mc("FNListMC", "FNList.cfg")
    b = c.behaviours("FNListMC", "FNListGen.cfg", c.q(120, 1200), 18)
    c.validate("FNListTrace", c.drive("d_nlist", histories=histories(c, b)))


@check("F01", "F02")
def filters(c):
    c.mc("FFilterMC", "FFilter.cfg")
    c.validate("FFilterTrace", c.drive("d_filter"))


@check("P01", "U01")
def buffers(c):
    c.mc("FBufferMC", "FBuffer.cfg")
    c.validate("FBufferTrace", c.drive("d_buffer"))


@check("C01", "C02", "I01")
def cluster(c):
    c.mc("FClusterMC", "FCluster.cfg")
    c.validate("FClusterTrace", c.drive("d_cluster"))


@check("H01", "H03", "H04", "H05")
def hist(c):
    c.mc("FHistMC", "FHist.cfg")
    c.validate("FHistTrace", c.drive("d_hist"))


@check("H02")
def accumulation(c):
    c.mc("FHistMC", "FHist.cfg")
    for f in ("early-norm", "early-count", "reset-keeps-locals", "finish-keeps-clean", "reduce-adds"):
        c.witness("FHistMC", "FHistFault.cfg", env=dict(FAULT=f))
    b = c.behaviours("FHistGen", "FHistGen.cfg", c.q(117, 900), 60)
    c.validate("FHistTrace", c.drive("d_hist", histories=histories(c, b)))


@check("D01", "D02", "D03")
def density(c):
    c.mc("FDensity")
    c.validate("FDensityTrace", c.drive("d_density"))


@check("D04", "D05")
def diffraction(c):
    c.mc("FDiffraction")
    c.validate("FDiffractionTrace", c.drive("d_diffraction"))


@check("O01", "O02", "O03", "E01", "E02")
def order(c):
    c.mc("FOrderMC", "FOrder.cfg")
    c.validate("FOrderTrace", c.drive("d_order"))


@check("M01")
def msd(c):
    c.mc("FMsdMC", "FMsd.cfg")
    c.validate("FMsdTrace", c.drive("d_msd"))


@check("K01", "K02", "K03", "K04")
def compute(c):
    c.mc("FComputeMC", "FCompute.cfg")
    fault = dict(K01=["early"], K02=["stale", "shared"], K03=["inplace"], K04=["alias"])[c.pid]
    for f in fault:
        c.witness("FComputeMC", "FComputeFault.cfg", env=dict(FAULT=f))
    b = c.behaviours("FComputeGen", "FComputeGen%s.cfg" % c.pid,
                     c.q(dict(K02=960).get(c.pid, 480), 6000), 17)
    c.validate("FComputeTrace", c.drive("d_compute", histories=histories(c, b)), env=dict(PROP=c.pid))


@check("T02")
def threads(c):
    c.mc("FThreads")
    for f in ("ctor", "single"):
        c.witness("FThreads", "FThreadsFault.cfg", env=dict(FAULT=f))
    b = c.behaviours("FThreads", "FThreadsGen.cfg", c.q(300, 4000), 25)
    c.validate("FThreadsTrace", c.drive("d_threads", histories=histories(c, b)))


@check("T01")
def parallel(c):
    c.mc("FParallel")
    for f in ("overlap", "gap", "shared", "unmerged", "unsorted", "stale"):
        c.witness("FParallel", "FParallelFault.cfg", env=dict(FAULT=f))
    c.validate("FParallelTrace", c.drive("d_parallel"))


@check("W01")
def symmetry(c):
    c.mc("FSymmetry")
    for f in ("raw", "half", "origin", "slot"):
        c.witness("FSymmetry", "FSymmetryFault.cfg", env=dict(FAULT=f))
    b = c.behaviours("FSymmetry", "FSymmetryGen.cfg", c.q(500, 6000), 7)
    c.validate("FSymmetryTrace", c.drive("d_symmetry", histories=histories(c, b)))


@check("W04")
def units(c):
    c.mc("FUnits")
    for f in ("cutoff", "near", "grid", "volume"):
        c.witness("FUnits", "FUnitsFault.cfg", env=dict(FAULT=f))
    b = c.behaviours("FUnits", "FUnitsGen.cfg", c.q(600, 6000), 5)
    c.validate("FUnitsTrace", c.drive("d_units", histories=histories(c, b)))


@check("W05")
def detail(c):
    c.mc("FDetail")
    for f in ("round", "upper", "cap", "all", "share"):
        c.witness("FDetail", "FDetailFault.cfg", env=dict(FAULT=f))
    b = c.behaviours("FDetail", "FDetailGen.cfg", c.q(300, 6000), 5)
    c.validate("FDetailTrace", c.drive("d_detail", histories=histories(c, b)))


@check("W06")
def agree(c):
    c.mc("FAgree")
    for f in ("first", "turn", "edge", "own", "frames"):
        c.witness("FAgree", "FAgreeFault.cfg", env=dict(FAULT=f))
    b = c.behaviours("FAgree", "FAgreeGen.cfg", c.q(150, 3000), 5)
    c.validate("FAgreeTrace", c.drive("d_agree", histories=histories(c, b)))


@check("W07")
def large(c):
    c.mc("FLarge")
    for f in ("index", "cell", "count", "total", "frames"):
        c.witness("FLarge", "FLargeFault.cfg", env=dict(FAULT=f))
    b = c.behaviours("FLarge", "FLargeGen.cfg", c.q(75, 400), 5)
    c.validate("FLargeTrace", c.drive("d_large", histories=histories(c, b)))


@check("W02", "W03")
def parts(c):
    c.mc("FParts")
    for f in ("narrow", "cell") if c.pid == "W02" else ("last", "rank", "carry"):
        c.witness("FParts", "FPartsFault.cfg", env=dict(FAULT=f))
    rep = c.pid == "W02"
    b = c.behaviours("FParts", "FPartsGen.cfg", c.q(300, 2500), 6, env=dict(OPS="rep" if rep else "cut"))
    c.validate("FPartsTrace", c.drive("d_parts", histories=histories(c, b)))


@check("G01")
def pictures(c):
    c.mc("FPlot")
    for f in ("transpose", "noflip", "onto", "first", "half"):
        c.witness("FPlot", "FPlotFault.cfg", env=dict(FAULT=f))
    c.validate("FPlotTrace", c.drive("d_plot", histories=histories(c, c.behaviours("FPlot", "FPlotGen.cfg", c.q(120, 1200), 6))))


@check("G02")
def representations(c):
    c.mc("FRepr")
    for f in ("omit", "made"):
        c.witness("FRepr", "FReprFault.cfg", env=dict(FAULT=f))
    c.validate("FReprTrace", c.drive("d_repr", histories=histories(c, c.behaviours("FRepr", "FReprGen.cfg", c.q(300, 3000), 6))))


@check("A01", "A02")
def arguments(c):
    c.mc("FArgs")
    if c.pid == "A01":
        for f in ("values", "qvalues", "listq", "listp", "strict"):
            c.witness("FArgs", "FArgsFault.cfg", env=dict(FAULT=f))
    c.validate("FArgsTrace", c.drive("d_args"))


@check("Q06")
def systems(c):
    c.mc("FSystem")
    for f in ("rows", "filler", "periodic", "argument"):
        c.witness("FSystem", "FSystemFault.cfg", env=dict(FAULT=f))
    b = c.behaviours("FSystem", "FSystemGen.cfg", c.q(400, 6000), 8)
    c.validate("FSystemTrace", c.drive("d_system", histories=histories(c, b)))
