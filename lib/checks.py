"""What each check runs."""
import os

CHECKS = {}
COMMON = ["TLC, the Go compiler and the trace recording of /verif/harness are trusted"]


def check(prop, *assumptions):
    def deco(f):
        CHECKS[prop] = (f, COMMON + list(assumptions))
        return f
    return deco


def quick(ctx, q, t):
    return q if ctx.tier == "quick" else t


def prints(ctx, q, t, cases=None):
    """The default modifiers and the generator on given layers; the G-code is interpreted line by line."""
    run = ctx.run_harness("print", n=quick(ctx, q, t), cases=cases)
    ctx.sample_lines(run)
    ctx.validate(run, "PrintTrace")


def whole(ctx, q, t, specs):
    """Complete runs from a model file to the G-code file."""
    run = ctx.run_harness("whole", n=quick(ctx, q, t))
    for s in specs:
        ctx.validate(run, s)


@check("C01", "steps are stand-ins which hand on tokens; the real writer is used in half of the runs")
def c01(ctx):
    suf = quick(ctx, "", "5")
    ctx.explore("Pipeline", "Pipeline%s.cfg" % suf, workers=4)
    cases = os.path.join(ctx.work, "cases.ndjson")
    ctx.gen_cases("PipelineGen", "PipelineGen%s.cfg" % suf, cases)
    run = ctx.run_harness("pipeline", cases=cases)
    ctx.sample_lines(run)
    ctx.validate(run, "PipelineTrace")
    whole(ctx, 40, 400, ["PrintTrace"])


@check("C02", "coordinates within 1 m; the steps after the reader are stand-ins")
def c02(ctx):
    suf = quick(ctx, "", "3")
    ctx.explore("Input", "Input%s.cfg" % suf)
    cases = os.path.join(ctx.work, "cases.ndjson")
    ctx.gen_cases("InputGen", "InputGen%s.cfg" % suf, cases)
    run = ctx.run_harness("input", n=quick(ctx, 600, 8000), cases=cases)
    ctx.sample_lines(run)
    ctx.validate(run, "InputTrace")


def mesh(ctx):
    ctx.explore("MeshMC", quick(ctx, "MeshSpread.cfg", "MeshSpread4.cfg"))
    ctx.explore("MeshMC", quick(ctx, "MeshPairs.cfg", "MeshPairs3.cfg"))
    cases = os.path.join(ctx.work, "cases.ndjson")
    ctx.gen_cases("MeshGen", quick(ctx, "MeshGen.cfg", "MeshGenDeep.cfg"), cases)
    run = ctx.run_harness("mesh", n=quick(ctx, 600, 6000), cases=cases)
    ctx.sample_lines(run)
    ctx.validate(run, "MeshTrace")


check("C04", "coordinates within 300 mm; which of several near points a corner is melded into is left open")(mesh)
check("C05", "points of the optimised mesh are identified by their position (identical points are always melded)")(mesh)


def slices(ctx):
    ctx.explore("Layers", quick(ctx, "Layers.cfg", "LayersBig.cfg"))
    ctx.explore("Contour", quick(ctx, "Contour.cfg", "Contour6.cfg"))
    ctx.explore("Join", quick(ctx, "Join.cfg", "Join2.cfg"))
    ctx.refute("Join", "JoinLongest.cfg")
    ctx.refute("Join", "JoinEarly.cfg")
    cases = os.path.join(ctx.work, "cases.ndjson")
    ctx.gen_cases("LayersGen", quick(ctx, "LayersGen.cfg", "LayersGenBig.cfg"), cases)
    run = ctx.run_harness("slice", n=quick(ctx, 400, 4000), cases=cases)
    ctx.sample_lines(run)
    ctx.validate(run, "SliceTrace")
    whole(ctx, 100, 1500, ["SliceTrace", "PrintTrace"])


check("C06", "models within a 25 mm box")(slices)
check("C07", "solids made of nested shells which do not touch each other, outlines star shaped, within a 25 mm box; agreement up to 14 micrometres")(slices)


@check("C08", "coordinates within 12 mm of a common place within 200 mm; places nearer than 3 micrometres to a border are not judged")
def c08(ctx):
    ctx.explore("ClipMC", quick(ctx, "ClipMC.cfg", "ClipMC2.cfg"))
    cases = os.path.join(ctx.work, "cases.ndjson")
    ctx.gen_cases("ClipGen", quick(ctx, "ClipGen.cfg", "ClipGen2.cfg"), cases)
    run = ctx.run_harness("clip", n=quick(ctx, 1200, 12000), cases=cases)
    ctx.sample_lines(run)
    ctx.validate(run, "ClipTrace")


@check("C21", "the bound for simplified outlines is judged for round and box shaped outlines of at least 0.3 mm, 6 micrometres")
def c21(ctx):
    ctx.explore("SmoothMC", quick(ctx, "Smooth.cfg", "Smooth5.cfg"))
    cases = os.path.join(ctx.work, "cases.ndjson")
    ctx.gen_cases("SmoothGen", quick(ctx, "SmoothGen.cfg", "SmoothGen5.cfg"), cases)
    run = ctx.run_harness("path", n=quick(ctx, 1500, 15000), cases=cases)
    ctx.sample_lines(run)
    ctx.validate(run, "PathTrace")


@check("C14", "areas within 8 mm; lines of the raster within 3 micrometres of a corner of the area are only judged for lying inside")
def c14(ctx):
    ctx.explore("Fill", quick(ctx, "Fill.cfg", "FillBig.cfg"))
    cases = os.path.join(ctx.work, "cases.ndjson")
    ctx.gen_cases("FillGen", quick(ctx, "FillGen.cfg", "FillGen4.cfg"), cases)
    run = ctx.run_harness("fill", n=quick(ctx, 600, 6000), cases=cases)
    ctx.sample_lines(run)
    ctx.validate(run, "FillTrace")
    prints(ctx, 200, 3000)


def region(ctx):
    ctx.explore("RegionMC", quick(ctx, "Region.cfg", "RegionDeep.cfg"), workers=quick(ctx, 4, 8))
    if ctx.tier != "quick":
        ctx.explore("RegionMC", "Region3.cfg")
    cases = os.path.join(ctx.work, "cases.ndjson")
    ctx.gen_cases("RegionGen", quick(ctx, "RegionGen.cfg", "RegionGen4.cfg"), cases)
    run = ctx.run_harness("region", n=quick(ctx, 1300, 9000), cases=cases)
    ctx.sample_lines(run)
    ctx.validate(run, "RegionTrace")
    prints(ctx, 250, 3000)


REGION = "models are stacks of cells of an uneven, arbitrarily turned grid, handed to the default modifiers; places nearer than about 6 micrometres to an expected border or within the rounding of corners are not judged"
check("C09", REGION)(region)
check("C10", REGION, "turned models only with a positive growth of the solid areas")(region)
check("C11", REGION)(region)
check("C12", REGION, "threshold angles of at least 8 degrees for turned models (slivers from rounding)")(region)
check("C13", REGION, "brim rings of one part may pass through another part")(region)


def builder(ctx):
    ctx.explore("Builder", "Builder.cfg", workers=8)
    cases = os.path.join(ctx.work, "bcases.ndjson")
    ctx.gen_cases("BuilderGen", quick(ctx, "BuilderGen.cfg", "BuilderGen3.cfg"), cases)
    run = ctx.run_harness("builder", n=quick(ctx, 600, 6000), cases=cases)
    ctx.sample_lines(run)
    ctx.validate(run, "BuilderTrace")


def jobs(ctx):
    """Complete prints: the protocol of the whole G-code, and all what is printed against what was planned."""
    ctx.explore("JobMC", quick(ctx, "JobMC.cfg", "JobDeep.cfg"), workers=8)
    ctx.explore("JobMC", quick(ctx, "JobFree.cfg", "JobFreeDeep.cfg"), workers=8)
    cases = os.path.join(ctx.work, "jcases.ndjson")
    ctx.gen_cases("JobGen", quick(ctx, "JobGen.cfg", "JobGenDeep.cfg"), cases)
    prints(ctx, 500, 6000, cases)
    whole(ctx, 60, 1000, ["PrintTrace"])


def moves(ctx):
    builder(ctx)
    prints(ctx, 400, 6000)
    whole(ctx, 60, 1000, ["PrintTrace"])


PRINT = "speeds are stated in whole mm/min; volumes are judged to the digits the G-code states and the precision of 32 bit numbers; lines of infill which are shortened to nothing are not judged"
check("C15", PRINT)(moves)
check("C16", PRINT, "the first travel after the custom start G-code is not judged (the position is unknown)")(moves)
check("C17", PRINT)(moves)
check("C18", PRINT, "temperatures of at least 1")(jobs)
check("C19", PRINT)(jobs)
check("C20", PRINT)(moves)


@check("C03", "models of some millimetres (one kind: some centimetres); counts up to 1000, lines down to 30 micrometres, layers down to 7 micrometres: smaller ones end as well, but take long")
def c03(ctx):
    ctx.explore("Robust", quick(ctx, "Robust.cfg", "RobustDeep.cfg"), workers=4)
    cases = os.path.join(ctx.work, "cases.ndjson")
    ctx.gen_cases("RobustGen", quick(ctx, "RobustGen.cfg", "RobustGenPairs.cfg"), cases)
    run = ctx.run_harness("robust", n=quick(ctx, 1200, 15000), cases=cases, binary=True, limit=150)
    ctx.sample_lines(run)
    ctx.validate(run, "RobustTrace")


@check("C22", "whole numbers in other notations than decimal (0x10, 010, 1_000) and fan tables which name a layer twice are left open; lengths in millimetres are compared to 6 significant digits, their printed form to the micrometre")
def c22(ctx):
    ctx.explore("OptionsMC", quick(ctx, "OptionsMC.cfg", "OptionsMC3.cfg"))
    cases = os.path.join(ctx.work, "cases.ndjson")
    ctx.gen_cases("OptionsGen", quick(ctx, "OptionsGen.cfg", "OptionsGen4.cfg"), cases)
    run = ctx.run_harness("options", n=quick(ctx, 3000, 30000), cases=cases)
    ctx.sample_lines(run)
    ctx.validate(run, "OptionsTrace")


@check("C23", "runs of different instances are interleaved between the steps and at the lines of the log; below that the scheduler of Go and the race detector decide")
def c23(ctx):
    ctx.explore("Rerun", quick(ctx, "Rerun.cfg", "RerunDeep.cfg"))
    ctx.refute("Rerun", "RerunReset.cfg")
    ctx.refute("Rerun", "RerunShared.cfg")
    cases = os.path.join(ctx.work, "cases.ndjson")
    ctx.gen_cases("RerunGen", quick(ctx, "RerunGen.cfg", "RerunGenDeep.cfg"), cases)
    run = ctx.run_harness("rerun", n=quick(ctx, 60, 600), cases=cases, binary=True)
    ctx.sample_lines(run)
    ctx.validate(run, "RerunTrace")
    run = ctx.run_harness("rerun", n=quick(ctx, 50, 500), race=True, tag="-race", jobs=4)
    ctx.validate(run, "RerunTrace")
