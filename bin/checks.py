"""What the check of each property consists of."""


def simple(prop, spec=None):
    def run(rc, ctx):
        rc.trace_stage(ctx, prop, spec or ("Trace" + prop), rc.gen_inputs(ctx, prop), "gen")
    return run


CHECKS = {
}



def run_c09(rc, ctx):
    model = rc.gen_inputs(ctx, "M09", "model")
    rc.model_stage(ctx, "MCAnalysis", "MCAnalysis.cfg", env={"MODEL_FILE": model})
    h = rc.histories(ctx, "AnalysisHistories", "AnalysisHistoriesT.cfg" if ctx.thorough else "AnalysisHistories.cfg")
    long = rc.histories(ctx, "AnalysisHistories", "AnalysisHistoriesLong.cfg", sampled=600 if ctx.thorough else 60)
    rc.trace_stage(ctx, "C09", "TraceC09", rc.gen_inputs(ctx, "C09", env={"HISTORIES": h, "LONG": long}), "gen")


CHECKS["C09"] = dict(
    level="model_checking", trace="TraceC09", run=run_c09,
    technique="TLA+ state machine model-checked with TLC; TLC-enumerated histories replayed and validated",
    note="The Analysis state machine (caches, two id spaces) is model-checked for every query sequence up to a bound on "
         "dozens of FBASs; every TLC-enumerated query history is replayed on the real Analysis object and each answer, and "
         "each result looked at again at the end, is validated against the machine. Bounded by history length and inputs.")

IO = ("Model checking by trace validation: seeded inputs (documents, groupings, sets, pipelines) run through the real code, "
      "every observed value is accepted or rejected by the TLA+ specification in TLC. Bounded by those inputs.")
for _p in ("C12", "C13", "C14", "C15"):
    CHECKS[_p] = dict(level="model_checking", trace="Trace" + _p, run=simple(_p), note=IO)


def run_c27(rc, ctx):
    h = rc.histories(ctx, "MCBuilder", "MCBuilderT.cfg" if ctx.thorough else "MCBuilder.cfg")
    rc.trace_stage(ctx, "C27", "TraceC27", rc.gen_inputs(ctx, "C27", env={"HISTORIES": h}), "gen")


CHECKS["C27"] = dict(
    level="model_checking", trace="TraceC27", run=run_c27,
    technique="TLA+ state machine model-checked with TLC; TLC-enumerated histories replayed and validated",
    note="The object's machine (Builder.tla) is model-checked and its histories (additions, replacements, restrictions, storing "
         "and loading) enumerated by TLC; each is replayed on real Fbas objects, which must show exactly the machine's state after "
         "every step, and all copies at the end. Histories up to length 4 (thorough: 5), sampled; up to 7 nodes.")


def run_c16(rc, ctx):
    h = rc.histories(ctx, "ResultPipelines", "ResultPipelinesT.cfg" if ctx.thorough else "ResultPipelines.cfg")
    long = rc.histories(ctx, "ResultPipelines", "ResultPipelinesLong.cfg", sampled=400 if ctx.thorough else 30)
    rc.trace_stage(ctx, "C16", "TraceC16", rc.gen_inputs(ctx, "C16", env={"HISTORIES": h, "LONG": long}), "gen")


CHECKS["C16"] = dict(level="model_checking", trace="TraceC16", run=run_c16, note=IO + " The pipelines of post-processing "
                     "steps are all those up to length 3 (thorough: 4), enumerated by TLC.")



def run_c17(rc, ctx):
    rc.model_stage(ctx, "MCSimulation", "MCSimulation.cfg")
    h = rc.histories(ctx, "SimulationScripts", "SimulationScriptsT.cfg" if ctx.thorough else "SimulationScripts.cfg")
    rc.trace_stage(ctx, "C17", "TraceC17", rc.gen_inputs(ctx, "C17", env={"HISTORIES": h}), "gen")


CHECKS["C17"] = dict(
    level="model_checking", trace="TraceC17", run=run_c17,
    technique="TLA+ state machine model-checked with TLC (safety and liveness); TLC-enumerated scripts replayed and validated",
    note="The simulation protocol is a TLA+ machine, model-checked with an arbitrary configurator (each round visits every "
         "node once, rounds bounded, every call returns). Scripts enumerated by TLC and seeded ones (also lying and never "
         "stabilising configurators and the real policies) drive the real Simulator; every configurator call and monitor "
         "event must be a step of the machine. Bounded by script length; visiting orders are sampled by the code itself.")

for _p in ("C18", "C19"):
    CHECKS[_p] = dict(level="model_checking", trace="Trace" + _p, run=simple(_p), note=IO)


def run_c20(rc, ctx):
    rc.trace_stage(ctx, "C20", "TraceC20", rc.gen_inputs(ctx, "C20"), "gen")
    # the listed finding: checked without the deviation, so that it is noticed when it goes away
    kn = dict(rc.known_ids("C20"))
    before = len(ctx.violations)
    ok = rc.trace_stage(ctx, "K20", "TraceC20", rc.gen_inputs(ctx, "K20", "known"), "known")
    if not ok and "one-way-links-reversed" in kn and len(ctx.violations) == before + 1:
        ctx.violations.pop()
        ctx.known.append(("one-way-links-reversed", kn["one-way-links-reversed"]))


CHECKS["C20"] = dict(level="model_checking", trace="TraceC20", run=run_c20, note=IO + " All graphs of up to 4 (undirected) "
                     "and 3 nodes (directed) are among them. One-way links come back reversed (known finding): for graphs "
                     "with such links exactly that deviation is allowed, nothing else.")



def run_c21(rc, ctx):
    h = rc.histories(ctx, "ReportOptions", "ReportOptions.cfg")
    rc.trace_stage(ctx, "C21", "TraceC21", rc.gen_inputs(ctx, "C21", env={"HISTORIES": h}), "gen")


CHECKS["C21"] = dict(
    level="model_checking", trace="TraceC21", run=run_c21, bins=True,
    technique="TLA+ specification of the report; TLC-enumerated option combinations run on the real command, output validated",
    note="TLC enumerates all 8192 option combinations (thorough runs all, quick a seeded 4096); the real command runs on "
         "seeded FBASs with organizations, ISPs and countries, and its output must be, item by item, what Report.tla and the "
         "definitions in FBAS.tla prescribe. Bounded by those inputs (up to 8 nodes).")



CHECKS["C22"] = dict(
    level="model_checking", trace="TraceBulk", run=simple("C22", "TraceBulk"), bins=True,
    note=IO + " The bulk analyzer runs on seeded sets of files with varied names, job counts, argument orders and ignore "
    "strings, to the terminal, to new, existing and updated files; the machine of Bulk.tla with the row contents of BulkRows.tla "
    "(definitions of FBAS.tla) accepts or rejects what it leaves behind.")


def run_c23(rc, ctx):
    rc.model_stage(ctx, "MCBulk", "MCBulk.cfg")
    h = rc.histories(ctx, "BulkHistories", "BulkHistories.cfg")
    rc.trace_stage(ctx, "C23", "TraceBulk", rc.gen_inputs(ctx, "C23", env={"HISTORIES": h}), "gen")


CHECKS["C23"] = dict(
    level="model_checking", trace="TraceBulk", run=run_c23, bins=True,
    technique="TLA+ state machine with crashes model-checked with TLC; TLC-enumerated run/kill histories replayed and validated",
    note="The machine of Bulk.tla (runs, crashes at any row, updates) is model-checked; TLC enumerates chains of runs with "
         "kills, each is replayed on the real command with inputs held back at FIFOs, so that the kill hits a chosen point and "
         "inputs finish in a chosen order, and the file at every such point is validated. Kills between two rows only; "
         "a quick run takes a seeded sample of the chains.")



CHECKS["C25"] = dict(
    level="model_checking", trace="TraceC25", run=simple("C25"), bins=True,
    note=IO + " Pipelines of the real commands: graph generator (or a seeded graph), simulator, analyzer; the printed graph and "
    "FBAS must be ones that Graphs.tla and Simulated.tla (end states of Qsc.tla's policies) allow. Up to 10 nodes.")


def run_c26(rc, ctx):
    rc.trace_stage(ctx, "C26", "TraceC26", rc.gen_inputs(ctx, "C26"), "gen",
                   cfg="TraceC26T.cfg" if ctx.thorough else "TraceC26.cfg")


CHECKS["C26"] = dict(
    level="model_checking", trace="TraceC26", run=run_c26, bins=True,
    note=IO + " Chains of runs, prepared files, updates and kills of the real command; Experiment.tla computes the true "
    "numbers for each benchmark size from the definitions. Sizes up to 9 (thorough: 11); kills hit wherever they hit.")

CHECKS["C29"] = dict(
    level="model_checking", trace="TraceC29", run=simple("C29"), bins=True,
    note="The grammar of every document that is read (nodes, organizations, AS relationships, output tables to be updated) is "
    "written in Documents.tla; seeded documents with none to two mutations, and damaged texts, are given to the loaders and the "
    "real commands, and TLC decides from the grammar whether each had to be accepted or refused. Bounded by those documents.")

NOT_APPLICABLE = {}

ORACLE = ("Model checking by trace validation: the real code runs on every flat FBAS of 1-2 nodes, on flat FBASs of 3 nodes "
          "(sampled in quick, all in thorough) and on thousands of seeded FBASs from 12 structural families; TLC computes the "
          "answer from the definitions in FBAS.tla and accepts or rejects every observed answer. Bounded by those inputs "
          "(7-9 live nodes, ids up to 70); trusts TLC, the definitions in FBAS.tla and the JSON encoding of the harness.")

for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C11", "C24", "C28"):
    CHECKS[_p] = dict(level="model_checking", trace="Trace" + _p, run=simple(_p), note=ORACLE)


def run_c03(rc, ctx):
    model = rc.gen_inputs(ctx, "M03", "model")
    rc.model_stage(ctx, "MCFinders", "MCFindersT.cfg" if ctx.thorough else "MCFinders.cfg", env={"MODEL_FILE": model})
    rc.model_stage(ctx, "MCFinders", "MCTheoremsT.cfg" if ctx.thorough else "MCTheorems.cfg", env={"MODEL_FILE": model})
    rc.model_stage(ctx, "MCCounting", "MCCountingT.cfg" if ctx.thorough else "MCCounting.cfg")
    rc.trace_stage(ctx, "C03", "TraceC03", rc.gen_inputs(ctx, "C03"), "gen")


CHECKS["C03"]["run"] = run_c03
CHECKS["C03"]["note"] = ORACLE + (" The search (with any order of candidates) and the theorems that relate quorums, minimal "
                                  "quorums, blocking sets, clusters and top tier are model-checked on small systems.")


def run_c30(rc, ctx):
    rc.model_stage(ctx, "MCChance", "MCChanceT.cfg" if ctx.thorough else "MCChance.cfg")
    rc.trace_stage(ctx, "C30", "TraceC30", rc.gen_inputs(ctx, "C30"), "gen")


CHECKS["C30"] = dict(
    level="model_checking", trace="TraceC30", run=run_c30,
    technique="TLA+ machines with weighted steps: walks and distributions model-checked with TLC; frequencies of the real "
              "code's outcomes validated against the distributions",
    note="Distributions of outcomes are computed by TLC from the weighted machines (Chance.tla), walks through which are model-"
         "checked to agree with them. Each of dozens of small parameter settings is run 10,000 times (thorough: 20,000) and the "
         "frequency of every outcome must be within eight standard deviations, so that chance alone does not raise alarms; "
         "smaller deviations go unnoticed. Small-world graphs of 80-120 nodes are judged by sums over 40 graphs.")
