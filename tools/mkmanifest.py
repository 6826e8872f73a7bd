#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VN = "gated value numbering of the clang AST (interprocedural, loop-summarising dataflow with path-conditioned canonical values), compared region by region with the documented rule"
CLAIMS = {
    "C05": ("interprocedural path-sensitive dataflow over the clang AST (status propagation from every place where a failure is noticed to every end of its function), with text and syntax-tree rules for the bindings and the Python package", "Every function of the core and the command line program: after an error is logged, a handler entered, or a call that may fail answers so, every path ends in an exception or the function's own failure, up to the bindings and the Python package. Which functions may fail is found by a fixed point over the call graph. Errors logged while the amounts of a step are computed, and destructors, are exempt; a path whose branch depends on a value set after the failure is not judged."),
    "C01": (VN, "Every process kind: all that running may write made unknown, then reset, then the rates of three steps compared with those of a fresh process. Five whole structures, with and without spin-up, with land cover changes or glacier evolution: everything ModelHydro::Run may write (effect analysis) made unknown after a first run, then reset, and the next run compared with the first: storages, amounts, fractions, forcing, rates, dates, records, due actions, totals, written results."),
    "C11": (VN, "Every registered process kind is constructed the way the model builder constructs it and the canonical value of its rates is compared with its documented law in every region (symbolic content, parameters, forcing, fractions). Unit hydrographs: for the listed base times and up to 5 steps. Real arithmetic; finite storage; water in the store above 1e-6."),
    "C10": (VN, "Every registered process and splitter kind, with exactly the parameters and forcings its registration declares, looked up by the current lookup code; values changed after the lookup. A rate that differs from its law for a reason other than a parameter or a forcing is C11's."),
    "C24": (VN, "Every registered splitter kind: outputs sum to the precipitation, are not negative and follow the documented split in every region of the temperatures; unit-wide fluxes reach each of 1, 2, 3 and 5 outputs."),
    "C13": (VN, "The limiting code on stores of every kind, built by their own constructors, with unknown contents, rates, inputs and capacity (time steps are given numbers) is compared region by region with the bounded content; whole steps of each solver and the direct pass are evaluated in regimes that empty or fill stores (contents unknown within a range, rates given numbers)."),
    "C14": (VN, "Every solver on a chain of two stores with unknown process rates: contents seen at each stage, contents and outlet after one and after two steps, against the tableau of the method. Sequential solvers: what is handed to and made of the brick computation; closed forms of the linear and exponential ones on linear stores. The root found by bisection is not resolved."),
    "C22": (VN, "Every brick class: every operation on its stores (set, report, reset, save, inputs, close, handles, values) is evaluated with unknown contents and what it did to each store compared with what it has to do."),
    "C02": (VN, "Every brick class, and a basin with two units holding bricks of all classes: contents, land-cover fractions and flux weights after save, change and reset, through the brick, the basin and the model. Process memories are not captured by saving in this code base and are outside the property."),
    "C12": (VN, "Bookkeeping operations of every store of every brick class with unknown contents and amounts; every process kind's booking of its outputs; every flux kind; the balance of a basin of snow, ground and reservoirs over two whole steps for the multi-stage solvers at two time steps (contents and inputs unknown, rates given numbers)."),
    "C15": (VN, "Four whole model structures (several units and covers, snow and canopy stores, storages, splitters of units and of the basin), put together by evaluating settings, basin and builder code: what every flux delivers for an unknown depth, after unknown fractions were set several times and in different orders, restored, set to 0 and 1, and after a compensated change. Unit areas are the numbers of the structures; lateral fluxes belong to C29."),
    "C21": (VN, "Four whole structures, built once with new unknown parameter values and once with old values that are changed in the settings after initialising and updated: everything the model holds or points to is compared. Naming: every parameter of every component, by name, by type and in lists, through the current setter; unknown names refused. Unit hydrograph base times and switches take one old and one new number (switches both ways)."),
    "C03": (VN, "Whole runs with spin-up of two to three structures (several time steps, forcing sets, failing and throwing spin-ups) are evaluated with the work inside a time step replaced by named values: steps, dates, forcing, records, actions, parameter changes and storages of the recorded part against a run without spin-up. Bounds: up to twelve steps; the listed structures and clocks stand for all."),
    "C04": (VN, "Whole runs of several structures, time steps and period lengths are evaluated with the work inside a time step replaced by named values: order and dates of the steps, the forcing value of every unit and kind in each step, and the rows written at the end. Bounds: up to twelve steps; the listed clocks stand for all."),
    "C06": (VN, "Units with covers carrying snowpacks, canopies and ice, unknown contents in every store: changes of each cover over a grid of fractions, in sequence, directly and through dated actions; the water, snow and ice of the unit before and after compared as exact expressions, fractions as numbers. Not covered: snow of a cover whose receiver has no snowpack, changes below the tolerance."),
    "C08": (VN, "Units with three covers, snowpacks, canopy, ice and outputs of every kind, unknown rates and contents: a step with a cover without area, with one that lost its area after a step, and without the cover, compared as exact expressions (contents, pending changes, fluxes, outlet, what the limiting code is shown). Three covers, two units, three solvers; contents far from the limits."),
    "C09": (VN, "Structures with one flux from a solved store to one computed directly, in every position (unit, structure variant, store, process, output, kind of flux, kind of receiver, solver), initialised by evaluation: refused; each next to the same structure without it, which is initialised."),
    "C07": (VN, "Runs with dated land cover changes added in many orders over one to four actions (equal dates, dates between steps, before and after the period) and with yearly actions, for time steps of 30 minutes to 150 days: the step at which each is applied, the order, a second run, and a refused change. Bounds: up to four dates over four actions."),
    "C32": (VN, "A limited store in every position (unit, second structure variant, computed directly, basin), its overflow declared by each name that makes the overflow process, before and after its other output, for three solvers: a step with unknown rates in which more enters than fits ends at the capacity and the overflow delivers the excess; without overflow it takes no more than fits. One feeding store each."),
    "C17": (VN, "The writer evaluated down to the calls of the netCDF library on lists of unknown values of nine shapes and on five whole runs: the file these calls leave against what was recorded, element by element; the reader's syntax tree against that file: names, label lists and places, dimensions of selections and averages. Up to four items per list."),
    "C18": (VN, "The writer, both readers of files and every method of the file class, evaluated with each library call failing in turn for several reasons: closed once, false or an exception for the caller, none out of a destructor; the table writer with each stream operation failing. One failure per execution; a failing close after reading is not counted."),
    "C27": (VN, "Names of bricks, covers, processes, synonyms, splitters, solvers, forcings, contents, time units and recorded items, also misspelled and made-up ones; in the tables that interpret them and in whole structures. The documented names are written down in the check."),
    "C28": ("syntax-tree analysis of the Python package and the bindings against the evaluated registry of the core", "Every specification, structure, alias, solver name and call of the extension module written in the package; names put together at run time only by their fixed parts. The Python code is not run."),
    "C25": (VN, "The same structures: with every outlet flux holding an unknown amount, the outlet of a step is their sum, once each, also in a second step; every flux of the structures directed to the outlet is attached once; splitters and outlet are computed once per step in the right order."),
    "C16": (VN, "Runs of several structures (two variants with covers in different orders, items logged in part and in full) with a value of its own per quantity, unit and step: every recorded cell and every series asked for by label compared with the quantity the label names; totals compared with the area-weighted sums."),
    "C20": (VN, "Series with an unknown value per record for many starts and steps (doubles rounded as the hardware does): position, advance, out of range; single and distributed series offered to models with other extents and steps; arrays and files read; the forcing of each step of whole runs."),
    "C26": (VN, "Every pair of unit names of the code and the usual ones with an unknown value: converted, or refused; the property named is the one handed out; every component that reads one gets it in the unit it assumes."),
    "C19": ("call-graph reachability and effect analysis of static storage, lock-set analysis of the message log", "Every variable of static storage and every function that model operations reach; the bindings read as text. Sharing of objects given to two models by the user is not seen."),
    "C23": (VN, "Every process kind that fits a structure of the check, every splitter, five structures of the package: one forcing, target, output, or parameter missing at a time, in every component, after building and in the settings before it; runs without one of the series; unsupported names. Contents, parameters, weather are given numbers."),
    "C29": (VN, "Four units, three covers, five networks, the three kinds of redistribution, at once and delayed: an unknown amount of snow in one snowpack, followed through whole steps: loss and gains compared exactly by weights, fractions and areas, in the ranges below, above and far above what is held; receivers that are full. Slopes and parameters are given numbers."),
    "C30": (VN, "Evolution actions with given tables on glaciers in several units, for ice contents leading to every row, also twice in a row: areas and ice against the row of the lost ice; covers fill their unit; other glaciers untouched. Snow to ice with unknown contents. Tables and ice contents are given numbers."),
    "C31": (VN, "The clock's code evaluated on the listed starts, ends and time steps with doubles rounded as the hardware does: steps made, steps announced, dates of the period; the same with unknown numbers for a few steps; whole runs size and fill every record accordingly. Other periods are not looked at."),
}
NA = {
    "C33": "whole-model discharge equality with a reference formulation is a property of trajectories of runtime values over thousands of steps; no static argument in reach bounds it (the one-step laws of GR4J/GR6J are decided under C11).",
    "C34": "convergence order is an asymptotic numerical statement about runtime values; the structural part (stage states and weights) is decided under C14.",
    "C35": "calendar arithmetic equality over all dates is integer arithmetic delegated to the date library; a static rule would restate the formula.",
    "C36": "running time is not visible in the source.",
}
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash extract/build.sh", "checks": [], "not_applicable": [],
     "notes": "All checks are static analyses of /repo/core/src (and python/src for C28) as extracted from the current tree on every run; no code of /repo is executed. Exit 0 held, 1 violated, 2 analysis broken."}
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, n = CLAIMS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "technique": t, "level": "other", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no sound static rule built for it (yet)")})
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not applicable")
