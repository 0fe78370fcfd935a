"""Writes MANIFEST.json from the table below and the checks present in checks/."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
E, M, F = "exploration", "model_checking", "fault_enumeration"
BASE = "Exhaustive within the stated finite bounds on the real code; says nothing about values outside the alphabet. Trusts numpy/scipy and the independent formulas in vlib/oracle.py and vlib/models.py. "
T = {
    "R01": (E, "exhaustive bounded exploration of the solver's input lattice against an exact Kepler solver", "both solvers, values outside the lattice are not covered"),
    "R02": (M, "explicit-state exploration of conversion histories of live basis/parameter objects", "finite set of orbits"),
    "R03": (E, "exhaustive bounded exploration of orbit lattice and argument forms against exact geometry", "finite lattice"),
    "R04": (M, "breadth-first search over operation histories of the real posterior against a reference state machine", "history length bounded"),
    "R05": (M, "explicit enumeration of model configurations x slots with by-name reference evaluation", "one perturbation per slot"),
    "R06": (M, "explicit enumeration of configurations, visiting histories and instrument permutations against a reference density", "finite data sets"),
    "R07": (M, "explicit-state exploration of operation histories of GP likelihoods against a dense reference", "three documented dense kernels"),
    "R08": (M, "exhaustive enumeration of observation permutations and operation histories against a dense reference", "up to 6 (7) observations permuted"),
    "R09": (E, "exhaustive bounded exploration of all priors x bases x value classes against closed-form densities", "histogram resolution of NumericalPrior's transform is accepted"),
    "R10": (M, "exhaustive enumeration of prior arrangements and subsets against the sum of independent densities", "up to 4 free parameters"),
    "R11": (M, "exhaustive exploration of optimiser behaviours (environment model) and fit/edit histories on the real code", "optimiser answers of bounded length; real scipy minimisers on enumerated problems"),
    "R12": (M, "model of nested-model selection enumerated and matched one to one with the real model_comp", "minimiser replaced by a stub for the lattice; real fits on a subset"),
    "R13": (M, "exhaustive exploration of all environment answers (statistics, sampler) to the real run-control loop against a reference automaton", "real emcee samplers on small problems with scripted convergence statistics; histories of bounded length"),
    "R14": (M, "exhaustive enumeration of run shapes with a recording likelihood; every returned row matched to an evaluation", "bounded run sizes"),
    "R15": (F, "enumeration of every interruption point of saving and every resume history on the real code", "file-level faults at operation granularity"),
    "R16": (M, "breadth-first search over workflow command histories of the real driver with fault points, against a model of the status file", "expensive analysis steps shortened"),
    "R17": (M, "enumeration of model configurations x save/load/edit histories with structural comparison", "bounded histories"),
    "R18": (M, "enumeration of sampler x location x option x prior-state histories of the real wrappers with recording stand-in samplers", "pymultinest is not installed and replaced by a stand-in"),
    "R19": (E, "exhaustive bounded exploration of the quantity lattice against defining physics", "finite lattice"),
    "R20": (M, "exhaustive enumeration of small data layouts (times x instruments x order) against a reference binning", "up to 5-6 observations"),
    "R21": (E, "exhaustive bounded exploration of decimal values, sample layouts and dates against exact references", "finite lattice"),
    "R22": (M, "enumeration of configurations, chains and rendering histories with re-parsed tables", "bounded configurations"),
    "R23": (M, "enumeration of setup-file configurations with independent reference evaluation", "bounded configurations"),
    "R24": (M, "exhaustive enumeration of small chain ensembles, permutations and threshold outcomes against exact definitions", "small chain sets"),
    "R25": (M, "enumeration of command lines (all option pairs) with recording driver functions", "option values from a finite alphabet"),
    "R27": (M, "explicit-state exploration of edit histories of the real posterior with the printed table parsed back against a reference dictionary", "six configurations for histories, 945 for single prints"),
    "R26": (M, "enumeration of model configurations x plotting histories with inspection of every drawn artist", "rendering itself (pixels) is not inspected"),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(HERE, "checks", i + ".py")):
        lv, tech, note = T[i]
        checks.append(dict(property=i, quick_cmd="./check %s" % i, thorough_cmd="VERIF_TIER=thorough ./check %s" % i,
                           evidence_file="evidence/%s.json" % i, technique=tech, level=lv, level_note=BASE + "Limit: " + note + "."))
    else:
        na.append(dict(property=i, reason="no check built yet"))
json.dump(dict(version=1, setup_cmd="test -x ./check && /opt/venv/bin/python -c 'import numpy, scipy, Cython'",
               checks=checks, not_applicable=na), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
