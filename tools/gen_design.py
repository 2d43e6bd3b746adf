"""Writes DESIGN.md (bounds and functions come from the checks, costs from the last evidence)."""
import ast
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(ROOT)

HEAD = open("tools/design_head.md").read()
TAIL = open("tools/design_tail.md").read()

HOW = {
    "P01": "Events, weights and edges are symbolic. Oracle: nested interval membership per axis (half-open as documented per binning kind). The jaxpr of the real histogram functions is executed; every bin content must equal the sum of `ite(in bin, weight, 0)`. Edge-equal events, which sampling never hits, are ordinary values here.",
    "P02": "A stand-in component simulation returns unknown columns (observables, efficiency); `simulate_hist`/`ComponentFixed.simulate_hist` run for real with symbolic rate, size and loaded rows. Oracle: counts of P01 x rate x normalisation of each documented norm type, sums, and the eps floor.",
    "P03": "Symbolic events of all components go through `simulate_weighted_data` and `Likelihood.simulate_weighted_data`; the retained set is decided per path and order, weights and normalisation compared with `simulate_hist`'s definition.",
    "P04": "Unknown template bins (non-negative, zero, infinite or NaN) from stand-in components and unknown data counts; the value must be the Poisson sum with the documented -inf cases; logarithms and `gammaln` are uninterpreted with axioms.",
    "P05": "Two-half-normal, band and uniform measurement likelihoods with symbolic measurement, yields and efficiencies; including energies outside the band and combinations of components.",
    "P06": "The file reader returns unknown columns in any column order; `Likelihood.__init__` runs for real. The selected rows are decided strictly against symbolic clips; the histogram is that of P01.",
    "P07": "Two likelihoods, aliases of every fitted, fixed and rate parameter, symbolic values; every entry point of `Context`/`Likelihood` that takes parameters must give its components exactly the renamed mapping.",
    "P08": "Symbolic parameter values, ranges and prior arguments; the sum of closed forms inside the allowed range (bounds included) and -inf outside; the `free`, `norm`, `uniform`, `twohalfnorm` and fixed kinds.",
    "P09": "Draws of the generators are symbolic; the sampled value must be the clipped affine/uniform image of the draw.",
    "P10": "One or two operations (set, get, by name, list, mapping, with unknown names or wrong lengths) from an arbitrary symbolic parameter state: inductive step over histories.",
    "P11": "Likelihoods are stand-ins with unknown finite/NaN/infinite values; the posterior must be prior plus sum, and no stand-in may be called off-prior.",
    "P12": "The chain of the sampler stand-in is unknown numbers; histories of running, continuing and reading parameters; median, mean and maximum-posterior values by their definition (order statistics with symbolic comparisons).",
    "P13": "Configurations with copied parameters, fixed/needed names and likelihoods in every order; changes after copying must not reach the source.",
    "P14": "Plugins whose outputs are unknown functions of their inputs are wired into all small acyclic graphs; the generated simulation source is executed symbolically; every requested column must be the term of its plugin chain; counts of plugin executions and needed parameters are judged.",
    "P15": "Random keys are terms of a key algebra (root, split child, fold). Every pair of keys consumed by any sampler on a path must be distinct; distinctness is decided by the datatype theory, for the samplers, the shipped plugins, full ER/NR components, likelihoods and repeated posteriors.",
    "P16": "Batches are unknown columns; concatenation per column, key threading, and thinning by positive efficiency are compared element by element.",
    "P17": "Constants, constant sets, maps and uncertainty maps with symbolic values configured absent/globally/per likelihood for up to three likelihoods in all build orders; every plugin must read its own value, before and after the others are built.",
    "P18": "The hash is replaced by the canonical record it hashes (symbolic values stay in it). Two components built with unequal (symbolically different) ingredients must have unequal records, equal ingredients equal ones; each single aspect is varied in turn.",
    "P19": "The services (file system under a scratch folder, packaged files, ntauxfiles, mongo) are stand-ins whose answers are symbolic flags; the returned path must be the first in the documented order.",
    "P20": "Lower, median and upper curves are unknown maps, the scaler any number; value, ends, linearity on each side and monotonicity.",
    "P21": "Symbolic knots and query; linear and nearest interpolation at nodes, between and outside; documented bounds forms.",
    "P22": "Symbolic grid values and query in 1..3 dimensions, grids with unequal axes; exactness at nodes, locality, boundedness, multilinear form.",
    "P23": "Inverse-distance weights over symbolic grid values and query; bounded averages and exactness at nodes, including the k-nearest variants.",
    "P24": "Map files with symbolic contents; coordinates, transforms, refusal of non-increasing or non-uniform axes, logarithmic values and densities.",
    "P25": "Every ER plugin of the shipped chain with symbolic inputs and unknown (support-constrained) draws; conservation of quanta, ratios, means and uncertainties by formula.",
    "P26": "The NR plugins in the same way, with NEST yield formulas and the Timbox parametrisation.",
    "P27": "S1/S2 chain, drift loss, position reconstruction and corrections with unknown maps; support of binomial/Poisson/normal draws and parameters handed to them.",
    "P28": "Unknown efficiency maps and thresholds: range, monotonicity, product.",
    "P29": "Unknown draws in their support; energies, bands, tabulated spectra and positions stay in their support and have the documented distribution parameters.",
    "P30": "Samplers called with symbolic parameters, draws symbolic in their support; affine/shape relations, truncation, generalised Poisson and skew normal by formula; refused parameters.",
    "P31": "Density against its closed form, continuity and monotonicity, and sampler: probability of a side and scale per side.",
    "P32": "The external partitioner is a recording stand-in returning unknown edges; what it receives and what is made of its result is compared for both axis orders, one-sided and infinite clips, and through `Likelihood`.",
    "P33": "Recording stand-ins of matplotlib receive symbolic grids; every drawn point or cell must have the coordinates and the value of the interpolation's grid; the plotted maps are those of the asked likelihood.",
    "P34": "Modules and classes of every name relation and force flag; default values are symbolic numbers, so equality and difference are decided by the solver; the registry is observed through `dependencies_deduce` before and after.",
    "P35": "The fraction is symbolic; the written decimal string, parsed back, must be the request to one per cent (or the documented maximum).",
    "P37": "The real plotter runs on a stand-in chain file with symbolic samples and log posteriors (also infinite or NaN); drawing calls are recorded by stand-ins of matplotlib and corner, and every plotted abscissa, ordinate and prior density is compared with the recorded chain.",
    "P38": "Clock and plugin durations are symbolic; mean and spread are compared with the symbolic durations of the timed runs, and the instance, inputs and configuration of every timed plugin with those of the compiled simulation, over all small plugin graphs and contexts.",
    "P39": "Plugin classes are generated for every small acyclic graph; the recorded nodes and edges and the recorded listing are compared with an independent computation of what is needed, with symbolic option values.",
    "P40": "Edges and contents are symbolic; the recorded rectangles, colours and axis limits are compared bin by bin with the input.",
    "P41": "Histories are chosen by symbolic flags per step; after each, the real check runs and the warning is compared with an independent model of which options were given and read.",
    "P42": "Lineages of real entities with symbolic option values and edges are dumped through the real JSON path (symbolic numbers travel as tokens) and read back; structure and values are compared.",
    "P36": "Contexts with symbolic parameter values and configurations are written to a chain file stand-in and restored; every observable of the restored context equals the original.",
}


def consts(pid):
    tree = ast.parse(open(f"checks/{pid.lower()}.py").read())
    out = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ("BOUNDS", "ASSUMPTIONS", "FUNCTIONS"):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


def main():
    props = [json.loads(l) for l in open("properties.jsonl")]
    cost = json.load(open("tools/costs.json")) if os.path.exists("tools/costs.json") else {}
    out = [HEAD, "\n## Properties\n"]
    for p in props:
        c = consts(p["id"])
        out.append(f"### {p['id']} {p['title']}\n")
        out.append(HOW.get(p["id"], "") + "\n")
        out.append(f"- Bounds: {c.get('BOUNDS', '')}")
        for a in c.get("ASSUMPTIONS", []):
            out.append(f"- Assumes: {a}")
        out.append("- Code executed: " + ", ".join(f"`{f}`" for f in c.get("FUNCTIONS", [])))
        k = cost.get(p["id"], {})
        if k:
            out.append("- Cost (8 cores): " + "; ".join(f"{t} {v}" for t, v in sorted(k.items())))
        out.append("")
    out.append(TAIL)
    rows = []
    for m in sorted(glob.glob("seeded/*/meta.json")):
        d = json.load(open(m))
        rows.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['what_it_breaks']} | {d['needs']} |")
    out.append("\n## Planted changes\n\nEach is caught by the quick check of its property (exit 1, its VIOLATION line) unless the last column says otherwise; none is detected by the 47 tests.\n")
    out.append("| id | property | what it breaks | what it needs |\n|---|---|---|---|")
    out += rows
    open("DESIGN.md", "w").write("\n".join(out) + "\n")


main()
