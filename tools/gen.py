#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "calkulate/"


def P(id, title, statement, text, why, files, mech, over=("inputs",),
      observe=(), state=()):
    return dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=[C + f for f in files],
                     mechanism=[dict(name=n, where=C + w) for n, w in mech],
                     state=list(state), observe_at=list(observe),
                     hook_needed=None))


PROPS = [
 P("C01", "EMF, [H+] and pH conversions obey the Nernst equation and invert",
   "For every EMF, standard potential and temperature, [H+] = exp((EMF - EMF0) F / (R T_K)) with T_K = temperature + 273.15, F = 96.4853365 and R = 8.3144621, and pH = -log10 [H+]. Converting [H+] or pH to EMF and back returns the starting value, for scalars and for arrays element by element. Dickson's f factor converts to the EMF0 shift R T_K ln(f) / F.",
   "all real EMF, EMF0, temperatures > -273 degC, pH, [H+] > 0, f > 0; scalars and arrays",
   "the published tests compare a handful of stored numbers; an error in one branch of the inverse only shows at other temperatures",
   ["convert.py", "constants.py"],
   [("emf_to_h/emf_to_pH/h_to_emf/pH_to_emf/f_to_demf0", "convert.py")]),
 P("C02", "Dilution by the titrant conserves the amount of every substance",
   "At every titration point the content of each salt times the mass of the mixture equals the undiluted content times the analyte mass, plus whatever amount of it the titrant itself carries. Adding the contribution of a titrant with some molinity and then removing it restores the original contents. Salinity and other entries that are not contents are not diluted.",
   "all contents, titrant masses >= 0, analyte masses > 0, titrant molinities and multipliers; every content the package knows",
   "tests use one recipe; conservation must hold for each salt, each mass and each titrant",
   ["convert.py", "core.py"],
   [("get_dilution_factor/dilute_totals*", "convert.py"), ("add_titrant_totals", "core.py")]),
 P("C03", "Speciation obeys mass balance and mass action for every system",
   "For every pH, set of total contents and set of stoichiometric constants, the computed contents of carbonate, borate, phosphate, silicate, ammonia, sulfide, fluoride, bisulfate, hydroxide and the two user-defined acid systems satisfy their equilibrium expressions and sum to their totals. Species whose total is absent contribute nothing. Bisulfate is only reported on the Free scale and hydrogen fluoride only on the Free and Total scales, and a user-defined acid counts as a base if its pK is above 4.5 and as an acid otherwise.",
   "all pH, all positive totals and constants, every subset of the totals, three pH scales, scalars and arrays",
   "tests look at total alkalinity of a few samples, where an error in a minor species disappears in the rounding",
   ["simulate.py"],
   [("alkalinity_components and get_* species functions", "simulate.py")]),
 P("C04", "Alkalinity is proton acceptors minus proton donors at pK 4.5",
   "Total alkalinity computed at a known pH equals [HCO3] + 2[CO3] + [B(OH)4] + [OH] + [HPO4] + 2[PO4] - [H3PO4] + [H3SiO4] + [NH3] + [HS] - [H] - [HSO4] - [HF], plus the contributions of the user-defined systems, with bisulfate and fluoride left out on pH scales that already include them. Each system contributes independently of the others, and a missing value leaves the alkalinity missing at that point only. Undefined pH scales are refused.",
   "all pH, totals, constants, subsets of totals, pH scales, scalars and arrays",
   "a wrong sign or weight of a minor term changes results by less than tests resolve on the sampled data",
   ["simulate.py"],
   [("alkalinity", "simulate.py"), ("alkalinity_components", "simulate.py")]),
 P("C05", "Titrant and analyte amounts convert correctly to kilograms",
   "Titrant amounts in ml, g or kg (unit names in any letter case) become kg: millilitres through the given density or else the density of the named titrant at the given molinities, grams by 1/1000, kilograms unchanged. An analyte mass that is given is used as it is; otherwise the mass comes from the analyte volume and the density of seawater at the initial temperature and the sample salinity. A temperature override replaces every temperature of the titration exactly, including for the analyte density and when the file holds integers; measurements pass through untouched, and unknown units, unknown titrants and missing analyte amounts are refused.",
   "all amounts, temperatures, salinities, densities, molinities; every unit, titrant and combination of optional arguments",
   "the combinations of unit, titrant, density, mass, volume and override are too many to sample and errors are small relative shifts",
   ["convert.py", "density.py"],
   [("amount_units", "convert.py")]),
 P("C06", "Density equations follow their published formulas and flag their range",
   "Seawater density follows Millero & Poisson (1981) at 1 atm, HCl-NaCl density follows Dickson et al. (2007) and sulfuric acid density follows the E-AIM quadratic, for every temperature, salinity and composition, with documented defaults where an argument is omitted. A warning is issued exactly when some value is outside the stated validity range.",
   "all temperatures, salinities >= 0, molinities > 0; scalars and arrays",
   "a changed coefficient alters densities by parts per million and only away from the tested point",
   ["density.py", "default.py"],
   [("seawater_1atm_MP81, HCl_NaCl_25C_DSC07, H2SO4_25C_EAIM", "density.py")]),
 P("C07", "Total salt contents: given values win, otherwise from salinity",
   "A total borate, fluoride or sulfate given by the user (in umol/kg) is used as given, in mol/kg, and one that is missing or null is derived from salinity with the chosen borate option. Dissolved inorganic carbon, nutrients and user-defined systems are converted from umol/kg to mol/kg and included exactly when positive. The same totals, under the right names, feed the equilibrium constants.",
   "all salinities and totals, each given, null or absent; every borate option and the carbonic options that change the salt model",
   "each total has its own code path and its error is invisible unless that total is both given and large",
   ["interface.py"],
   [("get_totals", "interface.py")]),
 P("C08", "Equilibrium constants: given values win and each has its own role",
   "Every equilibrium constant given by the user is used unchanged, and each one that is missing or null is evaluated for the temperature at each point, the salinity and the options chosen. No constant is exchanged for another, and the hydrogen fluoride constant is converted from the Free to the Total scale exactly when the Total scale is requested.",
   "all temperatures, salinities, totals and constants; any subset of the 14 constants given; pH scale, carbonic, bisulfate and fluoride options",
   "swapping or ignoring a minor constant changes alkalinity below test tolerance",
   ["interface.py"],
   [("get_k_constants", "interface.py")]),
 P("C09", "Totals and constants through a titration follow dilution and options",
   "At every titration point the total contents are the analyte's undiluted totals times the dilution factor, and the constants are those at that point's temperature, computed from undiluted totals unless diluted totals are requested, in which case from diluted totals and undiluted salinity. Every option and every user-given total or constant reaches the step it belongs to and no other. Salts carried by the titrant are added at the titrant molinity in use when solving from a file.",
   "all masses, temperatures, totals, constants, options; dilution of totals for constants on or off; titrants carrying sulfate, phosphate or fluoride",
   "tests run with default options; an option that is dropped or applied twice leaves them unchanged",
   ["core.py", "files.py"],
   [("totals_ks", "core.py"), ("add_titrant_totals", "core.py"), ("solve", "files.py")]),
 P("C10", "EMF solver returns the least-squares alkalinity and EMF0",
   "The alkalinity and EMF0 returned for an EMF titration minimise the sum of squared residuals, over the data points used, of alkalinity computed from pH minus diluted sample alkalinity plus titrant added (molinity times normality). The returned pH is that of the returned EMF0, the per-point alkalinities are those implied at each point by that pH, and the reported standard deviation is that of the residuals in umol/kg. Starting values only matter as starting values.",
   "all EMF titrations within the stated number of points, all totals, constants, normalities and starting guesses",
   "tests check a few stored alkalinities; a biased objective or a wrong per-point estimate shifts results within their tolerance",
   ["core.py"],
   [("solve_emf", "core.py"), ("_lsqfun_solve_emf", "core.py")]),
 P("C11", "Only points inside the inclusive pH window determine the result",
   "The points used by the EMF and pH solvers are exactly those whose pH estimate p satisfies minimum <= p <= maximum, where the estimate comes from the Gran EMF0, or from the given EMF0, and in the default double solve from the first solution. Changing any property of a point that is not used, and that leaves the pH estimates of the others and the Gran guess alone, does not change the alkalinity. An empty or reversed window is refused, and the chosen Gran point selection applies to both passes.",
   "all titrations within the stated number of points, all pH windows, all EMF0 guesses, single and double solves, both Gran selections",
   "boundary points and second-pass changes of the window need exact coincidences that samples do not hit",
   ["core.py"],
   [("solve_emf used mask and double solve", "core.py"), ("solve_pH", "core.py")]),
 P("C12", "pH solver returns the mean of the per-point alkalinities used",
   "For a titration with known pH, every point's alkalinity is the alkalinity computed from its pH plus titrant added (molinity times normality per mass of mixture), divided by the dilution factor, in umol/kg. The result is the mean of those over the points inside the pH window and the reported spread their population standard deviation.",
   "all pH titrations within the stated number of points, totals, constants, normalities, windows",
   "normality, dilution and unit factors are one or near one in tests",
   ["core.py"],
   [("solve_pH", "core.py")]),
 P("C13", "Gran estimates are exact on ideal strong-acid data",
   "Where the Gran function of the points used is exactly linear in titrant mass, the Gran alkalinity is the titrant amount at its zero crossing times molinity and normality per analyte mass, and each point's EMF0 estimate is exact when excess acid sets [H+]. By default the points used run from the first one above 10 % of the largest Gran value to the end, with the legacy rule those between 10 % and 90 %, and any other rule is refused. The same holds for the Gran solver with known pH, in umol/kg, over its pH window.",
   "all linear Gran functions, analyte masses, molinities, normalities, temperatures, within the stated number of points; both selection rules",
   "on measured data Gran values are only first guesses, so tests of the final alkalinity do not notice a wrong one",
   ["core.py"],
   [("gran_function, gran_alkalinity, gran_emf0s, gran_guesses, solve_pH_gran", "core.py")]),
 P("C14", "Calibration returns the molinity that reproduces the certified value",
   "Solving a reference titration with the calibrated titrant molinity, with the same options, gives back the certified alkalinity, in every solving mode and for titrants that carry sulfate, phosphate or fluoride. The first guess does not change the answer, and calibrating leaves the total contents it was given as they were.",
   "all reference titrations within the stated number of points, certified values, modes, options, titrant contents and normalities",
   "tests calibrate with defaults, where an option lost on the way to the solver cannot be seen",
   ["core.py", "files.py"],
   [("calibrate_emf, calibrate_pH, calibrate_pH_gran", "core.py"), ("calibrate", "files.py")]),
 P("C15", "A simulated titration carries the alkalinity and EMF0 it was made with",
   "In a simulated titration the alkalinity at each point is the initial alkalinity diluted by the titrant minus the acid added, totals and dissolved inorganic carbon are diluted by the same factor (or follow the CO2 loss model if requested), and the EMF follows the simulated Free-scale pH and the given EMF0. The titrant masses run from start to stop in the given step. Solving such a titration with the same molinity, totals and constants therefore has the original alkalinity and EMF0 as its exact solution.",
   "all alkalinities, DIC, analyte masses, titrant masses and molinities, EMF0, salinities, temperatures and options within the stated number of points",
   "round trips in tests use one sample and one recipe",
   ["simulate.py", "core.py"],
   [("simulate.titration numbers (arrays function)", "simulate.py")]),
 P("C16", "Batch titrant molinity is the mean over that batch's good references",
   "After calibrating a dataset, every row has the mean of the individually calibrated molinities of those rows of its own analysis batch that are marked as good references, or of all calibrated ones if no marks are given. Rows of other batches, bad references, failed calibrations and rows without a batch do not influence it, and samples in a batch without good references or without a batch get no value. The order of rows does not matter.",
   "all calibrated molinities, batch labels, reference marks, missing batches and row orders within the stated number of rows",
   "the partitions and marks multiply; tests use a single batch or a fixed file",
   ["dataset.py"],
   [("get_batches/get_group_calibration/calibrate", "dataset.py")],
   over=("inputs", "histories")),
 P("C17", "Rows of a dataset are independent and a bad row spoils only itself",
   "Each row's calibration and solution depend only on its own values, its batch molinity and the keyword arguments: adding, removing, changing or reordering other rows does not change it. A row whose file is missing, unreadable or marked bad, or that lacks a molinity, gets empty results while all other rows are processed normally. Every result is stored in the row it belongs to, whatever the index of the table.",
   "all row values, row orders, indexes and failing rows within the stated number of rows",
   "tests process complete valid files in file order",
   ["dataset.py"],
   [("solve_row/calibrate_row/solve/calibrate", "dataset.py")],
   over=("inputs", "fault_sequences")),
 P("C18", "Options: row value over keyword over default, null means not given",
   "For every option a value in the row takes precedence over a keyword argument, which takes precedence over the documented default, and a null in the row never overrides a keyword argument or default. This holds for every processing step, for calibrating as for solving, and for total salts, the borate option and the amount unit too. Only for a single Titration do keywords overwrite the row, as documented. The old-style arguments (pH range, reading options as a dict, reading method) keep their meaning.",
   "every documented option, in row, keyword, both, null or absent, for calibrating and solving",
   "the number of combinations of options and places is far beyond the tests, which rarely set any",
   ["dataset.py", "files.py", "meta.py"],
   [("_get_kwargs_for", "meta.py"), ("_backcompat/prepare/get_total_salts", "dataset.py")],
   over=("inputs", "configurations")),
 P("C19", "Dataset, file, Titration and core levels give the same answer",
   "Solving or calibrating a titration gives the same alkalinity, EMF0, molinity and statistics whether it is done as a row of a dataset, through the file-level functions, by creating a single-titration object, or step by step with the core functions, in every solving mode. Results are reported under their own names: number of points used, standard deviation of the per-point alkalinities used, Gran estimates, initial pH and temperature, and offset from the certified value.",
   "all titrations within the stated number of points, solving modes and options",
   "tests compare a few layers for default options only",
   ["files.py", "dataset.py", "classes.py", "__init__.py"],
   [("solve/calibrate", "files.py"), ("add_solve_results", "dataset.py"), ("Titration", "classes.py")],
   over=("inputs", "configurations")),
 P("C20", "Titration files are read completely and written to read back equal",
   "Reading a titration file returns the titrant amount, measurement and temperature of every data line from the configured columns, in order, for the plain text, PC LIMS and German Tiamo formats, including the PC LIMS rule that only the first contiguous block of data counts and the Tiamo starting volume. Writing a titration and reading it back returns every value to the precision of its format. An existing file is not overwritten by default.",
   "all numbers, numbers of lines, column layouts, delimiters, headers, block layouts",
   "tests read three fixed files",
   ["read/titrations.py"],
   [("read_dat_*", "read/titrations.py"), ("write_dat", "read/titrations.py")]),
 P("C21", "VINDTA databases yield the right files, certified values and times",
   "Importing a VINDTA database keeps every row and column and derives, row by row, the titration file name from station, cast, niskin, depth and bottle for samples and from batch and bottle for reference materials, marks rows of any other kind as not to be processed, and takes certified alkalinity only for reference materials. Dates written month/day/two-digit-year with their time become the analysis time, and missing ones a missing time. Analyte volume, analyte mass and file path are set as requested.",
   "all station numbers, run types, row orders, dates, formats within the stated number of rows",
   "tests import fixed databases whose dates and names are all alike",
   ["read/metadata.py"],
   [("read_dbs, get_VINDTA_filenames, dbs_datetime", "read/metadata.py")]),
 P("C22", "Inputs are not modified and repeated runs give the same results",
   "Solving, calibrating and creating single-titration objects leave the arrays, dicts, tables and keyword arguments they are given unchanged, except for the columns a dataset gains and the missing values it fills in. Running the same dataset or titration again gives the same results, whatever was solved before it.",
   "all titrations within the stated number of points, sequences of calls up to the stated length",
   "tests run each dataset once in a fresh process",
   ["core.py", "files.py", "dataset.py", "classes.py"],
   [("in-place operations", "core.py"), ("Titration.__init__", "classes.py"), ("solve/calibrate", "dataset.py")],
   over=("histories", "inputs")),
 P("C23", "The DIC-loss model conserves carbon and drives CO2 to the air value",
   "In the DIC-loss model each step dilutes the inorganic carbon by the titrant added and removes the rate constant times the fCO2 difference from air times the step, and nothing else, so that zero rate means pure dilution. fCO2 follows from DIC, pH and the constants at that point (at the first forecast point, from the pH and constants at the end of the fitted section), the fitted and forecast sections join without a gap, and the fitted rate constant is the least-squares one. Modelled values are returned at the titration points in their own units, and the arrays given are left as they were.",
   "all pH, DIC, fCO2, constants and masses within the stated number of steps",
   "the only test is disabled",
   ["loss.py"],
   [("dic_loss_model_fitted/dic_loss_model_future/get_fCO2_from_dic_pH/get_dic_loss*", "loss.py")]),
 P("C24", "A Titration's table is internally consistent with its solution",
   "For every titration the table of a single-titration object holds the solver's own masses, temperatures, EMF, pH, totals, constants, Gran values and used flags. Alkalinity from acid is the solved alkalinity diluted minus acid added (molinity times normality), the estimate at each point inverts the same balance from the alkalinity implied by pH, species contents are in mol/kg, and the analyte mass is the one used to solve, also when it came from a volume. Every value is reachable as attribute and as item.",
   "all titrations within the stated number of points, solving modes, normalities, masses or volumes",
   "no test reads the table's derived columns",
   ["classes.py"],
   [("Titration", "classes.py")]),
 P("C25", "Plots show every solved point, told apart by use, and change nothing",
   "Every documented plot of a Titration draws each point of its table once, at the titrant mass in g and the plotted quantity in the unit of the axis, filled only if the solver (or the Gran fit, in Gran plots) used it. Lines and titles give the solved values: Gran EMF0, the Gran regression and its intercept, alkalinity and number of points; the band of the pH plot is the window used for solving, and components are drawn with their sign and multiplier wherever they are positive throughout. Dataset plots draw each analysis with a value once, at its position or chosen variable, bad references (also unmarked ones) apart or left out on request, with one line or colour per batch. No plot alters the titration or the dataset.",
   "all tables within the stated number of points or rows, used flags, windows given, null or absent, marks, batches, indexes",
   "no enabled test draws anything",
   ["plot/__init__.py", "plot/titration.py"],
   [("emf/pH/gran_emf0/gran_alkalinity/alkalinity/components", "plot/titration.py"),
    ("titrant_molinity/alkalinity_offset", "plot/__init__.py")]),
]

DONE = [l.strip() for l in open(os.path.join(HERE, "tools", "claimed.txt"))
        if l.strip()]
NA = {}


def main():
    ids = [p["id"] for p in PROPS]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if i in DONE:
            checks.append(dict(
                property=i, level="model_checking",
                quick_cmd=f"./check.py {i}",
                thorough_cmd=f"./check.py {i} --thorough",
                technique="symbolic execution of the real calkulate functions"
                " (regenerated from /repo on every run), SMT (z3) verdict per"
                " path and assertion, counterexamples replayed on the real"
                " code",
                level_note="bounded: all real values of the inputs, within the"
                " sizes and option sets listed in the evidence; real"
                " arithmetic for IEEE-754; PyCO2SYS and SciPy by contract"))
        else:
            na.append(dict(property=i, reason=NA.get(
                i, "check not built yet")))
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="true", checks=checks,
                       not_applicable=na), f, indent=1)
        f.write("\n")
    print(len(ids), "properties,", len(checks), "claimed")


main()
