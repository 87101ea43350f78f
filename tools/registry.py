"""
The one place where the properties are written down. Writes properties.jsonl and
MANIFEST.json:  python3 tools/registry.py
"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MAIN = "arcticpy/main.py"
CORE = "arcticpy/main_utils.pyx"
ROE = "arcticpy/roe.py"
CCD = "arcticpy/ccd.py"
TRAPS = "arcticpy/traps.py"
MANAGERS = "arcticpy/trap_managers.py"
TMU = "arcticpy/trap_managers_utils.pyx"

ADD = ("add_cti", MAIN)
REMOVE = ("remove_cti", MAIN)
CLOCK = ("cy_clock_charge_in_one_direction", CORE)
PLAN = ("ROE.express_matrix_and_monitor_traps_matrix_from_pixels_and_express", ROE)
SAVE = ("ROE.save_trap_states_matrix_from_express_matrix", ROE)
WINDOW = ("ROE.restrict_time_span_of_express_matrix", ROE)
SEQUENCE = ("ROEAbstract._generate_clock_sequence", ROE)
RELEASE = ("TrapManagerInstantCapture.n_electrons_released", MANAGERS)
CAPTURE = ("TrapManagerInstantCapture.n_electrons_captured", MANAGERS)
SLOW = ("TrapManager.n_electrons_released_and_captured", MANAGERS)
TRACK = ("TrapManagerTrackTime", MANAGERS)
ALL = ("AllTrapManager", MANAGERS)

P = []


def prop(id, title, statement, over, text, why, mechanism, oracle, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  mechanism=mechanism, oracle=oracle, note=note, observe=observe))


prop(
    "C01",
    "Charge is never created, and only moves away from the readout",
    "With every transfer computed and traps that start empty, adding CTI never increases the total "
    "charge of a column (or row): what is missing from the "
    "output image is what is still held in traps. Traps only ever delay charge, so (when charge is "
    "released away from the readout) for every pixel, the charge in it and all pixels read out "
    "before it never increases, while any trail appears behind the source.",
    ["inputs", "configurations"],
    "every image, trap mixture (instant, slow, continuum), well, clock sequence of 1 to 4 phases, "
    "dwell times, offset and window, for the total also both release rules, without express "
    "approximation and with traps emptied for "
    "first transfers and between columns; several trap groups only where there is more charge "
    "than traps can take",
    "The tests compare a handful of images with stored numbers; conservation must hold for every "
    "image and trap mixture, and fails only in rare watermark configurations (a cloud released "
    "above the highest watermark, too few electrons to fill the traps).",
    [CLOCK, RELEASE, CAPTURE, SLOW, ("update_watermark_volumes_for_cloud_below_highest", MANAGERS)],
    "PBT: cumulative-sum dominance invariant of output over input",
    "Invariant over generated cases with a 1e-9 relative tolerance.",
)
prop(
    "C02",
    "Every supported configuration gives a usable image",
    "For any finite non-negative image and any supported combination of traps, wells, clock "
    "sequences, readout mode, express, offset, space or time windows, one or both directions, "
    "adding CTI completes without an error and returns a new floating-point image of the same "
    "shape, with only finite values and no negative pixel. This includes empty pixels, images of a "
    "single row or column, hundreds of rows, parameters over many orders of magnitude, and any "
    "memory layout or number type of the input array.",
    ["inputs", "configurations"],
    "the whole supported configuration space, 1x1 up to hundreds of rows, 0 to 10 orders of "
    "magnitude of charge, density, lifetime and dwell time",
    "The tests run a few dozen configurations of the thousands of combinations; errors, NaN and "
    "negative pixels appear only for particular combinations (watermark overflow, all-empty rows, "
    "integer express multipliers with pumping).",
    [ADD, CLOCK, ("TrapManager.extend_watermarks_if_nearly_full", MANAGERS), PLAN],
    "PBT: robustness and output-validity invariant over the configuration grammar",
    "Total over the generated configuration space; domain limited to finite non-negative images.",
)
prop(
    "C03",
    "A pixel is only affected by those that are read out before it",
    "With charge released away from the readout, changing any set of pixels changes the output only "
    "in the same and later rows of the same or later columns, never in a row nearer the parallel "
    "readout or a column nearer the serial readout. This holds for every trap mixture, readout "
    "mode, express, offset and window, as long as trapped charge is not carried from line to line.",
    ["inputs", "configurations"],
    "random images and random replacements of all pixels from a given row and column on, for all "
    "supported configurations with release away from the readout",
    "Tests look at fixed images; causality relates two runs and has to hold for every pair of "
    "images and every place of change.",
    [CLOCK, ("ordering of the row loop and of the pixels accessed during clocking", CORE), SAVE],
    "PBT: metamorphic relation between two runs that differ behind a cut",
    "Metamorphic; compares the implementation with itself under a change of input.",
)
prop(
    "C04",
    "Columns are independent, unless they are said to share their traps",
    "With traps emptied between columns, each column of the output depends only on the same column "
    "of the input: permuting, repeating, selecting or windowing columns does the same to the "
    "output. With traps not emptied, the columns behave exactly as one long readout in which every "
    "column starts with the traps left by the previous one. The same holds for the rows in serial clocking.",
    ["inputs", "configurations"],
    "random images, orders and selections of columns, column windows, all readout modes",
    "Leaks of trap state between columns need several columns of particular contents; tests mostly use one column.",
    [CLOCK, ("AllTrapManager.empty_all_traps / save / restore", MANAGERS), ("serial_window_range handling", MAIN)],
    "PBT: metamorphic (permutation, selection) and reference model for shared traps",
    "Metamorphic relations plus an independent model for the shared case.",
)
prop(
    "C05",
    "Serial clocking is parallel clocking of the transposed image, and comes second",
    "Serial clocking of an image with some settings gives the transpose of parallel clocking of the "
    "transposed image with the same settings, windows included, for adding as well as removing CTI. "
    "When both directions are given, the result is that of the parallel readout followed by the "
    "serial readout of its output.",
    ["inputs", "configurations"],
    "random non-square images, independent settings for both directions, windows along both axes",
    "Tests check the symmetry for one square configuration; swapped windows, axes or arguments show only for asymmetric cases.",
    [ADD, ("transposition and serial settings in add_cti", MAIN), REMOVE],
    "PBT: metamorphic relation (transposition, composition)",
    "Metamorphic; both sides are computed with the implementation.",
)
prop(
    "C06",
    "No call changes what it was given, or what any later call returns",
    "Adding or removing CTI never modifies the input image, traps, wells or readout settings, and "
    "returns memory of its own. Any sequence of calls that share such objects, with any mix of "
    "windows, express, readout modes and default arguments, one after another or in several threads at the same time, "
    "returns for each call what it would return with freshly made objects, and modifying the settings of one object "
    "(also its lists, in place) changes no other.",
    ["histories", "configurations", "schedules"],
    "histories of 2 to 7 calls (add, remove, plans, queries of objects), or up to 21 calls in as many threads, over a shared pool of images, wells, "
    "readout modes and traps, one or both directions",
    "Each test makes new objects for a single call; state that leaks into a later call needs a sequence of different calls on shared objects.",
    [ADD, REMOVE, ("mutable default arguments and caches in ROE, CCD and trap objects", ROE)],
    "PBT: model-based histories against fresh objects",
    "Differential between shared and fresh objects, plus deep comparison of all arguments before and after.",
)
prop(
    "C07",
    "Windows in space: the same result inside, and nothing touched elsewhere",
    "A parallel or serial window range never changes a pixel outside of it (except for charge that "
    "the clock sequence itself releases in the neighbouring row). Rows inside a window that starts "
    "at the readout are as without any window, a window that covers everything changes nothing, and a window further away "
    "gives the same as a readout of an image whose pixels before the window are empty of traps, "
    "i.e. of the cut-out image with the distance to the readout as offset.",
    ["inputs", "configurations"],
    "random images, row and column windows given as ranges for either direction, all readout modes",
    "Tests use two windows; off-by-one and row/column mix-ups depend on the position and size of the window.",
    [ADD, CLOCK, PLAN],
    "PBT: metamorphic relations between windowed, cut-out and whole images",
    "Metamorphic, with exact equality outside of the window.",
)
prop(
    "C08",
    "A readout can be divided in time",
    "The computed transfers of consecutive time windows add up to those of the whole readout, with "
    "no transfer missing or counted twice, for every express, offset and readout mode. Processing "
    "the time windows one after the other (without express approximation and with traps emptied for first transfers and between columns) "
    "gives the same image as the whole readout at once, and a window over the whole time changes nothing.",
    ["inputs", "configurations", "histories"],
    "random divisions of the readout into up to four windows for plans of up to 14 rows and offsets, and images clocked window by window",
    "Tests check a few stored matrices; the sums must be right for every cut, express and offset.",
    [WINDOW, PLAN, ("time_window_range in add_cti", MAIN)],
    "PBT: additivity of plans, metamorphic (successive windows), independent reference model",
    "Additivity is checked exactly; images against the reference model to 1e-7.",
)
prop(
    "C09",
    "An offset is the same as blank pixels between the image and the readout",
    "Adding CTI with an offset of n pixels gives the same image as adding n empty rows (or columns, "
    "for serial) in front of it and cutting them off afterwards; any part of the offset can be given in "
    "either way. This holds for every clock sequence, standard readout and charge injection, express (unless only one of the two is fully resolved), "
    "window and both directions, where traps are emptied for first transfers and between columns.",
    ["inputs", "configurations"],
    "random images, offsets up to 6 split in all ways, prescan in both directions, windows in space and time",
    "Tests use one offset with stored numbers; it must hold for every offset, window and express together.",
    [PLAN, ADD, ("front padding of the image", MAIN)],
    "PBT: metamorphic relation (offset against padding)",
    "Metamorphic; both sides are computed with the implementation.",
)
prop(
    "C10",
    "Express: fewer computed transfers always stand for all of the real ones",
    "For every number of rows, window, express, offset and readout mode, the multipliers of the "
    "computed transfers of each pixel are non-negative and add up to exactly its real number of "
    "transfers, no more transfers than requested are computed, and trap states are stored just where "
    "the next computed transfer resumes. An express of at least the number of transfers gives the "
    "same image as no express (express 0), and the image with any express is that of the documented algorithm.",
    ["inputs", "configurations"],
    "plans of up to 30 rows with express up to 33, offsets up to 500, integer or floating point multipliers, for the three readout modes; images against an independent model",
    "Tests check stored matrices for a few sizes; rounding and clipping depend on every combination of rows, express and offset.",
    [PLAN, SAVE, ("ROEChargeInjection / ROETrapPumping plans", ROE), CLOCK],
    "PBT: invariants of the plan, metamorphic (express n against 0), independent reference model",
    "Plans are checked against stated invariants; images against a reference model to 1e-7.",
)
prop(
    "C11",
    "Correction: iterated forward modelling that recovers the original image",
    "Removing CTI with n iterations gives the image obtained by starting from the observed one and adding, n times, "
    "the difference between the observed image and the forward model of the current estimate. For weak CTI each iteration brings the estimate "
    "closer to the true image, so it converges to it, and re-adding CTI to the result reproduces the observation. "
    "How the numbers of the image are stored (integers, single precision, any memory layout) does not matter.",
    ["inputs", "configurations"],
    "random images (with sky background for the convergence part) and settings in one or both directions, 0 to 4 iterations for the law, up to convergence for the rest",
    "Tests remove CTI from one image with loose bounds; the fixed point and each step's gain must hold for all.",
    [REMOVE, ADD],
    "PBT: round trip, convergence and iteration law",
    "The law uses the implementation's own forward model; the round trip is absolute.",
)
prop(
    "C12",
    "Results do not depend on the units of charge and time",
    "If the image, well depths, notches and trap densities are all given in another unit of charge, "
    "the output is the same in that unit; if dwell times, release and capture times are all given in "
    "another unit of time, the output does not change. This holds for adding and removing CTI, trap pumping and every kind of trap.",
    ["inputs", "configurations"],
    "random cases from the whole configuration space and factors from 1e-3 to 1e4 for charge and time, together or apart",
    "Tests use one system of units throughout; hidden absolute constants show only when everything is rescaled.",
    [("absolute tolerances in watermark handling", TMU), CLOCK, SLOW, ("fill_probabilities_from_dwell_time", MANAGERS)],
    "PBT: metamorphic relation (rescaling)",
    "Relative tolerance 1e-7 (1e-4 with continuum traps).",
)
prop(
    "C13",
    "Trap species act as populations: only how many there are of each kind matters",
    "The order of the species in a group, and of the groups, makes no difference, nor does dividing a "
    "species in several with the same total density, or adding species of zero density. Without traps the "
    "image is returned unchanged, and for traps so rare that they do not affect each other, the effects of several species add up.",
    ["inputs", "configurations"],
    "random permutations, splittings and additions of species and groups, for the whole configuration space",
    "Tests have one or two fixed mixtures; index mix-ups between species appear only for permuted, split or nested lists.",
    [ALL, CAPTURE, SLOW, ("grouping of traps by kind", MANAGERS)],
    "PBT: metamorphic relations (permutation, splitting, zero density, superposition)",
    "Group-order relations are limited to cases where charge is plentiful (groups share the available charge).",
)
prop(
    "C14",
    "The different descriptions of traps agree wherever they describe the same thing",
    "Following the time since traps were filled gives the same charge as following their fill fractions; "
    "a distribution of lifetimes tends to a single one as its width tends to zero; slow capture tends to "
    "instant capture as its timescale tends to zero, and to no capture at all as it becomes infinite; and clock phases "
    "without any traps do not matter.",
    ["inputs", "histories", "configurations"],
    "random histories of clouds (size, dwell time) for one pixel, and whole images, with one to three species",
    "Tests compare two implementations on one sequence; the algorithms differ in special cases (partial levels, not enough charge, equal levels).",
    [TRACK, RELEASE, CAPTURE, SLOW, ("TrapLogNormalLifetimeContinuum", TRAPS)],
    "PBT: differential between alternative implementations of the same physics",
    "Limits are compared with tolerances that follow from the distance to the limit.",
)
prop(
    "C15",
    "How charge fills a pixel: the well-filling law of each phase",
    "In every phase, n electrons fill the fraction ((n - notch) / (full well - notch))^power of the pixel, "
    "clipped to between 0 and 1, using that phase's own settings, whether these were given as single values or lists and at construction or later. "
    "The traps that can be reached by a cloud are in proportion to that fraction.",
    ["inputs", "configurations", "histories"],
    "random wells of 1 to 5 phases with any notch below the full well, updates of the settings in any order, clouds from zero to far above full well",
    "Tests evaluate a few numbers of electrons in a single or two identical phases.",
    [("CCD.well_filling_function", CCD), ("CCD.cloud_fractional_volume_from_n_electrons_and_phase", CCD), ("TrapManager.fraction_of_traps_exposed_from_n_electrons", MANAGERS)],
    "PBT: differential against the closed formula",
    "Closed formula as oracle, 1e-9.",
)
prop(
    "C16",
    "Clock sequences move charge as described, for any number of phases",
    "For any number of phases and each readout mode, exactly one phase holds the charge at each step, it "
    "moves by one phase per step, each phase captures from and releases to the pixel its traps are "
    "nearest to (or always away from the readout, if so chosen), and the dwell times are those given. The image that results follows from that sequence.",
    ["configurations", "inputs"],
    "1 to 12 phases, standard, charge injection and trap pumping, both release rules; images of up to 4 phases against an independent model",
    "Tests check the sequence for 1 to 3 phases.",
    [SEQUENCE, ("ROEAbstract._generate_pixels_accessed_during_clocking", ROE), CLOCK],
    "PBT: differential against an independent description of the clocking",
    "Independent description of the clocking as oracle.",
)
prop(
    "C17",
    "Trap species obey their documented kinetics",
    "The fraction of filled traps decays exponentially with the release time, time and fill fraction are inverse to each other, and "
    "the charge released in a time is the loss of filled traps in it; release never exceeds what is held and adds up over consecutive times. For continua these follow from the "
    "integral over the log-normal distribution, and with slow capture the fill and empty probabilities solve the rate equations; the predicted change of the ellipticity of a galaxy follows the published fit and adds up over species.",
    ["inputs"],
    "random lifetimes, capture times, widths, elapsed times and fill fractions over many orders of magnitude, any number of species",
    "Tests evaluate a few values of each function.",
    [("Trap.fill_fraction_from_time_elapsed / time_elapsed_from_fill_fraction", TRAPS), ("TrapLifetimeContinuumAbstract", TRAPS), ("TrapManager.fill_probabilities_from_dwell_time", MANAGERS), ("Trap.delta_ellipticity", TRAPS)],
    "PBT: differential against closed formulas and fixed-grid quadrature, inverses",
    "Closed formulas to 1e-9, continua to quadrature accuracy.",
)
prop(
    "C18",
    "Traps in a pixel: book-keeping over any history of charge clouds",
    "Over any history of charge clouds and dwell times, the charge held in the traps changes by just what is taken from or given to the "
    "cloud, always lies between zero and the number of traps, and nothing is captured that is not there. The record of trap occupancy stays "
    "consistent (levels within the pixel, fill fractions between 0 and 1, lower levels at least as full), follows an independent description of "
    "the traps, and emptying, saving and restoring it give back just those states, however often.",
    ["histories"],
    "histories of up to 20 clouds (empty, small, growing, shrinking, equal) for instant, slow, time-following and continuum traps with 1 to 3 species, and random sequences of operations on all traps of a pixel (saves, restores, emptying) with several groups and phases",
    "Tests start from hand-made states and make one or two steps; the special cases depend on the history that led to them.",
    [RELEASE, CAPTURE, SLOW, ALL, ("collapse_redundant_watermarks", MANAGERS), ("cython watermark helpers", TMU)],
    "PBT: stateful histories against an independent occupancy model, with invariants at each step",
    "Independent model of trap occupancy, 1e-7.",
)
prop(
    "C19",
    "Adding CTI computes the documented model",
    "For any supported settings, the image returned is that of the documented model (clocking, release, capture in the "
    "volume filled by the cloud, express multipliers, offset, windows, trap state kept or emptied), as computed by an independent plain "
    "implementation of it.",
    ["inputs", "configurations"],
    "the whole configuration space: images of up to 9 rows, 1 to 4 phases, several groups and species, all readout modes, windows, express, offset, one or both directions",
    "Tests compare with stored output of the same code for a few configurations.",
    [ADD, CLOCK, PLAN, SAVE, SEQUENCE, RELEASE, CAPTURE, SLOW],
    "PBT: differential against an independent reference implementation",
    "Reference implementation in pbt/ref.py written for this check, compared to 1e-7 of the brightest pixel.",
)
prop(
    "C20",
    "Charge injection: every pixel takes the same number of transfers",
    "In charge-injection readout every row passes through the given number of pixels (by default all the rows of the image and the offset), whichever its "
    "position, at its traps' state left by the rows before it. Hence the result does not depend on the position of the rows in the image when "
    "a readout is extended, can be divided in time, and the default number is the same as the explicit one.",
    ["inputs", "configurations"],
    "random images, numbers of transfers up to the rows of the image plus offset (more only with an explicit time window), windows, express, release rules",
    "Tests check three stored matrices and two images.",
    [("ROEChargeInjection", ROE), ("time window of charge injection", MAIN), CLOCK],
    "PBT: reference model and metamorphic relations",
    "Known finding: more transfers than rows + offset without a time window are silently cut (see known_findings.json).",
)
prop(
    "C21",
    "Trap pumping: charge goes back and forth, and ends up next to the traps",
    "Pumping changes only the pixel with the traps and its neighbours, by exactly opposite amounts of charge apart from what is left in the traps, "
    "so that the total is conserved; pumping cycles computed with express stand for all of them. Trap phases on opposite sides give dipoles of opposite direction, and "
    "the image agrees with an independent model of pumping.",
    ["inputs", "configurations"],
    "random images, positions of the traps including the first and last rows, up to tens of pumps, express, numbers of phases, trap mixtures",
    "Tests pump one flat image with a trap in the middle.",
    [("ROETrapPumping", ROE), SEQUENCE, CLOCK],
    "PBT: conservation and locality invariants, reference model",
    "Single-pixel trap windows only (several at once are unfinished in the code).",
)
prop(
    "C22",
    "The preset model of HST ACS follows its published calibration",
    "For any date, the preset returns the documented readout, well and three instant-capture species, with the total density growing with time as the published "
    "fits before and after the 2009 repair, fixed relative densities, and release times for the temperature in use at that date (changed in July 2006). "
    "It is ready for use with images, for which a later date of the same era does more harm.",
    ["inputs"],
    "dates from launch to 2060, including the days around each change of era, and images clocked with the preset",
    "Tests use one date in each era, if any.",
    [("model_for_HST_ACS", MAIN)],
    "PBT: differential against the calibration formulas",
    "Oracle transcribed from the documented calibration.",
)
prop(
    "C23",
    "Poisson realisations of the traps in each column",
    "Drawing Poisson numbers of traps gives for each column the same species with only the density changed, a non-negative whole number of traps per column of pixels, reproducible "
    "for a seed and different for others. Over many columns, the numbers have the mean and variance of the given density times the number of rows; the originals are unchanged, and the results can be used to add CTI.",
    ["inputs"],
    "random species of all kinds (zero density included), shapes, seeds; 4000 columns for the statistics",
    "Tests check the result for one seed.",
    [("Trap.poisson_trap", TRAPS)],
    "PBT: invariants, reproducibility and statistical bounds (6 sigma, fixed seeds)",
    "Statistical bounds are wide enough never to fail by chance over the seeds used.",
)
prop(
    "C24",
    "Frames (images with their metadata) go in and come out as frames",
    "Adding or removing CTI from a frame gives a frame of the same kind, with the same metadata (mask, pixel scale, exposure, readout corner, scans), and the same pixel "
    "values as for the plain array; the frame given is not changed.",
    ["inputs", "configurations"],
    "random frames of both supported kinds with masks, the four readout corners, overscans, and every supported configuration",
    "Tests pass plain arrays only or a single frame.",
    [("frame handling in add_cti and remove_cti", MAIN)],
    "PBT: differential against plain arrays, metadata invariants",
    "Uses the stand-in / installed autoarray that the repository's environment provides.",
)
prop(
    "C25",
    "More damage does more harm to a lone source",
    "For a single source on an empty background, more traps, an additional species, a smaller full well, faster capture, a longer dwell time (in a single-phase device), or (without express approximation) a larger distance to the readout "
    "never leave more charge in its pixel, and (for a well-filling power up to 1) a brighter source never leaves less, in devices of a single phase, or of several phases with every transfer computed, where traps start empty.",
    ["inputs", "configurations"],
    "random sources, positions, standard and charge-injection readouts, 1 to 4 phases, trap mixtures of one group and increments",
    "Tests check monotonic behaviour in one or two examples.",
    [CAPTURE, SLOW, CLOCK, ("CCD.well_filling_function", CCD)],
    "PBT: metamorphic monotonicity",
    "Restricted to where the model is monotonic: released charge can come back in a later phase if it dwells longer, and an express multiplier can exaggerate that.",
)
prop(
    "C26",
    "Settings: changed later or given at first is the same; wrong ones are refused",
    "Setting the properties of traps, wells, readout and trap managers after construction (also a different number of clock steps or phases, or another release rule) gives the same results as constructing them with those values. Contradictory settings (lists whose length "
    "does not match the number of phases, densities for another number of species, an odd number of steps for pumping, number types for express other than integer and floating point) are refused with an error and leave what was set before.",
    ["histories", "configurations", "inputs"],
    "random settings before and after (trap times and densities, wells, all three readout modes, other numbers of phases), set in any order, used in between or not; random contradictory settings",
    "Tests set each value once.",
    [("CCD setters", CCD), ("ROE setters", ROE), ("TrapManager.n_traps_per_pixel", MANAGERS), ADD],
    "PBT: differential between construction and later changes; rejection of invalid input",
    "Only the documented setters are changed after construction.",
)
prop(
    "C27",
    "No access outside the memory of the image and of the trap states",
    "No supported configuration or history, whatever the windows, offsets, release rule, number of phases or edge positions, makes the compiled clocking code read or write outside the arrays it works on.",
    ["inputs", "configurations", "histories"],
    "the whole configuration space, trap pumping at the edges of the image, and long histories of clouds with little room for trap states",
    "The compiled code runs without bounds checks, so a test only notices if the corrupted memory happens to matter.",
    [CLOCK, ("cython watermark helpers", TMU), ("padding of the image", MAIN), ("TrapManager.extend_watermarks_if_nearly_full", MANAGERS)],
    "PBT / fuzzing under AddressSanitizer and array bounds checks",
    "Extensions rebuilt with AddressSanitizer and with cython's bounds checks switched on: indices outside of arrays, and (for raw pointers) accesses outside of allocations.",
)


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            files = []
            for _, where in p["mechanism"]:
                if where not in files:
                    files.append(where)
            anchors = {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
            }
            if p["observe"]:
                anchors["observe_at"] = p["observe"]
            f.write(json.dumps({
                "id": p["id"],
                "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": anchors,
            }) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": "bash run.sh " + p["id"],
                "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": p["oracle"],
                "level": "exploration",
                "level_note": p["note"],
            }
            for p in P
        ],
        "not_applicable": [],
        "notes": "No hooks in /repo. Each check builds the compiled extensions from /repo's "
        "working tree in /verif/.build (cached by a hash of the sources) and imports the .py "
        "files from /repo itself. See DESIGN.md.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
