"""Writes properties.jsonl and MANIFEST.json (run by hand when a property changes)

Claimed are the properties with a module in rv/checks.
"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/coinflip/"
RT = SRC + "_randtests/"
CORE = (RT + "common/core.py", "randtest")

GENERIC_TESTS = (
    "The suite checks the worked examples of the NIST paper (one or two sequences for each test) and compares a few random "
    "sequences to a reference implementation of the same authorship; "
)

PROPS = []


def prop(pid, title, statement, over, quantifier, why, files, mechanism, technique, note, level="exploration", state=None, observe=None):
    PROPS.append(dict(pid=pid, title=title, statement=statement, over=over, quantifier=quantifier, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=note, level=level, state=state, observe=observe))


MODEL = "runtime monitor at the public API; online oracle: independent model of NIST SP 800-22"
MODEL_NOTE = (
    "Every observed outcome is compared in full (statistic, p-value, intermediate quantities, refusal) with a model written from "
    "the paper; exhaustive over short sequences, sampled beyond. Trusts the model, SciPy's special functions and float tolerances."
)

prop("P01", "Frequency tests compute the NIST statistics",
     "For every binary sequence and every admissible block size, the monobit test and the frequency within block test give the "
     "statistic, p-value and intermediate quantities (counts, block size, number of blocks, proportions) which NIST SP 800-22 defines. "
     "The default block size is the one which the documented choice by length yields, and an incomplete last block is not counted. "
     "The value counted as a hit is the larger of the two.",
     ["inputs", "configurations"], "all binary sequences, all block sizes which leave a complete block",
     GENERIC_TESTS + "lengths around the branches of the default parameters, partial blocks and extreme sequences are not reached.",
     [RT + "frequency.py", RT + "common/testutils.py"],
     [("monobit and frequency_within_block", RT + "frequency.py"), ("blocks", RT + "common/testutils.py"), ("randtest decorator", RT + "common/core.py")],
     MODEL, MODEL_NOTE)
prop("P02", "Runs tests compute the NIST statistics",
     "For every binary sequence, the runs test and the longest runs test give the number of runs, the tally of longest runs of the "
     "larger value by class, the statistic and the p-value which NIST SP 800-22 defines for that length. The longest runs test refuses "
     "sequences shorter than 128 values as not implemented.",
     ["inputs"], "all binary sequences, with all placements of runs in, across and behind blocks",
     GENERIC_TESTS + "runs at block borders, absent runs and the lengths where the table of parameters changes are not reached.",
     [RT + "runs.py", RT + "common/collections.py"],
     [("runs, longest_runs, asruns", RT + "runs.py"), ("FloorDict and Bins", RT + "common/collections.py")],
     MODEL, MODEL_NOTE)
prop("P03", "Matrix rank test and rank over GF(2) are exact",
     "The rank function gives the rank over the field of two elements of every binary matrix, whichever container or integer type holds it. "
     "The binary matrix rank test counts full-rank, one-deficient and remaining matrices of every binary sequence and gives the statistic "
     "and p-value which NIST SP 800-22 defines, with the requested dimensions or the default ones for the length.",
     ["inputs", "configurations"], "all binary matrices; all binary sequences; all dimensions which leave a complete matrix",
     GENERIC_TESTS + "a handful of small matrices is ranked, none wider than a machine word.",
     [RT + "matrix.py"], [("matrix_rank, bits2int, binary_matrix_rank", RT + "matrix.py")],
     MODEL + " and Gaussian elimination", MODEL_NOTE)
prop("P04", "Spectral test computes the NIST statistics",
     "For every binary sequence, the spectral test counts the peaks of its discrete Fourier spectrum below the 95% threshold and gives "
     "the expected and actual count, the normalised difference and the p-value which NIST SP 800-22 defines; for odd lengths the last "
     "value is left out, and the sequence is refused when it thereby becomes constant.",
     ["inputs"], "all binary sequences, periodic ones and odd lengths in particular",
     GENERIC_TESTS + "odd lengths and peaks near the threshold are not reached.",
     [RT + "fourier.py"], [("spectral", RT + "fourier.py")], MODEL,
     MODEL_NOTE + " Peaks within 1e-7 of the threshold may count either way.")
prop("P05", "Template matching tests compute the NIST statistics",
     "For every binary sequence, template size and block size, the non-overlapping test counts for every template the matches in each "
     "block, skipping past a match and shifting by one otherwise, and the overlapping test tallies the blocks by overlapping matches "
     "of the all-hits template. Both give the statistics and p-values which NIST SP 800-22 defines.",
     ["inputs", "configurations"], "all binary sequences, template sizes, block sizes and tally limits",
     GENERIC_TESTS + "matches at odd offsets, templates overlapping themselves and matches at block borders are hardly reached.",
     [RT + "template.py"], [("non_overlapping_template_matching, overlapping_template_matching", RT + "template.py"), ("slider and rawblocks", RT + "common/testutils.py")],
     MODEL, MODEL_NOTE)
prop("P06", "Maurer's universal test computes the NIST statistics",
     "For every binary sequence and every block size up to 16 and number of initial blocks, Maurer's universal test sums the base-2 logarithms of "
     "the distances between repeated blocks after the initial segment, and gives the statistic and p-value from the tabulated mean and variance; "
     "each parameter which is given is respected and each one omitted is the default for the length.",
     ["inputs", "configurations"], "all binary sequences, block sizes and numbers of initial blocks, each given or omitted",
     GENERIC_TESTS + "one example is checked; unseen patterns, single parameters and the lengths where the defaults change are not reached.",
     [RT + "universal.py"], [("maurers_universal", RT + "universal.py")], MODEL, MODEL_NOTE)
prop("P07", "Linear complexity is that of the shortest LFSR, and the test is NIST's",
     "The Berlekamp-Massey function gives the length of the shortest linear feedback shift register of every non-empty bit string. The linear complexity test "
     "tallies the deviations of every complete block into the seven classes of NIST SP 800-22 and gives the statistic and p-value it defines, for odd and even block sizes.",
     ["inputs", "configurations"], "all bit strings; all binary sequences and block sizes",
     GENERIC_TESTS + "two short strings have their complexity checked, and only one block size occurs.",
     [RT + "complexity.py"], [("linear_complexity, berlekamp_massey", RT + "complexity.py")],
     MODEL + "; shortest recurrence by definition and by an independent algorithm", MODEL_NOTE)
prop("P08", "Serial and approximate entropy tests compute the NIST statistics",
     "For every binary sequence and pattern size up to its length and 1000 (from which 2^m soon leaves the range of floating-point numbers), the serial test and the approximate entropy test count all overlapping patterns of the cyclically extended "
     "sequence, and give the statistics and p-values which NIST SP 800-22 defines; no p-value is undefined, also when few patterns occur.",
     ["inputs", "configurations"], "all binary sequences and pattern sizes",
     GENERIC_TESTS + "missing patterns, sizes of 1 and 2 and the wrap-around are hardly reached.",
     [RT + "serial.py", RT + "entropy.py"], [("serial", RT + "serial.py"), ("approximate_entropy", RT + "entropy.py")], MODEL, MODEL_NOTE)
prop("P09", "Cumulative sums test computes the NIST statistics",
     "For every binary sequence and either direction, the cumulative sums test finds the largest excursion of the random walk (from the "
     "start, or from the end when reversed) and gives it with the p-value which NIST SP 800-22 defines, never outside 0 to 1.",
     ["inputs", "configurations"], "all binary sequences, both directions",
     GENERIC_TESTS + "one example per direction is checked.",
     [RT + "random_walk.py"], [("cusum", RT + "random_walk.py")], MODEL, MODEL_NOTE)
prop("P10", "Random excursions tests compute the NIST statistics",
     "For every binary sequence, the random excursions test counts the visits to the eight states around zero in each cycle of the random walk, and the variant test "
     "the total visits to the eighteen states, and both give for every state, in ascending order, the statistic and p-value which NIST SP 800-22 defines.",
     ["inputs"], "all binary sequences, walks with any number of cycles and any reach",
     GENERIC_TESTS + "walks which never return, end at zero or reach far states are not reached.",
     [RT + "random_walk.py"], [("random_excursions, random_excursions_variant, ascycles", RT + "random_walk.py")], MODEL, MODEL_NOTE)
prop("P11", "Results do not depend on how a sequence is represented",
     "Whichever two ordered values stand for the bits (numbers, booleans, strings, dates, mixed types) and whichever container holds them (lists, tuples, iterators, arrays of any "
     "type, series with any index, categoricals), all tests give the same outcome as for the ones and zeroes in a list, the larger value standing for the one.",
     ["inputs"], "all pairs of values, containers, sequences and tests",
     "Tests use lists and series of ones and zeroes with the default index.",
     [RT + "common/core.py", RT + "common/testutils.py", RT + "random_walk.py", RT + "frequency.py"],
     [("randtest, infer_faces", RT + "common/core.py"), ("blocks, rawblocks, slider", RT + "common/testutils.py")],
     "runtime monitor; metamorphic oracle over representations, plus the NIST model",
     "Differential over the listed pairs of values and containers for all tests; sequences are sampled.")
prop("P12", "Sequences which cannot be tested are refused",
     "Every test refuses a sequence which does not consist of exactly two distinct values, missing values included, as non-binary, and one shorter than the test's minimum as too short, naming both lengths; "
     "it gives no result and only raises the errors documented for that.",
     ["inputs"], "all sequences of one, three or more values, with missing values anywhere, or too short; all tests, values and containers",
     "Tests refuse one sequence of three integers.",
     [RT + "common/core.py", RT + "common/exceptions.py"], [("randtest", RT + "common/core.py"), ("exceptions", RT + "common/exceptions.py")],
     "runtime monitor over hostile inputs; refusal oracle", "Exhaustive over lengths below each minimum, seeded beyond that.")
prop("P13", "Every sufficiently long binary sequence gets a valid p-value",
     "Every test completes on every binary sequence of at least its minimum length, and either gives a result whose p-values are all numbers from 0 to 1 and whose statistics are numbers, or states that "
     "the test is not implemented for it; it never crashes, hangs or gives undefined values.",
     ["inputs", "configurations"], "all binary sequences and all tests, with default and explicit parameters",
     "Tests stop at random sequences, for which undefined values do not come up.",
     [RT + x for x in ("frequency.py", "runs.py", "matrix.py", "fourier.py", "template.py", "universal.py", "complexity.py", "serial.py", "entropy.py", "random_walk.py")],
     [("the fifteen tests", RT), ("randtest", RT + "common/core.py")],
     "runtime monitor with validity assertions under extreme workloads and CPU-time limits",
     "Exhaustive to 10 bits (14 thorough), extreme families at every length to 260 (600), selected lengths to a million.")
prop("P14", "Tests are pure: no history, schedule or aliasing affects a result",
     "The outcome of a test depends on the values of its sequence and on its parameters alone, not on earlier calls (interrupted ones included), concurrent calls or a progress display. "
     "A test never modifies the sequence it is given or process-wide settings (such as NumPy's, pandas' or the warnings filters), and a result never changes once it is given, even when the sequence is later overwritten.",
     ["histories", "schedules", "inputs"], "all histories and interleavings of calls",
     "Each test runs on its own sequence once, in one thread.",
     [RT + "common/core.py", RT + "template.py", RT + "universal.py", RT + "common/collections.py"],
     [("randtest, infer_faces", RT + "common/core.py"), ("module-level tables of parameters", RT + "runs.py")],
     "runtime monitor of call histories; offline comparison with isolated executions, forced thread switches",
     "Bit-exact comparison over seeded histories, threads with a 10 us switch interval and tampered results and inputs.")
prop("P15", "Unmet NIST recommendations are reported exactly",
     "A result lists exactly those of the test's recommendations on lengths and parameters which the call does not meet, and a warning naming them is given when there are any; calls which meet them all list nothing and give no warning.",
     ["inputs", "configurations"], "all lengths and parameters, both sides of each limit",
     "No test looks at recommendations beyond their type.",
     [RT + "common/core.py"] + [RT + x for x in ("frequency.py", "runs.py", "matrix.py", "template.py", "universal.py", "complexity.py", "serial.py", "entropy.py", "random_walk.py", "fourier.py")],
     [("check_recommendations", RT + "common/core.py")],
     "runtime monitor; oracle table of recommendations, boundary workloads", "Both sides of every limit, then seeded lengths and parameters.")
prop("P16", "The reference implementation agrees with the tests",
     "For every list of ones and zeroes and all parameters, each test of the reference implementation gives the statistics and p-values which NIST SP 800-22 defines and which the corresponding main test gives.",
     ["inputs", "configurations"], "all binary sequences and parameters",
     "The suite's comparison uses a few random sequences of a few lengths with loose tolerances.",
     [SRC + "randtests_refimpl.py"], [("the fifteen reference tests", SRC + "randtests_refimpl.py")],
     "runtime monitor; differential oracle against the main tests and the NIST model", MODEL_NOTE)
prop("P17", "Bins and floor mappings keep their contract in every history",
     "Over every history of operations (copying and pickling included), bins map each number to the nearest of their intervals (the upper one for ties), keep one count for each interval in order, and merge a deleted interval's count away only by removing that interval; a floor mapping gives the value of the largest key which is "
     "not above the one asked for, and raises KeyError below the smallest.",
     ["histories", "inputs"], "all sets of intervals or keys, all histories of operations",
     "Tests count a few integers in a few bins.",
     [RT + "common/collections.py"], [("Bins, FloorDict", RT + "common/collections.py")],
     "runtime monitor; stateful model in lock-step", "All small sets of intervals exhaustively, seeded histories of 40 operations.")
prop("P18", "The default list keeps list semantics in every history",
     "Over every history of reads, writes, insertions, deletions, slices and copies, the default list equals a list which is extended by its default wherever an element beyond its end is read or written; negative indices, slices of any step and the sequence methods follow those of lists.",
     ["histories", "inputs"], "all histories of operations and all kinds of slices",
     "A state machine test covers part of the operations, without slice assignment and deletion, steps or negative insertion.",
     [RT + "common/collections.py"], [("defaultlist", RT + "common/collections.py")],
     "runtime monitor; stateful model in lock-step", "All pairs of slices and lengths in a small range exhaustively, seeded histories of 50 operations.")
prop("P19", "Generators give the bits they promise",
     "The Mersenne generator gives, for every seed, the leading-half indicator (0 below one half, else 1) of the sequence seed * 16807^i mod 2^31-1, and the Python generator gives endless zeroes and ones as integers, without bias or dependence between instances and "
     "without reading or changing the global random state. Generators iterate endlessly, independently of each other, and the example run shows exactly the first bits its generator gives.",
     ["inputs", "histories", "configurations"], "all seeds, interleavings of instances and lengths",
     "Tests only use the generators as a source of data.",
     [SRC + "generators.py", SRC + "cli/commands.py"], [("Python, Mersenne", SRC + "generators.py"), ("example_run", SRC + "cli/commands.py")],
     "runtime monitor; model of the generator, statistical oracle at 6 sigma", "Seeds and interleavings are sampled; the statistical check has a false alarm rate below 1e-8.")
prop("P20", "Data files are read exactly",
     "A text file with one value per line and two distinct values, and a binary file with bits of both kinds, is read as exactly its values in order, most significant bit first, whatever the kind of values (integers of any size, decimals, booleans, strings), line ends, quotes and size of the file; distinct values are never merged, "
     "equal ones never told apart.",
     ["inputs"], "all files of one column and two values; all binary files",
     "Tests read one or two small files of ones and zeroes.",
     [SRC + "cli/parsing.py"], [("parse_text, parse_binary", SRC + "cli/parsing.py")],
     "runtime monitor of parsers and CLI; model of the file format", "Seeded files of 20 kinds of values in all dialects; all two-byte binary files.",
     )
prop("P21", "Running, storing, reading and reporting agree with the tests",
     "Running the tests on data from the command line shows, in order and as they come, an outcome for each of the fifteen tests which is that of the test alone, failures of single tests included, then a summary of verdicts at the 0.01 level, and stores the sequence and every successful "
     "result. Reading the results back shows the same, and the report contains the stored values, escaped.",
     ["inputs", "histories"], "all data, kinds of values and names of output files",
     "Tests run the commands for their exit code only.",
     [SRC + "cli/commands.py", SRC + "cli/runner.py", SRC + "cli/report.py"],
     [("run, read, report", SRC + "cli/commands.py"), ("run_all_tests, print_results", SRC + "cli/runner.py"), ("store_results, load_results, write_report_doc", SRC + "cli/report.py")],
     "runtime monitor of CLI processes; offline checker of output, result file and report against the NIST model", "Data is sampled, each run judged on all fifteen tests.")
prop("P22", "Bad input makes commands fail without side effects",
     "Given data which is not one column of exactly two values, a file which does not exist or holds no results, or invalid options, each command exits with a non-zero status and neither creates nor modifies any file; given valid ones it exits with zero. The parsers refuse data of several columns, or of other than two values, with the errors documented for that.",
     ["inputs"], "all malformed data, result files and options",
     "Tests give valid input only.",
     [SRC + "cli/commands.py", SRC + "cli/parsing.py", SRC + "cli/report.py"],
     [("commands", SRC + "cli/commands.py"), ("parse_text, parse_binary", SRC + "cli/parsing.py"), ("load_results", SRC + "cli/report.py")],
     "runtime monitor of CLI processes over hostile inputs; file system comparison before and after", "Seeded malformed data of 25 kinds.")
prop("P23", "Commands which cannot store their output do not claim success",
     "Whenever writing the results or the report fails at any point (disk full, size limit, missing or unwritable directory), the command exits with a non-zero status; whenever it exits with zero, the file is complete and can be read. "
     "A truncated results file is never read as results.",
     ["fault_sequences", "crash_points"], "all points at which writing can fail, all truncations of a results file",
     "No test makes writing fail.",
     [SRC + "cli/report.py", SRC + "cli/commands.py"], [("store_results, load_results, write_report_doc", SRC + "cli/report.py")],
     "runtime monitor with injected storage faults (file size limits, full device, permissions); checker of exit code against file",
     "Size limits and truncations are enumerated over the small file densely and over larger ones at a stride.", level="fault_enumeration")
prop("P24", "The console shows the sequence and results faithfully",
     "The printed sequence consists of one character per value, whatever the width of the terminal, from which the sequence can be reconstructed but for rows stated as omitted, whose number is right; the two characters always differ. The printed results show the fields of each result as they are, rounded, under their names (statistic, p-value, headings of tables and lists), and never fail.",
     ["inputs", "configurations"], "all sequences, kinds of values, terminal widths and results",
     "Tests check that printing does not raise for one result each.",
     [SRC + "cli/pprint.py", RT + "common/pprint.py", RT + "common/result.py"],
     [("print_series, pretty_sequence", SRC + "cli/pprint.py"), ("determine_rep, pretty_subseq", RT + "common/pprint.py"), ("make_testvars_list, make_chisquare_table, smartround", RT + "common/result.py")],
     "runtime monitor of console output; reconstruction oracle", "Sequences, widths 40 to 200 and values are sampled.")
prop("P25", "Results survive storage, and their plots show what they state",
     "A result which is pickled and unpickled equals the original, as a whole and in every field, and prints the same; results of different outcomes are unequal, and comparing never fails; its accessors (by state or template, extremes, lists of statistics and p-values) agree with its sub-results, in order. Plots contain the data of the result, and the "
     "reference distribution they draw is the one whose tail beyond the statistic is the p-value.",
     ["inputs", "histories"], "all results of all tests",
     "Tests check that plots and printing do not raise for one result each.",
     [RT + "common/result.py", RT + "frequency.py", RT + "runs.py", RT + "random_walk.py", RT + "template.py", RT + "serial.py"],
     [("BaseTestResult, MultiTestResult, plot_chi2_dist, plot_halfnorm_dist", RT + "common/result.py")],
     "runtime monitor; round-trip and consistency oracle over results", "Results of all tests on seeded sequences.")

prop("P26", "The progress display tells how far each test is",
     "While tests are displayed with progress bars (as the run command does), each test which runs has one bar; it never goes back, never beyond its end, and stands exactly at its end when the test gives its result, for every sequence and all parameters. A test which does not apply to the sequence does not disturb the bars of others.",
     ["inputs", "configurations"], "all sequences, tests and parameters",
     "Tests do not look at the progress display.",
     [SRC + "cli/runner.py", RT + "common/core.py", RT + "serial.py", RT + "random_walk.py", RT + "template.py", RT + "matrix.py"],
     [("set_task_total, advance_task", RT + "common/core.py"), ("run_test, run_all_tests", SRC + "cli/runner.py")],
     "runtime monitor of progress updates; offline checker of the histories of bars", "Seeded sequences of all characters, defaults and explicit parameters.")

prop("P27", "Calls release what they take",
     "However many tests are run, and however many files are parsed, stored, loaded and reported, the memory held does not grow with the number of calls once their results are dropped; every file a call opens is closed when it "
     "returns or fails, and no threads, processes or temporary files are left behind.",
     ["histories", "inputs"], "all histories of calls, refused and failing ones included",
     "Tests run each function a few times and do not measure.",
     [RT + "common/core.py", RT + "common/collections.py", SRC + "cli/report.py", SRC + "cli/parsing.py", SRC + "cli/runner.py"],
     [("randtest", RT + "common/core.py"), ("Bins.find_closest_interval (its cache)", RT + "common/collections.py"), ("store_results, load_results", SRC + "cli/report.py"), ("parse_binary", SRC + "cli/parsing.py")],
     "runtime leak monitor: allocation tracing, descriptors, threads, unclosed files over batches of calls",
     "Growth is judged over four batches of 24 (thorough 150) calls each, per function; caches of a bounded size are allowed.")
prop("P28", "Outcomes do not depend on the environment",
     "The same input gives the same outcome in every process: results (to the last bit), refusals, warnings, printed texts, stored files and reports do not depend on the hash seed, the interpreter's optimisation, the locale and time zone, "
     "environment variables, the working directory and the files in it, the standard streams, the thread, or the settings of NumPy, pandas, decimal and random a program has made.",
     ["configurations", "inputs"], "all environments in which the interpreter works, all inputs",
     "Tests run in one environment.",
     [RT + "common/core.py", SRC + "randtests_refimpl.py", SRC + "cli/commands.py", SRC + "cli/report.py", SRC + "cli/parsing.py", SRC + "generators.py"],
     [("randtest", RT + "common/core.py"), ("commands", SRC + "cli/commands.py"), ("write_report_doc, load_results", SRC + "cli/report.py"), ("parse_text", SRC + "cli/parsing.py"), ("Mersenne", SRC + "generators.py")],
     "runtime monitor, differential between interpreters in some 40 environments",
     "Environments and inputs are samples; settings of the terminal and of warnings are left out.")

NOT_APPLICABLE = []


def main():
    claimed = [p for p in PROPS if os.path.exists(os.path.join(VERIF, "rv", "checks", p["pid"] + ".py"))]
    with open(os.path.join(VERIF, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in claimed:
            anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]], "hook_needed": None}
            if p["observe"]:
                anchors["observe_at"] = p["observe"]
            if p["state"]:
                anchors["state"] = p["state"]
            f.write(json.dumps({
                "id": p["pid"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quantifier"]},
                "why_tests_cant": p["why"], "anchors": anchors}, ensure_ascii=False) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "true",
        "checks": [{
            "property": p["pid"],
            "quick_cmd": f"sh check.sh {p['pid']} quick",
            "thorough_cmd": f"sh check.sh {p['pid']} thorough",
            "evidence_file": f"evidence/{p['pid']}.json",
            "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in claimed],
        "not_applicable": NOT_APPLICABLE,
        "notes": "Nothing is built: the monitors import coinflip from /repo's working tree. Observation is at public interfaces, so /repo carries no hooks. Known findings and repairs: known_findings.txt.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write("\n")
    import jsonschema
    m = json.load(open("/root/.vp/MANIFEST.schema.json"))
    jsonschema.validate(manifest, m)
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for line in open(os.path.join(VERIF, "properties.jsonl"), encoding="utf-8"):
        jsonschema.validate(json.loads(line), s)
    for p in claimed:
        n = p["statement"].replace("SP 800", "").count(". ") + 1
        if n > 3 or len(p["title"]) > 80:
            print(p["pid"], "statement or title too long", n)
    print(len(claimed), "claimed")


main()
