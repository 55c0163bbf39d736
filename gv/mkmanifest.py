"""writes MANIFEST.json (run by hand when checks change)"""
import json, os, sys
T = {
"C01": ("differential runtime oracle: extended-precision reference field", "exploration", "Real code run on generated bodies/stations; every gravity vector compared with an independent longdouble Werner-Scheeres reference (itself checked against quadrature each run) within 10x its forward error bound. Trusts the reference and the bound; sampled inputs."),
"C02": ("differential runtime oracle: reference tensor, trace/symmetry monitors, finite differences of the code's own gravity", "exploration", "As C01 for the tensor; stations on the surface are not judged (no derivative there). Sampled inputs."),
"C03": ("history monitor against freshly built bodies, with fault injection at every executed line", "fault_enumeration", "Every executed line of an evaluation is faulted once (error and interrupt) on two bodies; random histories of operations on shared bodies are compared bit for bit with new bodies. Faults are between Python lines."),
"C04": ("metamorphic runtime oracle: superposition and proportionality", "exploration", "Sums, repetitions, cuts and factors compared within rounding bounds on sampled bodies and stations."),
"C05": ("structural monitor on the constructed surface", "exploration", "Each constructed body is checked for closure, orientation, unit normals and volume (exact rational/longdouble hull volume) on sampled and hostile point sets; refusal of degenerate input."),
"C06": ("metamorphic runtime oracle: motion, mirroring, rescaling, input layout", "exploration", "Two runs of the real code related by a symmetry compared within rounding bounds; sampled."),
"C07": ("hostile-position monitor: finiteness and continuity against neighbouring evaluations", "exploration", "Stations on and at tiny distances (1e-300 to 1e-1) of every corner/edge/face/plane/line of sampled bodies; beyond 1e4 body sizes only finiteness is judged."),
"C08": ("runtime oracle: extended-precision geodesy after every conversion of random sequences", "exploration", "After each conversion step the place in space given by coordinates + recorded system is recomputed independently and compared; sampled points, ellipsoids, origins and sequences."),
"C09": ("runtime oracle on heights and longitudes, state monitor on untouched coordinates", "exploration", "Geoid heights compared with direct grid lookups at the same point; wrapping checked exactly (rational remainder). egm96/egm2008 grids are synthetic stand-ins (absent from the checkout)."),
"C10": ("reference-semantics oracle over generated configuration layers", "exploration", "Layered YAML configurations against an independent model of layering/defaults/refusal; sampled."),
"C11": ("runtime oracle: exact comparison of read points", "exploration", "Bit-for-bit comparison of the points read from generated lists, files and grids with exact arithmetic; sampled."),
"C12": ("end-to-end oracle: run command against geodesy + field reference", "exploration", "Result files of real runs (in process and as new processes) compared with independent geodesy and the reference field; sampled scenes."),
"C13": ("fault injection at every source line of a run and damaged inputs, file-system monitor", "fault_enumeration", "Every distinct executed source line before the result is written is faulted in 8 scenes (thorough: every executed line in 16); 36 kinds of damaged input; scratch tree compared before/after. Failures during writing itself are not judged."),
"C14": ("cross-process trace comparison under perturbed environments; numba bounds checking and interpreted mode as sanitizers", "exploration", "Bitwise comparison of recorded results over 14 environments, tolerance comparison over 3 compilation modes, on sampled workloads; one machine."),
"C15": ("resource monitor over long histories: memory blocks, malloc, live objects, descriptors, threads, handlers, executed lines", "exploration", "Each of 54 (thorough 384) operations is repeated some hundreds to thousands of times in one process after a warm-up; growth in every window is a violation. Growth below a fifth of an object or 8 bytes per evaluation is not seen."),
"C16": ("twin monitor: an object that is looked at against one that is not, public state before and after, recorded figures", "exploration", "Random interleavings of looking (9 ways) and using; state and results compared bit for bit. What is printed is not judged except version and log directory; plotly's show is replaced by a recorder."),
"C17": ("twin monitor: copies and pickles used, converted, overwritten in random order against originals and never-copied twins", "exploration", "deepcopy and pickle protocols 2 to 5, copies of copies, lists, half evaluated bodies, new processes; bit for bit. copy.copy (shallow by nature) is not judged."),
"C18": ("concurrency monitor: seeded scheduler switching threads at source lines, free-running threads, forked processes and commands side by side with injected delays, against the same work alone", "exploration", "Bit-for-bit comparison over random interleavings (line granularity in the package and the libraries it calls, plus 1 us preemption); no object shared between threads, no common result path."),
"C19": ("fault injection in the middle of computations (package and library lines), twin monitor on state and everything done afterwards", "fault_enumeration", "All executed lines when few, else 25 per operation of random datasets, stations, configurations and commands; natural failures (bad latitude, grid missing or cut off). Interrupts between the final assignments are not judged."),
"C20": ("trace monitor: log files, printed output and files written by sequences of commands, against a reference reading of the configuration layers", "exploration", "Values reported compared one by one and in order with the layers; each command's own log, success only after the file is there; sampled configurations, damages and sequences. Wording is not judged."),
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = {"version": 1, "setup_cmd": "bin/setup", "checks": [
    {"property": k, "quick_cmd": f"bin/check {k} --tier quick", "thorough_cmd": f"bin/check {k} --tier thorough", "evidence_file": f"evidence/{k}.json", "technique": t, "level": l, "level_note": n}
    for k, (t, l, n) in T.items()], "not_applicable": [],
    "notes": "Pure Python + numba: nothing is compiled ahead of time; every check imports the code from /repo's working tree. No hooks in /repo: monitors attach from outside (settrace, audit hooks, public API)."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
