"""Write MANIFEST.json:  python -m dst.manifest"""
import importlib
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "C01": "seeded search over fields x storage schedules (fragmentation, full disk, I/O and close errors) on the simulated file layer; the stored bytes are judged by an independent decoder",
    "C02": "seeded search over files x torn prefixes, growing files, device errors and damaged tags; each result is compared with the model of the complete file",
    "C03": "seeded search over skip sets and float types x read schedules and faults; compared with the model of the complete file",
    "C04": "seeded search over meshes x storage schedules; the stored bytes are judged by an independent .re2 decoder",
    "C05": "seeded search over meshes x storage schedules, one mesh of 10^6 elements included; the stored text is judged by an independent fixed-column decoder",
    "C06": "seeded search over .re2/.rea/.ma2 files x torn prefixes, growth, device errors, fragmentation; compared with the model of the complete file",
    "C07": "seeded search over SIMSON files x torn prefixes and device errors, fragmentation; compared with the model of the complete file",
    "C08": "seeded search over writes x outcome (success, refusal, device failure, interruption at a source line or bytecode); before/after snapshots of data and old file",
    "C09": "seeded search over calls x faults and interruption points; open-handle accounting and exact retry, stale-file swap",
    "C10": "seeded search over thread interleavings of concurrent calls (cooperative scheduler at source lines, bytecodes and raw I/O), histories and aliasing probes; compared with the calls run alone",
    "C11": "seeded search over file sets x loading orders and interleavings x torn, missing or failing files; compared with the model dataset",
    "C12": "seeded search over histories of mesh operations with crashes, reloads and failing callbacks; closure invariants by an independent geometric matcher after every step",
    "C13": "seeded search over the same histories; refinement against executable reference models of the operations after every step",
    "C14": "seeded search over operations x failing callbacks, refusals and interruption points; snapshots of inputs and exact repeat",
    "C15": "seeded search over sound meshes x single injected damages; both audits judged on each",
    "C20": "seeded search over histories of mesh operations, in-place changes, failing reads, crashes and reloads; reported limits and centres compared with the values held after every step",
}
COMMON = ("Exploration, no proof: holds on every seeded run of the tier. Trusts the simulator, the "
          "independent reference codecs/models in dst/, CPython and numpy.")
NA = {
    "C16": "bisection on one scalar equation: a pure numeric function with no I/O, time, concurrency, "
           "callbacks or history for a simulator to control; a schedule or fault can change nothing",
    "C17": "a pure predicate on a file-name string: no I/O, state or schedule is involved",
    "C18": "the conversion needs the VTK/tvtk packages, which are not installed here, and is a pure "
           "in-memory mapping with no I/O, time or concurrency",
    "C19": "closed-form geometry of one edge: pure function of its arguments (that they leave the mesh "
           "they are given unchanged is checked under C13/C14)",
    "C21": "numerical correctness of a pure inverse transform of the data read; what depends on storage "
           "(every prefix, failing device, fragmentation) is decided under C07",
}


def main():
    have = [p[:-3].upper() for p in sorted(os.listdir(os.path.join(HERE, "dst", "props")))
            if p.startswith("c") and p.endswith(".py")]
    checks = []
    for pid in have:
        checks.append({
            "property": pid,
            "quick_cmd": f"./check {pid} --tier quick",
            "thorough_cmd": f"./check {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": "deterministic simulation with fault injection",
            "level": "exploration",
            "level_note": NOTES[pid] + ". " + COMMON,
        })
    na = [{"property": p, "reason": r} for p, r in NA.items()]
    for p in NOTES:
        if p not in have:
            na.append({"property": p, "reason": "check under construction"})
    m = {
        "version": 1,
        "setup_cmd": "./check setup",
        "checks": checks,
        "not_applicable": sorted(na, key=lambda d: d["property"]),
        "notes": "No hooks in /repo: every seam (open(), os.stat, threads via sys.settrace, dask "
                 "scheduler) is taken from outside. /repo carries only fix: commits, listed in "
                 "known_findings.txt.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
