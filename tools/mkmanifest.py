#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of built checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
BUILT = {
    "D01": ("seeded crash/disk-fault histories over KDL files (torn, lost, duplicated, reordered, overwritten blocks; flipped bytes), loaded by the real parser in a process of its own",
            "Samples files and fault sequences; an abort, hang, panic or ill-formed diagnostic in any sampled run is caught. Deep nesting is bounded by the listed stack-overflow findings."),
    "D02": ("save/load/save histories over intact and disk-damaged files, printing compared byte for byte",
            "Samples files and fault sequences; every accepted text must print back exactly."),
    "D03": ("editing sessions with failing saves and crash/reload against a reference tree model",
            "Samples edit histories of up to 40 operations; the reference model is an independent tree."),
    "D04": ("editing sessions checked step by step against the file cut into text pieces, with failing saves and crash/reload",
            "Samples edit histories; each edit may change one text piece only."),
    "D05": ("editing sessions with reformatting at arbitrary points, failing saves and crash/reload against a reference tree model",
            "Samples histories and formatting configurations; content must stay equal to the model, before and after reload."),
    "D06": ("a simulated work clock (branches taken, memory asked for) over file histories whose repetition doubles, with seeded disk faults, through the library and the whole language server",
            "Bounds work and its growth for sampled repetitions of up to 5000 bytes; what the standard library does inside one call is not counted."),
    "D07": ("editing sessions with reformatting at arbitrary points, failing saves and crash/reload; after each reformatting: once more, once more after reloads, and the text against the shape computed from the content",
            "Samples histories and formatting configurations. Comments inside an entry are a listed finding."),
    "D08": ("files of either version converted, edited, reformatted, saved, lost in crashes and reloaded at arbitrary points; after each step the text is read as the version it should be and compared with what the generated pieces say",
            "Samples files and histories. The KDL 1 reader is the kdl 4.7 crate, whose own refusals and lossy values bound what is checked; slashdashed parts with version-dependent text are a listed finding."),
    "D09": ("seeded crash/disk-fault histories over KDL files and token soups; what is left is loaded by the library and by an independent reference parser",
            "Samples files and fault sequences; constructs that published grammars disagree on are not judged."),
    "D10": ("seeded crash/disk-fault histories over KDL files; every span of what was loaded compared with the text",
            "Samples files and fault sequences."),
    "D11": ("editing sessions with reformatting, failing saves and crash/reload; every state and its parts compared and hashed against earlier states, clones and reloads",
            "Samples edit histories of up to 40 operations; pairs of parts are sampled from two successive states."),
    "D13": ("editing sessions with reformatting, failing saves and crash/reload; after every step copies of the state are cleared and formatted in several ways and compared with the document made anew from the reference model",
            "Samples edit histories of up to 40 operations."),
    "W01": ("writers that fail, panic, or split and re-enter at seeded points of a print",
            "Samples objects and fault points (all points for small objects)."),
    "W02": ("closures that panic or misorder at seeded calls, followed by crash and reload",
            "Samples nodes, closures and fault points."),
    "S01": ("user types whose Serialize fails or panics at seeded callbacks",
            "Samples value shapes and fault points."),
    "S02": ("user types whose Deserialize fails or panics at seeded callbacks",
            "Samples value shapes and fault points."),
    "S03": ("values stored as KDL through a simulated disk with crash, damage and reload",
            "Samples value shapes and fault sequences; intact storage must give the equal value."),
    "S04": ("user types that refuse the number, string or boolean of a seeded callback, over intact, hand-changed and damaged files; every error's place compared with where the value stands",
            "Samples value shapes, texts and callbacks; where a value stands in several places any of them is accepted."),
    "S05": ("file histories (saves by hand or by other programs, rewrites, formatting, crashes, damage) read by generated user types; an independent writer decides the form, the value read is compared with the value written",
            "Samples types, values, forms and fault sequences. #[serde(default)] inside nested structs is a listed finding."),
    "D12": ("seeded crash/disk-fault histories over files of both versions and mixtures; the results of all loading entry points compared with each other",
            "Samples files and fault sequences."),
    "C01": ("real threads of one process, one running at a time, under a seeded scheduler that may switch at every branch and allocation of the library and stands in for the kernel's futex; every call compared with the same call alone in a fresh process",
            "Samples call histories and interleavings, sequentially consistent ones; two accesses with no branch between them are not separated."),
    "L01": ("the whole kdl-lsp server in one process under a simulated runtime, clock, stdin and stdout with seeded delivery, stalls and cancellation",
            "Samples message histories and schedules."),
    "L02": ("the whole kdl-lsp server in one process under a simulated runtime; every report checked against the document's history and an independent position mapping",
            "Samples edit histories and schedules."),
    "L03": ("the whole kdl-lsp server in one process under a simulated runtime with malformed bytes, cut input, closed and stalled pipes; bounded progress after faults stop",
            "Samples message histories, schedules and faults."),
    "L04": ("the whole kdl-lsp server in one process under a simulated runtime, through lifecycle histories",
            "Samples lifecycle orders and schedules."),
}
NA = {
}
props = [json.loads(l)["id"] for l in open(f"{here}/properties.jsonl")]
src = open(f"{here}/vsim/src/main.rs").read()
checks, na = [], []
for p in props:
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
    elif f'"{p}" =>' not in src:
        na.append({"property": p, "reason": "its check is not built yet"})
    else:
        checks.append({"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": T + BUILT[p][0], "level": "exploration", "level_note": BUILT[p][1]})
m = {"version": 1, "setup_cmd": "bash check.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: kdl-lsp is built from its unchanged main.rs against a simulated tokio, the library against a simulated allocator, disk and writers, and a thread scheduler. See DESIGN.md."}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
