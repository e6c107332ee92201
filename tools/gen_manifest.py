#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
T = {
 "C01": ("trace monitor of the HDU walk against the layout of generated files", "every walk of the generated files had exactly the kinds, offsets, sizes and end written"),
 "C02": ("differential history monitor: walk with arbitrary reads vs. walk with none", "no history of reads explored moved or changed a later HDU"),
 "C03": ("online oracle: decoded card vs. the keyword, value and comment it was written from", "every generated card decoded to its contents, every illegal one was refused"),
 "C04": ("online checker of header contents against a model map over generated card sequences", "lists, lookups, enumeration, history and long strings agreed with the model"),
 "C05": ("online oracle of typed reads and deserializations, every value under every type", "every typed read gave the stored value or was refused as it has to be"),
 "C06": ("bit-exact conservation monitor over sequential and raw reads of images", "every image explored was delivered bit for bit, once, in order"),
 "C07": ("stateful model checked online along histories of random and sequential pixel reads", "every answer of every history agreed with the model"),
 "C08": ("exactly-once, order and value monitor over table reads against the cells written", "every element was delivered once, tagged and in order"),
 "C09": ("exactly-once monitor over heap reads against the arrays written", "every variable-length cell delivered the elements written and nothing else"),
 "C10": ("stateful model checked online along histories of selections, row seeks and reads", "every delivery of every history agreed with the model"),
 "C11": ("decoded pixels vs. the pixels given to an independent RICE/GZIP encoder", "every tile decoded to the pixels encoded"),
 "C12": ("decoded pixels vs. an independent quantization, dithering and blanking model", "every pixel was the one prescribed by the parameters of its tile"),
 "C13": ("differential trace monitor: compressed file vs. plain file", "every trace of a compressed file was that of the plain file"),
 "C14": ("differential trace monitor under perturbed reader schedules (short reads, interruptions)", "no split of the stream or interruption explored changed a trace"),
 "C15": ("differential trace monitor of the asynchronous reader under injected schedules", "under every schedule explored the asynchronous trace was the synchronous one"),
 "C16": ("panic, overflow, abort, allocation and progress monitors under hostile inputs", "no hostile input explored made the library panic, hang or take memory out of proportion"),
 "C17": ("fault injection at every byte and reader operation, traces judged against the intact run", "for the files explored every truncation point and every reader operation was failed in turn, and no trace held anything the intact run has not"),
 "C18": ("sample-by-sample oracle on images decoded through the image crate", "every sample was the stored value converted as documented, and everything else was refused"),
 "C19": ("monitor of the executed command's output and status against the files written", "every listing agreed with its file"),
 "C20": ("monitor of values, offsets, bytes read and memory over virtual files up to 2^62 bytes", "every location and value beyond 4 GiB was exact and cheap"),
 "C21": ("layout and byte conservation monitor over generated ASCII tables", "every layout and byte was that of the file"),
 "C22": ("refusal monitor over single defects of mandatory keywords, metadata monitor on legal headers", "every defect was refused and every legal header was described as its cards say"),
}
m = {"version": 1, "setup_cmd": "bash check.sh build", "checks": [], "not_applicable": [
  {"property": "C23", "reason": "the code delegates to the crate wcs, a git dependency that cannot be had in this sandbox: src/wcs.rs is not compiled by the build here, so it cannot be run, and runtime monitoring has nothing to observe"}],
 "notes": "No hooks: everything is observed at the library's public interface, at the reader it reads from, at the allocator and at the processes that run it. Known and fixed defects are in KNOWN_FINDINGS.txt."}
for k, (tech, lvl) in T.items():
    m["checks"].append({"property": k, "quick_cmd": f"bash check.sh {k} quick", "thorough_cmd": f"bash check.sh {k} thorough",
      "evidence_file": f"evidence/{k}.json", "technique": "runtime monitoring: " + tech,
      "level": "fault_enumeration" if k == "C17" else "exploration",
      "level_note": f"Held on what was explored: {lvl}. Trusts the generators and oracles in harness/src, which were written from the FITS standard and the documentation, not from the code; says nothing of inputs they do not produce. Assumptions are in the evidence file."})
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w"), indent=1)
