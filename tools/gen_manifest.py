#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: which properties have a check (TECH) and which do not (with the reason)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
TECH = {
 "P01": ("property-based round-trip over generated inputs and options", "seeded generation with shrinking; oracle: decoded bytes equal the input"),
 "P02": ("property-based round-trip over generated write histories", "seeded generation with shrinking; oracle: decoded bytes equal the concatenated writes"),
 "P03": ("metamorphic fuzzing over buffer splits", "same stream or input driven with different buffer schedules; oracle: equal results, monotone offsets, bounded call counts"),
 "P04": ("corruption fuzzing with an independent container parser and checksum as oracle", "generated damage to produced streams; oracle: no success with other content when checksums are on"),
 "P05": ("structured fuzzing of the decoder", "generated hostile bytes: random, damaged, re-framed, and encoder-produced illegal commands; oracle: no panic, no stall, offsets within bounds, CPU and memory limits, failure is final"),
 "P06": ("truncation fuzzing over cut points", "every cut of small streams, sampled cuts of larger ones; oracle: never success, output is a prefix"),
 "P07": ("differential fuzzing of the two decoders, with early release and leak accounting", "serial decoder as oracle; generated streams, damage, splits, pauses and release points; threads counted through /proc"),
 "P09": ("model-based testing of multiplexer histories", "generated push/linearise/flush histories and re-chunkings; oracle: two byte vectors and an independent frame parser"),
 "P15": ("fault-injection property tests of the I/O adaptors", "generated fault scripts for the underlying stream; oracle: exactly-once delivery, every injected error returned, no clean end with data missing"),
 "P12": ("property-based round-trip over generated command sequences", "generated IR commands against an independent LZ77 reference"),
 "P08": ("model-based testing of C-API call histories", "generated histories driven through C code compiled against the shipped header, buffers fenced by inaccessible pages; oracle: option table model, byte-identical streams from the Rust interface, Rust decoder"),
 "P18": ("tracking-allocator property tests with free at every point", "generated C-API histories freed at a drawn call, allocator with non-zero fill, guard bytes or inaccessible pages; oracle: every block returned exactly once and untouched outside its bounds"),
 "P13": ("model-based testing against a byte-vector LZ77 reference", "generated command sequences and buffer schedules; oracle: independent LZ77 model"),
 "P20": ("property-based header checks, enumerated byte mutations", "every header byte and generated option sets; oracle: independent header model"),
 "P10": ("property-based round-trip of the entropy coder against a recorded symbol history", "generated probability histories, flush points and buffer schedules for both coder implementations; oracle: the decoded symbols equal the coded ones, length bound"),
 "P11": ("model-based testing of the adaptive distributions", "generated update/normalise histories; oracle: slow reference model, partition and positivity invariants, symbol lookup consistency"),
 "P14": ("generated scenarios of the command-line executable", "generated files, flags, textual commands, damage and plumbing; oracle: the original bytes, the library decoder, an LZ77 reference, exit status"),
 "P16": ("differential testing of the checksum against a bitwise reference, and of the trailer it guards", "generated buffers, alignments and split points; oracle: bit-by-bit CRC-32C and slicing invariance"),
 "P17": ("exhaustive division of every divisor with boundary numerators, sampled numerators elsewhere", "all 65535 divisors, numerators at and around multiples; oracle: the hardware division"),
 "P19": ("differential fuzzing of the build variants linked into one program", "generated inputs and options encoded and decoded by every variant; oracle: byte-identical streams, each variant decodes every other's"),
 "P22": ("differential fuzzing against a frozen copy of the crate", "generated inputs, options and command sequences; oracle: each of the current tree and the frozen copy decodes the other's streams to the original bytes"),
 "P23": ("model-based testing of allocator histories", "generated histories of both compressors and decompressors over typed tracking allocators, released at a drawn call by free() or free_ref(); oracle: every cell back at its own allocator, results equal to the default allocators'"),
 "P21": ("property-based end-of-stream checks with trailing data", "generated trailing bytes, concatenated streams and splits; oracle: consumed count equals the stream length"),
}
import importlib.util
extra = os.path.join(root, "tools", "manifest_extra.json")
TODO = "no check yet: under construction"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TECH:
        t, n = TECH[i]
        checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
                           technique=t, level="exploration", level_note=n))
    else:
        na.append(dict(property=i, reason=TODO))
import subprocess
hook = subprocess.run(["git","-C","/repo","log","--format=%H","--grep=^verif hook"],capture_output=True,text=True).stdout.split()
m = dict(version=1, setup_cmd="bash check.sh setup",
  hooks=dict(guard="cfg(divans_verif)", enable='RUSTFLAGS="--cfg divans_verif"', source_commits=hook),
  checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(root,"MANIFEST.json"),"w"), indent=1); open(os.path.join(root,"MANIFEST.json"),"a").write("\n")
