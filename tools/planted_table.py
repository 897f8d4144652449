#!/usr/bin/env python3
"""Development tool: rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and the notes below."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {      # bugs the checks missed when they were planted, and what was added (all caught since)
 "S02-index-float": "time indices beyond 2^24", "S13-sr-count-type": "int8 streams with windows up to 256", "S32-stab-equal": "values exactly on a dyadic threshold",
 "S39-conv-oshift": "an earlier use of the layer at another scale (`hubref.earlier_use`)", "T03-hsig-cast": "binary activations in float64, float16, bfloat16",
 "T05-add-streamsum": "wide adders (130 to 300 entries) with dense streams of every type", "T23-padphase-half": "long padded bipolar convolutions",
 "T45-div-signlatch": "all checks: a fifth of the cases runs in evaluation mode, a tenth toggles the mode between calls", "T48-stream-halfcount": "double-precision sources next to a tie",
 "T50-truncnorm-shape": "larger truncated-normal tensors", "U02-relu-inplace": "C32 takes every stream type in turn, runs up to 120 cycles", "U10-lfsr-rng": "seeded repetitions of the random kinds",
 "V01-lin-intscale": "fractional scales and every form of the runtime scale (C17, C18)", "V04-conv-argorder": "every call form of the run-time arguments (C41), runtime scales of the convolution (C18)",
 "V08-add-pickle": "run-time values given with the first call only", "V10-mgu-detach": "gradient of the hidden state, gates held open",
 "V15-mul-lanes": "lanes that part and meet again (`stim.meet`)", "V21-jk-fan": "one tensor object on both inputs (`drive.lockstep`)",
 "W06-clip-frozen": "frozen weights", "W08-shift-clamp": "data below 2^-20 and above 2^12", "W09-mul-sr": "histories of 512 and 1024 bits",
 "W12-conv-depthwise": "one group per channel", "W15-stab-share": "metrics that are fed every cycle and read now and then",
 "X04-bsg-loop": "lines of library code executed per cycle (C38)", "X08-hsig-scale": "configurations of a whole network",
 "X12-add-dima": "five and six axes, equal axes", "X16-sync-sametensor": "overlapping views of one buffer (`drive.lockstep`)",
 "X26-scc-wide": "narrow streams beyond 1000 cycles", "Y05-metric-grad": "the reference run is watched too",
 "Y07-htanh-huge": "huge and infinite inputs", "Y09-report-order": "non-default positional forms of every helper", "Y10-prog-trace": "more repetitions of cheap units",
 "W17-lin-bigbatch": "batches above 32 with more than 256 inputs",
 "Z06-rng-memo": "what a caller writes into a sequence it was given must not reach another generator", "Z09-mgu-hx0": "hidden states at rest and at the limits",
 "Z19-def-shared": "the configuration an object carries is overwritten before the next is built", "Z20-pe-order": "one source for many streams and one stream against many sources",
 "Z21-stab-int": "more than 4096 streams", "Z22-bigen-cycle": "indices of fewer or more dimensions than the source",
 "U15-hub-wcache": "weights changed through `.data`, which leaves no version behind"}
ALSO = {"S04-rawscale-inplace": "C32", "U12-div-default": "C41 only"}
rows = ["| bug | property | needs | breaks | missed at first; added |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i, m = os.path.basename(os.path.dirname(f)), json.load(open(f))
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), MISSED.get(i, "")))
p = V + "/DESIGN.md"
s = open(p).read()
head = "## Planted bugs"
s = s[:s.index(head)] + head + """
%d bugs, written from the property texts and the code, each confirmed with `tools/plant.py` (applies, stable tests still pass, demonstration
passes on the clean tree and fails with the patch, the named property's check exits 1 with its VIOLATION line). The check of the named property
catches every one today; the last column says what the check lacked where it did not at first. Table written by `tools/planted_table.py`.

""" % (len(rows) - 2) + "\n".join(rows) + "\n"
open(p, "w").write(s)
