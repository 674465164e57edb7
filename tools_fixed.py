"""Rewrites the "fixed" list of known_findings.json from the fix: commits of /repo."""
import json, subprocess
PROP = {
 "select by freq_chans": "C01", "select with keep_all": "C01", "polarization conversions do not": "C15",
 "polarizations in ant_str": "C01", "adding UVData objects": "C02", "fast_concat keeps": "C02",
 "conjugate_bls moves": "C03", "conjugate_bls updates": "C03", "rectangularity is determined": "C03",
 "reorder_blts reorders": "C03", "frame position angle": "C04", "driftscan": "C04", "unproject_phase leaves": "C04",
 "phase with select_mask": "C04", "phasing some": "C04", "set_uvws_from": "C04", "a refused write_uvh5_part": "C11",
 "channel widths read": "C07", "uvfits windows are": "C07", "time and polarization selections on miriad": "C10",
 "lsts, lst_range and": "C10", "partial reads of uvfits": "C10", "partial uvh5 reads": "C10",
}
import os
extra = os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools_fixed_extra.json")
if os.path.exists(extra):
    PROP.update(json.load(open(extra)))
out = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        s = s[5:]
        k = [p for n, p in PROP.items() if s.startswith(n)]
        assert k, s
        out.append(f"fixed: property={k[0]} {h} {s}")
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_findings.json")
d = json.load(open(p))
d["fixed"] = out
json.dump(d, open(p, "w"), indent=1)
