#!/usr/bin/env python3
"""Rewrite the "fixed" list of known_findings.json from the fix: commits of /repo.
PROP maps the first commit subject of each run of commits to the property whose check found them."""
import json, os, subprocess
START = [
 ("mppnccombine -r removes", "C02"), ("mppnccombine -f -e", "C01"), ("mppncscatter scatters byte", "C03"), ("decompress-ncc", "C05"),
 ("combine-ncc copies", "C04"), ("scatter-ncc writes", "C06"), ("list_ncvars does not", "C07"), ("combine_restarts -n", "C09"),
 ("timavg -b does", "C10"), ("plevel.sh does not", "C11"), ("make_hgrid computes the great", "C12"), ("make_hgrid --out_halo", "C13"),
 ("make_vgrid --stretch", "C15"), ("fregrid --weight_field", "C16"), ("fregrid closes the mosaic", "C17"),
 ("fregrid --check_conserve takes", "C18"), ("fregrid reads the rotation", "C19"), ("make_coupler_mosaic: longitude", "C20"),
 ("make_topog", "C21"), ("runoff_regrid", "C22"), ("check_mask", "C23"), ("remap_land", "C24"), ("river_regrid", "C25"),
]
ALWAYS = [("check_mask", "C23"), ("remap_land", "C24"), ("river_regrid", "C25"), ("make_quick_mosaic", "C26"), ("make_land_domain", "C27"),
          ("make_regional_mosaic", "C28"), ("make_solo_mosaic", "C14"), ("transfer_to_mosaic", "C29"), ("split_ncvars", "C32"), ("make_remap_file", "C31"), ("fregrid --extrapolate:", "C30"),
          ("fregrid --dst_vgrid", "C30"), ("nearest_index of an array", "C30"), ("fregrid: --check_conserve:", "C17"),
          ("mppnccombine -a and -x", "C02"), ("mppnccombine -a appends", "C01"), ("check_mask reports a mask table", "C33"), ("split_ncvars.pl exits with an error", "C33"),
          ("cp_river_vars", "C34"), ("cr_lake_files", "C34")]
EXTRA = os.path.join(os.path.dirname(__file__), "fixed_props.json")
if os.path.exists(EXTRA):
    START += [tuple(x) for x in json.load(open(EXTRA))]
kf = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(kf))
out, prop, used = [], None, set()
for line in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    for k, p in START:
        if s.startswith(k) and k not in used:
            used.add(k)
            prop = p
            break
    for k, p in ALWAYS:
        if s.startswith(k):
            prop = p
    if prop:
        out.append("fixed: property=%s %s %s" % (prop, h, s))
d["fixed"] = out
json.dump(d, open(kf, "w"), indent=1)
open(kf, "a").write("\n")
print(len(out), "fixed")
