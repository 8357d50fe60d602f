"""Which harness entry points belong to which property, and their bounds.

Entries are found in the harness sources (`entry!(name, ...)`); the comment
lines directly above an entry are its stated bound. OVERRIDE adjusts cost,
parallelism and tier."""
import os, re
SRC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "sx", "src")
COMMON_ASSUMPTIONS = []

def E(entry, bound="", **k): return dict(entry=entry, bound=bound, **k)

def discover(fname, override={}, skip=(), base={}):
    out = []; comment = []
    for l in open(os.path.join(SRC, fname)):
        m = re.match(r"\s*entry!\((c\d\d_\w+)\s*,", l)
        mm = [] if l.lstrip().startswith(("macro_rules", "fn ")) else re.findall(r"\b(c\d\d_\w+)\b", l) # invocations of entry-making macros
        if m or mm:
            for e in [m.group(1)] if m else mm:
                if e not in skip: out.append(dict(entry=e, bound=" ".join(comment), **dict(base, **override.get(e, {}))))
            comment = comment if not m else []
        elif re.match(r"\s*// ?", l) and not re.match(r"\s*//[/!]", l): comment.append(re.sub(r"^\s*// ?", "", l).strip())
        elif l.strip(): comment = []
    return out

P = {}
P["C01"] = dict(source="c01_ljpeg.rs", entries=
  [E("c01_one_p%d" % p, "2x2 image, 1 component, 16 bit, predictor %d; any one sample takes all 65536 values, 2 backgrounds" % p, cost=50) for p in range(1, 8)]
  + discover("c01_ljpeg.rs", skip=["c01_%s_p%d" % (k, p) for p in range(1, 8) for k in ("one", "two", "three", "comp")], override={"c01_foreign2": dict(thorough_only=True, jobs=8), "c01_foreign": dict(cost=60), "c01_refcomp": dict(cost=30)})
  + [E("c01_%s_p%d" % (k, p), b, thorough_only=True, jobs=8) for p in range(1, 8) for k, b in (("comp", "2x2, 1..4 components, any one sample arbitrary"), ("two", "2x2, two samples arbitrary"), ("three", "2x2, three samples arbitrary"))])
P["C03"] = dict(source="c03_pumps.rs", entries=discover("c03_pumps.rs"))
P["C04"] = dict(source="c04_packed.rs", entries=discover("c04_packed.rs"))
P["C05"] = dict(source="c05_tiff.rs", entries=discover("c05_tiff.rs"))
P["C06"] = dict(source="c06_tiffrobust.rs", entries=discover("c06_tiffrobust.rs"))
P["C07"] = dict(source="c07_dngpix.rs", entries=discover("c07_dngpix.rs"))
P["C08"] = dict(source="c08_dngmeta.rs", entries=discover("c08_dngmeta.rs"))
P["C09"] = dict(source="c09_layout.rs", entries=discover("c09_layout.rs", {"c09_deflate": dict(jobs=4, cost=90), "c09_ljstrips": dict(jobs=2, cost=60)}))
P["C10"] = dict(source="c10_exif.rs", entries=discover("c10_exif.rs"))
P["C11"] = dict(source="c11_original.rs", entries=discover("c11_original.rs"))
P["C12"] = dict(source="c12_geometry.rs", entries=discover("c12_geometry.rs"))
P["C13"] = dict(source="c13_develop.rs", entries=discover("c13_develop.rs", dict(c13_cropactive=dict(jobs=2, cost=30), c13_cropfull=dict(jobs=2, cost=30), c13_ppg7=dict(jobs=2, cost=30))))
FTP = dict(args=["--real-fmt"])
P["C14"] = dict(source="c14_ftproot.rs", crate="sxf", entries=discover("c14_ftproot.rs", dict(c14_comps=dict(jobs=3, cost=20), c14_cwd=dict(jobs=2, cost=10))|{k: dict(thorough_only=True, jobs=2) for k in ("c14_cwd_deep", "c14_cdup_deep", "c14_two_deep", "c14_three_deep")}, base=FTP))
P["C15"] = dict(source="c15_ftplogin.rs", crate="sxf", entries=discover("c15_ftplogin.rs", dict(c15_deep=dict(thorough_only=True, jobs=8)), base=FTP))
P["C16"] = dict(source="c16_ftpproto.rs", crate="sxf", entries=discover("c16_ftpproto.rs", base=FTP))
PROPS = P
for p in PROPS.values(): p["source"] = "sx/src/" + p["source"]
