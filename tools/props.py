"""Per-property configuration: which specifications and rules decide it."""
import rules as R

COMMON = ["common/src/*.cpp"]
PROPS = {}


def prop(pid, **kw):
    PROPS[pid] = kw


prop("C01", modules=[{"spec": "heap.cpp"}])
prop("C02", modules=[{"spec": "heap.cpp", "flags": ["-DNEXT=1"]}])
prop("C08", modules=[{"spec": "bits.cpp", "srcs": ["common/src/bit_manip.cpp"], "min_entries": 9}])
prop("C04", modules=[{"spec": "indexer.cpp"}])
prop("C05", modules=[{"spec": "indexer.cpp", "flags": ["-DBOUS=1"]}])
prop("C03", modules=[{"spec": "peak.cpp"}])
prop("C15", modules=[{"spec": "dset.cpp", "srcs": ["common/src/disjoint_set.cpp"]}])
prop("C16", modules=[{"spec": "labels.cpp", "support": ["support.cpp"], "srcs": ["common/src/label_set.cpp"]},
                      {"spec": "labels.cpp", "model": True, "support": ["support.cpp", "strinst.cpp"], "srcs": ["common/src/label_set.cpp"], "flags": ["-DPRINT=1"]}])
prop("C06", modules=[{"spec": "interval.cpp"}])
prop("C07", modules=[{"spec": "gridspec.cpp"}])
BM = ["common/src/bit_manip.cpp"]
prop("C09", modules=[{"spec": "traits.cpp", "srcs": BM}])
prop("C10", modules=[{"spec": "traits.cpp", "srcs": BM, "flags": ["-DFLT=1"]}])
prop("C11", modules=[{"spec": "morton.cpp", "srcs": BM}])
prop("C12", modules=[{"spec": "morton.cpp", "srcs": BM, "flags": ["-DDIST=1"]}])
prop("C13", modules=[{"spec": "mortonf.cpp", "srcs": BM}])
prop("C36", modules=[{"spec": "mortonf.cpp", "srcs": BM, "flags": ["-DBLOCK=1"]}])
FN = ["common/src/functions.cpp"]
prop("C17", modules=[{"spec": "trig.cpp", "srcs": FN}])
prop("C18", modules=[{"spec": "angles.cpp", "srcs": FN}])
prop("C19", modules=[{"spec": "angles.cpp", "srcs": FN, "flags": ["-DFOURIER=1"]}])
prop("C20", modules=[{"spec": "angles.cpp", "srcs": FN, "flags": ["-DLU=1"]}])
prop("C21", modules=[{"spec": "pnebi.cpp", "srcs": FN}])
MS = {"model": True, "support": ["support.cpp", "strinst.cpp"]}
prop("C22", modules=[{"spec": "params.cpp", "srcs": ["common/src/param_map.cpp"], **MS}])
prop("C23", modules=[{"spec": "profiler.cpp", "srcs": ["common/src/profiler.cpp"], **MS}])
prop("C24", modules=[{"spec": "profiler.cpp", "srcs": ["common/src/profiler.cpp"], "flags": ["-DTIMER=1"], **MS}])
prop("C34", macros=True, modules=[{"spec": "macros.cpp", "srcs": [], **MS}])
TR = ["common/src/morton_tree.cpp", "common/src/bit_manip.cpp"]
prop("C14", modules=[{"spec": "tree.cpp", "srcs": TR}, {"spec": "tree.cpp", "srcs": TR, "flags": ["-DTREE_T=float"]}, {"spec": "tree.cpp", "srcs": TR, "flags": ["-DTREE_D=3"]}])
prop("C32", modules=[{"spec": "tls.cpp", "srcs": [], **MS}])
prop("C35", modules=[{"spec": "vecarray.cpp", "srcs": []}])
prop("C29", modules=[{"spec": "gis.cpp", "srcs": ["geometry/src/gis.cpp"]}])
prop("C37", modules=[{"spec": "geo2.cpp", "srcs": ["geometry/src/base_geometry2.cpp"]}])
prop("C27", modules=[{"spec": "houghp.cpp", "srcs": ["geometry/src/hough_plane_detector.cpp", "common/src/profiler.cpp"], **MS}])
prop("C30", modules=[{"spec": "boxreg.cpp", "srcs": [], **MS}])
prop("C31", modules=[{"spec": "corrgraph.cpp", "srcs": ["geometry/src/correspondence_graph_association.cpp", "common/src/label_set.cpp"], **MS}])
import rules
prop("C25", modules=[{"spec": "io.cpp", "srcs": ["common/src/io.cpp"], **MS}])
prop("C26", rules=[rules.headers])
prop("C28", modules=[{"spec": "houghl.cpp", "srcs": ["geometry/src/hough_line_detector.cpp"], **MS}])
PC = ["-U__SSE__", "-U__SSE2__", "-U__AVX__"]
for d in sorted(__import__("glob").glob("/usr/include/pcl-*")):
    PC += ["-isystem", d]
prop("C33", modules=[{"spec": "pcl.cpp", "srcs": [], "flags": PC, "support": ["support.cpp", "strinst.cpp"]}])
