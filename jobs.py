KINDS = []
import os
for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness/spec.tsv")):
    c = l.rstrip("\n").split("\t")
    if len(c) > 5 and c[0] not in KINDS + ["GameData", "Material"]: KINDS.append(c[0])
def j(id, func, *params, reach=(1,), **opts):
    return dict(id=id, func=func, params=list(params), opts=opts, reach=list(reach))
def items(tier, mode=0):
    r = []
    for i, k in enumerate(KINDS):
        for n in ((0, 1, 2, 12) if tier == "quick" else (0, 1, 2, 3, 4, 12, 40)): r.append(j(f"full_{k}_{n}", "h_gi_full", i, n, mode))
        r.append(j(f"absent_{k}", "h_gi_absent", i, 0, mode))
        for n in ((0, 1, 2, 300) if tier == "quick" else (0, 1, 2, 3, 40, 300)): r.append(j(f"text_{k}_{n}", "h_gi_text", i, n, mode))
        r.append(j(f"texts_{k}", "h_gi_texts", i, 0, mode))
        r.append(j(f"enum_{k}", "h_gi_enum", i, 0, mode))
        if mode == 0: r.append(j(f"unknown_{k}", "h_gi_unknown", i))
    for k in ("TextBox", "Decal"): r.append(j(f"font_{k}", "h_gi_font", KINDS.index(k), 0, mode))
    r.append(j("long_Timer", "h_gi_text", KINDS.index("Timer"), 70000, mode))
    r.append(j("big_Primitive", "h_gi_full", KINDS.index("Primitive"), 1, mode, 70000))
    return r
def gamedata(tier, mode=0):
    r = []
    for e in (0, 1, 2):
        for n in ((0, 2) if tier == "quick" else (0, 1, 2, 3, 4)): r.append(j(f"gd_full_{e}_{n}", "h_gd_full", n, e, mode))
        r.append(j(f"gd_absent_{e}", "h_gd_absent", 1, e, mode))
        for n in ((0, 2, 100) if tier == "quick" else (0, 1, 2, 3, 100)): r.append(j(f"gd_text_{e}_{n}", "h_gd_text", 2 if n == 100 else 1, e, mode, 0, 0, n))
        r.append(j(f"gd_enum_{e}", "h_gd_enum", 1, e, mode))
        if mode == 0: r.append(j(f"gd_unknown_{e}", "h_gd_unknown", 1, e))
    if mode == 0:
        for n, w in ((0, 0), (1, 0), (2, 0), (1, 1), (2, 1), (2, 3), (3, 2), (1, 19), (1, 20), (1, 255), (2, 255), (300, 0), (70000, 0)): r.append(j(f"gd_code_{n}_{w}", "h_gd_code", 0, 2, 0, n, w))
    for k, p in ((0, 0), (1, 0), (1, 2), (2, 0), (3, 0)): r.append(j(f"material_{k}_{p}", "h_gd_material", k, p, mode))
    return r
def accessors(tier):
    r = []
    for i, k in enumerate(KINDS):
        r.append(j(f"acc_full_{k}", "h_acc_item", i, 0))
        r.append(j(f"acc_absent_{k}", "h_acc_item", i, 1))
        for n in ((0, 1) if tier == "quick" else (0, 1, 2, 3)): r.append(j(f"acc_text_{k}_{n}", "h_acc_item", i, 2, n))
    for n in range(1, 5 if tier == "quick" else 6): r.append(j(f"acc_order_{n}", "h_acc_order", n, n))
    return r
def q(tier, a, b): return a if tier == "quick" else b
SCEN = lambda t: ([(0, n, o) for n, o in q(t, ((0, 0), (1, 3), (12, 0), (11, 11)), ((0, 0), (1, 3), (2, 7), (12, 0), (11, 11), (24, 5), (101, 1)))] +
    [(1, n, o) for n, o in q(t, ((1, 0), (3, 1), (11, 0)), ((1, 0), (2, 0), (3, 1), (3, 2), (11, 0), (14, 2), (101, 0)))] +
    [(2, n, o) for n, o in q(t, ((1, 0), (3, 1), (11, 1)), ((1, 0), (2, 0), (3, 1), (11, 1), (12, 0), (101, 1)))] +
    [(3, n, o) for n, o in q(t, ((0, 1), (2, 2), (11, 12)), ((0, 1), (1, 0), (2, 2), (11, 12), (4, 30)))] +
    [(4, n) for n in q(t, (0, 1, 5000), (0, 1, 2, 300, 5000))] + [(5, n) for n in q(t, (0, 3), (0, 1, 3, 8))] + [(8, n) for n in q(t, (1, 3), (1, 2, 3, 4, 5))] +
    [(9, n, k) for n, k in ((0, 1), (0, 2))] + [(6, n, k) for n, k in q(t, ((0, 1), (2, 3), (70000, 0)), ((0, 1), (1, 2), (2, 3), (3, 0), (4, 1), (5000, 1), (70000, 0)))] +
    [(7, n, k) for n, k in q(t, ((1, 0), (5000, 0), (70000, 0)), ((1, 0), (61, 1), (4090, 0), (4096, 1), (5000, 0), (20000, 1), (70000, 0)))])
def scen(tier, func, keep=lambda p: True): return [j(func[2:] + "_" + "_".join(map(str, p)), func, *p, secs=q(tier, 100, 400)) for p in SCEN(tier) if keep(p)]
def files(tier): return scen(tier, "h_file_write") + scen(tier, "h_file_read") + scen(tier, "h_file_parts", lambda p: p[0] == 7 or p[1] in (11, 12)) + [j("minimal", "h_file_minimal")]
def macs(tier): return scen(tier, "h_file_mac") + [j("minimal", "h_file_minimal")]
def edits(tier): return [j("edit_" + "_".join(map(str, p)), "h_file_edit", *p, secs=q(tier, 100, 600)) for p in q(tier, ((7, 1, 0, 1), (7, 1, 1, 2), (6, 1, 1, 3), (0, 2, 5, 2), (7, 5000, 1, 1)), ((7, 1, 0, 1), (7, 1, 1, 2), (6, 1, 1, 3), (6, 1, 1, 4), (0, 2, 5, 2), (7, 5000, 1, 2), (3, 1, 3, 3)))]
def images(tier):
    r = [j("img_none", "h_img", 0, 0, 0, 0)]
    for n in q(tier, (0, 1, 5, 8, 70000), (0, 1, 2, 3, 5, 8, 12, 40, 300, 70000)): r.append(j(f"img_jpeg_{n}", "h_img", 1, n, 0, 0))
    for k, n in ((0, 0), (1, 2), (2, 3)): r.append(j(f"img_texts_{k}", "h_img", k, n, 7, 0))
    for b in q(tier, (1, 4, 5, 8, 12, 53, 9), (1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 22, 53, 35, 88, 99, 19, 9)): r.append(j(f"img_bits_{b}", "h_img", 2, b, 0, 0, secs=q(tier, 100, 400)))
    for w in range(1, 7):
        for n in q(tier, (0, 2, 300), (0, 1, 2, 3, 40, 300)): r.append(j(f"img_text_{w}_{n}", "h_img", 1, 2, w, n))
    return r + [j(f"img_unknown_{k}", "h_img_unknown", k) for k in range(3)]
def sounds(tier):
    r = []
    for new in (0, 1):
        for p in (0, 1, 2, 7): 
            for d in q(tier, (0, 3), (0, 1, 3, 20)) + ((70000,) if p == 0 else ()): r.append(j(f"snd_{new}_{p}_{d}", "h_snd", new, p, 0, d))
        for p, n in q(tier, ((3, 0), (3, 3), (4, 1), (4, 3), (5, 2), (6, 0), (6, 1), (6, 2)), ((3, 0), (3, 1), (3, 2), (3, 3), (3, 4), (4, 1), (4, 2), (4, 3), (4, 4), (4, 5), (5, 0), (5, 2), (5, 3), (6, 0), (6, 1), (6, 2), (6, 3))): r.append(j(f"snd_{new}_{p}_t{n}", "h_snd", new, p, n, 2, secs=q(tier, 100, 400)))
    for k, n, pcm in q(tier, ((0, 0, 1), (0, 4, 1), (0, 3, 0), (1, 3, 0), (1, 0, 0)), ((0, 0, 1), (0, 1, 1), (0, 4, 1), (0, 40, 1), (0, 0, 0), (0, 3, 0), (0, 40, 0), (1, 3, 0), (1, 0, 0))): r.append(j(f"file_{k}_{n}_{pcm}", "h_snd_file", k, n, pcm))
    return r
def small(tier):
    r = []
    for m, ns in ((0, (0,)), (1, q(tier, (0, 1, 2, 300), (0, 1, 2, 3, 40, 300))), (2, q(tier, (0, 2, 300), (0, 1, 2, 3, 40, 300))), (3, (0,))):
        for n in ns:
            for d in (0, 5, 70000) if m == 0 else (0, 5): r.append(j(f"font_{m}_{n}_{d}", "h_font", m, n, d))
    for n in range(0, 4):
        for w in range(0, n + 1):
            for t in q(tier, (0, 1, 300), (0, 1, 2, 300)): r.append(j(f"coll_{n}_{w}_{t}", "h_coll", n, w, t, 0))
        r.append(j(f"coll_{n}_alike", "h_coll", n, 0, 1, 2))
        r.append(j(f"coll_{n}_unknown", "h_coll", n, 0, 1, 1))
    for n, t in q(tier, ((1, 0), (1, 2), (3, 1), (1, 300), (40, 1)), ((1, 0), (1, 300), (40, 1), (1, 2), (1, 3), (2, 2), (3, 1), (12, 1))): r.append(j(f"tags_{n}_{t}", "h_tags", n, t))
    return r
def json_(tier):
    r = [j("color", "h_json_color")] + [j(f"float_{m}", "h_json_float", m) for m in range(3)]
    r += [j(f"floattext_{n}", "h_json_float_text", n) for n in q(tier, (1, 6, 7, 8), (0, 1, 2, 3, 5, 6, 7, 8, 9, 10))] + [j(f"colortext_{n}", "h_json_color_text", n) for n in q(tier, (4, 5, 6), (0, 1, 2, 3, 4, 5, 6, 7))]
    for m in range(6):
        for e in q(tier, (1,) if m else (0, 1, 2), (0, 1, 2)):
            for n in q(tier, (1, 0) if m == 3 else (1,), (0, 1, 2, 3) if m == 3 else (1,)): r.append(j(f"jgd_{e}_{m}_{n}", "h_json_gd", q(tier, 1, 2), e, m, 0, 0, n, secs=q(tier, 150, 800)))
    for m in range(4): r += [j(f"jmat_{m}_{n}", "h_json_material", m, n) for n in q(tier, (1, 0) if m == 2 else (1,), (0, 1, 2, 3) if m == 2 else (1,))]
    for i, k in enumerate(KINDS):
        for m in range(6):
            for n in ((0, 1) if m == 0 else q(tier, (0, 1), (0, 1, 2, 3)) if m == 3 else (1,)): r.append(j(f"json_{k}_{m}_{n}", "h_json_item", i, n if m == 0 else q(tier, 1, 2), m, n))
    for k in range(3):
        for w in range(9):
            for n in q(tier, (1,), (0, 1, 2)) if 0 < w < 7 else (0,): r.append(j(f"jimg_{k}_{w}_{n}", "h_json_image", k, w, n))
    for w in range(3):
        for n in q(tier, (0, 1), (0, 1, 2, 3)): r.append(j(f"jsnd_{w}_{n}", "h_json_sound", w, n))
    for n, t in q(tier, ((0, 0), (2, 1)), ((0, 0), (1, 1), (2, 1), (3, 2))): r.append(j(f"jcoll_{n}_{t}", "h_json_coll", n, t))
    for m, n, t in q(tier, ((0, 1, 1), (1, 1, 2), (1, 0, 0)), ((0, 1, 1), (1, 1, 2), (1, 0, 0), (1, 2, 1), (1, 3, 0))): r.append(j(f"jinfo_{m}_{n}_{t}", "h_json_info", m, n, t))
    return r
def meshes(tier):
    r = []
    S = dict(secs=q(tier, 100, 800), samples=2)
    for f in range(3):
        for k in range(8): r.append(j(f"mval_{f}_{k}", "h_mesh_value", f, q(tier, 1 + k % 2, 3), k, **S))
        for k in (0, 3, 4, 5, 9) if tier == "quick" else (0, 1, 2, 3, 4, 5, 9): r.append(j(f"mframes_{f}_{k}", "h_mesh_frames", f, 1 if k < 6 and tier == "quick" else 2, k, **S))
        r.append(j(f"mframes_{f}_many", "h_mesh_frames", f, 11, 9, **S))
        for n, m in q(tier, ((2, 2) if f == 0 else (5, 3), (1, 0)), ((3, 2) if f == 0 else (5, 8), (1, 0))): r.append(j(f"mfaces_{f}_{n}_{m}", "h_mesh_faces", f, n, m, **S))
        for w, o in q(tier, ((0, 3), (1, 1), (2, 1), (3, 0), (4, 2)), tuple((w, o) for w in range(5) for o in range(4))): r.append(j(f"mnames_{f}_{w}_{o}", "h_mesh_names", f, w, o, **S))
        if f:
            r.append(j(f"muv_{f}", "h_mesh_bits", f, q(tier, 2, 6), 0, **S))
            for k in q(tier, (0, 11), range(12)): r.append(j(f"mnormal_{f}_{k}", "h_mesh_bits", f, 1, 1, k, **S))
        for n in (256, 257): r.append(j(f"mmany_{f}_{n}", "h_mesh_many", f, n, **S))
        if tier != "quick" and f: r += [j(f"mmany_{f}_{n}", "h_mesh_many", f, n, secs=850, samples=1) for n in (65535, 65536)]
    return r
def expanded(tier):
    a = q(tier, 1, 0)  # names below 128, or latin1
    P = lambda *p: list(p) + [0] * (7 - len(p)) + [a]
    S = dict(secs=q(tier, 100, 400), samples=3)
    r = [j("xlink", "h_exp_link", **S)]
    for n in q(tier, (12, 60), (12, 60, 300)): r.append(j(f"xmany_{n}", "h_exp_many", n, **S))
    r += [j("xitems_8", "h_exp_items", *P(8, KINDS.index("Light")), **S)]
    for m in range(8):
        r.append(j(f"ximages_{m}", "h_exp_images", *P(m), **S))
        for k in q(tier, (0,), (0, 1)): r.append(j(f"xsounds_{m}_{k}", "h_exp_sounds", *P(m, k), **S))
        r.append(j(f"xfonts_{m}", "h_exp_fonts", *P(m), **S))
        for k in q(tier, (KINDS.index("Light"),), range(len(KINDS))): r.append(j(f"xitems_{m}_{KINDS[k]}", "h_exp_items", *P(m, k), **S))
    for sh in range(4):
        for n in q(tier, (0, 1) if sh in (0, 3) else (0,), (0, 1)):
            for f in ("image", "sound", "font"): r.append(j(f"x{f}path_{sh}_{n}", f"h_exp_{f}_path", *P(sh, n), **S))
    for i, k in enumerate(KINDS):
        for m in (0, 1, 3): r.append(j(f"xitem_{k}_{m}", "h_exp_item", *P(i, m), **S))
        if tier != "quick" or k in ("Light", "Decal"): r.append(j(f"xitem_{k}_2", "h_exp_item", *P(i, 2), **S))
    for p in q(tier, ((0, 0), (1, 0), (1, 3), (1, 1, 1), (1, 2, 1), (1, 60000, 2), (2, 0), (2, 3), (3, 0), (3, 2), (5, 0), (5, 3, 0), (5, 1, 1), (6, 2), (7, 3), (8, 1, 0)),
        ((0, 0), (1, 0), (1, 3), (1, 9), (1, 1, 1), (1, 2, 1), (1, 60000, 2), (2, 0), (2, 3), (2, 40), (3, 0), (3, 1), (3, 2), (3, 3), (5, 0), (5, 1, 1), (5, 2, 0), (5, 3, 0), (5, 2, 1), (6, 2), (6, 3), (7, 3), (7, 5)) + tuple((8, 1, i) for i in range(11))):
        r.append(j("xrest_" + "_".join(map(str, p)), "h_exp_rest", *P(*p), **S))
    return r
def disk(tier):
    r = []
    S = dict(secs=q(tier, 150, 800), qtimeout=20, samples=2, viol=3)
    shapes = ((0, 0), (1, 5000)) if tier != "quick" else ((1, 600),)
    # which calls fail: none, one of them, one and all later ones, none but short transfers, writes from one on
    for k in range(5):
        for op in range(9):
            for s, n in shapes: r.append(j(f"disk_{op}_{k}_{s}", "h_fs", op, k, s, n, **S))
        for op in (0, 1):
            for c, m in ((0, 0), (1, 0), (2, 0), (2, 1), (2, 2)): r.append(j(f"dir_{op}_{k}_{c}_{m}", "h_fs_dir", op, k, c, m, **S))
    return r
def bitmaps(tier):
    S = dict(secs=q(tier, 100, 600), samples=3)
    r = [j("lzw_free", "h_lzw", q(tier, 8, 11), 0, q(tier, 8, 11), **S), j("lzw_any", "h_lzw_any", 6, 1, **S), j("size", "h_img_size", **S), j("transparent", "h_transparent", **S)]
    for n, m in q(tier, ((0, 0), (1, 1), (252, 1), (253, 1), (254, 1), (255, 4), (600, 0), (600, 1), (3000, 1), (3000, 3), (9000, 3), (6000, 2)),
        tuple((n, m) for n in (0, 1, 2, 100, 224, 225, 226, 227, 228, 252, 253, 254, 255, 256, 500, 600, 3000, 4000, 9000) for m in range(5)) + ((40000, 3), (40000, 2), (40000, 0))):
        r.append(j(f"lzw_{n}_{m}", "h_lzw", n, m, min(n, 2), **S))
    for p in q(tier, ((2, 3, 4, 4, 0, 0, 0), (2, 3, 4, 4, 1, 0, 0), (3, 3, 4, 4, 1, 1, 1), (31, 33, 1, 2, 0, 1, 0), (31, 33, 1, 2, 1, 1, 1), (31, 33, 1, 0, 1, 0, 0), (1, 1, 4, 4, 1, 0, 0)),
        tuple((w, h, m, 3, f, a, o) for w, h in ((1, 1), (2, 3), (3, 3), (5, 1), (31, 33), (64, 300)) for m in (1, 4) for f in (0, 1) for a in (0, 1) for o in (0, 1))):
        r.append(j("bmp_" + "_".join(map(str, p)), "h_bmp", *p, **S))
    return r
def changes(tier):
    S = dict(secs=q(tier, 100, 800), samples=4)
    return [j(f"change_{n}", "h_edit_table", n, **S) for n in q(tier, (1, 2), (1, 2, 3))] + [j(f"webp_{n}", "h_edit_webp", n, **S) for n in q(tier, (1, 2), (1, 2, 3))]
PROPS = {
  "P07": dict(jobs=bitmaps), "P17": dict(jobs=changes),
  "P14": dict(jobs=disk),
  "P11": dict(jobs=expanded),
  "P12": dict(jobs=json_),
  "P13": dict(jobs=meshes),
  "P05": dict(jobs=files), "P06": dict(jobs=images), "P08": dict(jobs=sounds), "P09": dict(jobs=small), "P10": dict(jobs=macs), "P16": dict(jobs=edits),
  "P03": dict(jobs=accessors),
  "P02": dict(jobs=lambda t: items(t, 1) + gamedata(t, 1)),
  "P04": dict(jobs=gamedata),
  "P01": dict(jobs=items, bounds="", assumptions=[]),
}
