"""What each check runs: driver features, widths, generators, model slices."""
import gen as G
import gen2 as G2
import cexpr

QUICK = [(64, 96), (32, 96), (96, 64), (384, 544), (96, 160), (128, 96), (160, 128), (192, 320), (224, 256), (256, 512), (320, 192), (512, 256), (1024, 768), (2048, 1024)]
THOROUGH = QUICK + [(64, 32), (32, 64), (128, 32), (768, 1536), (4096, 2048), (288, 96), (416, 384), (96, 128), (544, 32 * 33)]
# number-theory loops cost more at large widths
SMALL = [p for p in QUICK if max(p) <= 1024]

ASSUME = ["the driver records what the public interface shows (getBlock, sign queries)",
          "TLC and the Java overrides of BigNat (checked against the TLA+ definitions by spec/BigNatCheck)",
          "calls stay inside the documented domain (spec/AesiSem.tla, Pre)"]

FLAGS = {
    "C01": ["F_UADD"], "C02": ["F_UMUL"], "C03": ["F_UDIV"], "C04": ["F_UBIT"], "C05": ["F_USHIFT"], "C06": ["F_UCMP"],
    "C07": ["F_SADD"], "C08": ["F_SMUL"], "C09": ["F_SDIV"], "C10": ["F_SCMP"],
    "C11": ["F_SADD", "F_SMUL", "F_SDIV", "F_SCMP", "F_ROOT", "F_QUERY", "F_INTS", "F_CASTS", "F_PARSE", "F_STREAM"],
    "C12": ["F_GCD"], "C13": ["F_POWM"], "C14": ["F_ROOT"], "C15": ["F_ACCESS"], "C16": ["F_QUERY"],
    "C17": ["F_PARSE"], "C18": ["F_STREAM"], "C19": ["F_GSTR"], "C20": ["F_FMT"], "C21": ["F_BIN"],
    "C22": ["F_INTS"], "C23": ["F_CASTS"], "C26": ["F_GMP"],
}


ALL = ["F_UADD", "F_UMUL", "F_UDIV", "F_UBIT", "F_USHIFT", "F_UCMP", "F_SADD", "F_SMUL", "F_SDIV", "F_SCMP", "F_GCD", "F_POWM", "F_ROOT",
       "F_ACCESS", "F_QUERY", "F_INTS", "F_CASTS"]
FLAGS["C24"] = ALL + ["F_PARSE", "F_STREAM", "F_GSTR", "F_FMT", "F_BIN"]


def generate(name, N, M, seed, scale):
    g = G2.Gen2(N, M, "%s/%s" % (name, seed), scale)
    getattr(g, name)()
    return g.lines


# the driver built in other ways: under sanitizers and with assertions (a report or failure is a crash event), by
# another compiler, optimised
VARIANTS = {
    "san": ["-DSANITIZED", "-g1", "-fsanitize=address,undefined", "-fsanitize-trap=undefined"],
    "clang": ["clang++", "-O2"],
    "o3": ["-O3"],
}
BUILDS = [(96, 160, "san", 0.35), (32, 64, "san", 0.2), (64, 96, "clang", 0.3), (160, 128, "clang", 0.5), (256, 512, "o3", 0.5)]
HUGE = [(8224, 8192, 0.12)]      # 257 and 256 blocks


def job(prop, n, m, seed, scale, variant=""):
    tag = "%s-%d-%d" % (prop, n, m) + ("-" + variant if variant else "")
    return {"tag": tag, "N": n, "M": m, "seed": "%s%s" % (seed, variant), "scale": scale, "gen": prop.lower(),
            "defs": ["N=%d" % n, "M=%d" % m] + FLAGS[prop] + (["NDEBUG"] if variant != "san" else []), "extra": VARIANTS.get(variant, [])}


def trace_jobs(prop, widths=None, scale=2.0, tscale=4.0, builds=BUILDS, huge=HUGE):
    def jobs(tier, seed):
        ws = widths or QUICK
        sc = scale
        if tier == "thorough":
            ws = ws + [p for p in THOROUGH if p not in ws and (ws is not SMALL or max(p) <= 1600)]
            sc = scale * tscale
        return ([job(prop, n, m, seed, sc) for n, m in ws] + [job(prop, n, m, seed, sc * f, v) for n, m, v, f in builds] +
                [job(prop, n, m, seed, sc * f) for n, m, f in huge])
    return jobs


PLANS = {}
for _p in FLAGS:
    PLANS[_p] = {"jobs": trace_jobs(_p), "spec": "AesiTrace.tla", "cfg": "AesiTrace.cfg"}
PLANS["C11"]["cfg"] = "AesiTraceZero.cfg"
PLANS["C24"] = {"jobs": trace_jobs("C24", [(64, 96), (96, 160), (160, 128), (256, 512), (1024, 768)], scale=1.0, builds=BUILDS[:1] + BUILDS[3:]), "spec": "AesiPure.tla", "cfg": "AesiPure.cfg"}
PLANS["C25"] = {"jobs": lambda tier, seed: [], "spec": "AesiPure.tla", "cfg": "AesiPure.cfg",
                "post": cexpr.post(lambda tier: [(64, 96, 2.0), (96, 160, 4.0), (128, 96, 3.0), (160, 128, 2.0), (256, 192, 1.0), (512, 256, 0.5), (1024, 768, 0.5)] if tier == "quick" else
                                   [(32, 64, 4.0), (64, 32, 6.0), (96, 160, 10.0), (128, 96, 10.0), (160, 128, 8.0), (192, 320, 4.0), (256, 192, 4.0), (512, 256, 1.5), (1024, 768, 1.5), (2048, 1024, 0.5)], ALL)}


def model_cfg(group, N, M, live, textlen=2):
    return {"spec": "AesiModel.tla", "workers": 4,
            "cfg": "SPECIFICATION Spec\nCONSTANTS N = %d\n M = %d\n Group = \"%s\"\n Live = {%s}\n TextLen = %d\n"
                   "INVARIANTS Canonical Property\nCHECK_DEADLOCK FALSE\n" % (N, M, group, live, textlen)}


# group: quick and thorough (N, M, live registers[, text length])
_M = {
    "C01": ([(3, 5, "0,1")], [(4, 6, "0,1"), (5, 6, "0,1"), (3, 4, "0,1,2")]),
    "C02": ([(3, 5, "0,1")], [(4, 6, "0,1"), (6, 7, "0,1"), (3, 4, "0,1,2")]),
    "C03": ([(3, 5, "0,1,2")], [(5, 6, "0,1"), (3, 4, "0,1,2")]),
    "C04": ([(3, 5, "0,1")], [(5, 6, "0,1")]),
    "C05": ([(5, 6, "0,1")], [(8, 10, "0,1"), (12, 14, "0")]),
    "C06": ([(4, 6, "0,8"), (4, 3, "0,8")], [(4, 6, "0,1,8"), (6, 4, "0,8")]),
    "C07": ([(3, 5, "4,5")], [(4, 6, "4,5"), (2, 3, "4,5,6")]),
    "C08": ([(3, 5, "4,5")], [(4, 6, "4,5"), (2, 3, "4,5,6")]),
    "C09": ([(3, 5, "4,5")], [(4, 6, "4,5"), (2, 3, "4,5,6")]),
    "C10": ([(3, 4, "4,10"), (3, 2, "4,10")], [(4, 5, "4,10"), (4, 3, "4,5,10")]),
    "C11": ([(3, 2, "4,5,10")], [(4, 2, "4,5,10"), (2, 3, "4,5,6,10")]),
    "C12": ([(3, 4, "0,1,2")], [(4, 6, "0,1,2")]),
    "C13": ([(3, 4, "0,1,8")], [(4, 6, "0,1,8")]),
    "C14": ([(4, 6, "0,4"), (6, 8, "0")], [(6, 6, "0,4"), (9, 10, "0"), (9, 10, "4")]),
    "C15": ([(4, 6, "0,4")], [(6, 8, "0,4"), (8, 10, "0")]),
    "C16": ([(4, 6, "0,4")], [(6, 8, "0,4"), (10, 12, "0"), (10, 12, "4")]),
    "C17": ([(4, 6, "0,4", 2)], [(4, 6, "0", 4), (4, 6, "4", 4), (6, 8, "0,4", 3)]),
    "C18": ([(4, 6, "0,4")], [(4, 6, "0,1,4"), (8, 9, "0"), (8, 9, "4")]),
    "C19": ([(4, 6, "0,4")], [(8, 9, "0"), (8, 9, "4")]),
    "C20": ([(3, 4, "0,4")], [(4, 6, "0,4")]),
    "C21": ([(4, 6, "0,1")], [(6, 8, "0"), (8, 10, "0")]),
    "C22": ([(4, 6, "0,4")], [(6, 8, "0,4")]),
    "C23": ([(4, 2, "0,4,8,10"), (2, 4, "0,4,8,10")], [(4, 2, "0,1,4,8,10"), (4, 6, "0,4,10"), (4, 6, "0,8")]),
    "C24": ([(2, 4, "0,1,2"), (2, 4, "4,5,6")], [(3, 4, "0,1,2"), (2, 4, "4,5,6"), (3, 4, "4,5")]),
    "C26": ([(4, 6, "0,4")], [(5, 6, "0,4")]),
}
MODEL = {g: {t: [("%s-%d-%d-%s" % (g, a[0], a[1], a[2].replace(",", "")), model_cfg(g, *a)) for a in v]
             for t, v in (("quick", q), ("thorough", th))} for g, (q, th) in _M.items()}
MODEL["C25"] = {"quick": [("C24for25", model_cfg("C24", 2, 4, "0,1,2"))]}
