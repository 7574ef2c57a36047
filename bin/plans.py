"""What each property's check runs: drivers (real code), trace specifications
that judge the recordings, and design models."""

SIGMA = ["gspfs", "eq", "disj", "cons", "abc"]


def D(driver, *args, judge, **kw):
    j = {"driver": driver, "args": list(args), "judge": judge}
    j.update(kw)
    return j


PLANS = {}


def plan(f):
    PLANS[f.__name__] = f
    return f


def mix(envs, specs, judge):
    """Several drivers in one process, interleaved, over several curves and generators."""
    return D("mix", *[s % e for e in envs for s in specs], judge=judge)


@plan
def C01(r):
    t = r.thorough
    J = [("SigmaTrace", "complete")]
    d = []
    n = 240 if t else 30
    for k in SIGMA + ["ineq"]:
        d.append(D("prove", "secp", k, n, "true", judge=J))
        for e in ["secp-swap", "secp-custom", "secp-negh", "p224", "p256", "p384", "p521", "toy251", "toy31"]:
            d.append(D("prove", e, k, max(8, n // 3), "true", judge=J))
        d += [D("bulk", "secp", k, 20000 if t else 2500, i, judge=J) for i in range(2)]
        d.append(D("bulk", "toy101", k, 60000 if t else 4000, judge=J))
    for e in ["secp", "secp-swap", "secp-custom", "p224", "p256", "p384", "p521"]:
        d.append(D("prove", e, "range", (60 if t else 6) * (3 if e == "secp" else 1), "true", judge=J))
    for k in SIGMA:
        for g, h in ([(1, 2), (2, 1), (1, 1)] if t else [(1, 2)]):
            d.append(D("toyprove", "toy3", k, g, h, 100000, 100000, judge=J))
        d.append(D("toyprove", "toy7", k, 3, 5, 40000 if t else 300, 20000 if t else 400, judge=J))
        d.append(D("toyprove", "toy13", k, 5, 7, 4000 if t else 100, 5000 if t else 200, judge=J))
    d.append(mix(["secp", "secp-swap", "secp-custom", "secp-custom", "p256", "p256", "toy31", "toy31"], [f"prove:%s:{k}:{80 if t else 8}:true" for k in SIGMA + ["ineq"]], J))
    d.append(mix(["secp", "secp-swap", "secp-custom", "p256", "p256"], [f"prove:%s:range:{20 if t else 2}:true"], J))
    return {"drive": d}


@plan
def C02(r):
    t = r.thorough
    J = [("SigmaTrace", "refuse")]
    d = []
    n = 1500 if t else 120
    for k in SIGMA + ["ineq"]:
        for e in ["secp", "secp-swap", "secp-custom", "p256", "p384", "toy251", "toy31"]:
            d.append(D("prove", e, k, n if e == "secp" else n // 2, "false", judge=J))
    for e in ["secp", "p224", "secp-custom"]:
        d.append(D("prove", e, "range", 60 if t else 20, "false", judge=J))
    for k in SIGMA:
        d.append(D("toyprove", "toy3", k, 1, 2, 100000, 100000, judge=J))
        d.append(D("toyprove", "toy7", k, 3, 5, 100000 if t else 600, 50, judge=J))
        d.append(D("toyprove", "toy13", k, 5, 7, 30000 if t else 300, 20, judge=J))
    d.append(mix(["secp", "secp-swap", "secp-custom", "secp-custom", "p256", "p256", "toy31", "toy31"], [f"prove:%s:{k}:{200 if t else 20}:false" for k in SIGMA + ["ineq"]], J))
    return {"drive": d}


@plan
def C03(r):
    t = r.thorough
    J = [("SigmaTrace", "sound")]
    d = []
    for k in SIGMA:
        d.append(D("forge", "secp", k, 12 if t else 2, 1, judge=J))
        for e in ["secp-custom", "p256", "p384", "toy251", "toy31", "toy13"]:
            if (e, k) != ("p384", "abc"):     # made through its encoding: coordinates of up to 32 bytes
                d.append(D("forge", e, k, 12 if t else 2, 1 if t else 0, judge=J))
        d.append(D("toyver", "toy3", k, 1, 2, 100000, judge=J))
        d.append(D("toyver", "toy3", k, 2, 2, 100000, judge=J))
        if k != "disj":
            d.append(D("toyver", "toy7", k, 2, 3, 4000 if t else 60, judge=J))
    if t:
        d.append(D("toyver", "toy7", "disj", 2, 3, 60, judge=J))
    for e in ["secp", "secp-custom"] + (["p224", "p256"] if t else []):
        d.append(D("rangeforge", e, 12 if t else 2, judge=J, weight=3))
    for e in ["secp", "p256", "toy31"]:
        d.append(D("nilproof", e, judge=J))
    d.append(mix(["secp", "secp-swap", "secp-custom", "p256", "p256"] if t else ["secp-swap", "secp-custom"], [f"forge:%s:{k}:1:0" for k in SIGMA], J))
    d.append(mix(["secp", "secp-swap"], ["rangeforge:%s:1"], J))
    return {"drive": d, "models": [{"module": "MCSigma", "cfg": "MCSigma7.cfg" if t else "MCSigma.cfg", "workers": 4}]}


@plan
def C04(r):
    t = r.thorough
    J = [("SigmaTrace", "bind")]
    d = []
    for k in SIGMA:
        for e in ["secp", "secp-swap", "secp-custom", "p224", "p521", "toy251"]:
            if (e, k) == ("p521", "abc"):     # made through its encoding: coordinates of up to 32 bytes
                continue
            d.append(D("bind", e, k, (40 if t else 5) * (2 if e == "secp" else 1), judge=J))
        d.append(D("toyver", "toy3", k, 1, 2, 100000, judge=J))
        d.append(D("prove", "secp", k, 300 if t else 40, "true", judge=J))
    d.append(D("prove", "secp", "ineq", 300 if t else 40, "true", judge=J))
    return {"drive": d}


@plan
def C05(r):
    t = r.thorough
    J = [("ZkTrace", "zk")]
    S = [("SigmaTrace", "canon")]
    d = []
    for k in SIGMA:
        big = 4 if k == "abc" else 40
        d.append(D("toyzk", "toy3", k, 1, 2, 200 if t else big, 200000, judge=J, weight=20))
        d.append(D("toyzk", "toy3", k, 1, 1, 200 if t else big // 2, 200000, judge=J, weight=20))
        if k != "abc":
            d.append(D("toyzk", "toy7", k, 2, 3, 400 if t else 24, 200000, judge=J, weight=20))
        if k in ("gspfs", "eq", "cons"):
            d.append(D("toyzk", "toy13", k, 2, 7, 200 if t else 12, 200000, judge=J, weight=20))
        for side in (0, 1) if k in ("disj", "abc") else (0, 0) if t else (0,):
            d.append(D("zkfull", k, side, 4200 if t else 640, judge=J))
        d.append(D("prove", "secp", k, 400 if t else 60, "true", judge=S))
        for e in ["p224", "p521"]:
            d.append(D("prove", e, k, 200 if t else 20, "true", judge=S))
    d.append(D("prove", "secp", "ineq", 400 if t else 60, "true", judge=S))
    d.append(D("prove", "secp", "range", 40 if t else 6, "true", judge=S))
    d.append(D("prove", "p224", "range", 20 if t else 3, "true", judge=S))
    d.append(D("zkfull", "range", 0, 200 if t else 48, judge=J))
    return {"drive": d, "models": [{"module": "MCSigma", "cfg": "MCSigma.cfg", "workers": 4}]}


@plan
def C06(r):
    t = r.thorough
    J = [("NonceTrace", "fresh")]
    d = []
    for k in SIGMA + ["ineq", "commit", "key"]:
        d.append(D("nonce", "secp", k, 400 if t else 80, judge=J))
        for e in ["p224", "p521"]:
            d.append(D("nonce", e, k, 200 if t else 70, judge=J))
        d.append(D("nonce", "glass", k, 4000 if t else 640, judge=J))
    d.append(D("nonce", "secp", "range", 40 if t else 6, judge=J))
    d.append(D("nonce", "p224", "range", 20 if t else 3, judge=J))
    d.append(D("nonce", "glass", "range", 100 if t else 40, judge=J))
    for e in ["secp", "p224", "p256", "p384", "p521"]:
        d.append(D("stream", e, 60 if t else 8, judge=J))
    for j in d:     # histories of different curves cannot meet
        if j["args"][0] != "glass":
            j["together"] = j["args"][0]
    return {"drive": d}


@plan
def C07(r):
    t = r.thorough
    J = [("SigmaTrace", "range")]
    d = []
    for e in ["secp", "secp-swap", "secp-custom", "p224", "p256", "p384"]:
        n = (60 if t else 6) * (3 if e == "secp" else 1)
        d.append(D("prove", e, "range", n, "true", judge=J))
        d.append(D("prove", e, "range", 20, "false", judge=J))
        d.append(D("bulk", e, "range", 300 if t else 15, judge=J))
    d.append(D("prove", "secp-h40", "range", 6 if t else 2, "true", judge=J))
    for e in ["secp", "secp-custom", "p256"]:
        d.append(D("rangeforge", e, 16 if t else 2, judge=J))
        d.append(D("nilproof", e, judge=J))
    return {"drive": d}


WIREKINDS = SIGMA + ["range", "point", "int"]


@plan
def C08(r):
    t = r.thorough
    J = [("WireTrace", "x")]
    d = []
    for k in WIREKINDS:
        for e in ["secp", "secp-custom", "p224", "p256"] + (["toy31"] if k != "range" else []):
            n = 4000 if t else 800
            if k == "range":
                n //= 5
            d.append(D("roundtrip", e, k, n if e == "secp" else n // 3, judge=J))
    return {"drive": d, "models": [{"module": "MCWire"}]}


@plan
def C09(r):
    t = r.thorough
    J = [("WireTrace", "x"), ("SigmaTrace", "decoded")]
    d = []
    for k in WIREKINDS:
        for e in ["secp", "p256"] + (["toy31"] if k != "range" else []):
            n = 40 if t else 4
            if k == "range":
                n //= 2
            d.append(D("decode", e, k, n if e == "secp" else n // 2, judge=J))
    for e in ["secp", "p256", "toy31"]:
        d.append(D("nilproof", e, judge=[("SigmaTrace", "sound")]))
    return {"drive": d, "models": [{"module": "MCWire"}]}


@plan
def C10(r):
    t = r.thorough
    J = [("WireTrace", "x")]
    d = [D("varint", 20000 if t else 3000, judge=J), D("wirefail", 300 if t else 30, judge=J)]
    for k in ["point", "int"]:
        d.append(D("decode", "secp", k, 40 if t else 4, judge=J))
    return {"drive": d, "models": [{"module": "MCWire"}]}


ENVS = ["secp", "secp-swap", "secp-custom", "secp-negh", "p224", "p256", "p384", "p521", "toy251", "toy31"]
TWICE = ["p256", "p224", "toy251"]      # once more, with other generators
GT = [("GroupTrace", "x")]


@plan
def C11(r):
    t = r.thorough
    d = [D("commit", e, (600 if t else 120) * (3 if e == "secp" else 1) // 2, judge=GT) for e in ENVS]
    for c, g, h in [("toy3", 1, 2), ("toy7", 3, 5), ("toy13", 5, 7)] + ([("toy31", g, h) for g in (1, 7) for h in (2, 30)] if t else []):
        d.append(D("toylaw", c, g, h, judge=GT))
    d.append(mix(ENVS + TWICE, [f"commit:%s:{60 if t else 12}"], GT))
    return {"drive": d, "models": [{"module": "MCCurve"}]}


@plan
def C12(r):
    t = r.thorough
    d = [D("group", e, (800 if t else 60) * (2 if e == "secp" else 1), judge=GT) for e in ENVS]
    for c, g, h in [("toy3", 1, 2), ("toy7", 3, 5), ("toy13", 5, 7), ("toy31", 7, 11)] + ([("toy31", 1, h) for h in range(1, 31)] if t else []):
        d.append(D("toylaw", c, g, h, judge=GT))
    d.append(mix(["secp", "secp-swap", "secp-custom", "secp-custom"] + TWICE + TWICE, [f"group:%s:{60 if t else 6}"], GT))
    return {"drive": d, "models": [{"module": "MCCurve"}]}


@plan
def C13(r):
    t = r.thorough
    d = [D("params", 140 if t else 14, judge=GT), D("tables", judge=GT)]
    for e in ["secp"]:
        d.append(D("group", e, 400 if t else 40, judge=GT))
    return {"drive": d, "models": [{"module": "MCBigNat"}]}


@plan
def C19(r):
    t = r.thorough
    d = [D("koblitz", 6000 if t else 700, i, judge=GT) for i in range(8)]
    d += [D("walk", 60000 if t else 10000, i, judge=GT) for i in range(8)]
    d.append(D("tables", judge=GT))
    return {"drive": d, "models": [{"module": "MCCurve"}, {"module": "MCBigNat"}]}


ST = [("SigTrace", "x")]


@plan
def C20(r):
    t = r.thorough
    d = [D("sign", 1000 if t else 150, i, judge=ST) for i in range(6)]
    return {"drive": d, "models": [{"module": "MCSig"}]}


@plan
def C21(r):
    t = r.thorough
    d = [D("parse", 600 if t else 100, "pub", i, judge=ST) for i in range(3)]
    d += [D("parse", 3000 if t else 500, "sig", i, judge=ST) for i in range(4)]
    return {"drive": d, "models": [{"module": "MCSig"}]}


@plan
def C22(r):
    t = r.thorough
    d = [D("cipher", 300 if t else 40, i, judge=ST) for i in range(6)]
    return {"drive": d, "models": [{"module": "MCSig"}]}


@plan
def C16(r):
    t = r.thorough
    J = [("EntropyTrace", "x")]
    d = []
    for e in ["secp", "p224", "p521"]:
        d.append(D("entropy", e, "all", 1 if t else 5, judge=J))
        d.append(D("entropy", e, "range", 1 if t else 20, judge=J))
    return {"drive": d, "models": [{"module": "Entropy"}]}


@plan
def C17(r):
    t = r.thorough
    J = [("SigmaTrace", "range")]
    n = 400 if t else 48
    gen = [{"name": "sched", "module": "RangePar", "cfg": "RangeSched.cfg", "num": 200 if t else 40}]
    b = r.behaviours("sched")
    d = [D("par", e, n, b, judge=J) for e in ["p256", "p224", "secp-custom", "secp"]]
    d.append(D("par", "p256", n // 3, b, judge=J, race=True))
    d.append(D("par", "secp", n // 3, b, judge=J, race=True))
    return {"drive": d, "generate": gen, "models": [{"module": "RangePar", "cfg": "RangeParT.cfg" if t else "RangePar.cfg"}],
            "proofs": ["RangeWorkProofs"] if t else []}


@plan
def C14(r):
    t = r.thorough
    J = [("FrameTrace", "x")]
    d = []
    for e in ENVS:
        k = (12 if t else 1) * (2 if e == "secp" else 1)
        d.append(D("frame", e, 90 * k, "proofs", judge=J))
        d.append(D("frame", e, 60 * k, "points", judge=J))
        if not e.startswith("toy"):
            d.append(D("frame", e, 5 * k, "range", judge=J))
    d.append(D("frame", "secp", 1000 if t else 100, "wire", judge=J))
    for i in range(3):
        d.append(D("frame", "secp", 600 if t else 60, "keys", i, judge=J))
        d.append(D("frame", "secp", 600 if t else 60, "curve", i, judge=J))
    return {"drive": d, "models": [{"module": "MCFrame"}]}


@plan
def C15(r):
    t = r.thorough
    d = []
    F, S, N = [("FrameTrace", "x")], [("SigmaTrace", "complete"), ("SigmaTrace", "refuse")], [("NonceTrace", "fresh")]
    for i in range(4 if t else 1):
        for e in ["secp", "p256", "secp-custom", "toy31"]:
            d.append(D("conc", e, "pure", 70 if t else 14, 8, i, judge=F))
            d.append(D("conc", e, "prove", 70 if t else 14, 6, i, judge=S))
        # races: the shared objects and the first calls of a process
        for e in ["secp", "p224"]:
            d.append(D("conc", e, "pure", 28 if t else 7, 6, 10 + i, judge=F, race=True))
            d.append(D("conc", e, "prove", 28 if t else 14, 6, 10 + i, judge=S, race=True))
        d.append(D("conc", "secp", "nonce", 35 if t else 14, 6, i, judge=N))
        d.append(D("hold", r.behaviours("free"), 6 if t else 2, i, judge=[("BufTrace", "x")]))
        d.append(D("hold", r.behaviours("free"), 1, 20 + i, 1100, judge=[("BufTrace", "x")]))
        d.append(D("hold", r.behaviours("free"), 1, 10 + i, judge=[("BufTrace", "x")], race=True))
    gen = [{"name": "free", "module": "FreeList", "cfg": "FreeSched.cfg", "num": 300 if t else 60}]
    return {"drive": d, "generate": gen, "models": [{"module": "FreeList", "cfg": "FreeListT.cfg" if t else "FreeList.cfg", "workers": 2}],
            "proofs": ["FreeWorkProofs"] if t else []}


@plan
def C18(r):
    t = r.thorough
    J = [("LedgerTrace", "x")]
    b = r.behaviours("ledger")
    d = [D("ledger", e, b, (150 if t else 15) * (2 if e == "secp" else 1), i, judge=J)
         for e in ["secp", "secp-swap", "secp-custom", "p224", "p256", "p521"] for i in range(2)]
    gen = [{"name": "ledger", "module": "MCLedger", "cfg": "LedgerSim.cfg", "num": 1000 if t else 150, "depth": 60}]
    return {"drive": d, "generate": gen, "models": [{"module": "MCLedger"}, {"module": "MCLedger", "cfg": "MCLedger7.cfg"}]}


LEVEL = {}
NA = {}
TECH = {
    "C01": ("TLA+ trace validation: exhaustive nonces and statements on toy curves, sampled at full size",
            "Exhaustive over all statements, witnesses and random draws for q=3; sampled for larger groups."),
    "C02": ("TLA+ trace validation: prover verdicts against the relation in Sigma.tla",
            "Exhaustive over all statements and witnesses for q=3; sampled corruptions at full size."),
    "C03": ("TLA+ exact verifier as oracle: forged proofs, and all scalar assignments on toy curves",
            "Exhaustive over transcripts and scalars for q=3; all-but-one-equation forgeries at full size."),
    "C04": ("TLA+ transcript specification (SHA-256 of all parts) judges real and forged challenges",
            "Every part left out once per proof kind; exhaustive over transcripts for q=3."),
    "C05": ("TLA+ characterisation of the accepting set; exact proof distribution over all random draws on toy curves",
            "Exact distributions for q=3 (q=7, 13 for the smaller kinds); canonical scalars and histograms of all fields at full size."),
    "C06": ("TLA+ stateful trace specification that extracts and remembers all nonces",
            "Freshness over the recorded histories; statistics with error probability below 10^-5 per run."),
    "C07": ("TLA+ range-proof verifier as oracle: boundaries, openings, per-bit and tuple-count forgeries",
            "Boundary values and sampled values; forged proofs by an independent prover."),
    "C08": ("TLA+ codec (Wire.tla, model-checked) judges recorded encodings and decodings",
            "Honest and synthetic proofs of all kinds, sizes and signs; codec model exhaustive near all boundaries."),
    "C09": ("TLA+ decoder as oracle: all prefixes, all corrupted lengths, flips, random bytes; memory bounded",
            "Every prefix and every length field of sampled encodings; random bytes."),
    "C10": ("TLA+ codec (Wire.tla, model-checked) judges integers, byte arrays, all failure points of readers and writers",
            "All boundaries; all values to 70000 in the thorough tier; every failure point."),
    "C11": ("TLA+ curve arithmetic (model-checked) judges commitments, openings, tokens and their sums",
            "Exhaustive over all values, randomness and points for q <= 13; special and sampled values at full size."),
    "C12": ("TLA+ curve arithmetic (model-checked) judges every path of the point operations",
            "Exhaustive over all points and scalars for q <= 31; all pairs of special points and sampled ones at full size."),
    "C13": ("TLA+ specification of the parameters, evaluated before and after mixed operation histories",
            "All 64 powers, all entries of both precomputed tables; small multiples up to 1000."),
    "C19": ("TLA+ definition of secp256k1 (model-checked group law) judges recorded curve operations",
            "All table entries; edge coordinates, scalars of all shapes and lengths, sampled."),
    "C20": ("TLA+ definition of ECDSA, RFC 6979 and recovery (model-checked on a toy curve) judges recorded signatures and verdicts",
            "Edge and sampled keys and hashes; all headers; boundary and crafted r, s, R and Q."),
    "C21": ("TLA+ grammars of keys and signatures judge recorded parses of valid, altered, truncated and random encodings",
            "All format bytes and lengths near sampled keys; all length bytes and prefixes of sampled signatures."),
    "C22": ("TLA+ definition of the encryption as oracle; stateful trace specification remembers all IVs and ephemeral keys",
            "All lengths to 70, every byte of sampled ciphertexts changed, all truncations."),
    "C17": ("TLA+ model of the workers (model-checked, all interleavings); its behaviours and adversarial schedules forced on the real goroutines",
            "All interleavings of 4 (thorough: 5) workers in the model; forced schedules of all 40 on the real code."),
    "C14": ("TLA+ specification of the visible memory (frame and function conditions); long recorded call histories with all objects observed after every call",
            "Random histories over the whole exported API; every object compared after every call."),
    "C15": ("TLA+ model of the buffer list (model-checked) whose behaviours are forced on the real code; concurrent histories judged by the sequential trace specifications; race detector",
            "All interleavings of 3 threads in the model; forced schedules of 5 threads; sampled concurrent mixtures under the race detector."),
    "C18": ("TLA+ ledger specification (model-checked over Z_q); its histories replayed on the real code and judged by the same definitions on the real curves",
            "All histories of 2 transactions and 2 participants for q=3, 3 transactions for q=7; sampled histories of 5 transactions at full size."),
    "C16": ("TLA+ model of draws from a failing source; every failure point enumerated on the real code",
            "Failure points: all in the thorough tier, a third in the quick tier."),
}
