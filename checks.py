"""Which drivers, trace specifications and design models decide each property."""
SM3FAST = ["SM3Overrides", "SM3RepOverride"]

SM2OV = SM3FAST + ["BigNatOverrides", "ECOverrides"]
SM2MC = [{"module": "MC_BigNat"}, {"module": "MC_EC", "overrides": ["BigNatOverrides", "ECOverrides"]}, {"module": "MC_SM2", "overrides": SM2OV}]


def sm2(prop, mut):
    return {"parts": [{"driver": prop, "module": "TraceSM2", "overrides": SM2OV, "mut": mut}], "mc": SM2MC}


def kx(prop, mut):
    return {"parts": [{"driver": prop, "module": "TraceKX", "overrides": SM2OV, "gen": "GenKx", "mut": mut}],
            "mc": [{"module": "MC_Kx"}]}


def cb(prop, mut, gen=None):
    part = {"driver": prop, "module": "TraceCB", "overrides": ["BigNatOverrides"], "mut": mut}
    if gen:
        part["gen"] = gen
    return {"parts": [part], "mc": [{"module": "MC_Builder"}, {"module": "MC_Cryptobyte", "overrides": ["BigNatOverrides"]}]}


def x509(prop, mut, gen=None, mc=("MC_X509",)):
    part = {"driver": prop, "module": "TraceX509", "overrides": SM2OV, "mut": mut}
    if gen:
        part["gen"] = gen
    return {"parts": [part], "mc": [{"module": m, "overrides": SM2OV} for m in mc]}


CHECKS = {
    "C01": {
        "parts": [{"driver": "C01", "module": "TraceSM3", "overrides": ["SM3RepOverride"],
                   "mut": {"Digest": ["r", "m", "same", "out"], "Sum": ["r"]}},
                  {"driver": "C01L", "module": "TraceSM3", "overrides": SM3FAST, "mut": {}},
                  {"driver": "C01X", "module": "TraceSM3", "overrides": ["SM3RepOverride"], "mut": {}}],
        "mc": [{"module": "MC_SM3", "overrides": SM3FAST}],
    },
    "C02": {
        "parts": [{"driver": "C02", "module": "TraceSM3", "overrides": SM3FAST, "gen": "GenHash",
                   "mut": {"Sum": ["r", "b", "same", "out"], "Write": ["n", "out"]}}],
        "mc": [{"module": "MC_HashBuffer"}, {"module": "MC_SM3", "overrides": SM3FAST}],
    },
    "C03": {
        "parts": [{"driver": "C03", "module": "TraceSM3", "overrides": SM3FAST,
                   "mut": {"Sum": ["r"], "MacSum": ["r", "b"], "NewMac": ["block", "size"], "Sizes": ["size", "block"]}}],
        "mc": [{"module": "MC_HashBuffer"}],
    },
    "C04": {
        "parts": [{"driver": "C04", "module": "TraceSM4",
                   "mut": {"BlockEncrypt": ["dst2"], "BlockDecrypt": ["dst2"], "NewCipher": ["bs"]}}],
        "mc": [{"module": "MC_SM4"}],
    },
    "C05": {
        "parts": [{"driver": "C05", "module": "TraceSM4",
                   "mut": {m: ["r", "same", "fresh"] for m in ("ECBEncrypt", "ECBDecrypt", "CBCEncrypt", "CBCDecrypt")}},
                  {"driver": "C05L", "module": "TraceSM4", "overrides": ["SM4Overrides"], "mut": {}}],
        "mc": [{"module": "MC_SM4", "overrides": ["SM4Overrides"]}],
    },
    "C06": {
        "parts": [{"driver": "C06", "module": "TraceSM4",
                   "mut": {m: ["out"] for m in ("ECBEncrypt", "ECBDecrypt", "CBCEncrypt", "CBCDecrypt", "NewCipher")}}],
        "mc": [{"module": "MC_SM4"}],
    },
    "C07": {
        "parts": [{"driver": "C07", "module": "TracePadding",
                   "mut": {m: ["r", "back", "out"] for m in ("PKCS5Padding", "PKCS5UnPadding", "ZeroPadding", "UnZeroPadding")}}],
        "mc": [{"module": "MC_Padding"}],
    },
    "C08": sm2("C08", {"GenerateKey": ["x", "y", "d", "failed"], "CalcPub": ["x", "y"], "PubBytes": ["raw", "unc"], "PrivBytes": ["raw"],
                       "Curve": ["p", "a", "b", "n", "gx", "gy", "bits"]}),
    "C09": sm2("C09", {"Sign": ["sig"], "SignRS": ["r", "s"]}),
    "C10": sm2("C10", {"VerifyRS": ["res"], "Verify": ["res"]}),
    "C11": sm2("C11", {"GenerateKey": ["d", "failed"], "Sign": ["sig"], "SignRS": ["r"], "Encrypt": ["ct"]}),
    "C12": sm2("C12", {m: ["out"] for m in ("GenerateKey", "Sign", "SignRS", "Encrypt")}),
    "C13": sm2("C13", {"Encrypt": ["ct", "m"], "Decrypt": ["r"], "EncryptBig": ["c3", "len"]}),
    "C14": sm2("C14", {"Decrypt": ["r", "out"]}),
    "C15": sm2("C15", {"MarshalCipher": ["r"], "UnmarshalCipher": ["r", "out"]}),
    "C16": sm2("C16", {"MarshalSign": ["der"], "UnmarshalSign": ["r", "s", "out"]}),
    "C17": kx("C17", {"KX": ["s2", "out"], "ResponderConfirm": ["res"]}),
    "C18": kx("C18", {"KX": ["s2", "out"], "ResponderConfirm": ["res"], "Session": ["bacc"]}),
    "C26": cb("C26", {"Result": ["r", "r2", "out", "same"], "BigPart": ["total", "out"]}, gen="GenBuilder"),
    "C27": cb("C27", {m: ["res", "val", "rest", "same"] for m in ("Skip", "ReadUint", "ReadBytes", "CopyBytes", "ReadLP", "ReadTLV", "SkipTLV",
                                                                   "ReadOptional", "Peek", "Empty")} | {"BigRead": ["res", "rest"]}),
    "C28": cb("C28", {**{m: ["res", "val", "rest"] for m in ("ReadInt", "ReadEnum", "ReadBool", "ReadOptBool", "ReadOID", "ReadBits",
                                                             "ReadBitsAsBytes", "ReadOptInt", "ReadOptOctets")}, "Result": ["r", "out"]}),
}
CHECKS.update({
    "C19": x509("C19", {"CreateCSR": ["r", "same", "out"]}, gen="GenCSR", mc=("MC_CSR", "MC_X509", "MC_Strings")),
    "C20": x509("C20", {"VerifyCSR": ["same"], "VerifyCSR?": ["res", "res", "res"]}),
    "C21": x509("C21", {"CreateInfo": ["same", "raw"]}, gen="GenX509", mc=("MC_X509", "MC_Strings")),
    "C22": x509("C22", {"Issue": ["r", "same", "raw"], "CreateCert": ["r", "same", "raw"]}),
    "C23": x509("C23", {"ParseCert": ["raw", "same"], "ParseCert?": ["serial", "rawIssuer", "rawSubject", "rawSPKI", "tbs", "sig", "ku", "ski", "aki", "x",
                                                                "y", "version", "eku", "bcv", "ca", "mpl", "mplz"]}, gen="GenX509"),
    "C24": x509("C24", {"ParseCert": ["raw", "same"], "ParseCSR": ["raw", "same"]}),
    "C25": x509("C25", {"CreateInfo": ["raw"], "ParseCert": ["raw", "same"]}),
})
CONCMUT = {"Digest": ["r"], "Decrypt": ["r", "out"], "Verify": ["res"], "KX": ["s2"], "BlockEncrypt": ["dst2"], "ECBEncrypt": ["r"], "Sign": ["sig"],
           "Sum": ["r"], "MacSum": ["r"], "CreateInfo": ["raw"], "Issue": ["r"], "CreateCSR": ["r"], "Encrypt": ["ct"], "GenerateKey": ["x"]}
CHECKS["C29"] = {
    "parts": [{"driver": "C29", "module": "TraceConc", "overrides": SM2OV, "mut": CONCMUT},
              {"driver": "C29", "module": "TraceConc", "overrides": SM2OV, "race": True, "mut": CONCMUT},
              {"driver": "C29y", "module": "TraceConc", "overrides": SM2OV, "yields": True, "mut": CONCMUT},
              {"driver": "C29cb", "module": "TraceCB", "overrides": ["BigNatOverrides"], "race": True,
               "mut": {"Result": ["r", "out"], "ReadTLV": ["res", "rest"]}}],
    "mc": [{"module": "MC_Conc"}, {"module": "MC_Conc", "cfg": "MC_ConcShared", "expect": 12}, {"module": "MC_Conc", "cfg": "MC_ConcOnce", "expect": 12}],
}
CHECKS["C30"] = {
    "parts": [{"driver": "C30", "module": "TracePure", "overrides": SM2OV,
               "mut": {"Call": ["after"], "Call?": ["ret", "ret", "out"], "Scribble": ["after"], "Put": []}}],
    "mc": [{"module": "MC_Signed", "overrides": ["BigNatOverrides"]}, {"module": "MC_Memory"},
           {"module": "MC_Memory", "cfg": "MC_MemoryAlias", "expect": 12}, {"module": "MC_Memory", "cfg": "MC_MemoryInPlace", "expect": 12},
           {"module": "MC_Memory", "cfg": "MC_MemoryCache", "expect": 12}, {"module": "MC_Memory", "cfg": "MC_MemoryPool", "expect": 12}],
}
ECPT = {m: ["r", "same"] for m in ("ScalarMult", "ScalarBaseMult", "AddPoints", "DoublePoint", "IntAdd", "IntSub", "IntMul", "IntMod", "IntLsh",
                                  "IntSetBit", "IntAnd")}
CHECKS["C31"] = {
    "parts": [{"driver": "C31", "module": "TraceEC", "overrides": ["BigNatOverrides", "ECOverrides"], "gen": "GenEC",
               "gen_overrides": ["BigNatOverrides", "ECOverrides"], "mut": dict(ECPT, IsOnCurve=["res"])}],
    "mc": [{"module": "MC_BigNat"}, {"module": "MC_EC", "overrides": ["BigNatOverrides", "ECOverrides"]},
           {"module": "MC_Signed", "overrides": ["BigNatOverrides"]}],
}
NOT_APPLICABLE = {}
