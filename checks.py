ENG = [("engines_a.cpp", []), ("engines_b.cpp", []), ("engines_c.cpp", []), ("engines_d.cpp", []), ("engines_e.cpp", [])]
JUMP = ["-DBOOST_RANDOM_MERSENNE_TWISTER_DISCARD_THRESHOLD=3"]
TS = ["-O1", "-fsanitize=thread"]
K = ["-DENGINE_KINDS", "-O1"]
def e06(name, digits): return {"name": name, "srcs": [("e06.cpp", ["-O1", "-DT06=" + name + "_t", "-DT06NAME=\"" + name + "\"", "-DT06DIG=%d" % digits])]}
CHECKS = {
 "E01": {"bins": [{"name": "step", "srcs": [("e01.cpp", [])] + ENG}, {"name": "jump", "srcs": [("e01.cpp", JUMP + ["-DE01_JUMP"])] + [(f, JUMP) for f, _ in ENG]}]},
 "E02": {"bins": [{"srcs": [("e02.cpp", [])] + ENG}]},
 "E03": {"bins": [{"srcs": [("e03.cpp", [])] + ENG}]},
 "E04": {"bins": [{"srcs": [("e04.cpp", [])] + ENG}]},
 "E05": {"bins": [{"srcs": [("e05.cpp", [])] + ENG}]},
 "E07": {"bins": [{"srcs": [("e07.cpp", ["-O1"])] + [(f, K) for f, _ in ENG]}]},
 "E08": {"bins": [{"srcs": [("e08.cpp", [])] + ENG}]},
 "E09": {"bins": [{"srcs": [("e09.cpp", [])]}]},
 "E10": {"bins": [{"name": "p%d" % i, "srcs": [("e10.cpp", ["-O1", "-DPART=%d" % i])]} for i in range(8)]},
 "E11": {"bins": [{"name": "p%d" % i, "srcs": [("e11.cpp", ["-O1", "-DPART=%d" % i])]} for i in range(8)]},
 "E12": {"bins": [{"name": "engines", "srcs": [("e12.cpp", [])] + ENG}] + [{"name": "p%d" % i, "srcs": [("e12s.cpp", ["-O1", "-DPART=%d" % i])]} for i in range(4)]},
 "E13": {"bins": [{"name": "p%d" % i, "srcs": [("e13.cpp", ["-O1", "-DPART=%d" % i])] + (ENG if i == 6 else [])} for i in range(8)] + [{"name": "race%d" % i, "srcs": [("e13.cpp", TS + ["-DRACES", "-DPART=%d" % i])] + ([(f, TS) for f, _ in ENG] if i == 6 else []), "ldflags": ["-fsanitize=thread"]} for i in range(8)]},
 "E06": {"bins": [e06("int16", 15), e06("uint16", 16), e06("int32", 31), e06("uint32", 32), e06("int64", 63), e06("uint64", 64)]},
 "D01": {"bins": [{"name": "p%d" % i, "srcs": [("d01.cpp", ["-O1", "-DPART=%d" % i])]} for i in range(9)]},
 "D02": {"bins": [{"name": "p%d" % i, "srcs": [("d02.cpp", ["-O1", "-DPART=%d" % i])]} for i in range(4)]},
 "D04": {"bins": [{"name": "mp", "srcs": [("mpr.cpp", ["-O1", "-DPROP=4", "-DPART=0"])]}, {"srcs": [("d04.cpp", ["-O1"])]}]},
 "D03": {"bins": [{"name": "p%d" % i, "srcs": [("d03.cpp", ["-O1", "-DPART=%d" % i])]} for i in range(6)] + [{"name": "mp%d" % i, "srcs": [("mpr.cpp", ["-O1", "-DPROP=3", "-DPART=%d" % i])]} for i in range(3)]},
 "D05": {"bins": [{"name": "p%d" % i, "srcs": [("d05.cpp", ["-O1", "-DPART=%d" % i])]} for i in range(4)]},
 "D06": {"bins": [{"name": "p%d" % i, "srcs": [("d06.cpp", ["-O1", "-DPART=%d" % i])]} for i in range(4)]},
 "D07": {"bins": [{"name": "p%d" % i, "srcs": [("d07.cpp", ["-O1", "-DPART=%d" % i])]} for i in range(5)]},
 "D08": {"bins": [{"name": "p%d" % i, "srcs": [("d08.cpp", ["-O1", "-DPART=%d" % i])]} for i in range(4)] + [{"name": "mp%d" % i, "srcs": [("mpr.cpp", ["-O1", "-DPROP=8", "-DPART=%d" % i])]} for i in range(5)]},
 "D09": {"bins": [{"name": "p%d" % i, "srcs": [("d09.cpp", ["-O1", "-DPART=%d" % i])]} for i in range(4)]},
 "D10": {"bins": [{"name": "g%d" % i, "srcs": [("d10.cpp", ["-O1", "-DDGROUP=%d" % i])]} for i in range(8)]},
 "D11": {"bins": [{"name": "g%d" % i, "srcs": [("dgen.cpp", ["-O1", "-DPROP=11", "-DDGROUP=%d" % i])]} for i in range(8)]},
 "D12": {"bins": [{"name": "g%d" % i, "srcs": [("dgen.cpp", ["-O1", "-DPROP=12", "-DDGROUP=%d" % i])]} for i in range(8)]},
 "D13": {"bins": [{"name": "g%d" % i, "srcs": [("dgen.cpp", ["-O1", "-DPROP=13", "-DDGROUP=%d" % i])]} for i in range(8)]},
 "D14": {"bins": [{"name": "p%d" % i, "srcs": [("d14.cpp", ["-O1", "-DPART=%d" % i])]} for i in range(3)] + [{"name": "mp%d" % i, "srcs": [("mpr.cpp", ["-O1", "-DPROP=14", "-DPART=%d" % i])]} for i in range(1)]},
 "D15": {"bins": [{"name": "p%d" % i, "srcs": [("d15.cpp", ["-O1", "-DPART=%d" % i])]} for i in range(7)]},
 "Q01": {"bins": [{"srcs": [("q01.cpp", ["-O1"])]}]},
 "Q03": {"bins": [{"srcs": [("q01.cpp", ["-O1", "-DQPART=3", "-fsanitize=address"])], "ldflags": ["-fsanitize=address"]}]},
 "Q02": {"bins": [{"name": "p%d" % i, "srcs": [("q02.cpp", ["-O1", "-DPART=%d" % i])]} for i in range(3)]},
 "N01": {"level": "fault_enumeration", "bins": [{"srcs": [("n01.cpp", ["-O1", "-fsanitize=address", "-U_FORTIFY_SOURCE"]), ("/repo/src/random_device.cpp", ["-O1", "-fsanitize=address", "-U_FORTIFY_SOURCE"])], "ldflags": ["-fsanitize=address", "-Wl,--wrap=open,--wrap=open64,--wrap=read,--wrap=close"]}]},
}

from texts import T as _T
for _i, _c in CHECKS.items():
    if _i in _T:
        _c.update(technique=_T[_i]["technique"], rule=_T[_i]["rule"] + " Oracle: " + _T[_i]["oracle"] + ".", bounds=_T[_i]["bounds"], assumptions=_T[_i]["assumptions"])
