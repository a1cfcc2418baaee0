"""Which harness binaries exist, how each is compiled, and which properties they carry families for."""
STD = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-Wno-everything"]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=nonnull-attribute,object-size,vptr"]
# with library assertions, basic_string is instantiated here, instrumented, instead of linked from libstdc++
TSAN = ["-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS"]
CONFIGS = {
    # the configuration the project's own tests use (native vector instructions, asserts on)
    "asan":  dict(cxx="clang++", flags=STD + ["-O1", "-march=native"] + ASAN),
    # many instantiations, little time: not optimised
    "asan0": dict(cxx="clang++", flags=STD + ["-O0", "-march=native"] + ASAN),
    # portable code paths: no vector extension beyond the baseline
    "pasan": dict(cxx="clang++", flags=STD + ["-O1"] + ASAN),
    # second compiler
    "gasan": dict(cxx="g++", flags=["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-w", "-O1", "-march=native"] + ASAN),
    "tsan":  dict(cxx="clang++", flags=STD + ["-O1", "-march=native"] + TSAN),
    "opt":   dict(cxx="clang++", flags=STD + ["-O2", "-march=native"]),
}
T = {}
def target(name, src, cfg, props, defs=(), libs=()):
    T[name] = dict(src=src, cfg=cfg, props=list(props), defs=list(defs), libs=list(libs))

target("devector", "devector.cpp", "asan", ["C01"])
target("tvector0", "tvector.cpp", "asan", ["C02"], ["-DPART=0"])
target("tvector1", "tvector.cpp", "asan", ["C02"], ["-DPART=1"])
for i in range(3): target("sequence%d" % i, "sequence.cpp", "asan", ["C03"], ["-DPART=%d" % i])
for n in ("devector", "tvector", "sequence"):
    for i in range(4): target("%s_mem%d" % (n, i), n + "_mem.cpp", "asan", ["C14" if i < 2 else "x15"], ["-DPART=%d" % i])
for i in range(4): target("flat%d" % i, "flat.cpp", "asan", ["C05"], ["-DPART=%d" % i])
for i in range(4): target("ordered%d" % i, "ordered.cpp", "asan", ["C06"], ["-DPART=%d" % i])
for i in range(5): target("radix%d" % i, "radix.cpp", "asan", ["C08"], ["-DPART=%d" % i])
for i in range(4): target("rhash%d" % i, "rhash.cpp", "asan", ["C09"], ["-DPART=%d" % i])
for i in range(5): target("conc%d" % i, "conc.cpp", "asan", ["C13"], ["-DPART=%d" % i], ["-ltbb"])
for i in range(4): target("mt%d" % i, "mt.cpp", "asan", ["C10", "C12"], ["-DPART=%d" % i], ["-ltbb"])
for i in (4, 5): target("mt%d" % i, "mt.cpp", "tsan", ["C11"], ["-DPART=%d" % i], ["-ltbb"])
for i in (6, 7): target("mt%d" % i, "mt.cpp", "asan", ["C10", "C11", "C12"], ["-DPART=%d" % i], ["-ltbb"])
target("locks0", "locks.cpp", "asan", ["C33"], ["-DPART=0"], ["-ltbb"])
target("locks1", "locks.cpp", "tsan", ["C33"], ["-DPART=1"], ["-ltbb"])
target("locks2", "locks.cpp", "opt", ["C33"], ["-DPART=1"], ["-ltbb"])
for i in range(3): target("strings%d" % i, "strings.cpp", "asan", ["C18"], ["-DPART=%d" % i])
for i in (3, 4): target("strings%d" % i, "strings.cpp", "asan", ["C14"], ["-DPART=%d" % i])
target("strings5", "strings.cpp", "asan", ["x15"], ["-DPART=5"])
for i in range(5): target("strcmp%d" % i, "strcmp.cpp", "asan", ["C19"], ["-DPART=%d" % i], ["-ltbb"])
for i in range(3): target("charint%d" % i, "charint.cpp", "asan", ["C20"], ["-DPART=%d" % i])
target("charfloat", "charfloat.cpp", "asan", ["C21"])
target("fltwrite0", "fltwrite.cpp", "asan", ["C22"], ["-DPART=0"])
target("fltwrite1", "fltwrite.cpp", "asan", ["C23"], ["-DPART=1"])
for k in range(4):
    target("textstream%d" % k, "textstream.cpp", "asan", ["C24"], ["-DPART=%d" % k])
target("hashing", "hashing.cpp", "asan", ["C29"])
for k in (0, 1): target("algo%d" % k, "algo.cpp", "asan", ["C31"], ["-DPART=%d" % k])
target("algo2", "algo.cpp", "asan", ["C32"], ["-DPART=2"])
for k in range(5): target("any%d" % k, "any.cpp", "asan", ["C27"], ["-DPART=%d" % k])
for k in range(3): target("anycmp%d" % k, "anycmp.cpp", "asan", ["C28"], ["-DPART=%d" % k])
for k in (0, 1): target("format%d" % k, "format.cpp", "asan", ["C25"], ["-DPART=%d" % k])
target("format2", "format.cpp", "asan", ["C26"], ["-DPART=2"])
target("format3", "format.cpp", "tsan", ["C26"], ["-DPART=3"])
for k, cfg in (("", "asan"), ("p", "pasan"), ("g", "gasan")):
    target("bitops" + k, "bitops.cpp", cfg, ["C30"])
for k in range(3): target("constread%d" % k, "constread.cpp", "tsan", ["C34"], ["-DPART=%d" % k], ["-ltbb"])
for k in range(10): target("reals%d" % k, "reals.cpp", "asan0", ["C16"], ["-DPART=%d" % k])
for k in range(8): target("reals_assoc%d" % k, "reals_assoc.cpp", "asan0", ["C16"], ["-DPART=%d" % k])
