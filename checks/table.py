"""Build variants and, per property, which variants run at which scale."""
CLANG, GXX = "clang++-18", "g++"

VARIANTS = {
    # the project's own flags
    "rel": dict(cxx=CLANG, flags=["-O3", "-march=native"]),
    "o1": dict(cxx=CLANG, flags=["-O1"]),
    "gxx": dict(cxx=GXX, flags=["-O2", "-march=native"]),
    "asan": dict(cxx=CLANG, slow=3, flags=[
        "-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow",
        "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]),
    "gasan": dict(cxx=GXX, slow=3, flags=[
        "-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow",
        "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]),
    "ubsan": dict(cxx=CLANG, slow=2, flags=[
        "-O1", "-g", "-fsanitize=undefined,float-cast-overflow", "-fno-sanitize-recover=all"]),
    "tsan": dict(cxx=CLANG, slow=4, flags=["-O1", "-g", "-fsanitize=thread"]),
    "msan": dict(cxx=CLANG, slow=3, flags=["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=memory",
                                           "-fsanitize-memory-track-origins=1"]),
    "valgrind": dict(cxx=CLANG, slow=30, flags=["-O1", "-g", "-DVH_VALGRIND"],
                     wrap=["valgrind", "-q", "--log-file=/dev/null", "--read-var-info=no", "--undef-value-errors=yes",
                           "--main-stacksize=268435456", "--max-stackframe=134217728"]),
}

CHECKS = {}


def check(pid, rule, variants, **kw):
    CHECKS[pid] = dict(rule=rule, variants=variants, **kw)


from checks.list import *  # noqa
