#!/usr/bin/env python3
"""P29_configs.py SEED OUTDIR CONFIGS _: writes the translation units of CONFIGS differently built copies of the operations in
P29_ops.h.  The first line of each source, "// BUILD: ...", is the compiler and flags run.py compiles it with."""
import random, subprocess, sys, os

SECTIONS = {   # section: the public headers a program needs for it
    "VECTOR": ["vector.h", "vector/hadamard_product.h"],
    "VECTOR_UTIL": ["vector.h", "util/vector_print.h", "util/vector_hash.h"],
    "MATRIX": ["vector.h", "matrix.h", "matrix/hadamard_product.h"],
    "LU": ["vector.h", "matrix.h", "matrix/lu.h"],
    "MATRIX_UTIL": ["matrix.h", "util/matrix_print.h"],
    "QUATERNION": ["vector.h", "quaternion.h"],
    "QUATERNION_UTIL": ["quaternion.h", "util/quaternion_print.h"],
    "SCALAR": ["scalar/functions.h", "scalar/constants.h"],
    "VECTOR_MATHLIB": ["vector.h", "mathlib/vector/angle.h", "mathlib/vector/rotation.h", "mathlib/vector/misc.h", "mathlib/vector/orthonormal.h", "mathlib/vector/generators.h"],
    "RANDOM_UNIT": ["vector.h", "mathlib/random_unit.h"],
    "MATRIX_ROTATION": ["vector.h", "matrix.h", "quaternion.h", "mathlib/matrix/rotation.h"],
    "MATRIX_AFFINE": ["vector.h", "matrix.h", "mathlib/matrix/basis.h", "mathlib/matrix/concat.h", "mathlib/matrix/generators.h", "mathlib/matrix/invert.h", "mathlib/matrix/misc.h",
                      "mathlib/matrix/scale.h", "mathlib/matrix/transform.h", "mathlib/matrix/translation.h", "mathlib/vector/transform.h"],
    "QUATERNION_ROTATION": ["vector.h", "matrix.h", "quaternion.h", "mathlib/quaternion/rotation.h", "mathlib/quaternion/basis.h"],
    "COORDINATES": ["vector.h", "mathlib/coordinate_conversion.h"],
    "PROJECTION": ["vector.h", "matrix.h", "mathlib/matrix/projection.h"],
    "FRUSTUM": ["vector.h", "matrix.h", "mathlib/frustum.h"],
}
EXTRA = sorted({h for hs in SECTIONS.values() for h in hs} | {
    "cml.h", "util.h", "types.h", "version.h", "mathlib/mathlib.h", "scalar/traits.h", "scalar/promotion.h", "vector/types.h", "matrix/types.h",
    "quaternion/types.h", "vector/fixed.h", "vector/dynamic.h", "vector/external.h", "matrix/fixed.h", "matrix/dynamic.h", "matrix/external.h", "quaternion/fixed.h", "mathlib/constants.h",
    "mathlib/euler_order.h", "mathlib/axis_order.h", "vector/subvector.h", "matrix/inverse.h", "matrix/determinant.h", "vector/comparison.h", "matrix/comparison.h", "quaternion/comparison.h"})
UNCHECKED = ["-DCML_NO_RUNTIME_%s_SIZE_CHECKS" % x for x in ("MATRIX", "VECTOR", "QUATERNION")]
ODD = ["-fno-inline", "-fno-elide-constructors", "-fwrapv", "-fno-strict-aliasing", "-ftrivial-auto-var-init=pattern", "-ftrivial-auto-var-init=zero", "-D_GLIBCXX_ASSERTIONS", "-fPIC", "-fno-builtin", "-DNDEBUG", "-fstack-protector-all", "-fomit-frame-pointer", "-D_DEBUG", "-DDEBUG"]


def config(r, k):
    fixed = [["clang++", "-std=c++17", "-O0"],
             ["g++", "-std=c++17", "-O2", "-DNDEBUG"],
             ["clang++", "-std=c++20", "-O2", "-DNDEBUG", "-ftrivial-auto-var-init=pattern"],
             ["g++", "-std=c++20", "-O1"] + UNCHECKED,
             ["g++", "-std=c++23", "-O3"],
             ["clang++", "-std=c++23", "-O1", r.choice(UNCHECKED)]]
    if k < len(fixed):
        f = list(fixed[k])
    else:
        f = [r.choice(["g++", "clang++"]), "-std=" + r.choice(["c++17", "c++17", "c++20", "c++23", "gnu++17", "gnu++20"]), r.choice(["-O0", "-O1", "-O2", "-O3", "-Os", "-Og"])]
        f += [u for u in UNCHECKED if r.random() < 0.35]
    if k:
        f += [o for o in r.sample(ODD, 3 if k < len(fixed) else r.randint(0, 5)) if o not in f and not (o.startswith("-ftrivial") and any(x.startswith("-ftrivial") for x in f))]
    return f


def main():
    seed, out, n = int(sys.argv[1]), sys.argv[2], int(sys.argv[3])
    os.makedirs(out, exist_ok=True)
    r = random.Random(seed * 7919 + 13)
    flags = []
    for k in range(n):
        f = config(r, k)
        flags.append(" ".join(f))
        names = list(SECTIONS)
        if k == 0:
            groups = [[x] for x in SECTIONS]       # exactly the headers of what is used
        else:
            r.shuffle(names)
            groups = [names[i::4] for i in range(4)]
        for j, g in enumerate(groups):
            need = sorted({h for s in g for h in SECTIONS[s]})
            if k:
                if r.random() < 0.5:
                    need += r.sample(EXTRA, r.randint(1, 8))
                r.shuffle(need)
            with open(os.path.join(out, "P29_c%02d_%d.cpp" % (k, j)), "w") as fp:
                fp.write("// BUILD: %s -Dcml=cml_config%d -DP29_CONFIG=%d\n" % (" ".join(f), k, k))
                fp.write("".join("#include <cml/%s>\n" % h for h in need))
                fp.write("".join("#define SEC_%s\n" % s for s in g))
                fp.write('#include "P29_ops.h"\n')
    for i, h in enumerate(EXTRA):                  # every public header on its own
        with open(os.path.join(out, "P29_h%02d.cpp" % i), "w") as fp:
            fp.write("// BUILD: %s -Dcml=cml_solo\n#include <cml/%s>\n#include <cml/%s>\n" % (flags[0], h, h))
    # a few of P28's generated programs (compared with plain loops) in each of the optimised configurations
    here = os.path.dirname(os.path.abspath(__file__))
    for k in range(1, max(4, n // 2)):
        tmp = os.path.join(out, "programs")
        subprocess.run([sys.executable, os.path.join(here, "P28_programs.py"), str(seed * 1000 + 29), tmp, "=%d" % k, "10"], check=True)
        src = os.path.join(tmp, "P28_%03d.cpp" % k)
        with open(src) as fi, open(os.path.join(out, "P29_p%02d.cpp" % k), "w") as fp:
            fp.write("// BUILD: %s -Dcml=cml_programs%d -Dp28=p28_programs%d\n" % (flags[k], k, k))
            fp.write("".join("#include <cml/%s>\n" % h for h in r.sample(EXTRA, 4)) + fi.read())
    with open(os.path.join(out, "P29_flags.cpp"), "w") as fp:
        fp.write("namespace p29 {\nextern const char* const flags_of[];\nconst char* const flags_of[] = {\n%s\n};\nextern const int n_configs;\nconst int n_configs = %d;\n}\n" % (
            ",\n".join('"%s"' % f for f in flags), n))


main()
