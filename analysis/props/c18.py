"""C18: compile-time sequences, parameter dimensions, Jet traits and rejected ill-formed programs."""
from alg import *
import facts, itertools, re, subprocess, tempfile, concurrent.futures
from check import Check

RULE = ("type-level encoding: static assertions generated from a model in Python are checked by the compiler's type checker over /repo's current headers; compile-fail witnesses must be rejected while their well-formed twins are accepted")

HEAD = """#include <array>
#include <cstdint>
#include <string>
#include <tuple>
#include <utility>
#include <vector>
#include "ceres/autodiff_cost_function.h"
#include "ceres/internal/array_selector.h"
#include "ceres/internal/eigen.h"
#include "ceres/internal/integer_sequence_algorithm.h"
#include "ceres/internal/jet_traits.h"
#include "ceres/internal/parameter_dims.h"
#include "ceres/jet.h"
#include "ceres/sized_cost_function.h"
using namespace ceres;
using namespace ceres::internal;
template <typename T, T... v> using Q = std::integer_sequence<T, v...>;
template <typename A, typename B> inline constexpr bool same = std::is_same_v<A, B>;
struct Bare {};
"""
# compile-fail witnesses: (key, valid twin, ill-formed body), each instantiated inside a function
FAIL = [
    ("ParameterDims without a block", "StaticParameterDims<1>::kNumParameters", "StaticParameterDims<>::kNumParameters"),
    ("ParameterDims with an empty block", "StaticParameterDims<2, 1>::kNumParameters", "StaticParameterDims<2, 0>::kNumParameters"),
    ("ParameterDims with an empty first block", "StaticParameterDims<1, 2, 3>::kNumParameters", "StaticParameterDims<0, 2, 3>::kNumParameters"),
    ("ParameterDims with a negative block", "StaticParameterDims<2, 4>::kNumParameters", "StaticParameterDims<2, -1, 4>::kNumParameters"),
    ("SizedCostFunction without residuals", "sizeof(SizedCostFunction<1, 2>)", "sizeof(SizedCostFunction<0, 2>)"),
    ("SizedCostFunction with a negative number of residuals", "sizeof(SizedCostFunction<DYNAMIC, 2>)", "sizeof(SizedCostFunction<-2, 2>)"),
    ("SizedCostFunction with an empty block", "sizeof(SizedCostFunction<1, 2, 1>)", "sizeof(SizedCostFunction<1, 2, 0>)"),
    ("SizedCostFunction without blocks", "sizeof(SizedCostFunction<1, 1>)", "sizeof(SizedCostFunction<1>)"),
    ("copying a cost function", "std::is_base_of_v<CostFunction, SizedCostFunction<1, 1>>", "std::enable_if_t<std::is_copy_constructible_v<SizedCostFunction<1, 1>>, int>(0)"),
    ("adding dual numbers of different dimension", "J<2>() + J<2>()", "J<2>() + J<3>()"),
    ("multiplying dual numbers of different dimension", "J<3>() * J<3>()", "J<2>() * J<3>()"),
    ("comparing dual numbers of different dimension", "J<2>() < J<2>()", "J<2>() < J<3>()"),
    ("equality of dual numbers of different dimension", "J<3>() == J<3>()", "J<2>() == J<3>()"),
    ("power of dual numbers of different dimension", "pow(J<2>(), J<2>())", "pow(J<2>(), J<3>())"),
    ("atan2 of dual numbers of different dimension", "atan2(J<2>(), J<2>())", "atan2(J<2>(), J<3>())"),
    ("hypot of dual numbers of different dimension", "hypot(J<2>(), J<2>())", "hypot(J<2>(), J<3>())"),
    ("fmax of dual numbers of different dimension", "fmax(J<2>(), J<2>())", "fmax(J<2>(), J<3>())"),
    ("fmin of dual numbers of different dimension", "fmin(J<2>(), J<2>())", "fmin(J<3>(), J<2>())"),
    ("fdim of dual numbers of different dimension", "fdim(J<2>(), J<2>())", "fdim(J<2>(), J<3>())"),
    ("fma of dual numbers of different dimension", "fma(J<2>(), J<2>(), J<2>())", "fma(J<2>(), J<2>(), J<3>())"),
    ("silently dropping the derivative part", "double(J<2>().a)", "double(J<2>())"),
]


def seq(t, v):
    return "Q<%s%s>" % (t, "".join(", %d" % x for x in v))


def asserts(r):
    """(key, C++ condition) pairs from the model"""
    out = []
    S = [()] + [s for n in (1, 2, 3) for s in itertools.product((0, 1, 2), repeat=n)]
    for n in (4, 5, 7, 10, 16, 33, 60):
        for _ in range(2 if not THOROUGH else 6):
            S.append(tuple(r.r.randint(0, 4) for _ in range(n)))
    S.append((1, 4, 3))
    for s in S:
        for t in ("int",) if len(s) not in (2, 5) else ("int", "long", "std::size_t", "std::int8_t"):
            scan = [sum(s[:i]) for i in range(len(s))]
            out.append(("exclusive scan of %s %s" % (t, list(s)), "same<ExclusiveScan<%s>, %s>" % (seq(t, s), seq(t, scan))))
            for x in (0, 1, 2, 5):
                if len(s) > 3 and x not in (0, 2):
                    continue
                out.append(("removing %d from %s %s" % (x, t, list(s)), "same<RemoveValue_t<%s, %d>, %s>" % (seq(t, s), x, seq(t, [v for v in s if v != x]))))
            out.append(("all equal in %s %s" % (t, list(s)), "IsEmptyOrAreAllEqual_v<%s> == %s" % (seq(t, s), str(len(set(s)) <= 1).lower())))
    for n in (1, 2, 6, 20):
        out.append(("all equal in %d equal values" % n, "IsEmptyOrAreAllEqual_v<%s>" % seq("int", (3,) * n)))
        out.append(("not all equal in %d values" % (n + 1), "!IsEmptyOrAreAllEqual_v<%s>" % seq("int", (3,) * n + (4,))))
    dims = [d for n in (1, 2, 3) for d in itertools.product((1, 2, 3), repeat=n)] + [tuple(r.r.randint(1, 9) for _ in range(n)) for n in (4, 6, 10, 12, 25)]
    for d in dims:
        P = "StaticParameterDims<%s>" % ", ".join(map(str, d))
        k = "parameter dimensions %s" % list(d)
        out.append((k + " are static and valid", "%s::kIsValid && !%s::kIsDynamic" % (P, P)))
        out.append((k + ": number of blocks", "%s::kNumParameterBlocks == %d" % (P, len(d))))
        out.append((k + ": number of parameters", "%s::kNumParameters == %d" % (P, sum(d))))
        out.append((k + ": block sizes", " && ".join("%s::GetDim(%d) == %d" % (P, i, x) for i, x in enumerate(d))))
        out.append((k + ": sequence", "same<%s::Parameters, %s>" % (P, seq("int", d))))
        out.append((k + ": unpacked array", "same<decltype(%s::GetUnpackedParameters((double*)nullptr)), std::array<double*, %d>>" % (P, len(d))))
        for nr in (1, -1):
            C = "SizedCostFunction<%d, %s>" % (nr, ", ".join(map(str, d)))
            out.append((k + ": of sized cost function %d" % nr, "same<%s::ParameterDims, %s>" % (C, P)))
    out.append(("dynamic parameter dimensions", "DynamicParameterDims::kIsDynamic && DynamicParameterDims::kNumParameterBlocks == 0 && DynamicParameterDims::kNumParameters == 0"))
    # type traits ------------------------------------------------------------
    T = [("double", "double", 0, False), ("float", "float", 0, False), ("int", "int", 0, False), ("long double", "long double", 0, False), ("Bare", "Bare", -1, False), ("std::string", "std::string", -1, False),
         ("Jet<double, 1>", "double", 1, True), ("Jet<double, 2>", "double", 2, True), ("Jet<float, 2>", "float", 2, True), ("Jet<long double, 3>", "long double", 3, True), ("Jet<Jet<double, 2>, 2>", "double", 2, True), ("Jet<Jet<double, 2>, 1>", "double", 1, True), ("Jet<Jet<float, 1>, 2>", "float", 2, True), ("Jet<Jet<Jet<double, 1>, 3>, 2>", "double", 2, True), ("Jet<Jet<Jet<Jet<float, 2>, 1>, 1>, 1>", "float", 1, True)]
    for n, u, k, j in T:
        out.append(("rank of " + n, "Rank_v<%s> == %d" % (n, k)))
        out.append(("underlying scalar of " + n, "same<UnderlyingScalar_t<%s>, %s>" % (n, u)))
    tup = [()] + [(a,) for a in T] + list(itertools.product(T, repeat=2)) + [tuple(r.r.choice(T) for _ in range(n)) for n in (3, 3, 3, 4, 5) for _ in range(40 if not THOROUGH else 200)]
    # frequent agreement: tuples drawn from one family
    for u in ("double", "float"):
        fam = [t for t in T if t[1] == u]
        tup += [x for n in (3, 4) for x in itertools.islice(itertools.product(fam, repeat=n), 0, None, 3 if n == 4 else 1)][:250]
    for t in sorted(set(tup)):
        ns = ", ".join(x[0] for x in t)
        anyj = any(x[3] for x in t)
        eq = len({x[2] for x in t if x[2] != 0}) <= 1
        sameu = len({x[1] for x in t}) <= 1
        b = lambda v: str(v).lower()
        out.append(("a dual number among <%s>" % ns, "AreAnyJet_v<%s> == %s" % (ns, b(anyj))))
        out.append(("compatible operands <%s>" % ns, "CompatibleJetOperands_v<%s> == %s" % (ns, b(anyj and eq and sameu))))
        out.append(("promotable operands <%s>" % ns, "PromotableJetOperands_v<%s> == %s" % (ns, b(anyj and eq))))
        if t:
            out.append(("same types <%s>" % ns, "AreAllSame_v<%s> == %s" % (ns, b(len({x[0] for x in t}) == 1))))
            out.append(("ranks of <%s>" % ns, "same<Ranks_t<%s>, %s>" % (ns, seq("int", [x[2] for x in t]))))
    for n, u, k, j in T:
        if j:
            out.append(("scalar part of " + n, "same<std::decay_t<decltype(AsScalar(std::declval<const %s&>()))>, %s>" % (n, u)))
    # containers and matrix types ----------------------------------------------
    for n, m in itertools.product((1, 4, 5, 6, 50), (1, 5, 6)):
        out.append(("array of %d with %d on the stack" % (n, m), "std::is_base_of_v<%s, ArraySelector<double, %d, %d>>" % ("std::array<double, %d>" % n if n <= m else "std::vector<double>", n, m)))
    for a, b in itertools.product((-1, 1, 2, 5), repeat=2):
        E = "EigenTypes<%d, %d>" % (a, b)
        if not (a == 1 and b == 1) and (b == 1 or a != 1):
            out.append(("storage order of %d x %d" % (a, b), "%s::Matrix::IsRowMajor == %s" % (E, str(b != 1).lower())))
        out.append(("sizes of %d x %d" % (a, b), "%s::Matrix::RowsAtCompileTime == %d && %s::Matrix::ColsAtCompileTime == %d && %s::Vector::RowsAtCompileTime == %d && %s::Vector::ColsAtCompileTime == 1" % (E, a, E, b, E, a, E)))
    return out


def clang(path):
    r = subprocess.run(["clang++", "-fsyntax-only", "-ferror-limit=0", "-ftemplate-depth=2000"] + facts.FLAGS + [path], capture_output=True, text=True)
    return r.returncode, r.stderr


def header_of(key):
    for w, h in (("exclusive", "integer_sequence_algorithm"), ("removing", "integer_sequence_algorithm"), ("equal", "integer_sequence_algorithm"), ("dimension", "parameter_dims"), ("array", "array_selector"), ("storage", "eigen"), ("sizes of", "eigen")):
        if w in key:
            return "include/ceres/internal/%s.h" % h
    return "include/ceres/internal/jet_traits.h"


def run():
    C = Check("C18", RULE, floor=500)
    A = asserts(rng("c18"))
    with tempfile.TemporaryDirectory(prefix="c18") as d:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            jobs = []
            # one unit per group so that a hard error in one does not hide the others
            groups = {}
            for i, (k, c) in enumerate(A):
                groups.setdefault((header_of(k), i * 4 // len(A)), []).append((i, k, c))
            for g, items in groups.items():
                p = os.path.join(d, "a%d.cc" % len(jobs))
                with open(p, "w") as fh:
                    fh.write(HEAD)
                    for i, k, c in items:
                        fh.write('static_assert(%s, "<<%d>>");\n' % (c, i))
                jobs.append((items, ex.submit(clang, p)))
            fails = []
            for n, (k, good, bad) in enumerate(FAIL):
                fs = []
                for tag, body in (("g", good), ("b", bad)):
                    p = os.path.join(d, "%s%d.cc" % (tag, n))
                    with open(p, "w") as fh:
                        fh.write(HEAD + "template <int N> using J = Jet<double, N>;\nauto f() { return %s; }\n" % body)
                    fs.append(ex.submit(clang, p))
                fails.append((k, good, bad, fs))
            for items, f in jobs:
                rc, err = f.result()
                seen = {int(m) for m in re.findall(r"<<(\d+)>>", "\n".join(l for l in err.split("\n") if "error:" in l))}
                hard = [l for l in err.split("\n") if "error:" in l and "<<" not in l]
                lines = {}
                base = HEAD.count("\n") + 1
                for l in hard:                 # a hard error inside one assertion is attributed by its position
                    m = re.search(r"a\d+\.cc:(\d+):", l)
                    if m and 0 <= int(m.group(1)) - base < len(items):
                        lines[items[int(m.group(1)) - base][0]] = l
                # errors inside headers: attribute by the "requested here" note in the generated file
                if hard:
                    for m in re.finditer(r"a\d+\.cc:(\d+):\d+: note: (?:in instantiation|requested|while)", err):
                        k = int(m.group(1)) - base
                        if 0 <= k < len(items):
                            lines.setdefault(items[k][0], hard[0])
                if hard and not lines:
                    C.undecided("unit with %s" % items[0][1], "does not compile: " + hard[0])
                    continue
                for i, k, c in items:
                    if i in seen or i in lines:
                        C.violation(k, header_of(k), "the type checker rejects: %s%s" % (c, "" if i in seen else " (%s)" % lines[i][-160:]))
                    else:
                        C.passed(k)
                        C.count("static assertions")
            for k, good, bad, fs in fails:
                (rg, eg), (rb, eb) = fs[0].result(), fs[1].result()
                if rg:
                    C.undecided("rejected: " + k, "the well-formed twin does not compile: " + [l for l in eg.split("\n") if "error:" in l][0])
                elif not rb:
                    C.violation("rejected: " + k, "include/ceres", "this ill-formed program compiles: %s" % bad)
                else:
                    C.passed("rejected: " + k)
                    C.count("compile-fail witnesses")
    C.sample("e.g. " + A[40][1])
    C.assume = ["clang implements C++17 templates"]
    return C
