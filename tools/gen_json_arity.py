"""Writes harness/json_arity_gen.h: records of every number of fields the
record-definition macros of bcl support (1..30), as sub-objects and as
top-level objects."""
import os
T = ["int", "double", "bool", "long long", "unsigned", "char", "float", "unsigned long"]
def ty(n, i): return T[(i * 3 + n) % len(T)]
out = ["// Generated by tools/gen_json_arity.py."]
names = []
for root in (0, 1):
    for n in range(1, 31):
        rec = ("R" if root else "S") + str(n)
        names.append(rec)
        f = ["F%d" % (i + 1) for i in range(n)]
        macro = "JSON_OBJECT_%sPAIR%s" % ("ROOT_" if root else "", "" if n == 1 else "_%d" % n)
        init = " : JSON_INIT_ROOT" if root else ""
        out.append("struct %s;\n#if %d %% PARTS == PART" % (rec, len(names) - 1))
        out.append("JSON_OBJECT_BEGIN(%s)" % rec)
        out.append("%s(%s, %s)" % (macro, rec, ", ".join("%s, %s" % (f[i], ty(n, i)) for i in range(n))))
        out.append("  %s()%s {}" % (rec, init))
        out.append("  %s(std::nullptr_t, %s) : JSON_INIT(%s, %s)%s {}" % (rec, ", ".join("%s X%d" % (ty(n, i), i) for i in range(n)),
            rec, ", ".join("X%d" % i for i in range(n)), ", JSON_INIT_ROOT" if root else ""))
        out.append("JSON_OBJECT_END(%s)\nJSON_DEFAULT_TRAITS(::, %s)" % (rec, rec))
        out.append("namespace jm { template<> struct Fields<%s> { static constexpr bool HasPtr = false; static constexpr int count() { return %d; }" % (rec, n))
        out.append("  static constexpr bool IsRoot = %s; static const char *name() { return \"%s\"; }" % ("true" if root else "false", rec))
        out.append("  static %s make(const std::vector<std::string> &V) { return %s(nullptr, %s); }" % (rec, rec, ", ".join("of<%s>(V[%d])" % (ty(n, i), i) for i in range(n))))
        out.append("  template<class R, class F> static void typed(R &X, F f) { %s }" % " ".join("f.template operator()<%s>(\"%s\", X[%s::%s]);" % (ty(n, i), f[i], rec, f[i]) for i in range(n)))
        out.append("  template<class R, class F> static void each(R &X, F f) { %s } }; }" % " ".join("f(\"%s\", X[%s::%s]);" % (f[i], rec, f[i]) for i in range(n)))
        out.append("#endif")
out.append("namespace jm { using Arities = TyList<%s>; }" % ", ".join(names))
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "json_arity_gen.h")
open(p, "w").write("\n".join(out) + "\n")
