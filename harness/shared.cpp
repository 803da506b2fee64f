// X01: distinct objects in distinct threads, and one object read by many.
// The other workloads of this check are those of the single properties: each
// of their cases runs in several threads at once (see runThreads in vp.h).
#include "vp.h"
#include <bcl/transparent_queue.h>
#include <bcl/Diagnostic.h>
#include <bcl/RedirectIO.h>
#include <bcl/Chain.h>
#include <bcl/cell.h>
#include <bcl/tagged.h>
#include <bcl/Equation.h>
#include <bcl/ValuePtrWrapper.h>
#include <fcntl.h>
#include <sstream>
#include "trait.h"

namespace {
// Read gives what one thread sees of a constant object.
template<class F> void shared(vp::Case &c, const char *What, F Read) {
  std::string Seen[VP_THREADS];
  vp::pool().run([&](unsigned K) { Seen[K] = Read(); });
  std::string Alone = Read();
  for (auto &S : Seen) { VP_CHECK(c, S == Alone, "shared", std::string(What) + ": " + S + " instead of " + Alone); c.count("shared_reads"); }
  c.distinct(What + Alone); c.sample(Alone);
}
}

VP_FAMILY_NOLEAK("X01.queue", 4000, 40000) {
  auto &R = c.R; int V[40];
  bcl::TransparentQueue<int> X, Y;
  for (size_t N = R.size(30); N-- > 0;) R.chance(1, 4) ? (void)X.pop() : X.push(V + R.below(40));
  for (size_t N = R.size(30); N-- > 0;) R.chance(1, 4) ? (void)Y.pop() : Y.push(V + R.below(40));
  const auto &A = X; const auto &B = Y;
  shared(c, "queue ", [&] {
    std::ostringstream OS;
    OS << A.size() << A.empty() << B.size() << B.empty() << (A == B) << (A != B) << (A < B) << (A <= B) << (A > B) << (A >= B) << (A == A);
    if (!A.empty()) OS << ' ' << A.front() - V << ' ' << A.back() - V;
    auto Copy = A; bcl::TransparentQueue<int> Other; Other = B; Other.swap(Copy);
    while (!Other.empty()) OS << ',' << Other.pop() - V;
    while (!Copy.empty()) OS << ';' << Copy.pop() - V;
    return OS.str();
  });
}

VP_FAMILY_NOLEAK("X01.diagnostic", 3000, 30000) {
  auto &R = c.R; bcl::Diagnostic D("some kind");
  for (size_t N = R.size(20); N-- > 0;) D.insert(R.below(100), "%s %d", R.next(), std::string(R.below(60), 'm').c_str(), (int)R.below(1000));
  const auto &CD = D;
  shared(c, "diagnostic ", [&] {
    std::ostringstream OS; OS << CD.getKind() << CD.size() << CD.empty() << CD.internal_size();
    for (auto M : CD) OS << M;
    for (auto I = CD.rbegin(); I != CD.rend(); ++I) OS << *I;
    return OS.str();
  });
}

namespace {
typedef std::map<Key, void *> ByKey;
template<int... I, class S> std::string traits(const S &X) {
  std::ostringstream OS; std::vector<int> V;
  ((OS << X.template is<Tr<I>>() << X.template is_any<Tr<I>>()), ...);
  X.for_each(Collect{V}); (X.template for_each_conflict<Tr<I>>(Collect{V}), ...); (X.template for_each_in_group<Tr<I>>(Collect{V}), ...); S::for_each_available(Collect{V});
  for (int E : V) OS << ',' << E;
  return OS.str();
}
template<class D, int... I> void traitSet(vp::Case &c, const char *What) {
  auto &R = c.R; bcl::TraitSet<D, ByKey> X; D Y;
  for (size_t N = R.size(12); N-- > 0;) { size_t K = R.below(sizeof...(I)), P = 0; bool With = R.chance(1, 2); ((P++ == K ? (With ? X.template set<Tr<I>>(new Tr<I>) : X.template set<Tr<I>>(), Y.template set<Tr<I>>(), 0) : 0), ...); }
  const auto &CX = X; const auto &CY = Y;
  shared(c, What, [&] {
    std::ostringstream OS; OS << traits<I...>(CX) << ' ' << traits<I...>(CY) << ' '; ((OS << (CX.template is<Tr<I>>() && CX.template get<Tr<I>>() ? CX.template get<Tr<I>>()->Id : -1)), ...);
    CY.print(OS); (D::template printKey<Tr<I>>(OS), ...); (D::template printMask<Tr<I>>(OS), ...);
    D Copy = CX.get(); OS << (Copy == CY) << (Copy != CY);
    return OS.str();
  });
}
}
VP_FAMILY_NOLEAK("X01.traits", 4000, 30000) { c.R.chance(1, 2) ? traitSet<DExample, 0, 1, 2, 3>(c, "example ") : traitSet<DOverlap, 0, 1, 2, 3, 4, 5, 6, 7, 8>(c, "overlap "); }

namespace {
template<int I> struct SKey { typedef typename std::conditional<I % 2, int, std::string>::type ValueType; static const int Id = I; static std::string name() { return "key" + std::to_string(I); } };
struct Show { std::ostringstream &OS; template<class C> void operator()(C *X) { OS << C::CellKey::name() << '=' << X->template value<typename C::CellKey>() << ' '; } };
struct ShowKey { std::ostringstream &OS; template<class C> void operator()() { OS << C::CellKey::name() << ' '; } };
struct Draw { vp::Rng &R; template<class C> void operator()(C *X) { one(X->template value<typename C::CellKey>()); } void one(int &V) { V = (int)R.next(); } void one(std::string &V) { V.assign(R.below(50), (char)('a' + R.below(26))); } };
template<int I> struct STag {};
}
VP_FAMILY_NOLEAK("X01.cells", 3000, 30000) {
  bcl::StaticMap<SKey<0>, SKey<1>, SKey<2>, SKey<3>> M; M.for_each(Draw{c.R});
  bcl::tagged_tuple<bcl::tagged<int, STag<0>>, bcl::tagged<std::string, STag<1>>, bcl::tagged<double, STag<2>>> T(std::make_tuple((int)c.R.next(), std::string(c.R.below(40), 't'), (double)(int)c.R.next()));
  const auto &CM = M; const auto &CT = T;
  shared(c, "cells ", [&] {
    std::ostringstream OS; CM.for_each(Show{OS}); OS << CM[SKey<1>()] << CM.template value<SKey<2>>() << ' '; decltype(M)::for_each_key(ShowKey{OS});
    auto Copy = CM; Copy[SKey<1>()] = 1; OS << CM[SKey<1>()] << ' ' << CT.template get<STag<0>>() << CT.template get<STag<1>>() << CT.template get<STag<2>>();
    return OS.str();
  });
}

namespace { struct Node : public bcl::Chain<Node> { int V = 0; }; typedef bcl::ChainTraits<Node> Traits; }
VP_FAMILY_NOLEAK("X01.chain", 2000, 20000) {
  std::vector<Node> N(1 + c.R.size(20));
  for (size_t I = 0; I < N.size(); ++I) { N[I].V = (int)c.R.below(100); if (I) Traits::mergeNext(&N[I], &N[I - 1]); }
  const Node &First = N.front(), &Last = N.back();
  shared(c, "chain ", [&] {
    std::ostringstream OS;
    for (const Node *P = &First; P; P = Traits::getNext(P)) OS << P->V << ' ';
    for (const Node *P = &Last; P; P = Traits::getPrev(P)) OS << P->V << ' ';
    return OS.str();
  });
}

namespace { struct Info { int Next = 100; int parameterColumn() { return ++Next; } bool isParameter(int C) const { return C > 100; } std::string name(int C) const { return "x" + std::to_string(C); } }; }
VP_FAMILY_NOLEAK("X01.system", 2000, 20000) {
  typedef milp::BinomialSystem<int, long long, 0, 0, 0> System; System S; typedef milp::AMonom<int, long long> Mo;
  for (size_t N = c.R.size(6); N-- > 0;) S.push_back(Mo((int)c.R.below(3), c.R.range(-9, 9)), Mo((int)c.R.below(3), c.R.range(-9, 9)), c.R.range(-9, 9));
  const System &CS = S;
  shared(c, "system ", [&] {
    std::ostringstream OS; OS << CS.size() << CS.isInstantiated();
    for (auto &E : CS) { Info I; System::printEquation(E, I, OS); OS << ' ' << E.guard_size() << E.inverse_size() << E.computed_size(); }
    return OS.str();
  });
}

VP_FAMILY("X01.redirect", 300, 6000) {
  // Everything belongs to this thread alone: the file, the descriptor and the object.
  char Path[] = "/tmp/vp-x01-XXXXXX"; int F = mkstemp(Path); VP_CHECK(c, F >= 0, "harness", "no file"); close(F);
  int Fd = open("/dev/null", O_WRONLY); VP_CHECK(c, Fd >= 0, "harness", "no descriptor");
  struct Clean { char *P; int F; ~Clean() { close(F); unlink(P); } } Cl{Path, Fd};
  bcl::RedirectIO IO(Fd, Path, bcl::RedirectIO::Mode::Rewrite); std::string Want;
  for (size_t N = 1 + c.R.size(8); N-- > 0;) {
    std::string S(c.R.below(300), (char)('a' + c.R.below(26)));
    VP_CHECK(c, IO.mayRedirected() && !IO.hasErrors(), "redirect", "errors");
    VP_CHECK(c, write(Fd, S.data(), S.size()) == (ssize_t)S.size(), "redirect", "write"); Want += S;
    if (c.R.chance(1, 2)) { auto D = IO.diff(); VP_CHECK(c, D == Want, "redirect", vp::fmt("%zu characters instead of %zu", D.size(), Want.size())); if (c.R.chance(1, 2)) { IO.setDiffPos(); Want.clear(); } c.count("redirected"); }
  }
}
VP_MAIN
