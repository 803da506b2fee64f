// X02: JSON in several threads: one constant document parsed and one constant
// object serialized by many. The other workloads of this check are those of
// the single properties, each case in several threads at once (see vp.h).
#include "json_model.h"
using namespace jm;

namespace {
std::string damaged(vp::Rng &R, std::string J) {
  for (size_t N = R.below(3); N-- > 0 && !J.empty();) {
    size_t At = R.below(J.size());
    switch (R.below(4)) {
    case 0: J.erase(At, 1 + R.below(3)); break;
    case 1: J.insert(At, 1, "{}[],:\"\\ 0-ex\n"[R.below(14)]); break;
    case 2: J[At] = "{}[],:\"\\ 0-ex\n"[R.below(14)]; break;
    case 3: J.resize(At); break;
    }
  }
  return J;
}
}

// Each thread has a parser and a result of its own; the document is shared.
template<class T> static void readers(vp::Case &c) {
  std::string Text;
  { Own<T> V(Model<T>::gen(c.R)); Text = json::Parser<>::unparse(V.V); }
  bool Damaged = c.R.chance(1, 2);
  if (Damaged) Text = damaged(c.R, Text);
  const std::string &J = Text;
  c.input(J);
  std::string Seen[VP_THREADS]; bool Ok[VP_THREADS];
  auto Read = [&J](std::string &S) {
    json::Parser<> P(J);
    Own<T> W;
    bool Ok = P.parse(W.V);
    S = errorsOf(P.errors());
    if (Ok) S += " " + json::Parser<>::unparse(W.V);
    return Ok;
  };
  vp::pool().run([&](unsigned K) { Ok[K] = Read(Seen[K]); });
  std::string Alone; bool OkAlone = Read(Alone);
  for (unsigned K = 0; K < VP_THREADS; ++K) {
    VP_CHECK(c, Ok[K] == OkAlone && Seen[K] == Alone, "parse", vp::fmt("%d ", Ok[K]) + Seen[K] + vp::fmt(" instead of %d ", OkAlone) + Alone);
    c.count("shared_documents");
  }
  if (!OkAlone) c.count("rejected_documents");
  c.distinct(J); if (J.size() > 12) c.sample(J);
}
VP_FAMILY_NOLEAK(VP_PART("X02.parse"), 1200, 20000) { c.member("types", Types::with(c.Index, [&](auto T) { readers<typename decltype(T)::type>(c); })); }

template<class T> static void writers(vp::Case &c) {
  const Own<T> V(Model<T>::gen(c.R));
  std::string Seen[VP_THREADS];
  vp::pool().run([&](unsigned K) { Seen[K] = json::Parser<>::unparse(V.V); });
  std::string Alone = json::Parser<>::unparse(V.V);
  c.input(Alone);
  for (auto &S : Seen) { VP_CHECK(c, S == Alone, "unparse", S); c.count("shared_objects"); }
  c.distinct(Alone); if (Alone.size() > 12) c.sample(Alone);
}
VP_FAMILY_NOLEAK(VP_PART("X02.unparse"), 1200, 20000) { c.member("types", Types::with(c.Index, [&](auto T) { writers<typename decltype(T)::type>(c); })); }
#if !defined(VP_NO_MAIN)
VP_MAIN
#endif
