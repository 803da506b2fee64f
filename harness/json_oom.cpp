// J09: allocations which fail while values are parsed and serialized.
#include "json_model.h"
#if PART == 0
#define OOM_MAIN
#endif
#include "oom.h"
using namespace jm;

template<class T> static void exhausted(vp::Case &c) {
  Own<T> V(Model<T>::gen(c.R));
  std::string J = json::Parser<>::unparse(V.V);
  c.input(J);
  bool All = c.R.chance(1, 3);
  unsigned Sample = 0;
  for (long N = 0;;) {
    json::Parser<> P(J);
    Own<T> W;
    bool Ok = false;
    auto R = oom::run(N, All, [&] { Ok = P.parse(W.V); });
    if (R.Failed) {
      c.count("failed_allocations"); c.count(R.Thrown ? "thrown" : "reported");
      VP_CHECK(c, !Ok || Model<T>::eq(V.V, W.V), "success", vp::fmt("a wrong value is parsed successfully when allocation %ld fails: ", N) + json::Parser<>::unparse(W.V));
      // What has been parsed in part may be parsed again.
      Model<T>::release(W.V); Model<T>::reset(W.V);
      VP_CHECK(c, P.parse(W.V) || true, "again", "");
      json::Parser<> Q(J);
      Own<T> X;
      VP_CHECK(c, Q.parse(X.V) && Model<T>::eq(V.V, X.V), "after", "the document can not be parsed after a failure");
    } else {
      VP_CHECK(c, Ok && Model<T>::eq(V.V, W.V), "fault-free", "");
      break;
    }
    N += Sample++ < 40 ? 1 : 1 + (long)c.R.below(20);
  }
  Sample = 0;
  for (long N = 0;;) {
    std::string S;
    auto R = oom::run(N, All, [&] { S = json::Parser<>::unparse(V.V); });
    if (!R.Failed) break;
    c.count("failed_in_unparse");
    VP_CHECK(c, R.Thrown || S == J, "text", vp::fmt("another text when allocation %ld fails: ", N) + S);
    N += Sample++ < 40 ? 1 : 1 + (long)c.R.below(20);
  }
  c.distinct(J);
  if (J.size() > 12) c.sample(J);
}
VP_FAMILY(VP_PART("J09.types"), 4000, 100000) {
  size_t I = Types::with(c.Index, [&](auto T) { exhausted<typename decltype(T)::type>(c); });
  c.member("types", I);
}
// Documents which are not valid: what is wrong is reported, also if memory is short.
template<class T> static void malformed(vp::Case &c) {
  auto &R = c.R;
  Own<T> V(Model<T>::gen(R));
  std::string J = json::Parser<>::unparse(V.V);
  for (size_t K = 1 + R.below(3); K-- && !J.empty();) {
    size_t At = R.below(J.size());
    switch (R.below(5)) {
    case 0: J.erase(At, 1 + R.below(3)); break;
    case 1: J.insert(At, 1, "{}[]\",:\\-+.eE0123456789tfnu "[R.below(29)]); break;
    case 2: J[At] = "{}[]\",:\\-+.eE0123456789tfnu "[R.below(29)]; break;
    case 3: J.resize(At); break;
    default: J.insert(At, J.substr(R.below(J.size()), 1 + R.below(12)));
    }
  }
  c.input(J);
  bool All = R.chance(1, 3), Valid;
  Own<T> X; // without failures
  { json::Parser<> P(J); Valid = P.parse(X.V); }
  for (long N = 0, Sample = 0;;) {
    json::Parser<> P(J);
    Own<T> W;
    bool Ok = false;
    auto F = oom::run(N, All, [&] { Ok = P.parse(W.V); });
    if (!F.Failed) { VP_CHECK(c, Ok == Valid && (!Ok || Model<T>::eq(X.V, W.V)), "fault-free", "the outcome is not repeated"); break; }
    c.count(Valid ? "still_valid" : "malformed"); if (!Valid && F.Thrown) c.count("thrown_malformed");
    VP_CHECK(c, !Ok || (Valid && Model<T>::eq(X.V, W.V)), "success", vp::fmt("success when allocation %ld fails", N));
    N += Sample++ < 40 ? 1 : 1 + (long)R.below(20);
  }
  c.distinct(J);
}
VP_FAMILY(VP_PART("J09.malformed"), 2000, 50000) {
  Types::with(c.Index, [&](auto T) {
    using V = typename decltype(T)::type;
    // A repeated key overwrites a pointer, which is owned by the user.
    if constexpr (!Model<V>::HasPtr || std::is_pointer<V>::value) malformed<V>(c);
  });
}
#if PART == 0
VP_MAIN
#endif
