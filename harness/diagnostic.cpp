// D01: the container of diagnostics against a model.
#include "vp.h"
#include <bcl/Diagnostic.h>
#include <cinttypes>
#include <clocale>

namespace {
struct Slot {
  std::unique_ptr<bcl::Diagnostic> D;
  std::string Kind;
  std::vector<std::string> M;
  size_t Internal = 0;
};

template<class ItrT>
std::vector<std::string> walk(vp::Case &c, ItrT I, ItrT E, int Mode, size_t Limit) {
  std::vector<std::string> R;
  while (I != E) {
    VP_CHECK(c, R.size() < Limit, "iteration", "more messages are visited than stored");
    VP_CHECK(c, !(I == E), "iterator-eq", "== and != disagree");
    if (Mode == 0) { R.push_back(*I); auto &Same = ++I; VP_CHECK(c, &Same == &I, "iterator-inc", "prefix increment gives another iterator"); }
    else if (Mode == 1) { auto Old = I; auto Got = I++; VP_CHECK(c, Got == Old, "iterator-inc", "postfix increment gives not the old position"); R.push_back(*Got); }
    else { R.push_back(*I); ++I; --I; VP_CHECK(c, R.back() == *I, "iterator-dec", "forward and back leads elsewhere"); auto Next = I; ++Next; I = Next; }
  }
  return R;
}
// The way backwards from the end.
template<class ItrT>
std::vector<std::string> walkBack(vp::Case &c, ItrT B, ItrT I, int Mode, size_t Limit) {
  std::vector<std::string> R;
  while (I != B) {
    VP_CHECK(c, R.size() < Limit, "iteration", "more messages are visited than stored");
    if (Mode == 0) { auto &Same = --I; VP_CHECK(c, &Same == &I, "iterator-dec", "prefix decrement gives another iterator"); }
    else { auto Old = I; auto Got = I--; VP_CHECK(c, Got == Old, "iterator-dec", "postfix decrement gives not the old position"); }
    R.push_back(*I);
  }
  return R;
}

void verify(vp::Case &c, const Slot &S) {
  auto &D = *S.D;
  VP_CHECK(c, S.Kind == D.getKind(), "kind", "kind is " + std::string(D.getKind()) + " not " + S.Kind);
  VP_CHECK(c, D.size() == S.M.size(), "size", vp::fmt("size %zu instead of %zu", (size_t)D.size(), S.M.size()));
  VP_CHECK(c, D.empty() == S.M.empty(), "empty", "emptiness");
  VP_CHECK(c, D.internal_size() == S.Internal, "internal", vp::fmt("%zu internal errors instead of %zu", (size_t)D.internal_size(), S.Internal));
  std::vector<std::string> Rev(S.M.rbegin(), S.M.rend());
  auto diff = [](const std::vector<std::string> &A, const std::vector<std::string> &B) {
    for (size_t I = 0; I < A.size() && I < B.size(); ++I)
      if (A[I] != B[I]) return vp::fmt("message %zu: ", I) + A[I].substr(0, 300) + " instead of " + B[I].substr(0, 300);
    return vp::fmt("%zu messages instead of %zu", A.size(), B.size());
  };
  size_t L = S.M.size() + 1;
  auto eq = [&](const std::vector<std::string> &A, const std::vector<std::string> &B, const char *Key) { if (A != B) c.fail(Key, diff(A, B)); };
  int Mode = (int)c.R.below(3), BMode = (int)c.R.below(2);
  eq(walk(c, D.begin(), D.end(), Mode, L), S.M, "forward");
  eq(walk(c, D.cbegin(), D.cend(), Mode, L), S.M, "forward");
  eq(walk(c, D.rbegin(), D.rend(), Mode, L), Rev, "reverse");
  eq(walk(c, D.crbegin(), D.crend(), Mode, L), Rev, "reverse");
  eq(walkBack(c, D.begin(), D.end(), BMode, L), Rev, "backward");
  eq(walkBack(c, D.rbegin(), D.rend(), BMode, L), S.M, "reverse-backward");
  std::vector<std::string> For;
  for (auto Msg : D) For.push_back(Msg);
  eq(For, S.M, "range-for");
}

std::string text(vp::Rng &R, bool Big) {
  size_t N = Big ? R.below(200000) : R.size(300);
  std::string S(N, 'x');
  for (auto &C : S) C = (char)(1 + R.below(255));
  return S;
}

void insert(vp::Case &c, Slot &S) {
  auto &R = c.R;
  size_t Codes[] = {0, 1, 42, 999, (size_t)R.next(), SIZE_MAX, SIZE_MAX / 2};
  uintmax_t Poss[] = {0, 1, 77, R.next(), UINTMAX_MAX, UINTMAX_MAX / 2 + 1};
  size_t Code = R.pick(Codes);
  uintmax_t Pos = R.pick(Poss);
  std::string Head = S.Kind + " C" + std::to_string(Code) + "(" + std::to_string(Pos) + "): ";
  std::string T = text(R, R.chance(1, 40)), U = text(R, false), Body;
  bool Ok = true, Expect = true;
  switch (R.below(10)) {
  case 0: { // the text is the format
    std::string F;
    for (char C : T) { F += C; if (C == '%') F += '%'; }
    Body = T; Ok = S.D->insert(Code, F.c_str(), Pos); break;
  }
  case 1: Body = T; Ok = S.D->insert(Code, "%s", Pos, T.c_str()); break;
  case 2: Body = ""; Ok = S.D->insert(Code, "", Pos); break;
  case 3: { int V = (int)R.next(); Body = std::to_string(V) + "|" + T + "%"; Ok = S.D->insert(Code, "%d|%s%%", Pos, V, T.c_str()); break; }
  case 4: { char C = (char)(1 + R.below(127)); Body = T + ": " + C + U; Ok = S.D->insert(Code, "%s: %c%s", Pos, T.c_str(), C, U.c_str()); break; }
  case 5: { long long V = (long long)R.next(); unsigned long long W = R.next(); Body = std::to_string(V) + std::to_string(W); Ok = S.D->insert(Code, "%lld%llu", Pos, V, W); break; }
  case 6: { int W = (int)R.below(3000); std::string D = std::to_string(W); Body = D.size() < (size_t)W ? std::string(W - D.size(), ' ') + D : D; Ok = S.D->insert(Code, "%*d", Pos, W, W); break; }
  case 7: { int P = (int)R.below(400); Body = T.substr(0, P) + "." + U; Ok = S.D->insert(Code, "%.*s.%s", Pos, P, T.c_str(), U.c_str()); break; }
  case 8: { // a message which cannot be formatted
    static const wchar_t Bad[] = {(wchar_t)0x12345, 0};
    Expect = false; Ok = S.D->insert(Code, "%s%ls", Pos, T.c_str(), Bad); break;
  }
  default: Body = T + U + T; Ok = S.D->insert(Code, "%s%s%s", Pos, T.c_str(), U.c_str(), T.c_str()); break;
  }
  VP_CHECK(c, Ok == Expect, "insert-result", Ok ? "reports success" : "reports a failure");
  if (Expect) { S.M.push_back(Head + Body); c.count("inserted"); if (Body.size() > 1000) c.count("long_messages"); }
  else { ++S.Internal; c.count("internal_errors"); }
}
}

VP_FAMILY("D01.history", 1500, 40000) {
  auto &R = c.R;
  Slot S[3];
  const char *Kinds[] = {"", "error", "warning", "redirect error", "100%s %n", "a much longer kind of diagnostics than is usual \xff\n"};
  std::string In;
  for (auto &X : S) {
    X.Kind = R.pick(Kinds);
    std::string Temporary = X.Kind;
    X.D.reset(new bcl::Diagnostic(Temporary.c_str()));
    std::fill(Temporary.begin(), Temporary.end(), '#');
  }
  size_t N = 1 + R.size(25);
  for (size_t I = 0; I < N; ++I) {
    size_t A = R.below(3), B = R.below(3);
    switch (R.below(12)) {
    case 0: In += vp::fmt("clear%zu ", A); c.input(In); S[A].D->clear(); S[A].M.clear(); S[A].Internal = 0; c.count("clears"); break;
    case 1: case 2: {
      In += vp::fmt("swap%zu,%zu ", A, B); c.input(In);
      if (R.chance(1, 2)) S[A].D->swap(*S[B].D); else { using std::swap; swap(*S[A].D, *S[B].D); }
      if (A != B) { S[A].M.swap(S[B].M); std::swap(S[A].Internal, S[B].Internal); }
      c.count("swaps"); break;
    }
    case 3: { // pointers to messages stay valid while others are inserted
      if (S[A].M.empty()) break;
      const char *First = *S[A].D->begin();
      for (int K = 0; K < 20; ++K) insert(c, S[A]);
      In += vp::fmt("insert%zu*20 ", A);
      VP_CHECK(c, S[A].M.front() == First, "message-moved", "first message has changed");
      break;
    }
    default: In += vp::fmt("insert%zu ", A); c.input(In); insert(c, S[A]);
    }
    verify(c, S[A]); verify(c, S[B]);
  }
  for (auto &X : S) verify(c, X);
  uint64_t H = vp::hashStr(In);
  for (auto &X : S) for (auto &M : X.M) H = vp::mix(H ^ vp::hashStr(M));
  c.distinct(H); c.sample(In);
}
VP_MAIN
