// Q01-Q03: TransparentQueue against a std::deque model.
#include "vp.h"
#include <bcl/transparent_queue.h>
#include <deque>
#include <list>
#include <vector>
using namespace vp;
namespace {
int Cells[64];
typedef bcl::TransparentQueue<int> TQ;
typedef std::deque<int *> Model;

std::string show(const Model &M) { std::string R; for (auto P : M) R += fmt("%d ", P ? (int)(P - Cells) : -1); return R; }

// Everything that can be observed without changing the queue.
void observe(Case &c, const TQ &Q, const Model &M, const std::string &H) {
  VP_CHECK(c, Q.size() == M.size(), "size", fmt("size %zu expected %zu after ", Q.size(), M.size()) + H);
  VP_CHECK(c, Q.empty() == M.empty(), "empty", "after " + H);
  if (!M.empty()) {
    VP_CHECK(c, Q.front() == M.front(), "front", "after " + H);
    VP_CHECK(c, Q.back() == M.back(), "back", "after " + H);
    TQ &W = const_cast<TQ &>(Q);
    VP_CHECK(c, W.front() == M.front() && W.back() == M.back(), "front", "non-const, after " + H);
  }
  c.count("observations");
}
void popOne(Case &c, TQ &Q, Model &M, const std::string &H) {
  int *E = nullptr;
  if (!M.empty()) { E = M.front(); M.pop_front(); }
  else c.count("pops_from_empty");
  int *P = Q.pop();
  VP_CHECK(c, P == E, "pop", fmt("popped %p expected %p after ", (void *)P, (void *)E) + H);
  c.count("pops");
}
// Drains a queue completely, twice past its end, and uses it again.
void drain(Case &c, TQ &Q, Model M, const std::string &H) {
  while (!M.empty()) { popOne(c, Q, M, H + " drain"); observe(c, Q, M, H + " drain"); }
  popOne(c, Q, M, H + " drained");
  popOne(c, Q, M, H + " drained");
  observe(c, Q, M, H + " drained");
  for (int I = 0; I < 3; ++I) { Q.push(Cells + I); M.push_back(Cells + I); observe(c, Q, M, H + " reuse"); }
  while (!M.empty()) popOne(c, Q, M, H + " reuse");
}
// A queue with the given contents, built by a random history.
void grow(Case &c, TQ &Q, Model &M, const Model &Target) {
  // Bring the queue to a random internal state that is empty ...
  unsigned Pre = c.R.below(4);
  for (unsigned I = 0; I < Pre; ++I) { int *P = Cells + c.R.below(64); Q.push(P); M.push_back(P); if (c.R.chance(1, 2)) popOne(c, Q, M, "grow"); }
  while (!M.empty()) popOne(c, Q, M, "grow");
  if (c.R.chance(1, 4)) popOne(c, Q, M, "grow");
  // ... and fill it, sometimes with elements that leave again.
  size_t Extra = c.R.below(3);
  for (size_t I = 0; I < Extra; ++I) { int *P = Cells + c.R.below(64); Q.push(P); M.push_back(P); }
  for (auto P : Target) {
    if (c.R.chance(1, 3)) Q.emplace(P); else Q.push(P);
    M.push_back(P);
    if (Extra && c.R.chance(1, 2)) { popOne(c, Q, M, "grow"); --Extra; }
  }
  while (Extra--) popOne(c, Q, M, "grow");
}
}

VP_FAMILY("Q01.exhaustive", 4096, 262144) {
  // Every sequence of {push, emplace, pop, nothing} of fixed length, twice:
  // from an empty queue and from one that is made with one element.
  int Len = c.Thorough ? 9 : 6;
  for (int Start = 0; Start < 2; ++Start) {
    TQ Q0, Q1(Cells + 60);
    TQ &Q = Start ? Q1 : Q0;
    Model M; if (Start) M.push_back(Cells + 60);
    std::string H = Start ? "one" : "";
    uint64_t X = c.Index;
    observe(c, Q, M, H);
    for (int I = 0; I < Len; ++I, X /= 4) {
      int *P = Cells + I;
      switch (X % 4) {
      case 0: Q.push(P); M.push_back(P); H += " push"; break;
      case 1: Q.emplace(P); M.push_back(P); H += " emplace"; break;
      case 2: popOne(c, Q, M, H); H += " pop"; break;
      case 3: break;
      }
      c.input(H);
      observe(c, Q, M, H);
    }
    c.sample(H);
    c.distinct(H);
    drain(c, Q, M, H);
  }
}
VP_FAMILY("Q01.long", 60000, 3000000) {
  TQ Q; Model M; std::string H;
  int N = 1 + c.R.below(60);
  // The share of insertions changes, so that queues grow long and run dry.
  unsigned Bias = c.R.below(10);
  for (int I = 0; I < N; ++I) {
    if (c.R.chance(1, 12)) Bias = c.R.below(10);
    int *P = Cells + c.R.below(64);
    if (c.R.below(10) < Bias) {
      if (c.R.chance(1, 2)) { Q.push(P); H += "p"; }
      else switch (c.R.below(3)) {
        case 0: Q.emplace(P); H += "e"; break;
        case 1: Q.emplace((int *const)P); H += "e"; break;
        case 2: { int *T = P; Q.emplace(std::move(T)); H += "e"; break; }
      }
      M.push_back(P);
    } else if (!M.empty() && c.R.chance(1, 6)) {
      // The references are to the elements.
      if (c.R.chance(1, 2)) { Q.front() = P; M.front() = P; } else { Q.back() = P; M.back() = P; }
      H += "w";
    } else { popOne(c, Q, M, H); H += "-"; }
    c.input(H);
    observe(c, Q, M, H);
    c.member("sizes_seen", M.size());
  }
  c.sample(H); if (M.size() > 1) c.distinct(H);
  drain(c, Q, M, H);
}
VP_FAMILY("Q02.pool", 40000, 2000000) {
  std::list<TQ> Pool; std::list<Model> Models; std::string H;
  unsigned N = 1 + c.R.below(40);
  auto at = [](auto &L, size_t I) { auto It = L.begin(); std::advance(It, I); return It; };
  auto add = [&](TQ &&Q, Model M) { Pool.push_back(std::move(Q)); Models.push_back(M); };
  for (unsigned I = 0; I < 2; ++I) { Pool.emplace_back(); Models.emplace_back(); }
  for (unsigned I = 0; I < N; ++I) {
    if (Pool.empty()) { Pool.emplace_back(); Models.emplace_back(); }
    size_t A = c.R.below(Pool.size()), B = c.R.below(Pool.size());
    TQ &QA = *at(Pool, A), &QB = *at(Pool, B);
    Model &MA = *at(Models, A), &MB = *at(Models, B);
    int *P = Cells + c.R.below(64);
    int Op = c.R.below(14);
    H += fmt(" %d:%zu,%zu", Op, A, B);
    c.member("operation_on_sizes", hashStr(fmt("%d %zu %zu %d", Op, std::min<size_t>(MA.size(), 3), std::min<size_t>(MB.size(), 3), (int)(A == B))));
    c.input(H);
    switch (Op) {
    case 0: case 1: case 2: QA.push(P); MA.push_back(P); break;
    case 3: QA.emplace(P); MA.push_back(P); break;
    case 4: case 5: popOne(c, QA, MA, H); break;
    case 6: { TQ &R = (QA = (const TQ &)QB); VP_CHECK(c, &R == &QA, "ref", "copy assignment returns another object"); MA = Model(MB); c.count(A == B ? "self_copy" : "copies"); break; }
    case 7: if (A != B) { TQ &R = (QA = std::move(QB)); VP_CHECK(c, &R == &QA, "ref", "move assignment returns another object"); MA = MB; MB.clear(); c.count("moves"); }
            else { TQ &R = (QA = std::move(QB)); (void)R; c.count("self_move");
              // The statement includes self-assignment: the contents stay.
              observe(c, QA, MA, H); }
            break;
    case 8: Pool.emplace_back((const TQ &)QA); Models.push_back(Model(MA)); c.count("copies"); break;
    case 9: { Pool.emplace_back(std::move(QA)); Model T = MA; MA.clear(); Models.push_back(T); c.count("moves"); break; }
    case 10: QA.swap(QB); if (A != B) std::swap(MA, MB); c.count("swaps"); break;
    case 11: { using bcl::swap; swap(QA, QB); if (A != B) std::swap(MA, MB); c.count("swaps"); break; }
    case 12: Pool.emplace_back(P); Models.push_back(Model{P}); break;
    case 13: if (Pool.size() > 1) { Pool.erase(at(Pool, A)); Models.erase(at(Models, A)); } break;
    }
    auto Mi = Models.begin();
    for (auto &Q : Pool) observe(c, Q, *Mi++, H);
  }
  c.sample(H); c.distinct(H);
  auto Mi = Models.begin();
  for (auto &Q : Pool) drain(c, Q, *Mi++, H);
}
VP_FAMILY("Q02.pairs", 16000, 400000) {
  // Every pair of small sizes and every operation on two queues, with all
  // ways of having got there.
  int Op = c.Index % 5; size_t SA = c.Index / 5 % 4, SB = c.Index / 20 % 4;
  Model TA, TB;
  for (size_t I = 0; I < SA; ++I) TA.push_back(Cells + c.R.below(64));
  for (size_t I = 0; I < SB; ++I) TB.push_back(Cells + c.R.below(64));
  TQ A, B; Model MA, MB;
  grow(c, A, MA, TA); grow(c, B, MB, TB);
  std::string H = fmt("op %d sizes %zu %zu", Op, SA, SB); c.input(H);
  observe(c, A, MA, H); observe(c, B, MB, H);
  switch (Op) {
  case 0: A = B; MA = MB; break;
  case 1: A = std::move(B); MA = MB; MB.clear(); break;
  case 2: A.swap(B); std::swap(MA, MB); break;
  case 3: { TQ C(A); observe(c, C, MA, H); VP_CHECK(c, C == A, "copy-eq", H); drain(c, C, MA, H); break; }
  case 4: { TQ C(std::move(A)); Model MC = MA; MA.clear(); observe(c, C, MC, H); drain(c, C, MC, H); break; }
  }
  observe(c, A, MA, H); observe(c, B, MB, H);
  if (c.R.chance(1, 2)) { drain(c, A, MA, H); observe(c, B, MB, H); drain(c, B, MB, H); }
  else { drain(c, B, MB, H); observe(c, A, MA, H); drain(c, A, MA, H); }
  c.sample(H); c.distinct(H + show(TA) + "|" + show(TB));
}
VP_FAMILY("Q03.compare", 60000, 3000000) {
  Model T[3]; TQ Q[3]; Model M[3];
  unsigned Alphabet = 1 + c.R.below(3);
  for (int I = 0; I < 3; ++I) {
    if (I && c.R.chance(1, 3)) { // Similar to the previous one.
      T[I] = T[I - 1];
      if (!T[I].empty() && c.R.chance(1, 2)) T[I].pop_back();
      else if (c.R.chance(1, 2)) T[I].push_back(Cells + c.R.below(Alphabet));
      else if (!T[I].empty()) T[I][c.R.below(T[I].size())] = Cells + c.R.below(Alphabet);
    } else {
      size_t N = c.R.below(5);
      for (size_t J = 0; J < N; ++J) T[I].push_back(Cells + c.R.below(Alphabet));
    }
    grow(c, Q[I], M[I], T[I]);
    // Copies and moved queues have to compare as well.
    if (c.R.chance(1, 6)) { TQ X(Q[I]); Q[I] = std::move(X); }
  }
  std::string H = show(T[0]) + "| " + show(T[1]) + "| " + show(T[2]); c.input(H);
  for (int I = 0; I < 3; ++I) {
    observe(c, Q[I], T[I], H);
    for (int J = 0; J < 3; ++J) {
      const TQ &A = Q[I], &B = Q[J];
      bool Eq = T[I] == T[J], Lt = T[I] < T[J], Gt = T[J] < T[I];
      VP_CHECK(c, (A == B) == Eq, "eq", fmt("%d %d in ", I, J) + H);
      VP_CHECK(c, (A != B) == !Eq, "ne", fmt("%d %d in ", I, J) + H);
      VP_CHECK(c, (A < B) == Lt, "lt", fmt("%d %d in ", I, J) + H);
      VP_CHECK(c, (A > B) == Gt, "gt", fmt("%d %d in ", I, J) + H);
      VP_CHECK(c, (A <= B) == !Gt, "le", fmt("%d %d in ", I, J) + H);
      VP_CHECK(c, (A >= B) == !Lt, "ge", fmt("%d %d in ", I, J) + H);
      c.count("pairs"); c.count(Eq ? "equal_pairs" : Lt ? "less_pairs" : "greater_pairs");
    }
  }
  // Comparing changes nothing.
  for (int I = 0; I < 3; ++I) { observe(c, Q[I], T[I], H); drain(c, Q[I], T[I], H); }
  c.sample(H); c.distinct(H);
}
VP_MAIN
