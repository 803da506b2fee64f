// C01, C02: intrusive chains against a model of their links.
#include "vp.h"
#include <cassert>
#include <iterator>
#include <type_traits>
#include <utility>
#include <bcl/Chain.h>

namespace {
struct Front {}; struct Back {};
struct Node : bcl::Chain<Node, Front>, bcl::Chain<Node, Back>, bcl::Chain<Node> {
  int Id = -1; std::string Payload;
};
// A type whose only base is a chain.
struct Plain : bcl::Chain<Plain> { int Id = -1; std::string Payload; };

enum { Max = 9 };
struct Links {
  int Next[Max], Prev[Max];
  Links() { for (int I = 0; I < Max; ++I) Next[I] = Prev[I] = -1; }
  bool operator==(const Links &R) const { return !memcmp(this, &R, sizeof *this); }
  bool precedes(int A, int B) const { for (int I = A, K = 0; I >= 0 && K <= Max; I = Next[I], ++K) if (I == B) return true; return false; }
  std::string show(int N) const { std::string S; for (int I = 0; I < N; ++I) S += vp::fmt("%d<%d>%d ", Prev[I], I, Next[I]); return S; }
};
void cut(Links &L, int N) { // N and its neighbours do not know each other
  if (L.Next[N] >= 0) L.Prev[L.Next[N]] = -1;
  if (L.Prev[N] >= 0) L.Next[L.Prev[N]] = -1;
  L.Next[N] = L.Prev[N] = -1;
}
void take(Links &L, int N, bool Join) {
  int P = L.Prev[N], S = L.Next[N];
  cut(L, N);
  if (Join && P >= 0 && S >= 0) { L.Next[P] = S; L.Prev[S] = P; }
}
void link(Links &L, int A, int B) { if (A >= 0) L.Next[A] = B; if (B >= 0) L.Prev[B] = A; }
void spliceNext(Links &L, int This, int N, bool Join) {
  if (N >= 0) take(L, N, Join);
  int S = L.Next[This];
  if (N < 0) { link(L, This, -1); if (S >= 0) L.Prev[S] = -1; return; }
  link(L, N, S); link(L, This, N);
}
void splicePrev(Links &L, int This, int N, bool Join) {
  if (N >= 0) take(L, N, Join);
  int P = L.Prev[This];
  if (N < 0) { L.Prev[This] = -1; if (P >= 0) L.Next[P] = -1; return; }
  link(L, P, N); link(L, N, This);
}
void mergeNext(Links &L, int This, int N) {
  if (L.Next[This] >= 0) L.Prev[L.Next[This]] = -1;
  L.Next[This] = -1;
  if (N < 0) return;
  if (L.Prev[N] >= 0) L.Next[L.Prev[N]] = -1;
  link(L, This, N);
}
void mergePrev(Links &L, int This, int N) {
  if (L.Prev[This] >= 0) L.Next[L.Prev[This]] = -1;
  L.Prev[This] = -1;
  if (N < 0) return;
  if (L.Next[N] >= 0) L.Prev[L.Next[N]] = -1;
  link(L, N, This);
}
// What becomes of the former neighbours of a spliced node is left open: they
// are joined or parted, but always the same way.
VP_TLS int Policy = -1;

template<class T, class Tag> Links read(std::vector<T> &V) {
  using Tr = bcl::ChainTraits<T, Tag>;
  Links L;
  for (size_t I = 0; I < V.size(); ++I) {
    T *N = Tr::getNext(&V[I]), *P = Tr::getPrev(&V[I]);
    L.Next[I] = N ? (int)(N - V.data()) : -1;
    L.Prev[I] = P ? (int)(P - V.data()) : -1;
    const T &C = V[I];
    const T *CN = Tr::getNext(&C), *CP = Tr::getPrev(&C);
    if (CN != N || CP != P) L.Next[I] = -99;
  }
  return L;
}

// One random operation on the chain Tag, mirrored in the model. Returns false if
// the drawn operation is not allowed.
template<class T, class Tag> bool operate(vp::Case &c, std::vector<T> &V, Links &L, std::string &In, bool AnyWay = true) {
  using Tr = bcl::ChainTraits<T, Tag>; using It = bcl::ChainIterator<T, Tag>;
  auto &R = c.R;
  int This = (int)R.below(V.size()), N = (int)R.below(V.size() + 1) - 1;
  int Op = (int)R.below(4);
  if (N == This) return false;
  if (N >= 0 && Op == 2 && L.precedes(N, This)) return false; // would make a cycle
  if (N >= 0 && Op == 3 && L.precedes(This, N)) return false;
  T *PN = N >= 0 ? &V[N] : nullptr;
  bool ByIterator = AnyWay && R.chance(1, 2);
  static const char *Names[] = {"spliceNext", "splicePrev", "mergeNext", "mergePrev"};
  In += vp::fmt("%s%s(%d,%d) ", ByIterator ? "i." : "", Names[Op], This, N); c.input(In);
  It I(&V[This]);
  switch (Op) {
  case 0: if (ByIterator) I.spliceNext(PN); else Tr::spliceNext(PN, &V[This]); break;
  case 1: if (ByIterator) I.splicePrev(PN); else Tr::splicePrev(PN, &V[This]); break;
  case 2: if (ByIterator) I.mergeNext(PN); else Tr::mergeNext(PN, &V[This]); break;
  default: if (ByIterator) I.mergePrev(PN); else Tr::mergePrev(PN, &V[This]);
  }
  c.count(Names[Op]); if (N < 0) c.count("cuts"); if (ByIterator) c.count("by_iterator");
  Links X = read<T, Tag>(V), A = L, B = L;
  switch (Op) {
  case 0: spliceNext(A, This, N, false); spliceNext(B, This, N, true); break;
  case 1: splicePrev(A, This, N, false); splicePrev(B, This, N, true); break;
  case 2: mergeNext(A, This, N); B = A; break;
  default: mergePrev(A, This, N); B = A;
  }
  if (!(A == B)) {
    if (Policy < 0) Policy = X == B;
    c.count("spliced_from_inside");
    if (Policy == 1) A = B;
  }
  if (!(X == A)) c.fail(Names[Op], "links are " + X.show((int)V.size()) + " instead of " + A.show((int)V.size()));
  L = A;
  return true;
}
template<class T> std::vector<T> nodes(vp::Case &c, size_t N) { std::vector<T> V(N); for (size_t I = 0; I < N; ++I) { V[I].Id = (int)I; V[I].Payload = "node" + std::to_string(I); } return V; }

template<class T> void checkPayload(vp::Case &c, std::vector<T> &V) { for (size_t I = 0; I < V.size(); ++I) VP_CHECK(c, V[I].Id == (int)I && V[I].Payload == "node" + std::to_string(I), "payload", "contents of a node have changed"); }
}

VP_FAMILY("C01.history", 12000, 300000) {
  auto &R = c.R;
  size_t N = 2 + R.below(Max - 1);
  std::string In = vp::fmt("%zu nodes: ", N);
  size_t Steps = 1 + R.size(40);
  if (R.chance(1, 4)) {
    auto V = nodes<Plain>(c, N); Links L;
    for (size_t I = 0; I < Steps; ++I) operate<Plain, void>(c, V, L, In);
    checkPayload(c, V);
    c.member("link_states", vp::hashBytes(&L, sizeof L));
  } else {
    auto V = nodes<Node>(c, N); Links L[3];
    for (size_t I = 0; I < Steps; ++I) {
      switch (R.below(3)) {
      case 0: In += "f."; operate<Node, Front>(c, V, L[0], In); break;
      case 1: In += "b."; operate<Node, Back>(c, V, L[1], In); break;
      default: operate<Node, void>(c, V, L[2], In);
      }
      Links A = read<Node, Front>(V), B = read<Node, Back>(V), C = read<Node, void>(V);
      VP_CHECK(c, A == L[0] && B == L[1] && C == L[2], "other-chain", "an operation on one chain changes another");
    }
    checkPayload(c, V);
    for (auto &X : L) c.member("link_states", vp::hashBytes(&X, sizeof X));
  }
  c.distinct(In); c.sample(In);
}

// Every operation in every state of up to four nodes.
VP_FAMILY("C01.exhaustive", 4, 4) {
  size_t N = 1 + c.Index % 4;
  // All sets of chains are reached from each other; breadth first.
  std::vector<Links> Queue(1); std::set<std::string> Seen; Seen.insert(Queue[0].show((int)N));
  uint64_t Done = 0;
  for (size_t Q = 0; Q < Queue.size(); ++Q)
    for (int Op = 0; Op < 4; ++Op)
      for (int This = 0; This < (int)N; ++This)
        for (int M = -1; M < (int)N; ++M) {
          Links L = Queue[Q];
          if (M == This || (M >= 0 && Op == 2 && L.precedes(M, This)) || (M >= 0 && Op == 3 && L.precedes(This, M))) continue;
          auto V = nodes<Plain>(c, N);
          using Tr = bcl::ChainTraits<Plain>;
          // Build the state with the simplest operation.
          for (size_t I = 0; I < N; ++I) if (L.Next[I] >= 0) Tr::mergeNext(&V[L.Next[I]], &V[I]);
          VP_CHECK(c, (read<Plain, void>(V) == L), "mergeNext", "chains can not be built: " + L.show((int)N));
          Plain *P = M >= 0 ? &V[M] : nullptr;
          c.input(L.show((int)N) + vp::fmt("operation %d(%d,%d)", Op, This, M));
          Links A = L, B = L;
          switch (Op) {
          case 0: Tr::spliceNext(P, &V[This]); spliceNext(A, This, M, false); spliceNext(B, This, M, true); break;
          case 1: Tr::splicePrev(P, &V[This]); splicePrev(A, This, M, false); splicePrev(B, This, M, true); break;
          case 2: Tr::mergeNext(P, &V[This]); mergeNext(A, This, M); B = A; break;
          default: Tr::mergePrev(P, &V[This]); mergePrev(A, This, M); B = A;
          }
          Links X = read<Plain, void>(V);
          if (!(A == B)) { if (Policy < 0) Policy = X == B; if (Policy == 1) A = B; }
          if (!(X == A)) c.fail("operation", "links are " + X.show((int)N) + " instead of " + A.show((int)N));
          ++Done; c.distinct(vp::mix(vp::hashBytes(&L, sizeof L)) ^ (Op * 1000 + This * 50 + M + N * 7919));
          if (Seen.insert(X.show((int)N)).second) Queue.push_back(X);
        }
  c.count("exhaustive_operations", Done); c.sample(vp::fmt("%zu nodes, %zu states", N, Queue.size()));
}

namespace {
template<class T, class Tag, class It, class TT> void iterate(vp::Case &c, std::vector<T> &V, const Links &L) {
  for (int S = 0; S < (int)V.size(); ++S) {
    for (int Dir = 0; Dir < 2; ++Dir) {
      auto step = [&](int I) { return Dir ? L.Prev[I] : L.Next[I]; };
      std::vector<int> E; for (int I = S; I >= 0; I = step(I)) E.push_back(I);
      int Mode = (int)c.R.below(3);
      TT *First = &V[S];
      It I(First), End(nullptr); std::vector<int> Got;
      if (c.R.chance(1, 2)) { I = nullptr; VP_CHECK(c, !I && I == End, "null", "assignment of null"); I = First; }
      VP_CHECK(c, bool(I) && !End && I != End, "bool", "an iterator at a node is null");
      while (Mode == 0 ? I != End : Mode == 1 ? bool(I) : I != nullptr) {
        VP_CHECK(c, Got.size() < E.size(), "too-long", "the iteration does not end");
        TT &X = *I; int Id = I->Id; TT *P = I.get();
        VP_CHECK(c, &X == P && P == &V[X.Id] && Id == X.Id && (*I).Payload == V[X.Id].Payload, "dereference", "*, -> and get() disagree");
        Got.push_back(Id);
        for (size_t K = 0; K < V.size(); ++K) {
          TT *Q = &V[K]; bool Eq = (int)K == Id;
          VP_CHECK(c, (I == Q) == Eq && (I != Q) == !Eq && (&V[K] == I) == Eq && (&V[K] != I) == !Eq, "compare-node", vp::fmt("iterator at %d and node %zu", Id, K));
          It J(Q);
          VP_CHECK(c, (I == J) == Eq && (I != J) == !Eq, "compare", vp::fmt("iterators at %d and %zu", Id, K));
        }
        VP_CHECK(c, I.getNext() == (L.Next[Id] >= 0 ? &V[L.Next[Id]] : nullptr) && I.getPrev() == (L.Prev[Id] >= 0 ? &V[L.Prev[Id]] : nullptr), "neighbours", vp::fmt("at %d", Id));
        It Old = I;
        if (Mode == 0) { auto &Same = Dir ? --I : ++I; VP_CHECK(c, &Same == &I, "prefix", "another iterator is returned"); }
        else { It Was = Dir ? I-- : I++; VP_CHECK(c, Was == Old, "postfix", vp::fmt("%s at %d gives another position", Dir ? "--" : "++", Id)); }
        if (I) { // and back
          It B = I; if (Dir) ++B; else --B;
          VP_CHECK(c, B == Old, "back", vp::fmt("forward and back from %d", Id));
          It B2 = I; It Was = Dir ? B2++ : B2--;
          VP_CHECK(c, Was == I && B2 == Old, "back", vp::fmt("forward and back (postfix) from %d", Id));
        }
        c.count("steps");
      }
      if (Got != E) { std::string A, B; for (int X : Got) A += vp::fmt("%d ", X); for (int X : E) B += vp::fmt("%d ", X); c.fail(Dir ? "backward" : "forward", "visited " + A + "instead of " + B); }
    }
  }
}
}

VP_FAMILY("C02.iterate", 5000, 100000) {
  auto &R = c.R;
  size_t N = 1 + R.below(Max);
  std::string In = vp::fmt("%zu nodes: ", N);
  auto V = nodes<Node>(c, N); Links L[2];
  size_t Steps = R.size(30);
  for (size_t I = 0; I < Steps; ++I) {
    if (R.chance(3, 4)) operate<Node, Front>(c, V, L[0], In); else { In += "v."; operate<Node, void>(c, V, L[1], In); }
    if (I + 1 < Steps && !R.chance(1, 4)) continue;
    iterate<Node, Front, bcl::ChainIterator<Node, Front>, Node>(c, V, L[0]);
    iterate<Node, Front, bcl::ChainIteratorC<Node, Front>, const Node>(c, V, L[0]);
    iterate<Node, void, bcl::ChainIterator<Node>, Node>(c, V, L[1]);
    iterate<Node, void, bcl::ChainIteratorC<Node>, const Node>(c, V, L[1]);
    // A constant view of a mutable iterator.
    bcl::ChainIterator<Node, Front> M(&V[0]); bcl::ChainIteratorC<Node, Front> C = M;
    VP_CHECK(c, C == M && C.get() == M.get(), "conversion", "a constant iterator points elsewhere");
    // An iterator stays at its node while links change.
  }
  checkPayload(c, V);
  c.member("link_states", vp::hashBytes(&L[0], sizeof L[0]));
  c.distinct(In); c.sample(In);
}
VP_MAIN
