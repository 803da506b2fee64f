// M01, M02: multidimensional arrays.
#include "vp.h"
#include <bcl/marray.h>
#include <bcl/marray_f.h>

namespace {
// An element which is counted and knows whether it is alive.
struct Tracked {
  static VP_TLS long Live;
  uint64_t Magic = 0x1234567890abcdefull; std::string V;
  Tracked() { ++Live; }
  Tracked(const Tracked &) = delete;
  ~Tracked() { Magic = 0; --Live; }
};
VP_TLS long Tracked::Live = 0;
uint64_t get(const Tracked &T) { return T.Magic != 0x1234567890abcdefull ? ~0ull : T.V.empty() ? 0 : strtoull(T.V.c_str(), 0, 10); }
void set(Tracked &T, uint64_t X) { T.V = std::to_string(X) + std::string(20, ' '); }
template<class T> uint64_t get(const T &X) { return (uint64_t)X; }
template<class T> void set(T &X, uint64_t V) { X = (T)V; }
template<class T> uint64_t clip(uint64_t V) { return (uint64_t)(T)V; }
template<> uint64_t clip<Tracked>(uint64_t V) { return V; }

// Access by an index tuple.
template<size_t D> struct Sub { template<class A> static auto &at(A &&X, const size_t *I) { return Sub<D - 1>::at(X[*I], I + 1); } };
template<> struct Sub<1> { template<class A> static auto &at(A &&X, const size_t *I) { return X[*I]; } };
template<class T, size_t D> T &at(bcl::marray<T, D> &A, const size_t *I) { return Sub<D>::at(A, I); }
template<class T> T &at(bcl::marray_f<T, 2> &A, const size_t *I) { return A(I[0], I[1]); }
template<class T> T &at(bcl::marray_f<T, 3> &A, const size_t *I) { return A(I[0], (unsigned)I[1], (int)I[2]); }
template<class T> T &at(bcl::marray_f<T, 4> &A, const size_t *I) { return A(I[0], I[1], I[2], I[3]); }
template<class T> T &at(bcl::marray_f<T, 5> &A, const size_t *I) { return A((int)I[0], I[1], I[2], I[3], I[4]); }
template<class T> T &at(bcl::marray_f<T, 6> &A, const size_t *I) { return A(I[0], I[1], I[2], I[3], I[4], I[5]); }
template<class T, size_t D> const T *constAt(const bcl::marray_f<T, D> &A, const size_t *I) { return &at(const_cast<bcl::marray_f<T, D> &>(A), I); }
template<class T> const T *constAt(const bcl::marray_f<T, 2> &A, const size_t *I) { return &A(I[0], I[1]); }
template<class T> const T *constAt(const bcl::marray_f<T, 3> &A, const size_t *I) { return &A(I[0], I[1], I[2]); }
template<class T> const T *constAt(const bcl::marray_f<T, 4> &A, const size_t *I) { return &A(I[0], I[1], I[2], I[3]); }
template<class T, size_t D> const T *constAt(const bcl::marray<T, D> &, const size_t *) { return nullptr; }
// A row kept as an object of its own.
template<class T, size_t D> T *viaRow(bcl::marray<T, D> &A, const size_t *I) { auto Row = A[I[0]]; auto &&X = Sub<D - 1>::at(Row, I + 1); return &X; }
template<class T, size_t D> T *viaRow(bcl::marray_f<T, D> &A, const size_t *I) { return &at(A, I); }

template<size_t D> using Dims = std::array<size_t, D>;
template<size_t D> size_t total(const Dims<D> &X) { size_t N = 1; for (auto E : X) N *= E; return N; }
template<size_t D> std::string show(const Dims<D> &X) { std::string S; for (auto E : X) S += vp::fmt("%zux", E); S.pop_back(); return S; }
template<size_t D> Dims<D> index(const Dims<D> &X, size_t Linear) { Dims<D> I; for (size_t K = D; K-- > 0;) { I[K] = Linear % X[K]; Linear /= X[K]; } return I; }
template<size_t D> Dims<D> draw(vp::Rng &R, size_t Limit) {
  Dims<D> X;
  for (;;) { for (auto &E : X) E = R.chance(1, 40) ? 0 : R.chance(1, 4) ? 1 : 1 + R.size(D > 4 ? 5 : D > 2 ? 12 : 60); if (total(X) <= Limit) return X; }
}

template<class A, class T, size_t D> void access(vp::Case &c, const char *Name) {
  auto &R = c.R;
  auto X = draw<D>(R, 3000);
  c.input(vp::fmt("%s %s", Name, show(X).c_str()));
  size_t N = total(X);
  long Live = Tracked::Live;
  {
    Dims<D> Copy = X;
    std::unique_ptr<A> P(R.chance(1, 2) ? new A(X) : new A(std::move(Copy)));
    A &M = *P;
    if (std::is_same<T, Tracked>::value) VP_CHECK(c, (size_t)(Tracked::Live - Live) == N, "size", vp::fmt("%ld elements instead of %zu", Tracked::Live - Live, N));
    T *Base = nullptr;
    for (size_t L = 0; L < N; ++L) {
      auto I = index(X, L);
      T &E = at(M, I.data());
      if (L == 0) Base = &E;
      VP_CHECK(c, &E == Base + L, "row-major", vp::fmt("element %s is at %td instead of %zu", show(I).c_str(), &E - Base, L));
      VP_CHECK(c, viaRow(M, I.data()) == &E, "row", "through a row: " + show(I));
      auto *K = constAt(M, I.data());
      VP_CHECK(c, !K || K == &E, "const", "constant access: " + show(I));
      set(E, clip<T>(L + 7));
    }
    std::vector<uint64_t> Model(N);
    for (size_t L = 0; L < N; ++L) Model[L] = clip<T>(L + 7);
    for (size_t K = 0, W = N ? 50 + R.below(200) : 0; K < W; ++K) {
      size_t L = R.below(N); auto I = index(X, L);
      if (R.chance(1, 2)) { Model[L] = clip<T>(R.below(1000000)); set(at(M, I.data()), Model[L]); }
      else VP_CHECK(c, get(at(M, I.data())) == Model[L], "value", "at " + show(I));
    }
    for (size_t L = 0; L < N; ++L) { auto I = index(X, L); VP_CHECK(c, get(at(M, I.data())) == Model[L], "value", "at " + show(I)); }
  }
  VP_CHECK(c, Tracked::Live == Live, "elements-leak", vp::fmt("%ld elements are not destroyed", Tracked::Live - Live));
  c.count("elements", N); c.count("arrays"); if (N == 0) c.count("empty_arrays");
  c.distinct(std::string(Name) + show(X)); c.sample(std::string(Name) + " " + show(X));
  c.member("dimensions", D);
}

// More elements than 32 bits can count; only the probed elements are touched.
template<class A, size_t D> void huge(vp::Case &c, const char *Name) {
  auto &R = c.R;
  const size_t Total = (1ull << 32) + 1 + R.below(1ull << 28);
  Dims<D> X; for (;;) { // the total is at least Total and less than twice as large
    size_t Rest = Total; size_t Wide = R.below(D);
    for (size_t K = 0; K < D; ++K) X[K] = K == Wide ? 1 : 1 + R.below(D > 3 ? 200 : D > 2 ? 2000 : 80000);
    size_t N = total(X); X[Wide] = (Rest + N - 1) / N;
    if (total(X) < Total + (1ull << 28) && X[Wide] < 1ull << 31) break;
  }
  c.input(vp::fmt("%s %s", Name, show(X).c_str()));
  A M(X); size_t N = total(X);
  char *Base = &at(M, Dims<D>{}.data());
  std::map<size_t, char> Model;
  for (int K = 0; K < 200; ++K) {
    Dims<D> I; for (size_t J = 0; J < D; ++J) I[J] = R.chance(1, 3) ? X[J] - 1 : R.chance(1, 4) ? 0 : R.below(X[J]);
    if (K == 0) for (size_t J = 0; J < D; ++J) I[J] = X[J] - 1;
    size_t L = 0; for (size_t J = 0; J < D; ++J) L = L * X[J] + I[J];
    char &E = at(M, I.data());
    VP_CHECK(c, &E == Base + L && L < N, "row-major", vp::fmt("element %s is at %td instead of %zu", show(I).c_str(), &E - Base, L));
    VP_CHECK(c, viaRow(M, I.data()) == &E, "row", "through a row: " + show(I));
    auto *Q = constAt(M, I.data()); VP_CHECK(c, !Q || Q == &E, "const", "constant access: " + show(I));
    E = Model[L] = (char)(K + 1);
  }
  for (auto &P : Model) { auto I = index(X, P.first); VP_CHECK(c, at(M, I.data()) == P.second, "value", "at " + show(I)); c.count("huge_elements"); }
  c.count("huge_arrays"); c.distinct(std::string(Name) + show(X)); c.sample(std::string(Name) + " " + show(X));
}

// Extents of which no array can exist, though their product may seem to be small.
template<class A, class T, size_t D> void tooLarge(vp::Case &c, const char *Name) {
  auto &R = c.R;
  Dims<D> X; for (auto &E : X) E = 1;
  size_t F = R.below(D), S = R.below(D - 1); if (S >= F) ++S;
  size_t Want = R.chance(1, 3) ? 0 : R.below(50);
  if (Want == 0) { // powers of 2
    size_t Bits = 64 + R.below(4); X[F] = size_t(1) << (1 + R.below(63)); 
    size_t Left = Bits - __builtin_ctzll(X[F]); if (Left > 63) Left = 63;
    X[S] = size_t(1) << Left;
    if (Left + __builtin_ctzll(X[F]) < 64) X[F] = X[S] = size_t(1) << 32;
  } else { // a number and its inverse
    X[F] = R.next() >> R.below(60) | 1; if (X[F] == 1) X[F] = 3;
    size_t V = X[F]; for (int K = 0; K < 6; ++K) V *= 2 - X[F] * V;
    X[S] = V * Want;
    if ((unsigned __int128)X[F] * X[S] >> 64 == 0) X[F] = X[S] = ~size_t(0);
  }
  for (size_t K = 0; K < D; ++K) if (K != F && K != S && R.chance(1, 3)) X[K] = 1 + R.below(5);
  bool Empty = D > 2 && R.chance(1, 4);
  if (Empty) { size_t K; do K = R.below(D); while (K == F || K == S); X[K] = 0; }
  c.input(vp::fmt("%s %s", Name, show(X).c_str()));
  long Live = Tracked::Live;
  bool Thrown = false;
  try { A M(X); A Other(std::move(M)); } catch (const std::bad_alloc &) { Thrown = true; }
  VP_CHECK(c, Thrown != Empty, "too-large", Empty ? "an empty array can not be created" : "an array is created which can not exist");
  VP_CHECK(c, Tracked::Live == Live, "elements-leak", "");
  c.count(Empty ? "empty_with_large_extents" : "too_large");
  c.distinct(std::string(Name) + show(X)); c.sample(std::string(Name) + " " + show(X));
}

template<class A, class T, size_t D> void moves(vp::Case &c, const char *Name) {
  auto &R = c.R;
  enum { NSlots = 4 };
  long Live = Tracked::Live;
  std::string In = std::string(Name) + ": ";
  size_t Steps = 2 + R.size(20);
  {
    struct Slot { std::unique_ptr<A> P; bool Full = false; Dims<D> X; uint64_t Tag = 0; const T *Base = nullptr; } S[NSlots];
    uint64_t Tags = 1;
    auto fill = [&](int I) {
      S[I].X = draw<D>(R, 300); while (total(S[I].X) == 0) S[I].X = draw<D>(R, 300);
      S[I].P.reset(new A(S[I].X)); S[I].Full = true; S[I].Tag = Tags++;
      for (size_t L = 0; L < total(S[I].X); ++L) { auto K = index(S[I].X, L); set(at(*S[I].P, K.data()), clip<T>(S[I].Tag * 1000 + L)); }
      auto Z = index(S[I].X, 0); S[I].Base = &at(*S[I].P, Z.data());
    };
    auto verify = [&] {
      size_t N = 0;
      for (auto &X : S) if (X.Full) {
        size_t T2 = total(X.X); N += T2;
        for (size_t L = 0; L < T2; ++L) { auto K = index(X.X, L); T &E = at(*X.P, K.data()); VP_CHECK(c, get(E) == clip<T>(X.Tag * 1000 + L), "contents", vp::fmt("element %s of array %lu has changed", show(K).c_str(), (unsigned long)X.Tag)); }
      }
      if (std::is_same<T, Tracked>::value) VP_CHECK(c, (size_t)(Tracked::Live - Live) == N, "elements-leak", vp::fmt("%ld elements are alive, %zu are expected", Tracked::Live - Live, N));
    };
    for (int I = 0; I < NSlots; ++I) { fill(I); if (R.chance(1, 5)) { A Gone(std::move(*S[I].P)); S[I].Full = false; } }
    for (size_t K = 0; K < Steps; ++K) {
      int A1 = (int)R.below(NSlots), B = (int)R.below(NSlots);
      switch (R.below(6)) {
      case 0: In += vp::fmt("new%d ", A1); c.input(In); fill(A1); break;
      case 1: { // assigned from a temporary
        In += vp::fmt("%d=temporary ", A1); c.input(In);
        auto Old = std::move(S[A1].P); fill(A1); A Tmp(std::move(*S[A1].P)); S[A1].P = std::move(Old); *S[A1].P = std::move(Tmp); c.count("assignments"); break;
      }
      case 2: { // constructed by move; the old object is destroyed
        if (A1 == B) break;
        In += vp::fmt("%d(move %d) ", A1, B); c.input(In);
        S[A1].P.reset(new A(std::move(*S[B].P))); S[A1].Full = S[B].Full; S[A1].X = S[B].X; S[A1].Tag = S[B].Tag; S[B].Full = false; c.count("constructions"); break;
      }
      case 3: In += vp::fmt("self%d ", A1); c.input(In); { auto &Me = *S[A1].P; auto &Same = (*S[A1].P = std::move(Me)); VP_CHECK(c, &Same == &Me, "assignment-result", "self"); } c.count("self_moves"); break;
      default: { // assigned
        if (A1 == B) break;
        In += vp::fmt("%d=%d ", A1, B); c.input(In);
        auto &Same = (*S[A1].P = std::move(*S[B].P));
        VP_CHECK(c, &Same == S[A1].P.get(), "assignment-result", "another array is returned");
        S[A1].Full = S[B].Full; S[A1].X = S[B].X; S[A1].Tag = S[B].Tag; S[B].Full = false; c.count("assignments");
      }
      }
      verify();
    }
  }
  VP_CHECK(c, Tracked::Live == Live, "elements-leak", vp::fmt("%ld elements are not destroyed", Tracked::Live - Live));
  c.distinct(In + vp::fmt("%lu", (unsigned long)c.Index)); c.sample(In);
}
#define EACH(f, T, n) { f<bcl::marray<T, 2>, T, 2>, "marray2<" n ">" }, { f<bcl::marray<T, 3>, T, 3>, "marray3<" n ">" }, { f<bcl::marray<T, 4>, T, 4>, "marray4<" n ">" }, \
  { f<bcl::marray<T, 5>, T, 5>, "marray5<" n ">" }, { f<bcl::marray<T, 6>, T, 6>, "marray6<" n ">" }, \
  { f<bcl::marray_f<T, 2>, T, 2>, "marray_f2<" n ">" }, { f<bcl::marray_f<T, 3>, T, 3>, "marray_f3<" n ">" }, { f<bcl::marray_f<T, 4>, T, 4>, "marray_f4<" n ">" }, \
  { f<bcl::marray_f<T, 5>, T, 5>, "marray_f5<" n ">" }, { f<bcl::marray_f<T, 6>, T, 6>, "marray_f6<" n ">" }
}
VP_FAMILY("M01.access", 3000, 60000) {
  static const struct { void (*F)(vp::Case &, const char *); const char *N; } K[] = { EACH(access, int, "int"), EACH(access, char, "char"), EACH(access, double, "double"), EACH(access, Tracked, "object") };
  auto &X = c.R.pick(K); X.F(c, X.N);
}
VP_FAMILY("M01.huge", 24, 300) {
  static const struct { void (*F)(vp::Case &, const char *); const char *N; } K[] = { { huge<bcl::marray<char, 2>, 2>, "marray2<char>" }, { huge<bcl::marray<char, 3>, 3>, "marray3<char>" }, { huge<bcl::marray<char, 4>, 4>, "marray4<char>" },
    { huge<bcl::marray_f<char, 2>, 2>, "marray_f2<char>" }, { huge<bcl::marray_f<char, 3>, 3>, "marray_f3<char>" }, { huge<bcl::marray_f<char, 4>, 4>, "marray_f4<char>" } };
  auto &X = K[c.Index % 6]; X.F(c, X.N);
}
VP_FAMILY("M01.overflow", 2000, 20000) {
  static const struct { void (*F)(vp::Case &, const char *); const char *N; } K[] = { EACH(tooLarge, int, "int"), EACH(tooLarge, char, "char"), EACH(tooLarge, double, "double"), EACH(tooLarge, Tracked, "object") };
  auto &X = c.R.pick(K); X.F(c, X.N);
}
VP_FAMILY("M02.moves", 4000, 80000) {
  static const struct { void (*F)(vp::Case &, const char *); const char *N; } K[] = { EACH(moves, int, "int"), EACH(moves, Tracked, "object"), EACH(moves, Tracked, "object") };
  auto &X = c.R.pick(K); X.F(c, X.N);
}
VP_MAIN
