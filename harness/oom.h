// Allocations that fail: the N-th one after the moment they are armed, or that
// one and all later ones.
#ifndef OOM_H
#define OOM_H
#include <cstdlib>
#include <new>
namespace oom {
inline thread_local bool Armed = false, Sticky = false;
inline thread_local long Left = 0;
inline thread_local unsigned long Failed = 0, Seen = 0;
inline bool now() {
  if (!Armed) return false;
  ++Seen;
  if (Left-- > 0) return false;
  if (!Sticky) Armed = false;
  ++Failed;
  return true;
}
// What a harness itself allocates in between does not fail.
struct Pause { bool A = Armed; Pause() { Armed = false; } ~Pause() { Armed = A; } };
// Runs F so that the allocation number N (and all later ones) fails. Returns true
// if an exception is thrown.
struct Result { bool Failed, Thrown; };
template<class F> Result run(long N, bool All, F &&Fn) {
  Result R{false, false};
  Failed = Seen = 0; Left = N; Sticky = All; Armed = true;
  try { Fn(); } catch (const std::bad_alloc &) { R.Thrown = true; } catch (...) { Armed = false; throw; }
  Armed = false; R.Failed = Failed > 0;
  return R;
}
}
#ifdef OOM_MAIN
// A failing allocation inside the sanitizers' own operator new is not possible,
// so these ones are used.
void *operator new(std::size_t S) { if (oom::now()) throw std::bad_alloc(); if (void *P = std::malloc(S ? S : 1)) return P; throw std::bad_alloc(); }
void *operator new[](std::size_t S) { return operator new(S); }
void *operator new(std::size_t S, const std::nothrow_t &) noexcept { return oom::now() ? nullptr : std::malloc(S ? S : 1); }
void *operator new[](std::size_t S, const std::nothrow_t &) noexcept { return oom::now() ? nullptr : std::malloc(S ? S : 1); }
void operator delete(void *P) noexcept { std::free(P); }
void operator delete[](void *P) noexcept { std::free(P); }
void operator delete(void *P, std::size_t) noexcept { std::free(P); }
void operator delete[](void *P, std::size_t) noexcept { std::free(P); }
void operator delete(void *P, const std::nothrow_t &) noexcept { std::free(P); }
void operator delete[](void *P, const std::nothrow_t &) noexcept { std::free(P); }
#endif
#endif
