// What the translation units of H01 give each other.
#ifndef VP_HEADERS_H
#define VP_HEADERS_H
#include "vp.h"
namespace hd {
extern const char Cells[64]; // pointers in queues refer to these
struct Kind {
  const char *Name;
  void *(*Create)(vp::Rng &);
  void (*Change)(void *, vp::Rng &);
  std::string (*Show)(void *);
  void (*Destroy)(void *);
};
struct Unit {
  const char *First; // the header it includes before all others
  std::vector<Kind> Kinds;
  std::map<std::string, std::string> (*Entities)();
};
inline std::vector<Unit> &units() { static std::vector<Unit> U; return U; }
}
#endif
