// R01, R02: redirection of output, observed through the files on disk, the
// descriptors of the process and the answers of the objects.
#ifdef WITH_OOM
#define OOM_MAIN
#include "oom.h"
#else
namespace oom { struct Pause {}; }
#endif
#include "vp.h"
#include <bcl/RedirectIO.h>
#include <dirent.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>

namespace {
std::string scratch() {
  static std::string Dir;
  static pid_t Owner = 0;
  if (Dir.empty()) {
    // The driver starts a workload in a directory it removes.
    char T[4096]; if (!getcwd(T, sizeof T)) _exit(3);
    std::string P = std::string(T) + "/vp-redirect-XXXXXX";
    if (!mkdtemp(&P[0])) { perror("mkdtemp"); _exit(3); }
    Dir = P; Owner = getpid();
    atexit([] {
      if (getpid() != Owner) return;
      if (DIR *D = opendir(Dir.c_str())) {
        while (auto *E = readdir(D)) { std::string N = E->d_name; if (N != "." && N != "..") { if (unlink((Dir + "/" + N).c_str()) != 0) rmdir((Dir + "/" + N).c_str()); } }
        closedir(D);
      }
      rmdir(Dir.c_str());
    });
  }
  return Dir;
}
std::string onDisk(const std::string &Path) {
  std::string R; char B[65536];
  int F = open(Path.c_str(), O_RDONLY);
  if (F < 0) return "<no file>";
  for (ssize_t N; (N = read(F, B, sizeof B)) > 0;) R.append(B, N);
  close(F);
  return R;
}
void put(const std::string &Path, const std::string &S) {
  int F = open(Path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  for (size_t I = 0; I < S.size();) { ssize_t N = write(F, S.data() + I, S.size() - I); if (N <= 0) break; I += N; }
  close(F);
}
// What each descriptor of the process refers to.
std::map<int, std::pair<dev_t, ino_t>> descriptors() {
  std::map<int, std::pair<dev_t, ino_t>> R;
  for (int I = 0; I < 256; ++I) { struct stat S; if (fstat(I, &S) == 0) R[I] = {S.st_dev, S.st_ino}; }
  return R;
}
std::string bytes(vp::Rng &R, size_t Max) {
  std::string S(R.size(Max), 0);
  int Kind = R.below(4);
  for (auto &C : S)
    C = Kind == 0 ? (char)R.below(256) : Kind == 1 ? "\0\n\r\xff\x1a"[R.below(5)] : (char)('a' + R.below(26));
  return S;
}
void writeAll(vp::Case &c, int Fd, const std::string &S) {
  for (size_t I = 0; I < S.size();) {
    size_t Chunk = 1 + c.R.below(S.size() - I);
    ssize_t N = write(Fd, S.data() + I, Chunk);
    VP_CHECK(c, N > 0, "write-fails", vp::fmt("write to the redirected descriptor fails: %s", strerror(errno)));
    I += N; c.count("writes");
  }
}
int freshFd(vp::Case &c) {
  int F = open("/dev/null", O_WRONLY);
  VP_CHECK(c, F >= 0, "harness", "no descriptor");
  return F;
}
std::string errorsOf(const bcl::RedirectIO &R) { std::string S; if (R.mayRedirected()) for (auto M : R.errors()) S += std::string(M) + "; "; return S; }
struct Fd { int F; ~Fd() { if (F >= 0) close(F); } };
}

// Faults of the C library, injected into the calls of this program.
namespace fault {
bool Armed = false;
const char *Name = "";
int Countdown = 0;
unsigned Hits = 0;
bool CloseToo = false;  // the next fclose() fails as well
unsigned BadClose = 0;  // closed although not open
std::set<FILE *> Live;
bool now(const char *N) {
  if (CloseToo && Hits && !strcmp(N, "fclose")) { CloseToo = false; return true; }
  if (!Armed || strcmp(N, Name)) return false;
  if (Countdown-- > 0) return false;
  Armed = false; ++Hits; errno = EIO;
  return true;
}
// Reading fails only if there may be something to read.
bool reading(const char *N, FILE *F) {
  if (feof(F) || !now(N)) return false;
  F->_flags |= 0x20; // what ferror() asks for in the GNU C library
  return true;
}
}
extern "C" {
FILE *__real_fopen(const char *, const char *); int __real_fclose(FILE *); int __real_dup2(int, int);
long __real_ftell(FILE *); int __real_fseek(FILE *, long, int); int __real_fflush(FILE *);
size_t __real_fread(void *, size_t, size_t, FILE *); int __real_fgetc(FILE *);
FILE *__wrap_fopen(const char *P, const char *M) { FILE *F = fault::now("fopen") ? nullptr : __real_fopen(P, M); oom::Pause Ours; (void)Ours; if (F) fault::Live.insert(F); return F; }
int __wrap_fclose(FILE *F) { bool B = fault::now("fclose"); oom::Pause Ours; (void)Ours; if (!fault::Live.erase(F)) { ++fault::BadClose; return EOF; } int R = __real_fclose(F); if (B) errno = EIO; return B ? EOF : R; }
int __wrap_dup2(int A, int B) { return fault::now("dup2") ? -1 : __real_dup2(A, B); }
long __wrap_ftell(FILE *F) { return fault::now("ftell") ? -1 : __real_ftell(F); }
int __wrap_fseek(FILE *F, long O, int W) { return fault::now("fseek") ? -1 : __real_fseek(F, O, W); }
int __wrap_fflush(FILE *F) { return fault::now("fflush") ? EOF : __real_fflush(F); }
size_t __wrap_fread(void *P, size_t S, size_t N, FILE *F) { return fault::reading("fread", F) ? 0 : __real_fread(P, S, N, F); }
int __wrap_fgetc(FILE *F) { return fault::reading("fgetc", F) ? EOF : __real_fgetc(F); }
}

VP_FAMILY("R01.diff", 4000, 80000) {
  auto &R = c.R;
  using M = bcl::RedirectIO::Mode;
  std::string Path = scratch() + "/" + vp::fmt("f%d", (int)R.below(3));
  bool Append = R.chance(1, 2), Prior = R.chance(2, 3);
  std::string Content;
  unlink(Path.c_str());
  if (Prior) { Content = bytes(R, 20000); put(Path, Content); }
  std::string In = vp::fmt("%s prior=%zd: ", Append ? "append" : "rewrite", Prior ? (ssize_t)Content.size() : (ssize_t)-1);
  if (!Append) Content.clear();
  size_t Start = Content.size(), Pos = Start, Written = 0;
  Fd From{freshFd(c)};
  // Output of the program may be also buffered by a stream.
  FILE *Stream = R.chance(1, 3) ? fdopen(dup(From.F), "w") : nullptr;
  struct CloseStream { FILE *&S; ~CloseStream() { if (S) { fault::Live.insert(S); fclose(S); } } } CS{Stream};
  int Target = Stream ? fileno(Stream) : From.F;
  {
    bcl::RedirectIO IO(Target, Path, Append ? M::Append : M::Rewrite);
    VP_CHECK(c, IO.mayRedirected() && !IO.hasErrors(), "unexpected-error", errorsOf(IO));
    VP_CHECK(c, IO.fileName() == Path, "file-name", IO.fileName());
    size_t N = 1 + R.size(25);
    for (size_t I = 0; I < N; ++I) {
      switch (R.below(8)) {
      case 0: case 1: case 2: {
        auto S = bytes(R, R.chance(1, 20) ? 100000 : 700);
        In += vp::fmt("write%zu ", S.size()); c.input(In);
        if (Stream) {
          VP_CHECK(c, fwrite(S.data(), 1, S.size(), Stream) == S.size() && fflush(Stream) == 0, "write-fails", "stream");
        } else writeAll(c, Target, S);
        Content += S; Written += S.size(); c.count("bytes", S.size());
        break;
      }
      case 3: case 4: {
        In += "diff "; c.input(In);
        auto D = IO.diff();
        auto E = Content.substr(Pos);
        if (D != E) {
          size_t K = 0; while (K < D.size() && K < E.size() && D[K] == E[K]) ++K;
          c.fail("diff", vp::fmt("diff gives %zu bytes instead of %zu, equal up to %zu; errors: ", D.size(), E.size(), K) + errorsOf(IO));
        }
        c.count("diffs"); if (!E.empty()) c.count("nonempty_diffs");
        break;
      }
      case 5: {
        In += "isDiff "; c.input(In);
        bool D = IO.isDiff();
        VP_CHECK(c, D == (Content.size() != Pos), "isDiff", D ? "reports a difference" : "reports no difference");
        c.count("questions"); break;
      }
      case 6: {
        In += "set "; c.input(In);
        VP_CHECK(c, IO.setDiffPos(), "setDiffPos", errorsOf(IO));
        Pos = Content.size(); c.count("remembered"); break;
      }
      default: In += "reset "; c.input(In); IO.resetDiffPos(); Pos = Start; c.count("resets");
      }
      VP_CHECK(c, !IO.hasErrors(), "unexpected-error", errorsOf(IO));
      if (R.chance(1, 6)) VP_CHECK(c, onDisk(Path) == Content, "file", vp::fmt("the file holds %zu bytes, %zu are expected", onDisk(Path).size(), Content.size()));
    }
    auto D = IO.diff();
    VP_CHECK(c, D == Content.substr(Pos), "diff", vp::fmt("last diff gives %zu bytes instead of %zu", D.size(), Content.size() - Pos));
    IO.resetDiffPos(); Pos = Start;
    D = IO.diff();
    VP_CHECK(c, D == Content.substr(Start), "diff", vp::fmt("diff since the start gives %zu bytes instead of %zu", D.size(), Content.size() - Start));
  }
  // The redirection stays after the object has gone.
  auto S = bytes(R, 300);
  writeAll(c, Target, S); Content += S;
  auto F = onDisk(Path);
  VP_CHECK(c, F == Content, "file", vp::fmt("the file holds %zu bytes, %zu are expected", F.size(), Content.size()));
  In += vp::fmt("|%lx", (long)vp::hashStr(Content)); c.distinct(In); c.sample(In);
}

namespace {
// State of one object.
struct Model {
  enum Kind { Empty, Active, Failed } K = Empty;
  int File = -1;        // index of the file
  int From = -1;        // index of the redirected descriptor
  size_t Start = 0, Pos = 0;
  std::string Name;
  int Reason = 0;       // number of the error which has to be reported
};
// One of the errors names the file, and tells the reason in the words of the system.
bool explained(const bcl::RedirectIO &IO, const std::string &Path, int Reason) {
  std::string Why = Reason ? strerror(Reason) : "";
  auto lower = [](std::string S) { for (char &C : S) C = (char)std::tolower((unsigned char)C); return S; };
  for (std::string M : IO.errors())
    if (M.find(Path) != std::string::npos && lower(M).find(lower(Why)) != std::string::npos) return true;
  return false;
}
}

VP_FAMILY("R02.faults", 9000, 100000) {
  auto &R = c.R;
  using M = bcl::RedirectIO::Mode;
  std::string Path = scratch() + "/q", Content;
  unlink(Path.c_str());
  if (R.chance(1, 2)) { Content = bytes(R, 300); put(Path, Content); }
  auto Before = descriptors();
  const char *Names[] = {"fopen", "dup2", "fclose", "ftell", "fseek", "fflush", "fread", "fgetc"};
  bool App = R.chance(1, 2);
  if (!App) Content.clear();
  std::string In = App ? "append: " : "rewrite: ";
  {
    Fd From{freshFd(c)};
    auto Base = descriptors();
    fault::Armed = R.chance(1, 2); fault::Name = R.pick(Names); fault::Countdown = R.chance(2, 3) ? 0 : (int)R.below(3); fault::Hits = 0; fault::BadClose = 0;
    fault::CloseToo = R.chance(1, 2);
    bool Second = R.chance(1, 2); const char *SecondName = R.pick(Names);
    if (fault::Armed) In += vp::fmt("%s/%d ", fault::Name, fault::Countdown);
    if (Second) In += vp::fmt("later %s ", SecondName);
    c.input(In);
    struct Disarm { ~Disarm() { fault::Armed = false; } } DA;
    bool Failed;
    {
      bcl::RedirectIO IO(From.F, Path, App ? M::Append : M::Rewrite);
      Failed = fault::Hits > 0;
      VP_CHECK(c, IO.mayRedirected() && IO.hasErrors() == Failed, Failed ? "failure-not-reported" : "unexpected-error", errorsOf(IO));
      fault::Armed = fault::CloseToo = false;
      if (Failed) {
        c.count("constructor_faults");
        VP_CHECK(c, explained(IO, Path, EIO), "error-not-explained", errorsOf(IO));
        VP_CHECK(c, descriptors().size() == Base.size(), "descriptors", "a failed redirection keeps a descriptor");
        VP_CHECK(c, !IO.isDiff() && IO.diff().empty() && !IO.setDiffPos() && IO.hasErrors(), "failed-diff", "changes are reported");
      } else {
        size_t Start = Content.size();
        for (int I = 0; I < 4; ++I) {
          auto S = bytes(R, 300);
          writeAll(c, From.F, S); Content += S;
          if (Second && I == 1) { fault::Armed = true; fault::Name = SecondName; fault::Countdown = (int)R.below(2); fault::Hits = 0; }
          std::string Shown = errorsOf(IO);
          if (R.chance(1, 3)) { // what is remembered is forgotten only if something else is remembered
            bool Ok = IO.setDiffPos();
            if (fault::Hits) c.count("position_faults");
            VP_CHECK(c, Ok == !fault::Hits && (errorsOf(IO).size() > Shown.size()) == !Ok, Ok ? "unexpected-error" : "failure-not-reported", errorsOf(IO));
            if (!Ok) VP_CHECK(c, explained(IO, Path, EIO), "error-not-explained", errorsOf(IO));
            if (Ok) Start = Content.size();
            fault::Armed = false; fault::Hits = 0;
            continue;
          }
          std::string D = IO.diff();
          if (fault::Hits) { // the error is recorded and nothing else happens
            fault::Armed = false; fault::Hits = 0; c.count("diff_faults");
            if (errorsOf(IO).size() <= Shown.size()) c.fail("failure-not-reported", "no error is added");
            VP_CHECK(c, explained(IO, Path, EIO), "error-not-explained", errorsOf(IO));
            VP_CHECK(c, D.empty(), "failed-diff", "something is reported");
          } else {
            VP_CHECK(c, D == Content.substr(Start), "diff", vp::fmt("%zu bytes instead of %zu", D.size(), Content.size() - Start));
            VP_CHECK(c, errorsOf(IO) == Shown, "unexpected-error", errorsOf(IO));
          }
        }
      }
      if (R.chance(1, 2)) { bcl::RedirectIO Other; Other = std::move(IO); }
      else if (R.chance(1, 2)) IO = bcl::RedirectIO();
      fault::Armed = R.chance(1, 2); fault::Name = "fclose"; fault::Countdown = 0;
    }
    fault::Armed = false;
    VP_CHECK(c, descriptors().size() == Base.size(), "descriptors", "a descriptor is left open");
    if (!Failed) {
      auto S = bytes(R, 50);
      writeAll(c, From.F, S); Content += S;
      VP_CHECK(c, onDisk(Path) == Content, "file", "the contents of the file are wrong");
    }
  }
  VP_CHECK(c, descriptors() == Before, "descriptors", "descriptors have changed");
  VP_CHECK(c, !fault::BadClose && fault::Live.empty(), "close", vp::fmt("%u closes of a file which is not open, %zu files are not closed", fault::BadClose, fault::Live.size()));
  c.distinct(In + vp::fmt("%lx", (long)vp::hashStr(Content))); c.sample(In);
}

VP_FAMILY("R02.pool", 3000, 60000) {
  auto &R = c.R;
  using M = bcl::RedirectIO::Mode;
  enum { NObj = 4, NFd = 3, NFile = 4 };
  std::string Dir = scratch(), In;
  auto Before = descriptors();
  {
    Fd From[NFd]{{-1}, {-1}, {-1}};
    for (auto &F : From) F.F = freshFd(c);
    std::string Path[NFile], Content[NFile];
    for (int I = 0; I < NFile; ++I) { Path[I] = Dir + vp::fmt("/p%d", I); unlink(Path[I].c_str()); }
    auto Base = descriptors();
    int Writes[NFd] = {-1, -1, -1}; // the file each descriptor writes to
    std::set<int> Used;             // every file is a target once
    std::unique_ptr<bcl::RedirectIO> O[NObj];
    Model Mo[NObj];
    for (auto &X : O) X.reset(new bcl::RedirectIO);
    auto verify = [&](int I) {
      auto &X = *O[I]; auto &Y = Mo[I];
      switch (Y.K) {
      case Model::Empty:
        VP_CHECK(c, !X.mayRedirected(), "empty-active", "an object which redirects nothing claims to redirect");
        VP_CHECK(c, !X.hasErrors(), "empty-errors", "an object which redirects nothing has errors");
        VP_CHECK(c, !X.isDiff() && X.diff().empty() && !X.setDiffPos(), "empty-diff", "an object which redirects nothing has changes");
        X.resetDiffPos();
        VP_CHECK(c, !X.mayRedirected() && !X.hasErrors(), "empty-errors", "an object which redirects nothing has got errors");
        c.count("empty_objects");
        break;
      case Model::Failed:
        VP_CHECK(c, X.mayRedirected() && X.hasErrors() && !X.errors().empty(), "failure-not-reported", "no errors are reported");
        VP_CHECK(c, X.fileName() == Y.Name, "file-name", X.fileName());
        VP_CHECK(c, errorsOf(X).find(Y.Name) != std::string::npos, "error-without-name", errorsOf(X));
        VP_CHECK(c, explained(X, Y.Name, Y.Reason), "error-not-explained", errorsOf(X));
        VP_CHECK(c, !X.isDiff() && X.diff().empty() && !X.setDiffPos(), "failed-diff", "changes are reported");
        VP_CHECK(c, X.hasErrors(), "failure-not-reported", "errors have gone");
        c.count("failed_objects");
        break;
      case Model::Active: {
        VP_CHECK(c, X.mayRedirected() && !X.hasErrors(), "unexpected-error", errorsOf(X));
        VP_CHECK(c, X.fileName() == Y.Name, "file-name", X.fileName());
        auto E = Content[Y.File].substr(Y.Pos);
        VP_CHECK(c, X.isDiff() == !E.empty(), "isDiff", vp::fmt("%zu bytes are expected", E.size()));
        auto D = X.diff();
        VP_CHECK(c, D == E, "diff", vp::fmt("%zu bytes instead of %zu: ", D.size(), E.size()) + errorsOf(X));
        VP_CHECK(c, !X.hasErrors(), "unexpected-error", errorsOf(X));
        c.count("active_objects");
      }
      }
    };
    auto audit = [&]() {
      auto Now = descriptors();
      size_t Active = 0;
      for (auto &Y : Mo) if (Y.K == Model::Active) ++Active;
      std::string List;
      if (Now.size() != Base.size() + Active) for (auto &P : Now) { char B[500] = ""; ssize_t L = readlink(vp::fmt("/proc/self/fd/%d", P.first).c_str(), B, sizeof B - 1); (void)L; List += vp::fmt(" %d=%s", P.first, B); }
      VP_CHECK(c, Now.size() == Base.size() + Active, "descriptors", List + vp::fmt("%zu descriptors are open, %zu are expected (%zu objects redirect)", Now.size(), Base.size() + Active, Active));
      for (int I = 0; I < NFd; ++I) {
        struct stat S, T;
        VP_CHECK(c, fstat(From[I].F, &S) == 0, "descriptor-closed", "redirected descriptor is closed");
        if (Writes[I] >= 0) {
          VP_CHECK(c, stat(Path[Writes[I]].c_str(), &T) == 0 && S.st_ino == T.st_ino, "wrong-target", vp::fmt("descriptor %d does not write to file %d", I, Writes[I]));
        } else VP_CHECK(c, Now[From[I].F] == Base[From[I].F], "wrong-target", "a descriptor which is not redirected has changed");
      }
      for (auto &P : Base) { bool Ours = false; for (auto &F : From) Ours |= F.F == P.first; if (!Ours) VP_CHECK(c, Now[P.first] == P.second, "wrong-descriptor", vp::fmt("descriptor %d has changed", P.first)); }
    };
    size_t N = 3 + R.size(25);
    for (size_t Step = 0; Step < N; ++Step) {
      int A = (int)R.below(NObj), B = (int)R.below(NObj), F = (int)R.below(NFd);
      switch (R.below(10)) {
      case 0: case 1: { // redirect
        int File = (int)R.below(NFile);
        if (Used.count(File)) break;
        Used.insert(File);
        bool App = R.chance(1, 2);
        In += vp::fmt("O%d=redirect(%d,%d%s) ", A, F, File, App ? ",a" : ""); c.input(In);
        if (R.chance(1, 2)) { Content[File] = bytes(R, 300); put(Path[File], Content[File]); }
        if (!App) Content[File].clear();
        // The old redirection ends after the new one has been made.
        bool Reset = R.chance(1, 2);
        if (Reset) O[A].reset(new bcl::RedirectIO(From[F].F, Path[File], App ? M::Append : M::Rewrite));
        else *O[A] = bcl::RedirectIO(From[F].F, Path[File], App ? M::Append : M::Rewrite);
        Mo[A].K = Model::Active; Mo[A].File = File; Mo[A].From = F; Mo[A].Name = Path[File];
        Mo[A].Start = Mo[A].Pos = Content[File].size();
        Writes[F] = File;
        c.count("redirections"); break;
      }
      case 2: { // a redirection which is impossible
        std::string P; int Src = From[F].F, Why = ENOENT; bool Limit = false;
        switch (R.below(6)) {
        case 0: P = Dir + "/missing/x"; break;
        case 1: P = Dir; Why = EISDIR; break;
        case 2: P = ""; break;
        case 3: P = Dir + "/bad"; Src = -1; Why = EBADF; break;
        case 4: P = Dir + "/bad"; Src = 1 << 30; Why = EBADF; break;
        default: P = Dir + "/bad"; Limit = true; Why = EMFILE;
        }
        In += vp::fmt("O%d=fail(%s,%d%s) ", A, P.c_str(), Src, Limit ? ",no descriptors" : ""); c.input(In);
        rlimit Old; getrlimit(RLIMIT_NOFILE, &Old);
        std::unique_ptr<bcl::RedirectIO> X;
        M Mode = R.chance(1, 2) ? M::Append : R.chance(1, 3) ? M::Read : M::Rewrite;
        {
          // Nothing but the operation itself may see the limit.
          int Free = dup(From[F].F); close(Free);
          rlimit L = Old; if (Limit) { L.rlim_cur = Free; setrlimit(RLIMIT_NOFILE, &L); }
          X.reset(new bcl::RedirectIO(Src, P, Mode));
          if (Limit) setrlimit(RLIMIT_NOFILE, &Old);
        }
        *O[A] = std::move(*X);
        Mo[A] = Model(); Mo[A].K = Model::Failed; Mo[A].Name = P; Mo[A].Reason = Mode == M::Read ? 0 : Why;
        c.count("failures"); break;
      }
      case 3: { // move construction
        In += vp::fmt("O%d=O%d(moved) ", A, B); c.input(In);
        if (A == B) { std::unique_ptr<bcl::RedirectIO> X(new bcl::RedirectIO(std::move(*O[A]))); Model Y = Mo[A]; Mo[A] = Model(); verify(A); O[A] = std::move(X); Mo[A] = Y; }
        else { O[A].reset(new bcl::RedirectIO(std::move(*O[B]))); Mo[A] = Mo[B]; Mo[B] = Model(); verify(B); }
        c.count("move_constructions"); break;
      }
      case 4: { // move assignment
        In += vp::fmt("O%d=O%d ", A, B); c.input(In);
        auto &Same = (*O[A] = std::move(*O[B]));
        VP_CHECK(c, &Same == O[A].get(), "assignment-result", "another object is returned");
        if (A != B) { Mo[A] = Mo[B]; Mo[B] = Model(); }
        c.count(A == B ? "self_moves" : "move_assignments"); break;
      }
      case 5: In += vp::fmt("del%d ", A); c.input(In); O[A].reset(); O[A].reset(new bcl::RedirectIO); Mo[A] = Model(); c.count("destructions"); break;
      case 6: {
        if (Mo[A].K != Model::Active) break;
        In += vp::fmt("pos%d ", A); c.input(In);
        if (R.chance(1, 2)) { VP_CHECK(c, O[A]->setDiffPos(), "setDiffPos", errorsOf(*O[A])); Mo[A].Pos = Content[Mo[A].File].size(); }
        else { O[A]->resetDiffPos(); Mo[A].Pos = Mo[A].Start; }
        break;
      }
      default: {
        auto S = bytes(R, 400);
        In += vp::fmt("write(%d,%zu) ", F, S.size()); c.input(In);
        writeAll(c, From[F].F, S);
        if (Writes[F] >= 0) { Content[Writes[F]] += S; c.count("redirected_writes"); }
      }
      }
      for (int I = 0; I < NObj; ++I) verify(I);
      audit();
    }
    for (auto &X : O) X.reset();
    for (auto &Y : Mo) Y = Model();
    audit();
    for (int F = 0; F < NFd; ++F) { auto S = bytes(R, 50); writeAll(c, From[F].F, S); if (Writes[F] >= 0) Content[Writes[F]] += S; }
    for (int I = 0; I < NFile; ++I) if (Used.count(I)) {
      auto D = onDisk(Path[I]);
      VP_CHECK(c, D == Content[I], "file", vp::fmt("file %d holds %zu bytes, %zu are expected", I, D.size(), Content[I].size()));
    }
    unlink((Dir + "/bad").c_str());
  }
  auto After = descriptors();
  VP_CHECK(c, !fault::BadClose && fault::Live.empty(), "close", vp::fmt("%u closes of a file which is not open, %zu files are not closed", fault::BadClose, fault::Live.size()));
  VP_CHECK(c, Before == After, "descriptors", vp::fmt("%zu descriptors before, %zu after", Before.size(), After.size()));
  c.distinct(In); c.sample(In);
}
#ifdef WITH_OOM
// R03: memory is exhausted while output is redirected, alone and together with
// a failure of the C library.
VP_FAMILY("R03.memory", 16000, 200000) {
  auto &R = c.R;
  using M = bcl::RedirectIO::Mode;
  std::string Path = scratch() + "/a-file-with-a-name-which-is-not-stored-in-place", Content;
  unlink(Path.c_str());
  bool App = R.chance(1, 2), Prior = R.chance(1, 2), Bad = R.chance(1, 8);
  if (Bad) Path = scratch() + "/there-is-no-such-directory-at-all/file";
  else if (Prior) { Content = bytes(R, 400); put(Path, Content); }
  if (!App) Content.clear();
  auto Before = descriptors();
  std::string In = App ? "append: " : "rewrite: "; if (Bad) In += "no directory ";
  const char *Names[] = {"fopen", "dup2", "ftell", "fgetc"};
  {
    Fd From{freshFd(c)};
    auto Base = descriptors();
    std::unique_ptr<bcl::RedirectIO> IO;
    bool Clib = R.chance(1, 3); const char *Name = R.pick(Names);
    if (Clib) In += std::string(Name) + " ";
    for (long N = 0; !IO; ++N) {
      fault::Armed = Clib; fault::Name = Name; fault::Countdown = 0; fault::Hits = 0; fault::CloseToo = false;
      auto F = oom::run(N, R.chance(1, 2), [&] { IO.reset(new bcl::RedirectIO(From.F, Path, App ? M::Append : M::Rewrite)); });
      fault::Armed = false;
      VP_CHECK(c, F.Thrown == !IO, "constructor", "no object");
      if (IO) { if (F.Failed || R.chance(1, 3)) break; if (Clib || Bad) { VP_CHECK(c, IO->hasErrors() == (Bad || fault::Hits), "failure-not-reported", errorsOf(*IO)); } break; }
      c.count(Clib && fault::Hits ? "failed_twice" : "failed_constructors");
      VP_CHECK(c, descriptors().size() == Base.size(), "descriptors", vp::fmt("a failed constructor keeps a descriptor, allocation %ld: ", N));
      VP_CHECK(c, N < 100, "constructor", "it never succeeds");
      // Descriptor which has been redirected is of no use for the next attempt.
      close(From.F); int F2 = open("/dev/null", O_WRONLY); if (F2 != From.F && F2 >= 0) { dup2(F2, From.F); close(F2); }
    }
    c.input(In);
    bool Active = !IO->hasErrors();
    if (Active) {
      size_t Start = Content.size(), Pos = Start, N = 2 + R.size(15);
      while (N--) {
        long Fail = R.chance(1, 2) ? (long)R.below(5) : 1000; bool All = R.chance(1, 2);
        oom::Result F{false, false};
        switch (R.below(6)) {
        case 0: case 1: { auto S = bytes(R, 400) + "text long enough to be allocated"; In += vp::fmt("write%zu ", S.size()); c.input(In); writeAll(c, From.F, S); Content += S; break; }
        case 2: case 3: {
          In += vp::fmt("diff/%ld ", Fail); c.input(In);
          std::string D;
          F = oom::run(Fail, All, [&] { D = IO->diff(); });
          if (F.Thrown || (F.Failed && IO->hasErrors())) c.count("failed_diffs");
          else { VP_CHECK(c, D == Content.substr(Pos), "diff", vp::fmt("%zu bytes instead of %zu", D.size(), Content.size() - Pos)); c.count("diffs"); }
          break;
        }
        case 4: {
          In += vp::fmt("isDiff/%ld ", Fail); c.input(In);
          bool D = false;
          F = oom::run(Fail, All, [&] { D = IO->isDiff(); });
          if (!F.Failed) VP_CHECK(c, D == (Content.size() != Pos), "isDiff", D ? "reports a difference" : "reports no difference");
          break;
        }
        default:
          In += vp::fmt("set/%ld ", Fail); c.input(In);
          bool Ok = false;
          F = oom::run(Fail, All, [&] { Ok = IO->setDiffPos(); });
          if (Ok) Pos = Content.size(); else VP_CHECK(c, F.Failed, "setDiffPos", errorsOf(*IO));
        }
        VP_CHECK(c, F.Failed || !IO->hasErrors(), "unexpected-error", errorsOf(*IO));
        VP_CHECK(c, onDisk(Path) == Content, "file", vp::fmt("the file holds %zu bytes instead of %zu", onDisk(Path).size(), Content.size()));
      }
      auto S = bytes(R, 100); writeAll(c, From.F, S); Content += S;
      VP_CHECK(c, IO->diff() == Content.substr(Pos), "diff", "after the failures");
      c.count("active");
    } else {
      for (long N = 0;; ++N) {
        auto F = oom::run(N, true, [&] { (void)IO->diff(); (void)IO->isDiff(); (void)IO->setDiffPos(); });
        if (!F.Failed) break;
        c.count("failed_reports");
      }
    }
    for (long N = 0;; ++N) { // a move
      oom::Result F;
      F = oom::run(N, R.chance(1, 2), [&] { bcl::RedirectIO Other(std::move(*IO)); *IO = std::move(Other); });
      VP_CHECK(c, !F.Thrown, "move", "a move fails"); if (!F.Failed) break;
    }
    VP_CHECK(c, !Active || IO->mayRedirected(), "move", "the object is lost");
    auto F = oom::run(0, true, [&] { IO.reset(); });
    VP_CHECK(c, descriptors().size() == Base.size(), "descriptors", "a descriptor is left open");
  }
  VP_CHECK(c, descriptors() == Before, "descriptors", "descriptors have changed");
  VP_CHECK(c, !fault::BadClose && fault::Live.empty(), "close", vp::fmt("%u closes of a file which is not open, %zu files are not closed", fault::BadClose, fault::Live.size()));
  c.distinct(In + vp::fmt("%lx", (long)vp::hashStr(Content))); c.sample(In);
}
#endif
VP_MAIN
