// S05: saving or loading a compressed file never loses data silently.
#include "mc.hpp"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <fstream>
#include <common_robotics_utilities/zlib_helpers.hpp>
MC_HARNESS("S05", "data of 5 sizes from empty to several I/O blocks; at every open, write, writev, read, seek and close of the file every answer {success, short, interrupted, failure} with up to "
                  "2 (thorough 3) deviations per execution; every file size limit point; /dev/full; missing and unreadable paths; a state is a distinct (operation, fault sequence, outcome)")
using namespace common_robotics_utilities;
using Bytes = std::vector<uint8_t>;
// ---------------------------------------------------------------- environment under control
namespace
{
bool armed = false; int deviations = 0, limit = 0; std::string history;
int our_fd = -1; FILE* our_file = nullptr;
bool hard_failure = false;      // an answer the helper cannot recover from was given
template<typename F> F real(F, const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
/// Answer of the environment for this call: 0 = success, otherwise one of n-1 deviations.
int answer(const char* call, int n)
{
  if (!armed || deviations >= limit) { return 0; }
  armed = false;
  int c = 0;
  try { c = mc::choose(n); }
  catch (const mc::Skip&) { throw; }
  armed = true;
  if (c) { deviations++; history += mc::str(" ", call, "!", c); }
  return c;
}
FILE* open_any(FILE* (*f)(const char*, const char*), const char* name, const char* mode)
{
  if (armed && answer("open", 2)) { hard_failure = true; errno = EACCES; return nullptr; }
  FILE* r = f(name, mode);
  if (armed && r) { our_file = r; our_fd = fileno(r); }
  return r;
}
}
extern "C" FILE* fopen(const char* name, const char* mode)
{ static auto f = real<FILE* (*)(const char*, const char*)>(nullptr, "fopen"); return open_any(f, name, mode); }
extern "C" FILE* fopen64(const char* name, const char* mode)
{ static auto f = real<FILE* (*)(const char*, const char*)>(nullptr, "fopen64"); return open_any(f, name, mode); }
extern "C" int fclose(FILE* file)
{
  static auto f = real<int (*)(FILE*)>(nullptr, "fclose");
  if (armed && file == our_file)
  {
    const int a = answer("close", 2);
    our_file = nullptr; our_fd = -1;
    const int r = f(file);
    if (a) { hard_failure = true; errno = ENOSPC; return EOF; }
    return r;
  }
  return f(file);
}
extern "C" ssize_t write(int fd, const void* p, size_t n)
{
  static auto f = real<ssize_t (*)(int, const void*, size_t)>(nullptr, "write");
  if (armed && fd == our_fd)
    switch (answer("write", 4))
    {
      case 1: return f(fd, p, (n + 1) / 2);
      case 2: errno = EINTR; return -1;
      case 3: hard_failure = true; errno = ENOSPC; return -1;
      default: break;
    }
  return f(fd, p, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int n)
{
  static auto f = real<ssize_t (*)(int, const struct iovec*, int)>(nullptr, "writev");
  if (armed && fd == our_fd)
    switch (answer("writev", 4))
    {
      case 1: { struct iovec h = v[0]; int k = 0; while (k < n && v[k].iov_len == 0) { k++; } if (k == n) { break; } h = v[k]; h.iov_len = (h.iov_len + 1) / 2; return f(fd, &h, 1); }
      case 2: errno = EINTR; return -1;
      case 3: hard_failure = true; errno = ENOSPC; return -1;
      default: break;
    }
  return f(fd, v, n);
}
extern "C" ssize_t read(int fd, void* p, size_t n)
{
  static auto f = real<ssize_t (*)(int, void*, size_t)>(nullptr, "read");
  if (armed && fd == our_fd && n > 0)
    switch (answer("read", 5))
    {
      case 1: return f(fd, p, (n + 1) / 2);
      case 2: errno = EINTR; return -1;
      case 3: hard_failure = true; errno = EIO; return -1;
      case 4: hard_failure = true; return 0;   // the file became shorter
      default: break;
    }
  return f(fd, p, n);
}
extern "C" off64_t lseek64(int fd, off64_t o, int w)
{
  static auto f = real<off64_t (*)(int, off64_t, int)>(nullptr, "lseek64");
  if (armed && fd == our_fd && answer("seek", 2)) { hard_failure = true; errno = EIO; return -1; }
  return f(fd, o, w);
}
extern "C" off_t lseek(int fd, off_t o, int w)
{
  static auto f = real<off_t (*)(int, off_t, int)>(nullptr, "lseek");
  if (armed && fd == our_fd && answer("seek", 2)) { hard_failure = true; errno = EIO; return -1; }
  return f(fd, o, w);
}
namespace
{
Bytes content(size_t n)
{
  Bytes b(n); uint64_t x = 88172645463325252ull;
  for (size_t i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; b[i] = static_cast<uint8_t>(x >> 24); }
  return b;
}
const std::vector<size_t>& sizes() { static const std::vector<size_t> s{0, 1, 5000, 9000, 70000}; return s; }
struct File
{
  std::string name = mc::str("s05.", getpid(), ".z");
  File() { unlink(name.c_str()); }
  ~File() { unlink(name.c_str()); }
};
bool file_is(const std::string& name, const Bytes& b, std::string* got)
{
  Bytes back; std::string msg;
  if (mc::throws([&] { back = zlib_helpers::LoadFromFileAndDecompress(name); }, &msg)) { *got = "loading throws: " + msg; return false; }
  *got = mc::str("loading gives ", back.size(), " bytes"); return back == b;
}
void begin(int n) { armed = true; deviations = 0; limit = n; history.clear(); our_fd = -1; our_file = nullptr; hard_failure = false; }
struct Begin { explicit Begin(int n) { begin(n); } ~Begin() { armed = false; our_fd = -1; our_file = nullptr; } };
}
void mc::run()
{
  signal(SIGXFSZ, SIG_IGN);
  scenario("save under faults", [] {
    const size_t n = pick(sizes()); const bool existing = flip(); const Bytes b = content(n); const File f;
    if (existing) { zlib_helpers::CompressAndWriteToFile(content(200000), f.name); }
    int r; std::string msg;
    { const Begin a(by_tier(2, 3)); r = throws([&] { zlib_helpers::CompressAndWriteToFile(b, f.name); }, &msg); }
    MC_CHECK(r != 2, "saving threw something that is not an exception");
    if (r == 0)
    {
      std::string got;
      MC_CHECK(!hard_failure, "saving ", n, " bytes returned normally although an I/O call failed:", history);
      MC_CHECK(file_is(f.name, b, &got), "saving ", n, " bytes returned normally but the file is wrong (", got, ") after:", history);
    }
    else { MC_CHECK(hard_failure || deviations > 0, "saving ", n, " bytes failed without any fault: ", msg); }
    note(mc::str("save ", n, ":", history, " -> ", r)); transition(); state(Hash().add(n).add(existing).add(history).add(r).h);
  });
  scenario("load under faults", [] {
    const size_t n = pick(sizes()); const Bytes b = content(n); const File f;
    zlib_helpers::CompressAndWriteToFile(b, f.name);
    int r; std::string msg; Bytes back;
    { const Begin a(by_tier(2, 3)); r = throws([&] { back = zlib_helpers::LoadFromFileAndDecompress(f.name); }, &msg); }
    MC_CHECK(r != 2, "loading threw something that is not an exception");
    if (r == 0) { MC_CHECK(back == b, "loading ", n, " bytes gave ", back.size(), " bytes that differ, after:", history); }
    else { MC_CHECK(deviations > 0, "loading ", n, " bytes failed without any fault: ", msg); }
    note(mc::str("load ", n, ":", history, " -> ", r)); transition(); state(Hash().add(n).add(history).add(r).h);
  });
  scenario("disk fills up while saving", [] {
    const size_t n = pick(sizes()); const Bytes b = content(n); const File f; const size_t full = zlib_helpers::CompressBytes(b).size();
    // Size limits at every byte of a small file, at block boundaries of a larger one.
    std::vector<size_t> limits;
    if (full < 64) { for (size_t i = 0; i <= full + 1; i++) { limits.push_back(i); } }
    else { for (size_t i = 0; i <= full + 1; i += 1 + full / 24) { limits.push_back(i); } for (size_t i : {size_t{4096}, size_t{8191}, size_t{8192}, full - 1, full}) { limits.push_back(i); } }
    const size_t at = pick(limits);
    struct rlimit old, now; getrlimit(RLIMIT_FSIZE, &old); now = old; now.rlim_cur = at; setrlimit(RLIMIT_FSIZE, &now);
    const int r = throws([&] { zlib_helpers::CompressAndWriteToFile(b, f.name); });
    setrlimit(RLIMIT_FSIZE, &old);
    std::string got;
    if (r == 0) { MC_CHECK(file_is(f.name, b, &got), "saving ", n, " bytes returned normally although only ", at, " of ", full, " bytes fit (", got, ")"); }
    else { MC_CHECK(at < full, "saving ", n, " bytes failed although all ", full, " bytes fit"); }
    transition(); state(Hash().add(n).add(at).add(r).h);
  });
  scenario("hopeless paths", [] {
    const size_t n = pick(sizes()); const Bytes b = content(n);
    static const std::vector<std::string> to{"/dev/full", "no/such/directory/file", ".", "", "s05-loop/x"};
    const std::string t = pick(to);
    MC_CHECK(throws([&] { zlib_helpers::CompressAndWriteToFile(b, t); }) == 1, "saving ", n, " bytes to '", t, "' did not throw");
    if (t != "/dev/full")
      MC_CHECK(throws([&] { (void)zlib_helpers::LoadFromFileAndDecompress(t); }) == 1, "loading from '", t, "' did not throw");
    transition(2); state(Hash().add(n).add(t).h);
  });
  scenario("file cut after saving", [] {
    const size_t n = pick(sizes()); const Bytes b = content(n); const File f;
    zlib_helpers::CompressAndWriteToFile(b, f.name);
    struct stat st; stat(f.name.c_str(), &st);
    const long step = 1 + st.st_size / 40; std::vector<long> cuts; for (long i = 0; i < st.st_size; i += step) { cuts.push_back(i); } for (long i = 1; i <= 5; i++) { cuts.push_back(st.st_size - i); }
    const long at = pick(cuts);
    if (truncate(f.name.c_str(), at) != 0) { throw Skip(); }
    MC_CHECK(throws([&] { (void)zlib_helpers::LoadFromFileAndDecompress(f.name); }) == 1, "loading a file of ", st.st_size, " bytes cut to ", at, " did not throw");
    transition(); state(Hash().add(n).add(at).h);
  });
}
