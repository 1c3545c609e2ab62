#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "simfs.h"

#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>

namespace sim {
SimFs g_fs;

// Scenarios that run side by side have a disk each.
static const bool g_hooked = [] {
  g_actor_new = []() -> void* { return new SimFs; };
  g_actor_swap = [](void* p) { std::swap(*(SimFs*)p, g_fs); };
  g_actor_delete = [](void* p) { delete (SimFs*)p; };
  return true;
}();

void SimFs::Reset() {
  files_.clear();
  open_handles = 0;
  SetPlan(FsPlan());
}
void SimFs::SetPlan(const FsPlan& p) {
  plan = p;
  writes = reads = seeks = closes = opens = 0;
  failed_writes = failed_reads = failed_seeks = failed_closes = failed_opens = 0;
}
Bytes SimFs::Content(const std::string& p) const {
  auto it = files_.find(p);
  return it == files_.end() ? Bytes() : it->second->data;
}
void SimFs::Put(const std::string& p, const Bytes& b) {
  auto& i = files_[p];
  if (!i) i.reset(new Inode);
  i->data = b;
}
void SimFs::Append(const std::string& p, const Bytes& b) {
  auto& i = files_[p];
  if (!i) i.reset(new Inode);
  i->data.insert(i->data.end(), b.begin(), b.end());
}
bool SimFs::Remove(const std::string& p) { return files_.erase(p) != 0; }

static bool Hit(uint64_t n, uint64_t k, bool sticky) { return k && (n == k || (sticky && n > k)); }

static ssize_t CkRead(void* c, char* buf, size_t n) {
  HarnessScope hs;
  SimFs::Handle* h = (SimFs::Handle*)c;
  SimFs* fs = h->fs;
  ++fs->reads;
  SimSteps(1);
  if (Hit(fs->reads, fs->plan.fail_read, fs->plan.sticky)) {
    ++fs->failed_reads;
    FaultCount("disk_read_error");
    Ev("fs: read error at %llu", (unsigned long long)h->pos);
    errno = EIO;
    return -1;
  }
  uint64_t sz = h->ino->data.size();
  if (h->pos >= sz || n == 0) return 0;
  size_t m = (size_t)std::min<uint64_t>(n, sz - h->pos);
  if (m > 1 && fs->plan.p_short_read && Chance(fs->plan.p_short_read, 64, "fs.short")) {
    m = 1 + Draw(m - 1, "fs.n");
    FaultCount("disk_short_read");
  }
  memcpy(buf, h->ino->data.data() + h->pos, m);
  h->pos += m;
  return (ssize_t)m;
}
static ssize_t CkWrite(void* c, const char* buf, size_t n) {
  HarnessScope hs;
  SimFs::Handle* h = (SimFs::Handle*)c;
  SimFs* fs = h->fs;
  ++fs->writes;
  SimSteps(1);
  Bytes& d = h->ino->data;
  if (h->append) h->pos = d.size();
  size_t m = n;
  bool fail = Hit(fs->writes, fs->plan.fail_write, fs->plan.sticky);
  if (fail) {
    m = fs->plan.torn && n > 1 ? 1 + Draw(n - 1, "fs.torn") : 0;
    FaultCount(m ? "disk_torn_write" : "disk_write_error");
  }
  if (h->pos + m > fs->plan.capacity) {
    m = h->pos < fs->plan.capacity ? (size_t)(fs->plan.capacity - h->pos) : 0;
    fail = true;
    FaultCount("disk_full");
  }
  if (m) {
    h->wrote = true;
    if (h->pos + m > d.size()) d.resize(h->pos + m);
    memcpy(d.data() + h->pos, buf, m);
    h->pos += m;
  }
  Ev("fs: write %zu of %zu", m, n);
  if (fail) {
    ++fs->failed_writes;
    errno = ENOSPC;
    return m == n ? (ssize_t)m : (ssize_t)m;
  }
  return (ssize_t)m;
}
static int CkSeek(void* c, off64_t* off, int whence) {
  HarnessScope hs;
  SimFs::Handle* h = (SimFs::Handle*)c;
  SimFs* fs = h->fs;
  const bool query = whence == SEEK_CUR && *off == 0;  // ftell(): cannot fail on a plain file
  if (!query) ++fs->seeks;
  SimSteps(1);
  if (fs->plan.no_seek) { errno = ESPIPE; return -1; }
  if (!query && Hit(fs->seeks, fs->plan.fail_seek, fs->plan.sticky)) {
    ++fs->failed_seeks;
    FaultCount("disk_seek_error");
    Ev("fs: seek error");
    errno = EIO;
    return -1;
  }
  __int128 base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? h->pos : h->ino->data.size();
  __int128 p = base + *off;
  if (p < 0 || p > 0x7fffffffffffffffLL) { errno = EINVAL; return -1; }
  h->pos = (uint64_t)p;
  *off = (off64_t)p;
  return 0;
}
static int CkClose(void* c) {
  HarnessScope hs;
  SimFs::Handle* h = (SimFs::Handle*)c;
  SimFs* fs = h->fs;
  ++fs->closes;
  --fs->open_handles;
  std::shared_ptr<SimFs::Inode> ino = h->ino;
  const bool wrote = h->wrote;
  delete h;
  if (Hit(fs->closes, fs->plan.fail_close, fs->plan.sticky)) {
    if (fs->plan.lossy_close && wrote && !ino->data.empty()) ino->data.resize(Draw(ino->data.size(), "fs.lost"));
    ++fs->failed_closes;
    FaultCount("disk_close_error");
    errno = EIO;
    return -1;
  }
  return 0;
}

FILE* SimFs::Open(const char* path, const char* mode) {
  HarnessScope hs;
  ++opens;
  if (Hit(opens, plan.fail_open, plan.sticky)) {
    ++failed_opens;
    FaultCount("disk_open_error");
    errno = EACCES;
    return nullptr;
  }
  auto it = files_.find(path);
  bool rd = mode[0] == 'r';
  if (rd && it == files_.end()) { errno = ENOENT; return nullptr; }
  if (it == files_.end()) it = files_.insert({path, std::shared_ptr<Inode>(new Inode)}).first;
  if (mode[0] == 'w') it->second->data.clear();
  Handle* h = new Handle{this, it->second, 0, mode[0] == 'a'};
  ++open_handles;
  cookie_io_functions_t io = {CkRead, CkWrite, CkSeek, CkClose};
  return fopencookie(h, mode, io);
}
}  // namespace sim

static bool IsSim(const char* p) { return p && !strncmp(p, "/sim/", 5); }
extern "C" {
FILE* __real_fopen(const char*, const char*);
FILE* __real_fopen64(const char*, const char*);
int __real_stat(const char*, struct stat*);
int __real_remove(const char*);
FILE* __wrap_fopen(const char* p, const char* m) { return IsSim(p) ? sim::g_fs.Open(p, m) : __real_fopen(p, m); }
FILE* __wrap_fopen64(const char* p, const char* m) { return IsSim(p) ? sim::g_fs.Open(p, m) : __real_fopen64(p, m); }
int __wrap_stat(const char* p, struct stat* st) {
  if (!IsSim(p)) return __real_stat(p, st);
  auto it = sim::g_fs.files_.find(p);
  if (it == sim::g_fs.files_.end()) { errno = ENOENT; return -1; }
  memset(st, 0, sizeof *st);
  st->st_size = (off_t)it->second->data.size();
  st->st_mode = S_IFREG | 0644;
  return 0;
}
int __wrap_remove(const char* p) {
  if (!IsSim(p)) return __real_remove(p);
  return sim::g_fs.Remove(p) ? 0 : -1;
}
int __wrap_gettimeofday(struct timeval* tv, void*) {
  tv->tv_sec = sim::g_now;
  tv->tv_usec = 0;
  return 0;
}
}
