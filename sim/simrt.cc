#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "simrt.hh"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <ext/stdio_sync_filebuf.h>
#include <fcntl.h>
#include <iostream>
#include <malloc.h>
#include <new>
#include <poll.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {
World *W = nullptr;
bool g_active = false;
bool g_alloc_armed = false;

static char const *op_names[] = {"open",   "read",  "write", "close",
                                 "rename", "other", "alloc"};
static char const *eff_names[] = {"ERR",          "EINTR",       "SHORT",
                                  "FULL",         "CRASH_BEFORE", "CRASH_AFTER",
                                  "CRASH_MID",    "BADALLOC"};
char const *op_name(OpClass c) { return op_names[(int)c]; }
char const *eff_name(Eff e) { return eff_names[(int)e]; }
OpClass op_from_name(std::string const &s) {
  for (int i = 0; i < (int)OpClass::N; ++i)
    if (s == op_names[i])
      return (OpClass)i;
  return OpClass::OTHER;
}
Eff eff_from_name(std::string const &s) {
  for (int i = 0; i < (int)Eff::N; ++i)
    if (s == eff_names[i])
      return (Eff)i;
  return Eff::ERR;
}

// ------------------------------------------------------------- world ----
void world_create() {
  if (W)
    return;
  void *p = mmap(nullptr, sizeof(World), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap world");
    _exit(3);
  }
  W = static_cast<World *>(p);
}

void reset_faults() {
  W->nfault = 0;
  W->disk_full = 0;
  W->full_left = 0;
}
void add_fault(Fault const &f) {
  if (W->nfault < MAX_FAULT)
    W->fault[W->nfault++] = f;
}

void world_reset(uint64_t salt) {
  for (auto &i : W->inode) {
    i.used = i.nlink = i.dirty = 0;
    i.size = i.dsize = 0;
  }
  memset(W->dent, 0, sizeof W->dent);
  memset(W->dent0, 0, sizeof W->dent0);
  W->njrn = W->jrn_synced = 0;
  W->in_ino = W->out_ino = W->err_ino = -1;
  W->proc = -1;
  W->salt = salt;
  W->chunk = 0;
  W->heap_fill = -1;
  W->heap_jitter = 0;
  W->clock_ns = 1000000000LL * 1000000;
  W->sim_ns = 0;
  W->clock_mode = 0;
  W->clock_reads = 0;
  memset(W->fired, 0, sizeof W->fired);
  W->hash = 1469598103934665603ULL;
  W->nevents = 0;
  W->loglen = 0;
  W->viol = 0;
  W->vclass[0] = W->vmsg[0] = 0;
  W->obs_hash = 0;
  W->blob_len = 0;
  memset(W->counters, 0, sizeof W->counters);
  reset_faults();
}

void log_event(char const *fmt, ...) {
  char buf[512];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n < 0)
    return;
  if (n >= (int)sizeof buf)
    n = sizeof buf - 1;
  W->hash = fnv(W->hash, buf, (size_t)n);
  W->nevents += 1;
  W->clock_ns += 20000; // an event takes 20 us of simulated time
  W->sim_ns += 20000;
  if (W->loglen + (uint32_t)n + 2 < LOG_CAP) {
    memcpy(W->log + W->loglen, buf, (size_t)n);
    W->loglen += (uint32_t)n;
    W->log[W->loglen++] = '\n';
    W->log[W->loglen] = 0;
  }
}

static int new_inode() {
  for (int i = 0; i < MAX_INODE; ++i)
    if (!W->inode[i].used) {
      Inode &n = W->inode[i];
      n.used = 1;
      n.nlink = 0;
      n.size = n.dsize = 0;
      n.dirty = 0;
      return i;
    }
  return -1;
}
static Dent *find_dent(char const *name) {
  for (auto &d : W->dent)
    if (d.used && !strcmp(d.name, name))
      return &d;
  return nullptr;
}
static void put_dent(Dent *tab, char const *name, int ino) {
  for (int i = 0; i < MAX_DENT; ++i)
    if (tab[i].used && !strcmp(tab[i].name, name)) {
      tab[i].ino = ino;
      return;
    }
  for (int i = 0; i < MAX_DENT; ++i)
    if (!tab[i].used) {
      tab[i].used = 1;
      tab[i].ino = ino;
      snprintf(tab[i].name, NAME_CAP, "%s", name);
      return;
    }
}
static void del_dent(Dent *tab, char const *name) {
  for (int i = 0; i < MAX_DENT; ++i)
    if (tab[i].used && !strcmp(tab[i].name, name))
      tab[i].used = 0;
}
static int get_dent(Dent *tab, char const *name) {
  for (int i = 0; i < MAX_DENT; ++i)
    if (tab[i].used && !strcmp(tab[i].name, name))
      return tab[i].ino;
  return -1;
}
static void journal(int kind, int ino, char const *a, char const *b,
                    uint32_t size = 0) {
  if (W->njrn >= MAX_JRN)
    return;
  Jrn &j = W->jrn[W->njrn++];
  j.kind = kind;
  j.ino = ino;
  j.size = size;
  snprintf(j.a, NAME_CAP, "%s", a ? a : "");
  snprintf(j.b, NAME_CAP, "%s", b ? b : "");
}

void set_file(std::string const &name, std::string const &data) {
  int ino = get_dent(W->dent, name.c_str());
  if (ino < 0) {
    ino = new_inode();
    W->inode[ino].nlink = 1;
    put_dent(W->dent, name.c_str(), ino);
  }
  Inode &n = W->inode[ino];
  uint32_t len = (uint32_t)std::min<size_t>(data.size(), DATA_CAP);
  memcpy(n.data, data.data(), len);
  memcpy(n.ddata, data.data(), len);
  n.size = n.dsize = len;
  n.dirty = 0;
  put_dent(W->dent0, name.c_str(), ino);
}
bool get_file(std::string const &name, std::string &data) {
  int ino = get_dent(W->dent, name.c_str());
  if (ino < 0)
    return false;
  data.assign(W->inode[ino].data, W->inode[ino].size);
  return true;
}
void remove_file(std::string const &name) {
  del_dent(W->dent, name.c_str());
  del_dent(W->dent0, name.c_str());
}
std::vector<std::string> list_files() {
  std::vector<std::string> r;
  for (auto &d : W->dent)
    if (d.used)
      r.push_back(d.name);
  return r;
}
void sync_world() {
  memcpy(W->dent0, W->dent, sizeof W->dent);
  W->njrn = W->jrn_synced = 0;
  for (auto &n : W->inode)
    if (n.used) {
      memcpy(n.ddata, n.data, n.size);
      n.dsize = n.size;
      n.dirty = 0;
    }
}

void power_loss(uint64_t choice) {
  int const span = W->njrn - W->jrn_synced + 1;
  int const k = W->jrn_synced + (int)(hash2(choice, 1) % (uint64_t)span);
  memcpy(W->dent, W->dent0, sizeof W->dent);
  int64_t trunc[MAX_INODE]; // persisted truncation, -1 none
  bool pending_trunc[MAX_INODE];
  for (int i = 0; i < MAX_INODE; ++i) {
    trunc[i] = -1;
    pending_trunc[i] = false;
  }
  for (int i = 0; i < W->njrn; ++i) {
    Jrn &j = W->jrn[i];
    if (i >= k) {
      if (j.kind == 3)
        pending_trunc[j.ino] = true;
      continue;
    }
    switch (j.kind) {
    case 0:
      put_dent(W->dent, j.a, j.ino);
      break;
    case 1: {
      int ino = get_dent(W->dent, j.a);
      if (ino >= 0) {
        put_dent(W->dent, j.b, ino);
        del_dent(W->dent, j.a);
      }
    } break;
    case 2:
      del_dent(W->dent, j.a);
      break;
    case 3:
      trunc[j.ino] = j.size;
      break;
    }
  }
  for (int i = 0; i < MAX_INODE; ++i) {
    Inode &n = W->inode[i];
    if (!n.used || i == W->out_ino || i == W->err_ino || i == W->in_ino)
      continue;
    uint32_t bsize = n.dsize;
    if (trunc[i] >= 0 && trunc[i] < (int64_t)bsize)
      bsize = (uint32_t)trunc[i];
    uint64_t h = hash2(choice, 100 + (uint64_t)i);
    if (!n.dirty || pending_trunc[i] || h % 4 == 0) {
      memcpy(n.data, n.ddata, bsize);
      n.size = bsize;
    } else if (h % 4 == 1) {
      // all new data reached the disk
    } else {
      uint32_t p = n.size ? (uint32_t)((h >> 8) % (n.size + 1)) : 0;
      if (h % 4 == 2) { // prefix of the new data, then the old tail if any
        if (bsize > p) {
          memcpy(n.data + p, n.ddata + p, bsize - p);
          n.size = bsize;
        } else
          n.size = p;
      } else { // size updated, tail never written
        memset(n.data + p, 0, n.size - p);
      }
    }
  }
  log_event("power-loss jrn=%d/%d", k, W->njrn);
  sync_world();
}

// ------------------------------------------------------- fault engine ----
[[noreturn]] static void die(int code) {
  syscall(SYS_exit_group, code);
  __builtin_unreachable();
}
[[noreturn]] static void crash_now(char const *where) {
  log_event("CRASH %s", where);
  W->crashed = 1;
  die(137);
}

// Called once per intercepted call.  Returns the fault that fires, or null.
static Fault *on_call(OpClass op) {
  long const n = W->calls[(int)op]++;
  if (op != OpClass::ALLOC) {
    if (++W->total_calls > W->call_budget) {
      W->budget_hit = 1;
      log_event("call budget exhausted");
      die(138);
    }
  }
  for (int i = 0; i < W->nfault; ++i) {
    Fault &f = W->fault[i];
    if (f.proc == W->proc && f.op == op && f.nth == n && !f.fired) {
      f.fired = true;
      W->fired[(int)f.eff][(int)op] += 1;
      return &f;
    }
  }
  return nullptr;
}

static bool sim_path(char const *p) {
  return p && (p[0] != '/' || !strncmp(p, "/sim/", 5));
}
static char const *norm(char const *p) {
  if (!strncmp(p, "/sim/", 5))
    p += 5;
  while (!strncmp(p, "./", 2))
    p += 2;
  return p;
}

constexpr int FD0 = 5000;
static Fd *fd_of(int fd) {
  if (fd < FD0 || fd >= FD0 + MAX_FD)
    return nullptr;
  Fd *f = &W->fd[fd - FD0];
  return f->used ? f : nullptr;
}

static int sim_open(char const *path, int flags) {
  Fault *f = on_call(OpClass::OPEN);
  char const *name = norm(path);
  bool const wr = (flags & O_ACCMODE) != O_RDONLY;
  if (f) {
    if (f->eff == Eff::CRASH_BEFORE)
      crash_now("before open");
    if (f->eff == Eff::FULL)
      W->disk_full = 1, W->full_left = (uint32_t)f->arg;
    if (f->eff == Eff::ERR || f->eff == Eff::EINTR_ONCE) {
      errno = f->eff == Eff::ERR ? f->arg : EINTR;
      log_event("open %s fl=%x -> errno %d (injected)", name, flags, errno);
      return -1;
    }
  }
  Dent *d = find_dent(name);
  if (!d) {
    if (!(flags & O_CREAT)) {
      log_event("open %s -> ENOENT", name);
      errno = ENOENT;
      return -1;
    }
    if (W->disk_full && W->full_left == 0) {
      log_event("open %s -> ENOSPC", name);
      errno = ENOSPC;
      return -1;
    }
    int ino = new_inode();
    if (ino < 0 || strlen(name) >= NAME_CAP) {
      errno = ENOSPC;
      return -1;
    }
    W->inode[ino].nlink = 1;
    put_dent(W->dent, name, ino);
    journal(0, ino, name, nullptr);
    d = find_dent(name);
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) {
    errno = EEXIST;
    return -1;
  }
  Inode &n = W->inode[d->ino];
  if ((flags & O_TRUNC) && wr && n.size) {
    n.size = 0;
    n.dirty = 1;
    journal(3, d->ino, nullptr, nullptr, 0);
  }
  int idx = -1;
  for (int i = 0; i < MAX_FD; ++i)
    if (!W->fd[i].used) {
      idx = i;
      break;
    }
  if (idx < 0) {
    errno = EMFILE;
    return -1;
  }
  W->fd[idx] = Fd{1, d->ino, flags, (flags & O_APPEND) ? n.size : 0};
  log_event("open %s fl=%x -> %d", name, flags, idx);
  if (f && f->eff == Eff::CRASH_AFTER)
    crash_now("after open");
  return FD0 + idx;
}

static ssize_t sim_read(int fd, void *buf, size_t n) {
  Fault *f = on_call(OpClass::READ);
  int ino;
  uint32_t *pos;
  if (fd == 0) {
    ino = W->in_ino;
    pos = &W->in_pos;
  } else {
    Fd *d = fd_of(fd);
    if (!d) {
      errno = EBADF;
      return -1;
    }
    ino = d->ino;
    pos = &d->pos;
  }
  if (ino < 0)
    return 0;
  if (f) {
    if (f->eff == Eff::CRASH_BEFORE || f->eff == Eff::CRASH_AFTER ||
        f->eff == Eff::CRASH_MID)
      crash_now("in read");
    if (f->eff == Eff::ERR || f->eff == Eff::EINTR_ONCE) {
      errno = f->eff == Eff::ERR ? f->arg : EINTR;
      log_event("read %d -> errno %d (injected) at %u", fd, errno, *pos);
      return -1;
    }
  }
  Inode &i = W->inode[ino];
  size_t avail = *pos < i.size ? i.size - *pos : 0;
  size_t take = std::min(avail, n);
  if (W->chunk > 0 && take > 0) {
    size_t c = 1 + hash2(W->salt, 77777 + (uint64_t)W->calls[(int)OpClass::READ]) %
                       (uint64_t)W->chunk;
    if (c < take) {
      take = c;
      W->fired[(int)Eff::SHORT][(int)OpClass::READ] += 1;
    }
  }
  if (f && f->eff == Eff::SHORT && take > 1)
    take = std::min(take, (size_t)std::max(1, f->arg));
  memcpy(buf, i.data + *pos, take);
  *pos += (uint32_t)take;
  log_event("read %d n=%zu -> %zu", fd, n, take);
  return (ssize_t)take;
}

static ssize_t sim_write(int fd, void const *buf, size_t n) {
  bool const is_err = (fd == 2);
  Fault *f = on_call(is_err ? OpClass::OTHER : OpClass::WRITE);
  int ino;
  Fd *d = nullptr;
  if (fd == 1)
    ino = W->out_ino;
  else if (fd == 2)
    ino = W->err_ino;
  else {
    d = fd_of(fd);
    if (!d) {
      errno = EBADF;
      return -1;
    }
    ino = d->ino;
  }
  if (f) {
    if (f->eff == Eff::CRASH_BEFORE)
      crash_now("before write");
    if (f->eff == Eff::ERR || f->eff == Eff::EINTR_ONCE) {
      errno = f->eff == Eff::ERR ? f->arg : EINTR;
      log_event("write %d -> errno %d (injected)", fd, errno);
      return -1;
    }
    if (f->eff == Eff::FULL) {
      W->disk_full = 1;
      W->full_left = (uint32_t)f->arg;
    }
  }
  size_t take = n;
  if (f && f->eff == Eff::SHORT && take > 1)
    take = std::min(take, (size_t)std::max(1, f->arg));
  bool mid = f && f->eff == Eff::CRASH_MID;
  if (mid)
    take = std::min(take, (size_t)std::max(0, f->arg));
  if (W->disk_full && !is_err) {
    if (take > W->full_left)
      take = W->full_left;
    W->full_left -= (uint32_t)take;
    if (take == 0 && n > 0) {
      log_event("write %d -> ENOSPC", fd);
      errno = ENOSPC;
      return -1;
    }
  }
  if (ino >= 0) {
    Inode &i = W->inode[ino];
    uint32_t p = d ? ((d->flags & O_APPEND) ? i.size : d->pos) : i.size;
    if ((uint64_t)p + take > DATA_CAP) {
      take = DATA_CAP - p;
      if (is_err) { // diagnostics beyond the cap are dropped
        return (ssize_t)n;
      }
    }
    if (p > i.size)
      memset(i.data + i.size, 0, p - i.size);
    memcpy(i.data + p, buf, take);
    if (p + take > i.size)
      i.size = p + (uint32_t)take;
    i.dirty = 1;
    if (d)
      d->pos = p + (uint32_t)take;
    if (!is_err)
      log_event("write %d n=%zu -> %zu h=%016llx", fd, n, take,
                (unsigned long long)fnv(1469598103934665603ULL, buf, take));
  }
  if (mid)
    crash_now("mid write");
  if (f && f->eff == Eff::CRASH_AFTER)
    crash_now("after write");
  return (ssize_t)take;
}

static int sim_close(int fd) {
  Fd *d = fd_of(fd);
  if (!d) {
    errno = EBADF;
    return -1;
  }
  Fault *f = on_call(OpClass::CLOSE);
  if (f && f->eff == Eff::CRASH_BEFORE)
    crash_now("before close");
  d->used = 0;
  log_event("close %d", fd);
  if (f && f->eff == Eff::CRASH_AFTER)
    crash_now("after close");
  if (f && (f->eff == Eff::ERR || f->eff == Eff::EINTR_ONCE)) {
    errno = f->eff == Eff::ERR ? f->arg : EINTR;
    log_event("close %d -> errno %d (injected)", fd, errno);
    return -1;
  }
  return 0;
}

static int64_t sim_seek(int fd, int64_t off, int whence) {
  Fd *d = fd_of(fd);
  if (!d) {
    errno = fd < 3 ? ESPIPE : EBADF;
    return -1;
  }
  int64_t base = whence == SEEK_SET ? 0
                 : whence == SEEK_CUR ? (int64_t)d->pos
                                      : (int64_t)W->inode[d->ino].size;
  if (base + off < 0) {
    errno = EINVAL;
    return -1;
  }
  d->pos = (uint32_t)(base + off);
  return d->pos;
}

static int sim_rename(char const *a0, char const *b0) {
  Fault *f = on_call(OpClass::RENAME);
  char const *a = norm(a0), *b = norm(b0);
  if (f) {
    if (f->eff == Eff::CRASH_BEFORE)
      crash_now("before rename");
    if (f->eff == Eff::ERR || f->eff == Eff::EINTR_ONCE) {
      errno = f->eff == Eff::ERR ? f->arg : EINTR;
      log_event("rename %s %s -> errno %d (injected)", a, b, errno);
      return -1;
    }
  }
  Dent *d = find_dent(a);
  if (!d) {
    errno = ENOENT;
    log_event("rename %s %s -> ENOENT", a, b);
    return -1;
  }
  if (strlen(b) >= NAME_CAP) {
    errno = ENAMETOOLONG;
    return -1;
  }
  int ino = d->ino;
  if (strcmp(a, b)) {
    put_dent(W->dent, b, ino);
    del_dent(W->dent, a);
    journal(1, ino, a, b);
  }
  log_event("rename %s %s", a, b);
  if (f && f->eff == Eff::CRASH_AFTER)
    crash_now("after rename");
  return 0;
}

static int sim_unlink(char const *a0) {
  Fault *f = on_call(OpClass::OTHER);
  char const *a = norm(a0);
  if (f && f->eff == Eff::CRASH_BEFORE)
    crash_now("before unlink");
  if (!find_dent(a)) {
    errno = ENOENT;
    return -1;
  }
  del_dent(W->dent, a);
  journal(2, -1, a, nullptr);
  log_event("unlink %s", a);
  if (f && f->eff == Eff::CRASH_AFTER)
    crash_now("after unlink");
  return 0;
}
static int sim_link(char const *a0, char const *b0) {
  char const *a = norm(a0), *b = norm(b0);
  on_call(OpClass::OTHER);
  Dent *d = find_dent(a);
  if (!d) {
    errno = ENOENT;
    return -1;
  }
  if (find_dent(b)) {
    errno = EEXIST;
    return -1;
  }
  put_dent(W->dent, b, d->ino);
  journal(0, d->ino, b, nullptr);
  log_event("link %s %s", a, b);
  return 0;
}
static int sim_fsync(int fd) {
  Fd *d = fd_of(fd);
  if (!d) {
    errno = EINVAL;
    return -1;
  }
  on_call(OpClass::OTHER);
  Inode &n = W->inode[d->ino];
  memcpy(n.ddata, n.data, n.size);
  n.dsize = n.size;
  n.dirty = 0;
  W->jrn_synced = W->njrn;
  log_event("fsync %d", fd);
  return 0;
}
static int sim_trunc(int ino, off_t len) {
  on_call(OpClass::OTHER);
  Inode &n = W->inode[ino];
  if ((uint32_t)len > n.size)
    memset(n.data + n.size, 0, (uint32_t)len - n.size);
  n.size = (uint32_t)len;
  n.dirty = 1;
  journal(3, ino, nullptr, nullptr, (uint32_t)len);
  log_event("truncate %d %u", ino, n.size);
  return 0;
}
static int sim_stat_ino(int ino, struct stat *st) {
  memset(st, 0, sizeof *st);
  st->st_ino = (ino_t)ino + 1;
  st->st_mode = S_IFREG | 0644;
  st->st_nlink = 1;
  st->st_size = W->inode[ino].size;
  st->st_blksize = 4096;
  return 0;
}

// --------------------------------------------- FILE* over simulated fds ----
struct FileEnt {
  FILE *fp;
  int fd;
};
static FileEnt g_files[MAX_FD + 8];

static ssize_t ck_read(void *c, char *b, size_t n) {
  return sim_read((int)(intptr_t)c, b, n);
}
static ssize_t ck_write(void *c, char const *b, size_t n) {
  size_t done = 0;
  while (done < n) {
    ssize_t r = sim_write((int)(intptr_t)c, b + done, n - done);
    if (r < 0) // stdio reports a short count as an error
      return done ? (ssize_t)done : 0;
    done += (size_t)r;
  }
  return (ssize_t)done;
}
static int ck_seek(void *c, off64_t *off, int wh) {
  int64_t r = sim_seek((int)(intptr_t)c, *off, wh);
  if (r < 0)
    return -1;
  *off = r;
  return 0;
}
static int ck_close(void *c) {
  int fd = (int)(intptr_t)c;
  for (auto &e : g_files)
    if (e.fp && e.fd == fd)
      e.fp = nullptr;
  if (fd < 3)
    return 0;
  return sim_close(fd);
}
static FILE *make_file(int fd, char const *mode) {
  cookie_io_functions_t io{ck_read, ck_write, ck_seek, ck_close};
  FILE *fp = fopencookie((void *)(intptr_t)fd, mode, io);
  if (!fp)
    return nullptr;
  for (auto &e : g_files)
    if (!e.fp) {
      e.fp = fp;
      e.fd = fd;
      break;
    }
  return fp;
}
static int mode_flags(char const *m) {
  int fl = 0;
  bool plus = strchr(m, '+') != nullptr;
  switch (m[0]) {
  case 'r':
    fl = plus ? O_RDWR : O_RDONLY;
    break;
  case 'w':
    fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    break;
  case 'a':
    fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    break;
  }
  if (strchr(m, 'x'))
    fl |= O_EXCL;
  return fl;
}

// ------------------------------------------------------ child processes ----
AllocArm::AllocArm() { g_alloc_armed = true; }
AllocArm::~AllocArm() { g_alloc_armed = false; }

static __gnu_cxx::stdio_sync_filebuf<char> *g_cin, *g_cout, *g_cerr;

__attribute__((noinline)) static void paint_stack(int fill) {
  volatile char buf[96 * 1024];
  for (size_t i = 0; i < sizeof buf; ++i)
    buf[i] = (char)fill;
}

ProcResult run_child(std::function<int()> const &body,
                     std::string const &stdin_data) {
  W->proc += 1;
  memset(W->fd, 0, sizeof W->fd);
  memset(W->calls, 0, sizeof W->calls);
  W->total_calls = W->total_allocs = 0;
  // every read may return a single byte, and a text is read a few times over
  W->call_budget = 200000;
  for (int i = 0; i < MAX_INODE; ++i)
    if (W->inode[i].used)
      W->call_budget += 60 * (long)W->inode[i].size;
  W->budget_hit = 0;
  W->crashed = 0;
  for (int *p : {&W->in_ino, &W->out_ino, &W->err_ino}) {
    if (*p >= 0)
      W->inode[*p].used = 0;
    *p = new_inode();
  }
  W->in_pos = 0;
  {
    Inode &n = W->inode[W->in_ino];
    n.size = (uint32_t)std::min<size_t>(stdin_data.size(), DATA_CAP);
    memcpy(n.data, stdin_data.data(), n.size);
  }
  log_event("proc %d starts", W->proc);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    _exit(3);
  }
  if (pid == 0) {
    struct rlimit rl {
      0, 0
    };
    setrlimit(RLIMIT_CORE, &rl);
    int nul = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR);
    if (!getenv("SIM_TTY")) {
      dup2(nul, 0);
      dup2(nul, 1);
      dup2(nul, 2);
    }
    signal(SIGPIPE, SIG_IGN);
    struct itimerval it {
      {0, 0}, { 8, 0 }
    };
    setitimer(ITIMER_PROF, &it, nullptr);
    alarm(120);
    g_active = true;
    stdin = make_file(0, "r");
    stdout = make_file(1, "w");
    stderr = make_file(2, "w");
    setvbuf(stdout, nullptr, _IOFBF, 4096);
    setvbuf(stderr, nullptr, _IONBF, 0);
    g_cin = new __gnu_cxx::stdio_sync_filebuf<char>(stdin);
    g_cout = new __gnu_cxx::stdio_sync_filebuf<char>(stdout);
    g_cerr = new __gnu_cxx::stdio_sync_filebuf<char>(stderr);
    std::cin.rdbuf(g_cin);
    std::cout.rdbuf(g_cout);
    std::cerr.rdbuf(g_cerr);
    std::clog.rdbuf(g_cerr);
    if (W->heap_fill >= 0)
      paint_stack(W->heap_fill);
    int rc = body();
    exit(rc);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  ProcResult r;
  r.out.assign(W->inode[W->out_ino].data, W->inode[W->out_ino].size);
  r.err.assign(W->inode[W->err_ino].data, W->inode[W->err_ino].size);
  r.calls.assign(W->calls, W->calls + (int)OpClass::N);
  r.allocs = W->total_allocs;
  if (W->crashed) {
    r.kind = ProcResult::CRASHED;
    r.code = 137;
  } else if (W->budget_hit ||
             (WIFSIGNALED(st) &&
              (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM))) {
    r.kind = ProcResult::HANG;
    r.code = WIFSIGNALED(st) ? WTERMSIG(st) : 138;
  } else if (WIFSIGNALED(st)) {
    r.kind = ProcResult::SIGNAL;
    r.code = WTERMSIG(st);
  } else {
    r.kind = ProcResult::EXIT;
    r.code = WEXITSTATUS(st);
  }
  log_event("proc %d ends kind=%d code=%d", W->proc, (int)r.kind, r.code);
  return r;
}

std::string ProcResult::str() const {
  static char const *k[] = {"exit", "signal", "crashed", "hang"};
  return std::string(k[(int)kind]) + " " + std::to_string(code);
}
} // namespace sim

// ------------------------------------------------------------ the tools ----
extern "C" {
#define TOOL(n) int app_main_##n(int, char **, char **) __attribute__((weak))
TOOL(caliper);
TOOL(ext_demo);
TOOL(flpr_format);
TOOL(flpr_show_cst);
TOOL(module);
TOOL(parse_files);
}
namespace sim {
ProcResult run_tool(std::string const &tool,
                    std::vector<std::string> const &args,
                    std::string const &stdin_data) {
  return run_child(
      [&]() -> int {
        int (*fn)(int, char **, char **) = nullptr;
        if (tool == "caliper")
          fn = app_main_caliper;
        else if (tool == "ext_demo")
          fn = app_main_ext_demo;
        else if (tool == "flpr-format")
          fn = app_main_flpr_format;
        else if (tool == "flpr_show_cst")
          fn = app_main_flpr_show_cst;
        else if (tool == "module")
          fn = app_main_module;
        else if (tool == "parse_files")
          fn = app_main_parse_files;
        if (!fn)
          return 126;
        std::vector<std::string> store;
        store.push_back(tool);
        for (auto &a : args)
          store.push_back(a);
        std::vector<char *> argv;
        for (auto &s : store)
          argv.push_back(&s[0]);
        argv.push_back(nullptr);
        char *env[] = {nullptr};
        g_alloc_armed = true;
        return fn((int)store.size(), argv.data(), env);
      },
      stdin_data);
}
} // namespace sim

// ------------------------------------------------- interposed functions ----
using namespace sim;
#define REAL(name)                                                             \
  static auto real = (decltype(&::name))dlsym(RTLD_NEXT, #name)

extern "C" {

static int open_common(char const *path, int flags, int mode) {
  if (g_active && sim_path(path))
    return sim_open(path, flags);
  if (g_active && (flags & O_ACCMODE) != O_RDONLY &&
      strcmp(path, "/dev/null") != 0) { // containment
    errno = EACCES;
    return -1;
  }
  return (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
int open(char const *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int m = (flags & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, int) : 0;
  va_end(ap);
  return open_common(path, flags, m);
}
int open64(char const *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int m = (flags & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, int) : 0;
  va_end(ap);
  return open_common(path, flags, m);
}
int openat(int dfd, char const *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int m = (flags & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, int) : 0;
  va_end(ap);
  if (g_active)
    return open_common(path, flags, m);
  return (int)syscall(SYS_openat, dfd, path, flags, m);
}
int openat64(int dfd, char const *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int m = (flags & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, int) : 0;
  va_end(ap);
  if (g_active)
    return open_common(path, flags, m);
  return (int)syscall(SYS_openat, dfd, path, flags, m);
}
int creat(char const *path, mode_t m) {
  return open_common(path, O_CREAT | O_WRONLY | O_TRUNC, (int)m);
}
ssize_t read(int fd, void *b, size_t n) {
  if (g_active && (fd == 0 || fd >= FD0))
    return sim_read(fd, b, n);
  return syscall(SYS_read, fd, b, n);
}
ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return read(fd, b, n); }
ssize_t write(int fd, void const *b, size_t n) {
  if (g_active && (fd == 1 || fd == 2 || fd >= FD0))
    return sim_write(fd, b, n);
  return syscall(SYS_write, fd, b, n);
}
ssize_t readv(int fd, struct iovec const *v, int n) {
  if (g_active && (fd == 0 || fd >= FD0)) {
    for (int i = 0; i < n; ++i)
      if (v[i].iov_len)
        return sim_read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
  }
  return syscall(SYS_readv, fd, v, n);
}
ssize_t writev(int fd, struct iovec const *v, int n) {
  if (g_active && (fd == 1 || fd == 2 || fd >= FD0)) {
    // one call: concatenate so that a fault can land anywhere inside it
    size_t tot = 0;
    for (int i = 0; i < n; ++i)
      tot += v[i].iov_len;
    char *tmp = (char *)malloc(tot ? tot : 1);
    size_t o = 0;
    for (int i = 0; i < n; ++i) {
      memcpy(tmp + o, v[i].iov_base, v[i].iov_len);
      o += v[i].iov_len;
    }
    ssize_t r = sim_write(fd, tmp, tot);
    int e = errno;
    free(tmp);
    errno = e;
    return r;
  }
  return syscall(SYS_writev, fd, v, n);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
  if (g_active && fd >= FD0) {
    Fd *d = fd_of(fd);
    if (!d) {
      errno = EBADF;
      return -1;
    }
    uint32_t hold = d->pos;
    d->pos = (uint32_t)o;
    ssize_t r = sim_read(fd, b, n);
    d->pos = hold;
    return r;
  }
  return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pwrite(int fd, void const *b, size_t n, off_t o) {
  if (g_active && fd >= FD0) {
    Fd *d = fd_of(fd);
    if (!d) {
      errno = EBADF;
      return -1;
    }
    uint32_t hold = d->pos;
    d->pos = (uint32_t)o;
    ssize_t r = sim_write(fd, b, n);
    d->pos = hold;
    return r;
  }
  return syscall(SYS_pwrite64, fd, b, n, o);
}
int close(int fd) {
  if (g_active && fd >= FD0)
    return sim_close(fd);
  return (int)syscall(SYS_close, fd);
}
off_t lseek(int fd, off_t o, int w) noexcept {
  if (g_active && (fd < 3 || fd >= FD0))
    return sim_seek(fd, o, w);
  return syscall(SYS_lseek, fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) noexcept { return lseek(fd, o, w); }
int fsync(int fd) {
  if (g_active)
    return sim_fsync(fd);
  return (int)syscall(SYS_fsync, fd);
}
int fdatasync(int fd) {
  if (g_active)
    return sim_fsync(fd);
  return (int)syscall(SYS_fdatasync, fd);
}
void sync(void) noexcept {
  if (g_active)
    sync_world();
}
int ftruncate(int fd, off_t len) noexcept {
  if (g_active) {
    Fd *d = fd_of(fd);
    if (!d) {
      errno = EBADF;
      return -1;
    }
    return sim_trunc(d->ino, len);
  }
  return (int)syscall(SYS_ftruncate, fd, len);
}
int truncate(char const *p, off_t len) noexcept {
  if (g_active) {
    int ino = get_dent(W->dent, norm(p));
    if (ino < 0) {
      errno = ENOENT;
      return -1;
    }
    return sim_trunc(ino, len);
  }
  return (int)syscall(SYS_truncate, p, len);
}
int rename(char const *a, char const *b) noexcept {
  if (g_active)
    return sim_rename(a, b);
  return (int)syscall(SYS_rename, a, b);
}
int renameat(int da, char const *a, int db, char const *b) noexcept {
  if (g_active)
    return sim_rename(a, b);
  return (int)syscall(SYS_renameat, da, a, db, b);
}
int renameat2(int da, char const *a, int db, char const *b,
              unsigned fl) noexcept {
  if (g_active)
    return sim_rename(a, b);
  return (int)syscall(SYS_renameat2, da, a, db, b, fl);
}
int unlink(char const *a) noexcept {
  if (g_active)
    return sim_unlink(a);
  return (int)syscall(SYS_unlink, a);
}
int unlinkat(int d, char const *a, int fl) noexcept {
  if (g_active)
    return sim_unlink(a);
  return (int)syscall(SYS_unlinkat, d, a, fl);
}
int remove(char const *a) noexcept {
  if (g_active)
    return sim_unlink(a);
  return (int)syscall(SYS_unlink, a);
}
int link(char const *a, char const *b) noexcept {
  if (g_active)
    return sim_link(a, b);
  return (int)syscall(SYS_link, a, b);
}
int symlink(char const *a, char const *b) noexcept {
  if (g_active) {
    errno = EPERM;
    return -1;
  }
  return (int)syscall(SYS_symlink, a, b);
}
int mkdir(char const *a, mode_t m) noexcept {
  if (g_active)
    return 0;
  return (int)syscall(SYS_mkdir, a, m);
}
int access(char const *a, int m) noexcept {
  if (g_active && sim_path(a)) {
    if (find_dent(norm(a)))
      return 0;
    errno = ENOENT;
    return -1;
  }
  return (int)syscall(SYS_access, a, m);
}
int chmod(char const *a, mode_t m) noexcept {
  if (g_active)
    return 0;
  return (int)syscall(SYS_chmod, a, m);
}
int fchmod(int fd, mode_t m) noexcept {
  if (g_active)
    return 0;
  return (int)syscall(SYS_fchmod, fd, m);
}
int fchmodat(int d, char const *a, mode_t m, int) noexcept {
  if (g_active)
    return 0;
  return (int)syscall(SYS_fchmodat, d, a, m);
}
static int do_stat(char const *p, struct stat *st, int fl) {
  if (g_active && sim_path(p)) {
    if (!strcmp(p, ".") || !strcmp(p, "..")) {
      memset(st, 0, sizeof *st);
      st->st_mode = S_IFDIR | 0755;
      return 0;
    }
    int ino = get_dent(W->dent, norm(p));
    if (ino < 0) {
      errno = ENOENT;
      return -1;
    }
    return sim_stat_ino(ino, st);
  }
  return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, fl);
}
int stat(char const *p, struct stat *st) noexcept { return do_stat(p, st, 0); }
int lstat(char const *p, struct stat *st) noexcept {
  return do_stat(p, st, AT_SYMLINK_NOFOLLOW);
}
int stat64(char const *p, struct stat64 *st) noexcept {
  return do_stat(p, (struct stat *)st, 0);
}
int lstat64(char const *p, struct stat64 *st) noexcept {
  return do_stat(p, (struct stat *)st, AT_SYMLINK_NOFOLLOW);
}
int fstat(int fd, struct stat *st) noexcept {
  if (g_active && fd >= FD0) {
    Fd *d = fd_of(fd);
    if (!d) {
      errno = EBADF;
      return -1;
    }
    return sim_stat_ino(d->ino, st);
  }
  return (int)syscall(SYS_fstat, fd, st);
}
int fstat64(int fd, struct stat64 *st) noexcept {
  return fstat(fd, (struct stat *)st);
}
int fstatat(int d, char const *p, struct stat *st, int fl) noexcept {
  if (g_active)
    return do_stat(p, st, fl);
  return (int)syscall(SYS_newfstatat, d, p, st, fl);
}
ssize_t sendfile(int, int, off_t *, size_t) noexcept {
  errno = ENOSYS;
  return -1;
}
ssize_t copy_file_range(int, off64_t *, int, off64_t *, size_t, unsigned) {
  errno = ENOSYS;
  return -1;
}
int isatty(int fd) noexcept {
  if (g_active) {
    errno = ENOTTY;
    return 0;
  }
  struct termios_dummy {
    char c[64];
  } t;
  return syscall(SYS_ioctl, fd, 0x5401, &t) == 0;
}
int ioctl(int fd, unsigned long req, ...) noexcept {
  va_list ap;
  va_start(ap, req);
  void *a = va_arg(ap, void *);
  va_end(ap);
  if (g_active && fd >= FD0) {
    errno = ENOTTY;
    return -1;
  }
  return (int)syscall(SYS_ioctl, fd, req, a);
}
int poll(struct pollfd *p, nfds_t n, int t) {
  if (g_active && n == 1 && p[0].fd >= FD0) {
    p[0].revents = (short)(p[0].events & (POLLIN | POLLOUT));
    return 1;
  }
  return (int)syscall(SYS_poll, p, n, t);
}
FILE *fopen(char const *path, char const *mode) {
  if (g_active) {
    int fd = open_common(path, mode_flags(mode), 0666);
    if (fd < 0)
      return nullptr;
    if (fd >= FD0)
      return make_file(fd, mode);
    REAL(fdopen);
    return real(fd, mode);
  }
  REAL(fopen);
  return real(path, mode);
}
FILE *fopen64(char const *path, char const *mode) { return fopen(path, mode); }
FILE *fdopen(int fd, char const *mode) noexcept {
  if (g_active && fd >= FD0)
    return make_file(fd, mode);
  REAL(fdopen);
  return real(fd, mode);
}
int fileno(FILE *fp) noexcept {
  for (auto &e : g_files)
    if (e.fp && e.fp == fp)
      return e.fd;
  REAL(fileno);
  return real(fp);
}
int fileno_unlocked(FILE *fp) noexcept { return fileno(fp); }

static int64_t sim_now() {
  W->clock_reads += 1;
  switch (W->clock_mode) {
  case 1:
    break;
  case 2: {
    uint64_t h = hash2(W->salt, 5000000 + (uint64_t)W->clock_reads);
    int64_t d = (int64_t)(h % 7200000000000ULL);
    if (h & (1ULL << 60))
      d = -d / 2;
    W->clock_ns += d;
    W->sim_ns += d < 0 ? -d : d;
    if (W->clock_ns < 0)
      W->clock_ns = 0;
  } break;
  default:
    W->clock_ns += 1000;
  }
  return W->clock_ns;
}
int clock_gettime(clockid_t c, struct timespec *ts) noexcept {
  if (g_active) {
    int64_t t = sim_now();
    ts->tv_sec = t / 1000000000;
    ts->tv_nsec = t % 1000000000;
    return 0;
  }
  return (int)syscall(SYS_clock_gettime, c, ts);
}
int gettimeofday(struct timeval *tv, void *) noexcept {
  if (g_active) {
    int64_t t = sim_now();
    tv->tv_sec = t / 1000000000;
    tv->tv_usec = (t % 1000000000) / 1000;
    return 0;
  }
  return (int)syscall(SYS_gettimeofday, tv, nullptr);
}
time_t time(time_t *p) noexcept {
  time_t r;
  if (g_active)
    r = sim_now() / 1000000000;
  else
    r = syscall(SYS_time, nullptr);
  if (p)
    *p = r;
  return r;
}
} // extern "C"

// ------------------------------------------------------------ allocator ----
static void *sim_new(size_t n, bool nothrow) {
  if (g_active) {
    W->total_allocs += 1;
    if (g_alloc_armed) {
      Fault *f = on_call(OpClass::ALLOC);
      if (f) {
        log_event("alloc -> bad_alloc (injected)");
        if (nothrow)
          return nullptr;
        throw std::bad_alloc();
      }
    }
    size_t pad = 0;
    if (W->heap_jitter)
      pad = 16 * (hash2(W->salt, (uint64_t)W->total_allocs) %
                  (uint64_t)W->heap_jitter);
    void *p = malloc((n ? n : 1) + pad);
    if (!p) {
      if (nothrow)
        return nullptr;
      throw std::bad_alloc();
    }
    if (W->heap_fill >= 0)
      memset(p, W->heap_fill, n + pad);
    return p;
  }
  void *p = malloc(n ? n : 1);
  if (!p) {
    if (nothrow)
      return nullptr;
    throw std::bad_alloc();
  }
  return p;
}
static void sim_delete(void *p) {
  if (!p)
    return;
  if (g_active && W->heap_fill >= 0)
    memset(p, W->heap_fill ^ 0x5f, malloc_usable_size(p));
  free(p);
}
void *operator new(size_t n) { return sim_new(n, false); }
void *operator new[](size_t n) { return sim_new(n, false); }
void *operator new(size_t n, std::nothrow_t const &) noexcept {
  return sim_new(n, true);
}
void *operator new[](size_t n, std::nothrow_t const &) noexcept {
  return sim_new(n, true);
}
void operator delete(void *p) noexcept { sim_delete(p); }
void operator delete[](void *p) noexcept { sim_delete(p); }
void operator delete(void *p, size_t) noexcept { sim_delete(p); }
void operator delete[](void *p, size_t) noexcept { sim_delete(p); }
