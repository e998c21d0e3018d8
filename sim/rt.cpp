// The simulated operating system (see rt.h). Runs inside the forked child together with the real boxes code; the
// parent only sets up the specification and reads the shared event log afterwards.
#include "rt.h"

#include <cerrno>
#include <execinfo.h>
#include <csignal>
#include <cstdarg>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <iconv.h>
#include <link.h>
#include <memory>
#include <poll.h>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include <unistd.h>

const char *op_names[OP_NUM] = {"any", "open", "read", "write", "close", "stat", "opendir", "alloc", "seek", "mutate",
                                "clock", "term", "misc", "convert"};
const char *act_names[ACT_NUM] = {"err", "short", "kill", "stall", "fsop"};

u64 mix(u64 a, u64 b) {
    Rng r(a * 0x9E3779B97F4A7C15ull + b);
    r.next();
    return r.next();
}
u64 hash_bytes(const void *p, size_t n, u64 h) {
    const unsigned char *c = (const unsigned char *) p;
    size_t i = 0;
    for (; i + 8 <= n; i += 8) {
        u64 w;
        memcpy(&w, c + i, 8);
        h = (h ^ w) * 0x9E3779B97F4A7C15ull;
        h ^= h >> 29;
    }
    for (; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
    h ^= h >> 32;
    return h;
}

extern "C" int boxes_main(int argc, char **argv);
extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void __libc_free(void *);
void *__libc_memalign(size_t, size_t);
}

// =============================================================== shared event log
struct RecHdr {
    uint32_t step;
    uint16_t op, obj;
    i64 arg, res, simt, off, ino;
    u64 dlen;
};
struct Shm {
    volatile u64 used;
    int special;
    unsigned heapflags;
    u64 steps, allocs, simus;
    int maxfd;
    int spawned, close_err;
    u64 fired[OP_NUM][ACT_NUM];
    char heapmsg[200];
    char bytes[1];
};
static const size_t SHM_SIZE = 96u << 20;
static const u64 MAX_STEPS = 3000000;
static Shm *shm;

// =============================================================== child state
static bool active;          // true while boxes code runs
static int in_sim;           // > 0 while simulator code runs
static bool conv_faults;     // some fault is aimed at character set converters
struct SimScope {
    int saved_errno;
    SimScope() : saved_errno(errno) { ++in_sim; }
    ~SimScope() { --in_sim; }
};

struct Inode {
    i64 id;
    std::string data;
    char type;
    i64 mtime = 0;
};
struct VF {                  // an open file description
    int obj;
    int kind;                // 0 stdin, 1 stdout, 2 stderr, 3 file, 4 directory
    std::shared_ptr<Inode> ino;
    std::string path;
    i64 pos = 0;
    bool r = false, w = false, app = false;
    int fd = -1;
    FILE *fp = nullptr;
    bool closed = false;
};
struct World {
    RunSpec spec;
    std::map<std::string, std::shared_ptr<Inode>> paths;
    std::map<std::string, FNode> attr;
    std::vector<std::string> objs;
    std::map<std::string, int> objid;
    std::vector<VF *> fds;
    std::map<FILE *, VF *> files;
    std::vector<i64> fcount;     // per fault rule: matching operations seen
    std::vector<i64> ffired;
    i64 next_ino = 1;
    u64 step = 0;
    i64 simus = 0;
    u64 iorng = 0;
    VF *vin = nullptr, *vout = nullptr, *verr = nullptr;
    std::string stdin_data;
    bool tty_eof = false;                       // the terminal has delivered the end of the input
    i64 umask_ = 022;
    u64 rnd = 1;
};
static World *W;
static i64 wall_now() { return W->spec.clock0 + W->simus / 1000000; }

static void fin_special(int sp) {
    shm->special = sp;
    shm->steps = W->step;
    shm->simus = (u64) W->simus;
    if (sp == SP_KILLED) {
        raise(SIGKILL);
    }
    _exit(99);
}

static void journal(int op, int obj, i64 arg, i64 res, i64 off, i64 ino, const void *data, size_t dlen) {
    size_t need = sizeof(RecHdr) + ((dlen + 7) & ~(size_t) 7);
    u64 used = shm->used;
    if (used + need > SHM_SIZE - sizeof(Shm) - 64) {
        fin_special(SP_RUNAWAY);
    }
    RecHdr h;
    memset(&h, 0, sizeof h);
    h.step = (uint32_t) W->step;
    h.op = (uint16_t) op;
    h.obj = (uint16_t) obj;
    h.arg = arg;
    h.res = res;
    h.simt = W->simus;
    h.off = off;
    h.ino = ino;
    h.dlen = dlen;
    memcpy(shm->bytes + used, &h, sizeof h);
    if (dlen) memcpy(shm->bytes + used + sizeof h, data, dlen);
    memset(shm->bytes + used + sizeof h + dlen, 0, need - sizeof h - dlen);      // padding takes part in the hash
    shm->used = used + need;
}

enum { REC_NAME = 100, REC_ENVFS = 101 };

static int objof(const std::string &name) {
    auto it = W->objid.find(name);
    if (it != W->objid.end()) return it->second;
    int id = (int) W->objs.size();
    if (id >= 60000) fin_special(SP_RUNAWAY);
    W->objs.push_back(name);
    W->objid[name] = id;
    journal(REC_NAME, id, 0, 0, 0, 0, name.data(), name.size());
    return id;
}

static std::string normpath(const std::string &p0, const std::string &cwd) {
    std::string p = p0;
    if (p.empty() || p[0] != '/') p = cwd + "/" + p;
    std::vector<std::string> parts;
    size_t i = 0;
    while (i < p.size()) {
        size_t j = p.find('/', i);
        if (j == std::string::npos) j = p.size();
        std::string c = p.substr(i, j - i);
        if (c == "..") {
            if (!parts.empty()) parts.pop_back();
        } else if (!c.empty() && c != ".") {
            parts.push_back(c);
        }
        i = j + 1;
    }
    std::string r;
    for (auto &c : parts) r += "/" + c;
    return r.empty() ? "/" : r;
}
static std::string norm(const char *p) { return normpath(p ? p : "", W->spec.cwd); }

static bool is_dir(const std::string &p) {
    if (p == "/" || p == W->spec.cwd) return true;
    auto it = W->paths.find(p);
    if (it != W->paths.end()) return it->second->type == 'd';
    auto lo = W->paths.lower_bound(p + "/");
    return lo != W->paths.end() && lo->first.compare(0, p.size() + 1, p + "/") == 0;
}
static std::string parent_of(const std::string &p) {
    size_t k = p.rfind('/');
    return k == 0 || k == std::string::npos ? "/" : p.substr(0, k);
}
static int missing_errno(const std::string &p) {   // ENOENT or ENOTDIR
    std::string d = parent_of(p);
    while (d != "/") {
        auto it = W->paths.find(d);
        if (it != W->paths.end() && it->second->type != 'd') return ENOTDIR;
        d = parent_of(d);
    }
    return ENOENT;
}

static void env_fsop(const Fault &f) {
    std::string p = normpath(f.path, W->spec.cwd);
    int o = objof(p);
    if (f.fsop == "remove") {
        W->paths.erase(p);
        journal(REC_ENVFS, o, 1, 0, 0, 0, nullptr, 0);
    } else if (f.fsop == "replace" || f.fsop == "create") {   // atomic rename() of a new file over it
        auto in = std::make_shared<Inode>();
        in->id = W->next_ino++;
        in->data = f.data;
        in->type = 'f';
        in->mtime = wall_now();
        W->paths[p] = in;
        W->attr.erase(p);
        journal(REC_ENVFS, o, 2, 0, 0, in->id, f.data.data(), f.data.size());
    } else if (f.fsop == "truncate") {                        // in place
        auto it = W->paths.find(p);
        if (it != W->paths.end()) {
            it->second->data.resize(std::min(it->second->data.size(), (size_t) f.a));
            journal(REC_ENVFS, o, 3, 0, (i64) it->second->data.size(), it->second->id, nullptr, 0);
        }
    }
}

struct Verdict {
    int err = 0;
    i64 limit = -1;
};

// Consult the fault schedule for one operation; pos < 0: not a stream transfer.
static Verdict consult(int op, int obj, i64 pos, i64 want) {
    Verdict v;
    World &w = *W;
    ++w.step;
    if (w.step > MAX_STEPS) fin_special(SP_RUNAWAY);
    w.simus += 1 + (i64) (mix(w.spec.lat, w.step) % 2000);
    const std::string &name = w.objs[obj];
    for (size_t i = 0; i < w.spec.faults.size(); ++i) {
        const Fault &f = w.spec.faults[i];
        if (f.op == OP_ALLOC) continue;
        if (f.op != OP_ANY && f.op != op) continue;
        if (f.obj != "*" && f.obj != name) continue;
        bool fire = false;
        if (f.off >= 0 && pos >= 0) {
            if (pos < f.off) {
                i64 room = f.off - pos;
                if (want > room && (v.limit < 0 || room < v.limit)) v.limit = room;
                continue;
            }
            if (f.cnt < 0 || w.ffired[i] < f.cnt) fire = true;
        } else if (f.off < 0) {
            i64 k = w.fcount[i]++;
            if (k >= f.n && (f.cnt < 0 || k < f.n + f.cnt)) fire = true;
        }
        if (!fire) continue;
        if (f.act == ACT_SHORT && (pos < 0 || want <= f.a)) continue;
        ++w.ffired[i];
        ++shm->fired[op][f.act];
        switch (f.act) {
            case ACT_ERR: v.err = (int) f.a; break;
            case ACT_SHORT:
                if (v.limit < 0 || f.a < v.limit) v.limit = f.a < 1 ? 1 : f.a;
                break;
            case ACT_KILL: fin_special(SP_KILLED); break;
            case ACT_STALL: w.simus += f.a * 1000000; break;
            case ACT_FSOP: env_fsop(f); break;
            default: break;
        }
    }
    return v;
}

static i64 chunk_limit(int knob, i64 want) {
    if (knob == 0 || want <= 1) return want;
    i64 lim = knob;
    if (knob < 0) {
        W->iorng = mix(W->iorng, 77);
        lim = 1 + (i64) (W->iorng % (u64) (-knob));
    }
    return want < lim ? want : lim;
}

// --------------------------------------------------------------- descriptors
static int open_count() {
    int n = 0;
    for (size_t i = 3; i < W->fds.size(); ++i)
        if (W->fds[i]) ++n;
    return n;
}
static int new_fd(VF *v) {
    for (size_t i = 0;; ++i) {
        if ((int) i >= W->spec.fdlimit) return -1;
        if (i >= W->fds.size()) W->fds.push_back(nullptr);
        if (!W->fds[i]) {
            W->fds[i] = v;
            v->fd = (int) i;
            int c = open_count();
            if (c > shm->maxfd) shm->maxfd = c;
            return (int) i;
        }
    }
}
static VF *fd_get(int fd) {
    if (fd < 0 || fd >= (int) W->fds.size()) return nullptr;
    return W->fds[fd];
}

static i64 vf_read(VF *v, char *buf, i64 size) {
    if (v && v->kind == 2 && W->spec.no_stderr) v = fd_get(2);
    if (!v || v->closed || !v->r) {
        errno = EBADF;
        return -1;
    }
    i64 want = size;
    Verdict ver = consult(OP_READ, v->obj, v->pos, want);
    i64 res;
    if (ver.err) {
        journal(OP_READ, v->obj, size, -ver.err, v->pos, v->ino ? v->ino->id : 0, nullptr, 0);
        errno = ver.err;
        return -1;
    }
    if (v->kind == 0 && W->spec.stdin_kind == SIN_CLOSED) {
        journal(OP_READ, v->obj, size, -EBADF, v->pos, 0, nullptr, 0);
        errno = EBADF;
        return -1;
    }
    if (v->ino && v->ino->type == 'd') {
        journal(OP_READ, v->obj, size, -EISDIR, v->pos, 0, nullptr, 0);
        errno = EISDIR;
        return -1;
    }
    const std::string &d = v->kind == 0 ? W->stdin_data : v->ino->data;
    i64 avail = (i64) d.size() - v->pos;
    if (avail < 0) avail = 0;
    if (v->kind == 0 && avail == 0 && (W->spec.stdin_kind == SIN_NEVER || !W->spec.stdin_eof)) {
        journal(OP_READ, v->obj, size, -EAGAIN, v->pos, 0, nullptr, 0);
        fin_special(SP_BLOCKED);
    }
    if (v->kind == 0 && W->spec.tty_in && avail == 0 && want > 0) {
        if (W->tty_eof) {                   // after the end of the input nobody is there to type any more
            journal(OP_READ, v->obj, size, -EAGAIN, v->pos, 0, nullptr, 0);
            fin_special(SP_BLOCKED);
        }
        W->tty_eof = true;
    }
    res = want < avail ? want : avail;
    if (ver.limit >= 0 && res > ver.limit) res = ver.limit;
    res = chunk_limit(W->spec.rchunk, res);
    if (W->spec.tty_in && v->kind == 0 && res > 0) {          // a terminal delivers one line per read
        const void *nl = memchr(d.data() + v->pos, '\n', (size_t) res);
        if (nl) res = (const char *) nl - (d.data() + v->pos) + 1;
    }
    memcpy(buf, d.data() + v->pos, (size_t) res);
    journal(OP_READ, v->obj, size, res, v->pos, v->ino ? v->ino->id : 0, nullptr, 0);
    v->pos += res;
    return res;
}

static i64 vf_write(VF *v, const char *buf, i64 size) {
    if (v && v->kind == 2 && W->spec.no_stderr) v = fd_get(2);       // whatever has the descriptor now
    if (!v || v->closed || !v->w) {
        errno = EBADF;
        return -1;
    }
    if (size == 0) return 0;
    if (v->app && v->ino) v->pos = (i64) v->ino->data.size();
    Verdict ver = consult(OP_WRITE, v->obj, v->pos, size);
    if (ver.err) {
        journal(OP_WRITE, v->obj, size, -ver.err, v->pos, v->ino ? v->ino->id : 0, nullptr, 0);
        if (ver.err == EPIPE) {
            int saved = in_sim;
            in_sim = 0;
            raise(SIGPIPE);
            in_sim = saved;
        }
        errno = ver.err;
        return -1;
    }
    i64 res = size;
    if (ver.limit >= 0 && res > ver.limit) res = ver.limit;
    res = chunk_limit(W->spec.wchunk, res);
    if (v->ino && v->path != "/dev/null") {
        std::string &d = v->ino->data;
        if ((i64) d.size() < v->pos + res) d.resize((size_t) (v->pos + res));
        memcpy(&d[(size_t) v->pos], buf, (size_t) res);
        v->ino->mtime = wall_now();
    }
    journal(OP_WRITE, v->obj, size, res, v->pos, v->ino ? v->ino->id : 0, buf, (size_t) res);
    v->pos += res;
    return res;
}

static int vf_close(VF *v) {
    if (!v || v->closed) {
        errno = EBADF;
        return -1;
    }
    Verdict ver = consult(OP_CLOSE, v->obj, -1, 0);
    v->closed = true;
    if (v->fd >= 0 && v->fd < (int) W->fds.size()) W->fds[v->fd] = nullptr;
    journal(OP_CLOSE, v->obj, v->w, -ver.err, v->pos, 0, nullptr, 0);
    if (ver.err) {
        if (v->w) shm->close_err = 1;
        errno = ver.err;
        return -1;
    }
    return 0;
}

static i64 vf_seek(VF *v, i64 off, int whence) {
    consult(OP_SEEK, v->obj, -1, 0);
    if (v->kind < 3) {
        errno = ESPIPE;
        return -1;
    }
    i64 base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? v->pos : (i64) v->ino->data.size();
    if (base + off < 0) {
        errno = EINVAL;
        return -1;
    }
    v->pos = base + off;
    return v->pos;
}

static VF *vf_open(const char *path, int flags) {
    std::string p = norm(path);
    World &w = *W;
    int o = objof(p);
    Verdict ver = consult(OP_OPEN, o, -1, 0);
    int err = ver.err;
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    VF *v = nullptr;
    if (!err && (path == nullptr || !*path)) err = ENOENT;
    if (!err) {
        auto at = w.attr.find(p);
        if (at != w.attr.end() && at->second.openerr) err = at->second.openerr;
    }
    std::shared_ptr<Inode> in;
    bool dir = false, null = p == "/dev/null";
    if (!err && null) {
        in = std::make_shared<Inode>();
        in->id = 0;
        in->type = 'f';
    } else if (!err) {
        auto it = w.paths.find(p);
        if (it != w.paths.end()) in = it->second;
        dir = is_dir(p);
        size_t plen = strlen(path);
        if (dir) {
            if (wr || (flags & O_CREAT)) err = EISDIR;
        } else if (!in) {
            if (!(flags & O_CREAT)) {
                err = missing_errno(p);
            } else if (!is_dir(parent_of(p))) {
                err = missing_errno(p);
            } else if (path[plen - 1] == '/') {
                err = EISDIR;
            }
        } else if (plen > 1 && path[plen - 1] == '/') {
            err = ENOTDIR;
        } else if ((flags & O_EXCL) && (flags & O_CREAT)) {
            err = EEXIST;
        }
    }
    if (!err) {
        v = new VF;
        if (new_fd(v) < 0) {
            err = EMFILE;
            delete v;
            v = nullptr;
        }
    }
    if (!err) {
        if (dir) {
            in = std::make_shared<Inode>();
            in->id = 0;
            in->type = 'd';
            in->mtime = W->spec.clock0 - 1000;
        } else if (!in) {
            in = std::make_shared<Inode>();
            in->id = w.next_ino++;
            in->type = 'f';
            in->mtime = wall_now();
            w.paths[p] = in;
            journal(OP_MUTATE, o, 2, 0, 0, in->id, nullptr, 0);
        } else if ((flags & O_TRUNC) && !null) {
            journal(OP_MUTATE, o, 3, 0, 0, in->id, nullptr, 0);
            in->data.clear();
            in->mtime = wall_now();
        }
        v->obj = o;
        v->kind = dir ? 4 : 3;
        v->ino = in;
        v->path = p;
        int acc = flags & O_ACCMODE;
        v->r = acc != O_WRONLY;
        v->w = acc != O_RDONLY;
        v->app = flags & O_APPEND;
    }
    journal(OP_OPEN, o, flags, err ? -err : v->fd, wr, in ? in->id : 0, nullptr, 0);
    if (err) {
        errno = err;
        return nullptr;
    }
    return v;
}

// --------------------------------------------------------------- stdio on top: real glibc streams over our cookies
static ssize_t ck_read(void *c, char *buf, size_t n) {
    SimScope s;
    return vf_read((VF *) c, buf, (i64) n);
}
static ssize_t ck_write(void *c, const char *buf, size_t n) {
    SimScope s;
    // Same loop as glibc's own file writer: a short write() is not an error and is continued, -1 is.
    i64 done = 0;
    while (done < (i64) n) {
        i64 r = vf_write((VF *) c, buf + done, (i64) n - done);
        if (r < 0) break;
        done += r;
    }
    return done;
}
static int ck_seek(void *c, off64_t *off, int whence) {
    SimScope s;
    i64 r = vf_seek((VF *) c, *off, whence);
    if (r < 0) return -1;
    *off = r;
    return 0;
}
static int ck_close(void *c) {
    SimScope s;
    VF *v = (VF *) c;
    if (v->fp) {
        W->files.erase(v->fp);
        v->fp = nullptr;
    }
    return vf_close(v);
}

static FILE *wrap_file(VF *v, const char *mode, int bufsize) {
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE *f = fopencookie(v, mode, io);
    if (!f) return nullptr;
    v->fp = f;
    W->files[f] = v;
    if (bufsize == 0) {
        setvbuf(f, nullptr, _IONBF, 0);
    } else if (bufsize < 0) {
        setvbuf(f, (char *) __libc_malloc(4096), _IOLBF, 4096);
    } else {
        setvbuf(f, (char *) __libc_malloc((size_t) bufsize), _IOFBF, (size_t) bufsize);
    }
    return f;
}

static int mode_flags(const char *mode) {
    int fl;
    bool plus = strchr(mode, '+') != nullptr;
    switch (mode[0]) {
        case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
        case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
        case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
        default: return -1;
    }
    if (strchr(mode, 'x')) fl |= O_EXCL;
    return fl;
}

static FILE *do_fopen(const char *path, const char *mode) {
    int fl = mode_flags(mode);
    if (fl < 0) {
        errno = EINVAL;
        return nullptr;
    }
    VF *v = vf_open(path, fl);
    if (!v) return nullptr;
    return wrap_file(v, mode, (fl & O_ACCMODE) == O_RDONLY ? W->spec.inbuf : W->spec.outbuf);
}

static void fill_stat(struct stat *st, const std::shared_ptr<Inode> &in, bool dir, int kind) {
    memset(st, 0, sizeof *st);
    st->st_nlink = 1;
    st->st_dev = 7;
    st->st_blksize = 4096;
    st->st_mtime = in ? in->mtime : W->spec.clock0 - 1000;
    st->st_ctime = st->st_atime = st->st_mtime;
    if (kind < 3) {
        st->st_mode = S_IFIFO | 0600;
        st->st_ino = 1000000 + (ino_t) kind;
        if ((kind == 0 && W->spec.tty_in) || (kind == 1 && W->spec.tty_out) || (kind == 2 && W->spec.tty_err)) st->st_mode = S_IFCHR | 0600;
        return;
    }
    if (dir) {
        st->st_mode = S_IFDIR | 0755;
        st->st_size = 4096;
    } else {
        st->st_mode = S_IFREG | 0644;
        st->st_ino = (ino_t) in->id;
        st->st_size = (off_t) in->data.size();
        st->st_blocks = (st->st_size + 511) / 512;
    }
}

static int do_stat(const char *path, struct stat *st, bool access_only) {
    std::string p = norm(path);
    int o = objof(p);
    Verdict ver = consult(OP_STAT, o, -1, 0);
    int err = ver.err;
    if (!err && (!path || !*path)) err = ENOENT;
    if (!err) {
        auto at = W->attr.find(p);
        if (at != W->attr.end()) {
            if (access_only && at->second.openerr) err = at->second.openerr;
            else if (at->second.staterr) err = at->second.staterr;
        }
    }
    bool dir = false;
    std::shared_ptr<Inode> in;
    if (!err) {
        auto it = W->paths.find(p);
        if (it != W->paths.end()) in = it->second;
        dir = is_dir(p);
        if (!in && !dir) err = missing_errno(p);
        else if (!dir && path[strlen(path) - 1] == '/') err = ENOTDIR;
    }
    i64 size = 0;
    if (!err && st) {
        fill_stat(st, in, dir, 3);
        size = st->st_size;
    }
    journal(OP_STAT, o, access_only, err ? -err : 0, size, in ? in->id : 0, nullptr, 0);
    if (err) {
        errno = err;
        return -1;
    }
    return 0;
}

static int mutate_path(const char *path, int kind, const char *to) {   // 1 remove, 4 rename, 5 mkdir, 6 other
    std::string p = norm(path);
    int o = objof(p);
    Verdict ver = consult(OP_MUTATE, o, -1, 0);
    int err = ver.err;
    std::string t = to ? norm(to) : "";
    if (to) objof(t);
    auto it = W->paths.find(p);
    if (!err) {
        if (kind == 1) {
            if (it == W->paths.end()) err = ENOENT;
            else W->paths.erase(it);
        } else if (kind == 4) {
            if (it == W->paths.end()) err = ENOENT;
            else {
                auto in = it->second;
                W->paths.erase(it);
                W->paths[t] = in;
            }
        } else if (kind == 5) {
            if (is_dir(p) || it != W->paths.end()) err = EEXIST;
            else {
                auto in = std::make_shared<Inode>();
                in->id = W->next_ino++;
                in->type = 'd';
                W->paths[p] = in;
            }
        }
    }
    journal(OP_MUTATE, o, kind, -err, 0, 0, t.data(), t.size());
    if (err) {
        errno = err;
        return -1;
    }
    return 0;
}

// --------------------------------------------------------------- the seam: what boxes' libc calls are redirected to
struct SimDir {
    std::vector<std::string> names;
    size_t i;
    struct dirent ent;
    VF *v;
};

#define SIM extern "C" __attribute__((used))
SIM FILE *sim_fopen(const char *p, const char *m) {
    SimScope s;
    return do_fopen(p, m);
}
SIM FILE *sim_freopen(const char *p, const char *m, FILE *f) {
    SimScope s;
    auto it = W->files.find(f);
    if (it == W->files.end()) return nullptr;
    fflush(f);
    VF *v = it->second;
    vf_close(v);
    VF *n = vf_open(p ? p : v->path.c_str(), mode_flags(m));
    if (!n) return nullptr;
    if (n->fd >= 0) W->fds[n->fd] = v;
    v->obj = n->obj;
    v->kind = n->kind;
    v->ino = n->ino;
    v->path = n->path;
    v->pos = 0;
    v->r = n->r;
    v->w = n->w;
    v->app = n->app;
    v->fd = n->fd;
    v->closed = false;
    clearerr(f);
    return f;
}
SIM FILE *sim_fdopen(int fd, const char *m) {
    SimScope s;
    VF *v = fd_get(fd);
    if (!v) {
        errno = EBADF;
        return nullptr;
    }
    return wrap_file(v, m, v->w ? W->spec.outbuf : W->spec.inbuf);
}
SIM int sim_fileno(FILE *f) {
    SimScope s;
    auto it = W->files.find(f);
    if (it == W->files.end()) {
        errno = EBADF;
        return -1;
    }
    return it->second->fd;
}
SIM int sim_open(const char *p, int flags, ...) {
    SimScope s;
    VF *v = vf_open(p, flags);
    return v ? v->fd : -1;
}
SIM int sim_openat(int, const char *p, int flags, ...) {
    SimScope s;
    VF *v = vf_open(p, flags);
    return v ? v->fd : -1;
}
SIM int sim_creat(const char *p, int) {
    SimScope s;
    VF *v = vf_open(p, O_WRONLY | O_CREAT | O_TRUNC);
    return v ? v->fd : -1;
}
SIM ssize_t sim_read(int fd, void *b, size_t n) {
    SimScope s;
    return vf_read(fd_get(fd), (char *) b, (i64) n);
}
SIM ssize_t sim_pread(int fd, void *b, size_t n, off_t o) {
    SimScope s;
    VF *v = fd_get(fd);
    if (!v || v->kind < 3) {
        errno = ESPIPE;
        return -1;
    }
    i64 save = v->pos;
    v->pos = o;
    i64 r = vf_read(v, (char *) b, (i64) n);
    v->pos = save;
    return r;
}
SIM ssize_t sim_write(int fd, const void *b, size_t n) {
    SimScope s;
    return vf_write(fd_get(fd), (const char *) b, (i64) n);
}
SIM int sim_close(int fd) {
    SimScope s;
    return vf_close(fd_get(fd));
}
SIM off_t sim_lseek(int fd, off_t o, int wh) {
    SimScope s;
    VF *v = fd_get(fd);
    if (!v) {
        errno = EBADF;
        return -1;
    }
    return vf_seek(v, o, wh);
}
SIM int sim_stat(const char *p, struct stat *st) {
    SimScope s;
    return do_stat(p, st, false);
}
SIM int sim_fstatat(int, const char *p, struct stat *st, int) {
    SimScope s;
    return do_stat(p, st, false);
}
SIM int sim_fstat(int fd, struct stat *st) {
    SimScope s;
    VF *v = fd_get(fd);
    if (!v) {
        errno = EBADF;
        return -1;
    }
    Verdict ver = consult(OP_STAT, v->obj, -1, 0);
    journal(OP_STAT, v->obj, 2, -ver.err, 0, v->ino ? v->ino->id : 0, nullptr, 0);
    if (ver.err) {
        errno = ver.err;
        return -1;
    }
    fill_stat(st, v->ino, v->kind == 4, v->kind);
    return 0;
}
SIM int sim_access(const char *p, int) {
    SimScope s;
    return do_stat(p, nullptr, true);
}
SIM int sim_faccessat(int, const char *p, int, int) {
    SimScope s;
    return do_stat(p, nullptr, true);
}
SIM DIR *sim_opendir(const char *path) {
    SimScope s;
    std::string p = norm(path);
    int o = objof(p);
    Verdict ver = consult(OP_OPENDIR, o, -1, 0);
    int err = ver.err;
    if (!err && (!path || !*path)) err = ENOENT;
    if (!err) {
        auto at = W->attr.find(p);
        if (at != W->attr.end() && at->second.openerr) err = at->second.openerr;
    }
    if (!err && !is_dir(p)) err = W->paths.count(p) ? ENOTDIR : missing_errno(p);
    VF *v = nullptr;
    if (!err) {
        v = new VF;
        if (new_fd(v) < 0) {
            err = EMFILE;
            delete v;
        }
    }
    journal(OP_OPENDIR, o, 0, err ? -err : v->fd, 0, 0, nullptr, 0);
    if (err) {
        errno = err;
        return nullptr;
    }
    v->obj = o;
    v->kind = 4;
    v->path = p;
    v->r = true;
    SimDir *d = new SimDir;
    d->i = 0;
    d->v = v;
    std::set<std::string> names = {".", ".."};
    std::string pre = p == "/" ? "/" : p + "/";
    for (auto &kv : W->paths)
        if (kv.first.compare(0, pre.size(), pre) == 0) {
            std::string rest = kv.first.substr(pre.size());
            names.insert(rest.substr(0, rest.find('/')));
        }
    d->names.assign(names.begin(), names.end());
    // order of directory entries is unspecified: shuffle it
    Rng r(mix(mix(W->spec.lat, (u64) W->spec.pid), hash_str(p)));
    for (size_t i = d->names.size(); i > 1; --i) std::swap(d->names[i - 1], d->names[r.below(i)]);
    return (DIR *) d;
}
SIM struct dirent *sim_readdir(DIR *dd) {
    SimScope s;
    SimDir *d = (SimDir *) dd;
    if (d->i >= d->names.size()) return nullptr;
    memset(&d->ent, 0, sizeof d->ent);
    snprintf(d->ent.d_name, sizeof d->ent.d_name, "%s", d->names[d->i].c_str());
    d->ent.d_ino = 100 + d->i;
    ++d->i;
    return &d->ent;
}
SIM int sim_closedir(DIR *dd) {
    SimScope s;
    return vf_close(((SimDir *) dd)->v);
}
extern "C" void *sim_malloc(size_t n);
SIM int sim_scandir(const char *p, struct dirent ***list, int (*filter)(const struct dirent *), int (*cmp)(const struct dirent **, const struct dirent **)) {
    DIR *d = sim_opendir(p);
    if (!d) return -1;
    std::vector<struct dirent *> v;
    while (struct dirent *e = sim_readdir(d)) {
        if (filter && !filter(e)) continue;
        struct dirent *n = (struct dirent *) sim_malloc(sizeof *n);
        memcpy(n, e, sizeof *n);
        v.push_back(n);
    }
    sim_closedir(d);
    *list = (struct dirent **) sim_malloc((v.size() + 1) * sizeof **list);
    for (size_t i = 0; i < v.size(); ++i) (*list)[i] = v[i];
    if (cmp) qsort(*list, v.size(), sizeof **list, (int (*)(const void *, const void *)) (void *) cmp);
    return (int) v.size();
}
SIM int sim_remove(const char *p) { SimScope s; return mutate_path(p, 1, nullptr); }
SIM int sim_unlink(const char *p) { SimScope s; return mutate_path(p, 1, nullptr); }
SIM int sim_unlinkat(int, const char *p, int) { SimScope s; return mutate_path(p, 1, nullptr); }
SIM int sim_rmdir(const char *p) { SimScope s; return mutate_path(p, 1, nullptr); }
SIM int sim_rename(const char *p, const char *q) { SimScope s; return mutate_path(p, 4, q); }
SIM int sim_renameat(int, const char *p, int, const char *q) { SimScope s; return mutate_path(p, 4, q); }
SIM int sim_link(const char *p, const char *q) { SimScope s; (void) q; mutate_path(p, 6, q); errno = EPERM; return -1; }
SIM int sim_symlink(const char *p, const char *q) { SimScope s; (void) p; mutate_path(q, 6, nullptr); errno = EPERM; return -1; }
SIM int sim_mkdir(const char *p, mode_t) { SimScope s; return mutate_path(p, 5, nullptr); }
SIM int sim_chmod(const char *p, mode_t) { SimScope s; return mutate_path(p, 6, nullptr); }
SIM int sim_chown(const char *p, uid_t, gid_t) { SimScope s; return mutate_path(p, 6, nullptr); }
SIM int sim_utime(const char *p, const void *) { SimScope s; return mutate_path(p, 6, nullptr); }
SIM int sim_utimensat(int, const char *p, const void *, int) { SimScope s; return mutate_path(p, 6, nullptr); }
SIM int sim_futimens(int fd, const void *) {
    SimScope s;
    VF *v = fd_get(fd);
    if (v && v->ino) journal(OP_MUTATE, v->obj, 6, 0, 0, 0, nullptr, 0);
    return 0;
}
SIM int sim_futimes(int fd, const void *t) { return sim_futimens(fd, t); }
SIM char *sim_mkdtemp(char *t) {
    SimScope s;
    size_t n = strlen(t);
    if (n >= 6) memcpy(t + n - 6, "simtmp", 6);
    return mutate_path(t, 5, nullptr) == 0 ? t : nullptr;
}
SIM int sim_truncate(const char *p, off_t n) {
    SimScope s;
    std::string q = norm(p);
    int o = objof(q);
    auto it = W->paths.find(q);
    if (it == W->paths.end()) {
        errno = ENOENT;
        return -1;
    }
    it->second->data.resize((size_t) n);
    journal(OP_MUTATE, o, 3, 0, n, it->second->id, nullptr, 0);
    return 0;
}
SIM int sim_ftruncate(int fd, off_t n) {
    SimScope s;
    VF *v = fd_get(fd);
    if (!v || !v->ino || !v->w) {
        errno = EINVAL;
        return -1;
    }
    v->ino->data.resize((size_t) n);
    v->ino->mtime = wall_now();
    journal(OP_MUTATE, v->obj, 3, 0, n, v->ino->id, nullptr, 0);
    return 0;
}
SIM int sim_fsync(int fd) { SimScope s; (void) fd; return 0; }
SIM FILE *sim_tmpfile(void) { SimScope s; return do_fopen("/tmp/simtmpfile", "w+"); }
SIM int sim_mkstemp(char *t) {
    SimScope s;
    size_t n = strlen(t);
    if (n >= 6) memcpy(t + n - 6, "simtmp", 6);
    VF *v = vf_open(t, O_RDWR | O_CREAT | O_EXCL);
    return v ? v->fd : -1;
}
SIM int sim_mkstemps(char *t, int k) {
    SimScope s;
    size_t n = strlen(t);
    if (k >= 0 && n >= 6 + (size_t) k) memcpy(t + n - 6 - (size_t) k, "simtmp", 6);
    VF *v = vf_open(t, O_RDWR | O_CREAT | O_EXCL);
    return v ? v->fd : -1;
}
SIM char *sim_tmpnam(char *b) {
    static char mine[64];
    char *r = b ? b : mine;
    strcpy(r, "/tmp/simtmpnam");
    return r;
}
SIM char *sim_realpath(const char *p, char *out) {
    SimScope s;
    if (do_stat(p, nullptr, false) != 0) return nullptr;
    std::string n = norm(p);
    char *r = out ? out : (char *) __libc_malloc(n.size() + 1);
    strcpy(r, n.c_str());
    return r;
}
SIM ssize_t sim_readlink(const char *, char *, size_t) { errno = EINVAL; return -1; }
SIM int sim_dup(int fd) {
    SimScope s;
    VF *v = fd_get(fd);
    if (!v) { errno = EBADF; return -1; }
    VF *n = new VF(*v);
    n->fp = nullptr;
    return new_fd(n);
}
SIM int sim_dup2(int a, int b) {
    SimScope s;
    VF *v = fd_get(a);
    if (!v || b < 0 || b > 1000) { errno = EBADF; return -1; }
    while ((int) W->fds.size() <= b) W->fds.push_back(nullptr);
    if (a == b) return b;
    VF *n = new VF(*v);
    n->fp = nullptr;
    n->fd = b;
    W->fds[b] = n;
    return b;
}
SIM int sim_fcntl(int fd, int cmd, ...) {
    SimScope s;
    VF *v = fd_get(fd);
    if (!v) { errno = EBADF; return -1; }
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) {
        va_list ap;
        va_start(ap, cmd);
        int least = va_arg(ap, int);
        va_end(ap);
        VF *n = new VF(*v);
        n->fp = nullptr;
        while ((int) W->fds.size() <= least) W->fds.push_back(nullptr);
        for (size_t i = (size_t) least; (int) i < W->spec.fdlimit; ++i) {
            if (i >= W->fds.size()) W->fds.push_back(nullptr);
            if (W->fds[i]) continue;
            W->fds[i] = n;
            return n->fd = (int) i;
        }
        errno = EMFILE;
        return -1;
    }
    return cmd == F_GETFL ? (v->r && v->w ? O_RDWR : v->w ? O_WRONLY : O_RDONLY) : 0;
}
SIM int sim_ioctl(int, unsigned long, ...) { errno = ENOTTY; return -1; }
SIM int sim_isatty(int fd) {
    SimScope s;
    VF *v = fd_get(fd);
    bool t = v && ((v->kind == 0 && W->spec.tty_in) || (v->kind == 1 && W->spec.tty_out) || (v->kind == 2 && W->spec.tty_err));
    if (!t) errno = v ? ENOTTY : EBADF;
    return t;
}
SIM int sim_poll(struct pollfd *p, nfds_t n, int) {
    SimScope s;
    for (nfds_t i = 0; i < n; ++i) p[i].revents = p[i].events;
    return (int) n;
}
SIM int sim_select(int n, void *, void *, void *, void *) { return n > 0 ? 1 : 0; }
SIM void *sim_mmap(void *, size_t, int, int, int fd, off_t) {
    (void) fd;
    errno = ENODEV;
    return (void *) -1;
}
SIM int sim_dprintf(int fd, const char *fmt, ...) {
    SimScope s;
    char b[4096];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n < 0) return n;
    return (int) vf_write(fd_get(fd), b, n < (int) sizeof b ? n : (int) sizeof b - 1);
}
// environment: variables outside of the documented ones answer as the run says
SIM char *sim_getenv(const char *name) {
    char *v = getenv(name);
    if (v || !W->spec.envnoise) return v;
    static const char *doc[] = {"HOME", "XDG_CONFIG_HOME", "BOXES", "TERM", "PATH", "TZ", "CHARSET", "OUTPUT_CHARSET", nullptr};
    for (int i = 0; doc[i]; ++i)
        if (strcmp(name, doc[i]) == 0) return nullptr;
    if (strncmp(name, "LC_", 3) == 0 || strncmp(name, "LANG", 4) == 0) return nullptr;
    static char val[][20] = {"1", "0", "", "yes", "7", "80", "/noise/dir", "/noise/file", "always", "C", "-l", "x"};
    u64 h = mix(W->spec.envnoise, hash_bytes(name, strlen(name)));
    if (h % 5 == 0) return nullptr;
    return val[(h >> 8) % (sizeof val / sizeof val[0])];
}
// clock, randomness, identity
SIM time_t sim_time(time_t *t) {
    time_t v = W->spec.clock0 + W->simus / 1000000;
    if (t) *t = v;
    return v;
}
SIM int sim_gettimeofday(struct timeval *tv, void *) {
    tv->tv_sec = W->spec.clock0 + W->simus / 1000000;
    tv->tv_usec = W->simus % 1000000;
    return 0;
}
SIM int sim_clock_gettime(clockid_t, struct timespec *ts) {
    ts->tv_sec = W->spec.clock0 + W->simus / 1000000;
    ts->tv_nsec = (W->simus % 1000000) * 1000;
    return 0;
}
SIM clock_t sim_clock(void) { return (clock_t) (W->simus + W->spec.clock0 % 977); }
SIM unsigned sim_sleep(unsigned n) { W->simus += (i64) n * 1000000; return 0; }
SIM int sim_usleep(unsigned n) { W->simus += n; return 0; }
SIM int sim_nanosleep(const struct timespec *a, struct timespec *) {
    W->simus += (i64) a->tv_sec * 1000000 + a->tv_nsec / 1000;
    return 0;
}
SIM pid_t sim_getpid(void) { return W->spec.pid; }
SIM pid_t sim_getppid(void) { return W->spec.pid / 2; }
SIM uid_t sim_getuid(void) { return (uid_t) (1000 + W->spec.pid % 7); }
SIM uid_t sim_geteuid(void) { return (uid_t) (1000 + W->spec.pid % 7); }
SIM int sim_uname(struct utsname *u) {
    memset(u, 0, sizeof *u);
    strcpy(u->sysname, "Linux");
    snprintf(u->nodename, sizeof u->nodename, "sim%d", W->spec.pid);
    snprintf(u->release, sizeof u->release, "%d.1", 3 + W->spec.pid % 4);
    strcpy(u->machine, "x86_64");
    return 0;
}
SIM int sim_gethostname(char *b, size_t n) { snprintf(b, n, "sim%d", W->spec.pid); return 0; }
SIM int sim_rand(void) { W->rnd = mix(W->rnd, (u64) W->spec.pid); return (int) (W->rnd & 0x7fffffff); }
SIM void sim_srand(unsigned) {}
SIM long sim_random(void) { return sim_rand(); }
SIM double sim_drand48(void) { return sim_rand() / 2147483648.0; }
SIM uint32_t sim_arc4random(void) { return (uint32_t) sim_rand(); }
SIM ssize_t sim_getrandom(void *b, size_t n, unsigned) {
    for (size_t i = 0; i < n; ++i) ((char *) b)[i] = (char) sim_rand();
    return (ssize_t) n;
}
SIM char *sim_getcwd(char *b, size_t n) {
    SimScope s;
    if (!b) {
        n = W->spec.cwd.size() + 1;
        b = (char *) __libc_malloc(n);
    }
    if (n <= W->spec.cwd.size()) {
        errno = ERANGE;
        return nullptr;
    }
    strcpy(b, W->spec.cwd.c_str());
    return b;
}
SIM char *sim_get_current_dir_name(void) { return sim_getcwd(nullptr, 0); }
SIM int sim_chdir(const char *p) {
    SimScope s;
    std::string q = norm(p);
    if (!is_dir(q)) {
        errno = ENOENT;
        return -1;
    }
    W->spec.cwd = q;
    return 0;
}
SIM void *sim_getpwuid(uid_t) { return nullptr; }
SIM void *sim_getpwnam(const char *) { return nullptr; }
SIM char *sim_getlogin(void) { return nullptr; }
static int spawn_stub() {
    shm->spawned = 1;
    errno = EPERM;
    return -1;
}
SIM int sim_system(const char *) { return spawn_stub(); }
SIM FILE *sim_popen(const char *, const char *) { spawn_stub(); return nullptr; }
SIM pid_t sim_fork(void) { return spawn_stub(); }
SIM int sim_execv(const char *, char *const *) { return spawn_stub(); }
SIM int sim_execvp(const char *, char *const *) { return spawn_stub(); }
SIM int sim_pipe(int *) { return spawn_stub(); }
SIM int sim_kill(pid_t, int) { return spawn_stub(); }
SIM int sim_socket(int, int, int) { return spawn_stub(); }
// terminal database: stand-in for ncurses' setupterm(3X)/tigetnum(3X) with their documented behaviour
static int term_colors = -2;
SIM int sim_setupterm(const char *term, int fd, int *errret) {
    SimScope s;
    (void) fd;
    int o = objof("<terminfo>");
    Verdict ver = consult(OP_TERM, o, -1, 0);
    if (!term) term = getenv("TERM");
    int rc;
    bool bad = ver.err != 0 || W->spec.termdb_broken;
    if (!term || !*term) rc = bad ? -1 : 0;
    else if (bad) rc = -1;
    else rc = W->spec.termdb.count(term) ? 1 : 0;
    journal(OP_TERM, o, 0, rc, 0, 0, nullptr, 0);
    if (rc == 1) {
        term_colors = W->spec.termdb.at(term);
        if (errret) *errret = 1;
        return 0;
    }
    if (errret) {
        *errret = rc;
        return -1;
    }
    int saved = in_sim;
    in_sim = 0;
    if (!term || !*term) fprintf(stderr, "TERM environment variable not set.\n");
    else if (rc == 0) fprintf(stderr, "'%s': unknown terminal type.\n", term);
    else fprintf(stderr, "terminals database is inaccessible\n");
    exit(EXIT_FAILURE);
    in_sim = saved;
}
SIM int sim_tigetnum(const char *cap) {
    if (strcmp(cap, "colors") == 0) return term_colors;
    return -2;
}
SIM int sim_tgetent(char *, const char *term) {
    SimScope s;
    if (W->spec.termdb_broken) return -1;
    if (!term || !W->spec.termdb.count(term)) return 0;
    term_colors = W->spec.termdb.at(term);
    return 1;
}
SIM int sim_tgetnum(const char *cap) { return strcmp(cap, "Co") == 0 ? term_colors : -1; }

// =============================================================== heap
static char *const ARENA = (char *) 0x200000000000ull;
static const size_t ARENA_SIZE = (size_t) 2 << 30;
// Two pools: what libc needs for itself depends on what the process did before; addresses of blocks of boxes must not.
struct Pool {
    size_t used, guard_used;
    struct Blk *freelist[64];
    u64 rng;
};
static Pool pools[2];
struct Blk {
    u64 magic;      // LIVE / DEAD
    u64 size;       // requested
    u64 room;       // usable bytes after the header (rounded)
    Blk *prev;      // all blocks, newest first
    Blk *nextfree;
    u64 pad;
};
static const u64 LIVE = 0xA110CA7EDB10C0DEull, DEAD = 0xDEADB10CDEADB10Cull;
static Blk *last_blk;
static uintptr_t lib_lo[4], lib_hi[4];
static int nlibs;
static bool lib_pcre[4];
static u64 f_alloc_cnt[8];
static int n_alloc_faults;
static Fault *alloc_faults[8];

// guard mode: one inaccessible region; every block gets pages of its own, its last byte is followed by an inaccessible page
// (guard 1) or its first byte is preceded by one (guard 2)
static char *const GUARD = (char *) 0x300000000000ull;
static const size_t GUARD_SIZE = (size_t) 64 << 30;
static const size_t GUARD_LIVE = 16000;        // more blocks than that go to the ordinary arena
static size_t guard_live;
static bool in_guard(const void *p) { return (const char *) p >= GUARD && (const char *) p < GUARD + GUARD_SIZE; }
static bool in_arena(const void *p) { return ((const char *) p >= ARENA && (const char *) p < ARENA + ARENA_SIZE) || in_guard(p); }
static void heap_report(unsigned flag, const char *what, Blk *b) {
    if (!(shm->heapflags & flag))
        snprintf(shm->heapmsg, sizeof shm->heapmsg, "%s (block of %lu bytes)", what, b ? (unsigned long) b->size : 0ul);
    shm->heapflags |= flag;
}
static void fill(Pool &pl, char *p, size_t n) {
    int pat = W->spec.heapfill;
    if (pat < 256) {
        memset(p, pat, n);
    } else {
        for (size_t i = 0; i < n; ++i) {
            pl.rng = pl.rng * 6364136223846793005ull + 1442695040888963407ull;
            p[i] = (char) (pl.rng >> 56);
        }
    }
}
static const unsigned char CANARY = 0xC7;
static size_t room_for(size_t n) { return (n + 16 + 15) & ~(size_t) 15; }   // at least 16 canary bytes
static bool canary_ok(Blk *b) {
    unsigned char *p = (unsigned char *) (b + 1);
    for (size_t i = b->size; i < b->room; ++i)
        if (p[i] != CANARY) return false;
    return true;
}
static int size_class(size_t room) {
    int c = (int) (room / 16);
    return c < 64 ? c : -1;
}
static void *arena_raw(size_t n, int pool) {
    World &w = *W;
    Pool &pl = pools[pool];
    size_t room = room_for(n);
    int cls = size_class(room);
    Blk *b = nullptr;
    if (w.spec.reuse && cls >= 0 && pl.freelist[cls]) {
        b = pl.freelist[cls];
        pl.freelist[cls] = b->nextfree;
        if (w.spec.freefill >= 0) fill(pl, (char *) (b + 1), n);
    } else {
        size_t skew = (size_t) w.spec.heapskew * 16;
        size_t need = sizeof(Blk) + room + skew;
        if (n > ARENA_SIZE / 2 || pl.used + need > ARENA_SIZE / 2) return nullptr;
        b = (Blk *) (ARENA + (size_t) pool * (ARENA_SIZE / 2) + pl.used + skew);
        pl.used += need;
        b->prev = last_blk;
        last_blk = b;
        b->room = room;
        fill(pl, (char *) (b + 1), n);
    }
    b->magic = LIVE;
    b->size = n;
    b->nextfree = nullptr;
    memset(&b->pad, w.spec.heapfill & 0xFF, sizeof b->pad);      // what a read in front of the block sees
    memset((char *) (b + 1) + n, CANARY, b->room - n);
    return b + 1;
}
struct GHdr {       // in the block's pages, at the end which the caller's bytes do not touch
    u64 magic, size;
    char *data, *base;
    size_t span;    // bytes of accessible pages
};
static void *guard_raw(size_t n, size_t align, GHdr **hdr, int pool) {
    Pool &pl = pools[pool];
    size_t span = (sizeof(GHdr) + 32 + n + align + 4095) & ~(size_t) 4095;
    if (guard_live >= GUARD_LIVE || n > GUARD_SIZE / 2 || pl.guard_used + span + 8192 > GUARD_SIZE / 2) return nullptr;
    char *base = GUARD + (size_t) pool * (GUARD_SIZE / 2) + pl.guard_used + 4096;
    if (mprotect(base, span, PROT_READ | PROT_WRITE) != 0) return nullptr;
    pl.guard_used += span + 4096;
    ++guard_live;
    bool left = W->spec.guard == 2;
    char *p = left ? base : base + span - n;
    p = (char *) ((uintptr_t) p & ~(uintptr_t) (align - 1));
    GHdr *h = *hdr = (GHdr *) (left ? base + span - ((sizeof(GHdr) + 15) & ~(size_t) 15) : base);
    h->magic = LIVE;
    h->size = n;
    h->data = p;
    h->base = base;
    h->span = span;
    if (!left) memset(p - 16, CANARY, 16);
    fill(pl, p, n);
    char *end = left ? (char *) h : base + span;
    memset(p + n, CANARY, (size_t) (end - (p + n)));
    return p;
}
static std::map<char *, GHdr *> *guard_tab;
static GHdr *ghdr_of(void *p) {
    auto it = guard_tab->find((char *) p);
    return it == guard_tab->end() ? nullptr : it->second;
}
static bool ghdr_ok(GHdr *h) {
    unsigned char *p = (unsigned char *) h->data, *end = (unsigned char *) h;
    if (h->magic != LIVE) return false;
    if (end < p) {
        for (int i = 1; i <= 16; ++i)
            if (p[-i] != CANARY) return false;
        end = (unsigned char *) h->base + h->span;
    }
    for (unsigned char *q = p + h->size; q < end; ++q)
        if (*q != CANARY) return false;
    return true;
}
static void *guard_malloc(size_t n, size_t align, int pool) {
    ++in_sim;
    if (!guard_tab) guard_tab = new std::map<char *, GHdr *>;
    GHdr *h = nullptr;
    void *p = guard_raw(n, align, &h, pool);
    if (p) (*guard_tab)[(char *) p] = h;
    --in_sim;
    return p;
}
static void guard_free(void *p) {
    ++in_sim;
    GHdr *h = ghdr_of(p);
    if (!h) heap_report(HEAP_BADFREE, "free() of a pointer that was never allocated or is already released", nullptr);
    else {
        if (!ghdr_ok(h)) {
            Blk b;
            b.size = h->size;
            heap_report(HEAP_OVERFLOW, "write before or past a heap block", &b);
        }
        size_t span = h->span;
        char *base = h->base;
        guard_tab->erase((char *) p);
        madvise(base, span, MADV_DONTNEED);
        mprotect(base, span, PROT_NONE);
        --guard_live;
    }
    --in_sim;
}
static int alloc_trace = 0;
static void on_segv(int, siginfo_t *si, void *) {
    if (alloc_trace) {                // BOXSIM_BT: for debugging of a replay
        void *bt[24];
        ++in_sim;
        int n = backtrace(bt, 24);
        dprintf(alloc_trace, "SEGV at %p: ", si->si_addr);
        for (int i = 0; i < n; ++i) dprintf(alloc_trace, "%p ", bt[i]);
        dprintf(alloc_trace, "\n");
        --in_sim;
    }
    if (in_guard(si->si_addr)) heap_report(HEAP_GUARD, "access outside of an allocated block or to released memory", nullptr);
    signal(SIGSEGV, SIG_DFL);       // the instruction is executed again and ends the process
}
static bool alloc_fault() {
    ++shm->allocs;
    bool fail = false;
    for (int i = 0; i < n_alloc_faults; ++i) {
        Fault &f = *alloc_faults[i];
        i64 k = (i64) f_alloc_cnt[i]++;
        if (k >= f.n && (f.cnt < 0 || k < f.n + f.cnt)) {
            ++shm->fired[OP_ALLOC][f.act];
            if (f.act == ACT_KILL) fin_special(SP_KILLED);
            if (f.act == ACT_ERR) fail = true;
        }
    }
    if (fail && alloc_trace) {        // BOXSIM_BT: for debugging of a replay
        void *bt[16];
        SimScope ss;
        int n = backtrace(bt, 16);
        for (int i = 0; i < n; ++i) dprintf(alloc_trace, "%p ", bt[i]);
        dprintf(alloc_trace, "\n");
    }
    return fail;
}
// who asks for memory: libc's own requests are not made to fail, pcre2 expects memory aligned for pointers
enum Who { BY_LIBC, BY_BOXES, BY_UNISTRING, BY_PCRE };
static Who lib_caller(void *ra) {
    for (int i = 0; i < nlibs; ++i)
        if ((uintptr_t) ra >= lib_lo[i] && (uintptr_t) ra < lib_hi[i]) return lib_pcre[i] ? BY_PCRE : BY_UNISTRING;
    return BY_LIBC;
}
static void *sut_malloc(size_t n, Who who) {
    if (who != BY_LIBC && alloc_fault()) {
        errno = ENOMEM;
        return nullptr;
    }
    if (W->spec.guard) {
        size_t align = 16;
        if (who == BY_BOXES || who == BY_UNISTRING)
            while (align > 1 && n % align) align /= 2;
        void *p = guard_malloc(n, align, who == BY_LIBC);
        if (p) return p;
    }
    void *p = arena_raw(n, who == BY_LIBC);
    if (!p) errno = ENOMEM;
    return p;
}
static void arena_free(void *p) {
    if (in_guard(p)) {
        guard_free(p);
        return;
    }
    if (((uintptr_t) p & 15) != 0) {
        heap_report(HEAP_BADFREE, "free() of a pointer that was never allocated", nullptr);
        return;
    }
    Blk *b = (Blk *) p - 1;
    if (b->magic == DEAD) {
        heap_report(HEAP_DOUBLEFREE, "double free()", b);
        return;
    }
    if (b->magic != LIVE) {
        heap_report(HEAP_BADFREE, "free() of a pointer that was never allocated", nullptr);
        return;
    }
    if (!canary_ok(b)) heap_report(HEAP_OVERFLOW, "write past the end of a heap block", b);
    b->magic = DEAD;
    if (W->spec.freefill >= 0) memset(p, W->spec.freefill, b->size);
    if (W->spec.reuse) {
        int cls = size_class(b->room);
        if (cls >= 0) {
            Pool &pl = pools[(char *) p >= ARENA + ARENA_SIZE / 2];
            b->nextfree = pl.freelist[cls];
            pl.freelist[cls] = b;
        }
    }
}
static void *sut_realloc(void *p, size_t n, Who who) {
    if (!p) return sut_malloc(n, who);
    if (n == 0) {
        arena_free(p);
        return nullptr;
    }
    if (in_guard(p)) {
        ++in_sim;
        GHdr *h = ghdr_of(p);
        --in_sim;
        if (!h) {
            heap_report(HEAP_DOUBLEFREE, "realloc() of released memory", nullptr);
            abort();
        }
        void *q = sut_malloc(n, who);
        if (!q) return nullptr;
        memcpy(q, p, h->size < n ? h->size : n);
        guard_free(p);
        return q;
    }
    Blk *b = (Blk *) p - 1;
    if (((uintptr_t) p & 15) != 0 || (b->magic != LIVE && b->magic != DEAD)) {
        heap_report(HEAP_BADFREE, "realloc() of a pointer that was never allocated", nullptr);
        abort();
    }
    if (b->magic == DEAD) {
        heap_report(HEAP_DOUBLEFREE, "realloc() of released memory", b);
        abort();
    }
    void *q = sut_malloc(n, who);
    if (!q) return nullptr;
    memcpy(q, p, b->size < n ? b->size : n);
    arena_free(p);
    return q;
}
static void heap_check() {
    if (guard_tab)
        for (auto &kv : *guard_tab)
            if (!ghdr_ok(kv.second)) {
                Blk b;
                b.size = kv.second->size;
                heap_report(HEAP_OVERFLOW, "write before or past a heap block", &b);
            }
    for (Blk *b = last_blk; b; b = b->prev) {
        if (b->magic == LIVE) {
            if (!canary_ok(b)) heap_report(HEAP_OVERFLOW, "write past the end of a heap block", b);
        } else if (b->magic == DEAD) {
            if (W->spec.freefill >= 0 && !W->spec.reuse) {
                unsigned char *p = (unsigned char *) (b + 1);
                for (size_t i = 0; i < b->size; ++i)
                    if (p[i] != (unsigned char) W->spec.freefill) {
                        heap_report(HEAP_UAFWRITE, "write to released memory", b);
                        break;
                    }
            }
        } else {
            heap_report(HEAP_OVERFLOW, "heap block header overwritten", nullptr);
            break;
        }
    }
}

// what boxes itself calls
SIM void *sim_malloc(size_t n) { return sut_malloc(n, BY_BOXES); }
SIM void *sim_calloc(size_t a, size_t b) {
    if (b && a > (size_t) -1 / b) {
        errno = ENOMEM;
        return nullptr;
    }
    void *p = sut_malloc(a * b, BY_BOXES);
    if (p) memset(p, 0, a * b);
    return p;
}
SIM void *sim_realloc(void *p, size_t n) { return sut_realloc(p, n, BY_BOXES); }
SIM void *sim_reallocarray(void *p, size_t a, size_t b) { return sut_realloc(p, a * b, BY_BOXES); }
SIM char *sim_strdup(const char *s) {
    size_t n = strlen(s) + 1;
    char *p = (char *) sut_malloc(n, BY_BOXES);
    if (p) memcpy(p, s, n);
    return p;
}
SIM char *sim_strndup(const char *s, size_t m) {
    size_t n = strnlen(s, m);
    char *p = (char *) sut_malloc(n + 1, BY_BOXES);
    if (p) {
        memcpy(p, s, n);
        p[n] = 0;
    }
    return p;
}
// what the libraries call (libunistring, pcre2, libc): interposed by name
extern "C" void *malloc(size_t n) {
    if (!active || in_sim) return __libc_malloc(n);
    return sut_malloc(n, lib_caller(__builtin_return_address(0)));
}
extern "C" void *calloc(size_t a, size_t b) {
    if (!active || in_sim) return __libc_calloc(a, b);
    if (b && a > (size_t) -1 / b) {
        errno = ENOMEM;
        return nullptr;
    }
    void *p = sut_malloc(a * b, lib_caller(__builtin_return_address(0)));
    if (p) memset(p, 0, a * b);
    return p;
}
extern "C" void free(void *p) {
    if (!p) return;
    if (in_arena(p)) {
        arena_free(p);
        return;
    }
    __libc_free(p);
}
extern "C" void *realloc(void *p, size_t n) {
    if (p && !in_arena(p)) return __libc_realloc(p, n);
    if (!active || in_sim) {
        if (!p) return __libc_malloc(n);
    }
    return sut_realloc(p, n, lib_caller(__builtin_return_address(0)));
}
extern "C" void *memalign(size_t a, size_t n) { return __libc_memalign(a, n); }
extern "C" void *aligned_alloc(size_t a, size_t n) { return __libc_memalign(a, n); }
extern "C" int posix_memalign(void **r, size_t a, size_t n) {
    *r = __libc_memalign(a, n);
    return *r ? 0 : ENOMEM;
}
SIM void sim_free(void *p) { free(p); }

// Character set converters (the C library loads them from disk): interposed by name, real code, opening one can be made to
// fail. They are only events of runs with a fault for them.
static iconv_t (*real_iconv_open)(const char *, const char *);
extern "C" iconv_t iconv_open(const char *to, const char *from) {
    if (!real_iconv_open) real_iconv_open = (iconv_t (*)(const char *, const char *)) dlsym(RTLD_NEXT, "iconv_open");
    auto builtin = [](const char *e) {          // needs no file
        return !strncasecmp(e, "UTF-8", 5) || !strncasecmp(e, "WCHAR_T", 7) || !strncasecmp(e, "UTF-32", 6) || !strncasecmp(e, "UCS-4", 5) || !strncasecmp(e, "ANSI_X3.4", 9) || !strncasecmp(e, "ASCII", 5);
    };
    if (active && !in_sim && conv_faults && !(builtin(to) && builtin(from))) {
        SimScope s;
        int o = objof("<converter>");
        Verdict ver = consult(OP_CONV, o, -1, 0);
        journal(OP_CONV, o, 0, ver.err ? -1 : 0, 0, 0, nullptr, 0);
        if (ver.err) {
            errno = ver.err;
            return (iconv_t) -1;
        }
    }
    return real_iconv_open(to, from);
}

// =============================================================== running one process
static int phdr_cb(struct dl_phdr_info *info, size_t, void *) {
    if (info->dlpi_name && (strstr(info->dlpi_name, "libunistring") || strstr(info->dlpi_name, "libpcre2")) && nlibs < 4) {
        uintptr_t lo = (uintptr_t) -1, hi = 0;
        for (int i = 0; i < info->dlpi_phnum; ++i) {
            if (info->dlpi_phdr[i].p_type != PT_LOAD) continue;
            uintptr_t a = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
            if (a < lo) lo = a;
            if (a + info->dlpi_phdr[i].p_memsz > hi) hi = a + info->dlpi_phdr[i].p_memsz;
        }
        lib_pcre[nlibs] = strstr(info->dlpi_name, "libpcre2") != nullptr;
        lib_lo[nlibs] = lo;
        lib_hi[nlibs++] = hi;
    }
    return 0;
}

const std::vector<const char *> conv_encodings = {"ISO-8859-1", "ISO-8859-15", "CP1252", "ISO-8859-5", "KOI8-R", "CP437", "EUC-JP", "CP932", "GB18030", "EUC-CN", "BIG5", "EUC-KR", "ISO-8859-7"};
void sim_init() {
    if (getenv("BOXSIM_BT")) alloc_trace = open(getenv("BOXSIM_BT"), O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (shm) return;
    shm = (Shm *) mmap(nullptr, SHM_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    void *a = mmap(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void *g = mmap(GUARD, GUARD_SIZE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (shm == MAP_FAILED || a != ARENA || g != GUARD) {
        fprintf(stderr, "boxsim: cannot map simulator memory\n");
        _exit(2);
    }
    dl_iterate_phdr(phdr_cb, nullptr);
    for (auto e : conv_encodings) iconv_open("UTF-8", e), iconv_open(e, "UTF-8");      // load the converters once, before any run
}

static void at_exit_check() {
    int sv = in_sim;
    ++in_sim;
    heap_check();
    in_sim = sv;
}

static __attribute__((noinline)) int call_main(int argc, char **argv, size_t junk, int pat) {
    {
        // Put a known pattern on the stack that main() and its callees will use.
        volatile char *p = (volatile char *) __builtin_alloca(junk);
        memset((void *) p, pat, junk);
        __asm__ volatile("" ::"r"(p) : "memory");
    }
    return 0 * argc + (argv == nullptr);
}
static __attribute__((noinline)) int call_main2(int argc, char **argv, size_t skew) {
    volatile char *p = (volatile char *) __builtin_alloca(skew + 16);
    p[0] = 0;
    __asm__ volatile("" ::"r"(p) : "memory");
    return boxes_main(argc, argv);
}

static void child_run(const RunSpec &spec, const Fs &fs) {
    in_sim = 1;
    struct rlimit rl = {20, 25};
    setrlimit(RLIMIT_CPU, &rl);
    rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    W = new World;
    W->spec = spec;
    W->stdin_data = spec.stdin_data;
    if (!spec.stdin_from.empty()) {
        auto it = fs.find(spec.stdin_from);
        W->stdin_data = it == fs.end() ? "" : it->second.data;
    }
    W->rnd = (u64) spec.pid * 31 + (u64) spec.clock0;
    W->iorng = mix(spec.lat, 4711);
    conv_faults = false;
    for (auto &f : spec.faults) conv_faults |= f.op == OP_CONV;
    for (Pool &pl : pools) pl.rng = (u64) spec.heapfill;
    W->fcount.assign(spec.faults.size(), 0);
    W->ffired.assign(spec.faults.size(), 0);
    for (auto &f : W->spec.faults)
        if (f.op == OP_ALLOC && n_alloc_faults < 8) alloc_faults[n_alloc_faults++] = &f;
    for (auto &kv : fs) {
        auto in = std::make_shared<Inode>();
        in->id = W->next_ino++;
        in->data = kv.second.data;
        in->type = kv.second.type;
        in->mtime = kv.second.mtime ? kv.second.mtime : spec.clock0 - 1000 - (i64) (mix(spec.lat, hash_str(kv.first)) % 9000000);
        W->paths[kv.first] = in;
        if (kv.second.openerr || kv.second.staterr) W->attr[kv.first] = kv.second;
    }
    // standard streams
    const char *names[3] = {"<stdin>", "<stdout>", "<stderr>"};
    VF *std3[3];
    for (int i = 0; i < 3; ++i) {
        VF *v = new VF;
        v->obj = objof(names[i]);
        v->kind = i;
        v->r = i == 0;
        v->w = i > 0;
        v->path = names[i];
        std3[i] = v;
        new_fd(v);
    }
    stdin = wrap_file(std3[0], "r", spec.inbuf);
    stdout = wrap_file(std3[1], "w", spec.tty_out ? -1 : spec.outbuf);
    stderr = wrap_file(std3[2], "w", 0);
    if (spec.no_stderr) W->fds[2] = nullptr;
    clearenv();
    for (auto &kv : spec.env) setenv(kv.first.c_str(), kv.second.c_str(), 1);
    signal(SIGPIPE, spec.sigpipe_ign ? SIG_IGN : SIG_DFL);
    std::vector<char *> av;
    av.push_back(strdup("boxes"));
    for (auto &a : spec.argv) av.push_back(strdup(a.c_str()));
    int argc = (int) av.size();
    av.push_back(nullptr);
    char **argv = (char **) __libc_malloc(sizeof(char *) * av.size());
    memcpy(argv, av.data(), sizeof(char *) * av.size());
    atexit(at_exit_check);
    if (spec.guard) {
        static char altstack[64 * 1024];
        stack_t ss = {};
        ss.ss_sp = altstack;
        ss.ss_size = sizeof altstack;
        sigaltstack(&ss, nullptr);
        struct sigaction sa = {};
        sa.sa_sigaction = on_segv;
        sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
        sigaction(SIGSEGV, &sa, nullptr);
        sigaction(SIGBUS, &sa, nullptr);
    }
    call_main(argc, argv, 512 * 1024, spec.stackfill);
    errno = 0;
    active = true;
    in_sim = 0;
    int rc = call_main2(argc, argv, (size_t) spec.stackskew * 16);
    exit(rc);
}

static void harvest(Outcome &o, const Fs &fs, i64 clock0, int status) {
    std::map<i64, std::string> ino;
    std::map<i64, char> itype;
    std::map<i64, i64> mtime;
    std::map<std::string, i64> paths;
    i64 id = 1;
    for (auto &kv : fs) {
        ino[id] = kv.second.data;
        mtime[id] = kv.second.mtime;
        itype[id] = kv.second.type;
        paths[kv.first] = id;
        ++id;
    }
    u64 used = shm->used;
    std::set<std::string> mut, ow, orr;
    for (u64 at = 0; at + sizeof(RecHdr) <= used;) {
        RecHdr h;
        memcpy(&h, shm->bytes + at, sizeof h);
        const char *d = shm->bytes + at + sizeof h;
        at += sizeof h + ((h.dlen + 7) & ~(u64) 7);
        if (h.op == REC_NAME) {
            o.objs.push_back(std::string(d, h.dlen));
            continue;
        }
        const std::string &name = o.objs[h.obj];
        Rec r;
        r.step = h.step;
        r.op = h.op;
        r.obj = h.obj;
        r.arg = h.arg;
        r.res = h.res;
        r.simt = h.simt;
        r.off = h.off;
        r.ino = h.ino;
        if ((h.op == OP_WRITE && h.res > 0) || (h.op == OP_MUTATE && h.res >= 0) || h.op == REC_ENVFS) mtime[h.ino] = clock0 + h.simt / 1000000;
        if (h.op == OP_WRITE && h.res > 0) {
            if (name == "<stdout>") o.out.append(d, h.dlen);
            else if (name == "<stderr>") o.err.append(d, h.dlen);
            else {
                std::string &c = ino[h.ino];
                if (c.size() < (size_t) (h.off + h.res)) c.resize((size_t) (h.off + h.res));
                memcpy(&c[(size_t) h.off], d, (size_t) h.res);
                mut.insert(name);
            }
        } else if (h.op == OP_OPEN && h.res >= 0) {
            if (h.off && name != "/dev/null") ow.insert(name);
            else orr.insert(name);
        } else if (h.op == OP_MUTATE) {
            mut.insert(name);
            if (h.res >= 0) switch (h.arg) {
                case 1: paths.erase(name); break;
                case 2: paths[name] = h.ino; ino[h.ino] = ""; itype[h.ino] = 'f'; break;
                case 3: ino[h.ino].resize((size_t) h.off); break;
                case 4: {
                    std::string to(d, h.dlen);
                    mut.insert(to);
                    if (paths.count(name)) {
                        paths[to] = paths[name];
                        paths.erase(name);
                    }
                    break;
                }
                case 5: paths[name] = -1 - (i64) h.obj; itype[-1 - (i64) h.obj] = 'd'; ino[-1 - (i64) h.obj]; break;
                default: break;
            }
        } else if (h.op == REC_ENVFS) {
            switch (h.arg) {
                case 1: paths.erase(name); break;
                case 2: paths[name] = h.ino; ino[h.ino] = std::string(d, h.dlen); itype[h.ino] = 'f'; break;
                case 3: ino[h.ino].resize((size_t) h.off); break;
                default: break;
            }
        }
        o.log.push_back(r);
    }
    for (auto &kv : paths) {
        FNode n;
        auto f = fs.find(kv.first);
        if (f != fs.end()) n = f->second;
        n.type = itype[kv.second];
        n.data = ino[kv.second];
        n.mtime = mtime[kv.second];
        o.fs[kv.first] = n;
    }
    o.mutated.assign(mut.begin(), mut.end());
    o.opened_w.assign(ow.begin(), ow.end());
    o.opened_r.assign(orr.begin(), orr.end());
    o.steps = o.log.size();
    o.allocs = shm->allocs;
    o.simus = o.log.empty() ? 0 : (u64) o.log.back().simt;
    o.maxfd = shm->maxfd;
    o.spawned = shm->spawned;
    o.close_err = shm->close_err;
    memcpy(o.fired, shm->fired, sizeof o.fired);
    o.heapflags = shm->heapflags;
    o.heapmsg = shm->heapmsg;
    o.special = (Special) shm->special;
    if (o.special == SP_NONE || o.special == SP_KILLED) {
        if (WIFEXITED(status)) {
            o.exited = true;
            o.code = WEXITSTATUS(status);
        } else {
            o.sig = WTERMSIG(status);
            if (o.sig == SIGXCPU) o.special = SP_CPU;
        }
    }
    u64 h = hash_bytes(shm->bytes, used);
    int key[5] = {o.exited, o.code, o.sig, (int) o.special, (int) o.heapflags};
    o.hash = hash_bytes(key, sizeof key, h) ^ o.allocs;
}

Outcome sim_run(const RunSpec &spec, const Fs &fs) {
    sim_init();
    memset((void *) shm, 0, sizeof(Shm));
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        child_run(spec, fs);
        _exit(98);
    }
    if (pid < 0) {
        perror("boxsim: fork");
        _exit(2);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
    }
    Outcome o;
    harvest(o, fs, spec.clock0, status);
    return o;
}

bool Outcome::werr(const std::string &obj) const {
    for (auto &r : log)
        if (r.op == OP_WRITE && r.res < 0 && objs[r.obj] == obj) return true;
    return false;
}

std::string Outcome::brief() const {
    char b[200];
    const char *sp[] = {"", " blocked-on-stdin", " runaway", " cpu-limit", " killed"};
    if (exited) snprintf(b, sizeof b, "exit %d%s", code, sp[special]);
    else snprintf(b, sizeof b, "signal %d%s", sig, sp[special]);
    std::string s = b;
    snprintf(b, sizeof b, " stdout=%zuB stderr=%zuB steps=%llu", out.size(), err.size(), (unsigned long long) steps);
    return s + b;
}
