// A CUDA block machine on one host thread: every CUDA thread is a fiber that runs until it meets a
// barrier, a shuffle or its end; who runs next is drawn at random.  The kernels are compiled with
// -fsanitize=thread, and the hooks the compiler inserts come here: every load and store is checked for
// bounds, life time, initialisation and ordering (memcheck, initcheck, racecheck, synccheck).
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <deque>
#include <map>
#include <string>
#include <vector>
#include <sys/mman.h>

struct dim { unsigned x, y, z; };
struct builtins { dim tid, bid, bdim, gdim; };
struct Cell {
    uint32_t wlaunch, wblk, wep, wwep;
    uint32_t rlaunch, rblk, rep, rwep;
    int32_t wtid, rtid;           // rtid: -2 several lanes of warp rwarp, -3 several warps, -4 several blocks
    int32_t rwarp;
    uint8_t watomic, init;
};
struct Range { uintptr_t a; size_t n; bool live; bool shared; Cell *cells; const char *what; };

extern "C" builtins fpv_b;
builtins fpv_b;

namespace {
std::map<uintptr_t, Range> ranges;
std::deque<uintptr_t> quarantine;
const size_t G = 2;               // granule of the shadow

enum State { READY, BARRIER, SHUFFLE, DONE };
struct Fiber { void *sp; State st; unsigned mask; uint64_t val; int src, what; };
std::vector<Fiber> fib;
std::vector<uint32_t> warpep;
std::vector<int> ready;
char *stacks = 0;
const size_t STK = 1 << 16;
const int MAXT = 1024;
void *main_sp;
int cur = -1;
bool inside = false, failed = false;
uint32_t launch_no = 0, ep = 0, blk = 0;
char msg[1024];
uint64_t cnt[10];                 // accesses, atomics, barriers, shuffles, switches, blocks, threads, launches, max shared, schedule hash
uint64_t rs;
void *kargs[8];
void (*kfn)(void *, void *, void *, void *, void *, void *, void *, void *);
char *dyn = 0; size_t dyn_n = 0, dyn_cap = 0;
uintptr_t modlo = 0, modhi = 0;
Range *last[2];

uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }

extern "C" void fpv_switch(void **save, void *to);
asm(R"(
.text
.globl fpv_switch
.type fpv_switch,@function
fpv_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size fpv_switch,.-fpv_switch
)");

void to_main() { void *dummy; void **s = cur >= 0 ? &fib[cur].sp : &dummy; fpv_switch(s, main_sp); }

void fail(const char *f, ...) {
    if (!failed) {
        int n = snprintf(msg, sizeof msg, "block %u thread %d: ", blk, cur);
        va_list ap; va_start(ap, f); vsnprintf(msg + n, sizeof msg - n, f, ap); va_end(ap);
    }
    failed = true;
    if (inside) { to_main(); abort(); }
}

Range *find(uintptr_t p) {
    for (Range *r : last) if (r && p >= r->a && p < r->a + r->n) return r;
    auto it = ranges.upper_bound(p);
    if (it == ranges.begin()) return 0;
    --it;
    if (p >= it->second.a + it->second.n) return 0;
    last[1] = last[0]; last[0] = &it->second;
    return last[0];
}

void access(uintptr_t p, size_t n, bool write, bool atomic) {
    if (!inside) return;
    cnt[0]++;
    uintptr_t s = (uintptr_t)stacks + (size_t)cur * STK;
    if (p >= s && p < s + STK) return;
    if (p >= (uintptr_t)&fpv_b && p < (uintptr_t)(&fpv_b + 1)) return;
    Range *r = find(p);
    if (!r) {
        if (p >= modlo && p < modhi) return;
        fail("%s of %zu bytes at an address outside device memory", write ? "store" : "load", n); return;
    }
    if (!r->live) { fail("%s of device memory after it was freed", write ? "store" : "load"); return; }
    if (p + n > r->a + r->n) { fail("%s of %zu bytes runs over the end of %s (%zu bytes)", write ? "store" : "load", n, r->what, r->n); return; }
    int warp = cur / 32;
    for (size_t k = (p - r->a) / G; k <= (p + n - 1 - r->a) / G; k++) {
        Cell &c = r->cells[k];
        bool bad = false;
        if (c.wlaunch == launch_no) {
            if (c.wblk != blk) bad = !(atomic && c.watomic);
            else if (c.wep == ep && c.wtid != cur && !(atomic && c.watomic)) bad = !(c.wtid / 32 == warp && c.wwep != warpep[warp]);
            if (bad) { fail("%s of %s at byte %zu, stored to by thread %d of block %u without a barrier in between", write ? "store" : "load", r->what, (size_t)(p - r->a), c.wtid, c.wblk); return; }
        }
        if (write) {
            if (c.rlaunch == launch_no) {
                if (c.rtid == -4 || c.rblk != blk) bad = true;
                else if (c.rep == ep && c.rtid != cur) bad = c.rtid == -3 || c.rwarp != warp || c.rwep == warpep[warp];
                if (bad) { fail("store to %s at byte %zu, loaded by another thread (%d) without a barrier in between", r->what, (size_t)(p - r->a), c.rtid); return; }
            }
            c.wlaunch = launch_no; c.wblk = blk; c.wep = ep; c.wwep = warpep[warp]; c.wtid = cur; c.watomic = atomic; 
            if (atomic && !c.init) { fail("atomic operation on %s at byte %zu, which nothing initialised", r->what, (size_t)(p - r->a)); return; }
            c.init = 1;
        } else {
            if (!c.init) { fail("load of %s at byte %zu, which nothing initialised", r->what, (size_t)(p - r->a)); return; }
            if (c.rlaunch != launch_no || (c.rblk == blk && c.rep != ep && c.rtid != -4)) { c.rlaunch = launch_no; c.rblk = blk; c.rep = ep; c.rtid = cur; c.rwarp = warp; c.rwep = warpep[warp]; }
            else if (c.rblk != blk) c.rtid = -4;
            else if (c.rtid == -4 || c.rtid == -3) {}
            else if (c.rwarp != warp) c.rtid = -3;
            else { if (c.rtid != cur) c.rtid = -2; c.rwep = warpep[warp]; }
        }
    }
}

void make_ready(int t) { fib[t].st = READY; ready.push_back(t); }

void entry() {
    kfn(kargs[0], kargs[1], kargs[2], kargs[3], kargs[4], kargs[5], kargs[6], kargs[7]);
    fib[cur].st = DONE;
    to_main();
    abort();
}

void add_range(void *p, size_t n, bool shared, bool init, const char *what) {
    Range r; r.a = (uintptr_t)p; r.n = n; r.live = true; r.shared = shared; r.what = what;
    r.cells = (Cell *)calloc(n / G + 2, sizeof(Cell));
    for (size_t k = 0; k < n / G + 2; k++) r.cells[k].init = init;
    auto old = ranges.find(r.a);
    if (old != ranges.end()) { free(old->second.cells); }
    ranges[r.a] = r;
    last[0] = last[1] = 0;
}
void drop_range(void *p) {
    auto it = ranges.find((uintptr_t)p);
    if (it != ranges.end()) { free(it->second.cells); ranges.erase(it); }
    last[0] = last[1] = 0;
}
}  // namespace

extern "C" {
int fpv_lane() { return cur % 32; }
void *fpv_dynshared() { return dyn; }
void fpv_atomic(void *p, int n) { cnt[1]++; access((uintptr_t)p, n, true, true); }
void fpv_barrier() { cnt[2]++; fib[cur].st = BARRIER; to_main(); }
uint64_t fpv_exchange(unsigned mask, uint64_t v, int src, int what) {
    cnt[3]++;
    Fiber &f = fib[cur];
    if (!(mask >> (cur % 32) & 1)) fail("a shuffle by a lane that is not in its mask %08x", mask);
    f.st = SHUFFLE; f.mask = mask; f.val = v; f.src = src; f.what = what;
    int w = cur / 32 * 32;
    bool all = true;
    for (int l = 0; l < 32 && all; l++) if (mask >> l & 1) {
        if (w + l >= (int)fib.size()) fail("a shuffle with mask %08x in a warp of %d lanes", mask, (int)fib.size() - w);
        Fiber &o = fib[w + l];
        if (o.st != SHUFFLE) all = false;
        else if (o.mask != mask || o.what != what) fail("lanes of a warp meet in different shuffles");
    }
    if (all) {
        uint64_t vals[32];
        for (int l = 0; l < 32; l++) vals[l] = (mask >> l & 1) ? fib[w + l].val : 0xffffffffffffffffull;
        for (int l = 0; l < 32; l++) if (mask >> l & 1) {
            Fiber &o = fib[w + l];
            o.val = vals[o.src & 31];
            if (w + l != cur) make_ready(w + l); else o.st = READY;
        }
        warpep[w / 32]++;
    } else to_main();
    return fib[cur].val;
}
void fpv_warp_barrier(unsigned mask) { fpv_exchange(mask, 0, cur % 32, 9); }

void *fpv_alloc(size_t n) {
    char *p = (char *)malloc(n + 64);
    memset(p, 0xff, n + 64);
    add_range(p, n, false, false, "a device buffer");
    return p;
}
int fpv_free(void *p) {
    auto it = ranges.find((uintptr_t)p);
    if (it == ranges.end() || !it->second.live) return 1;
    it->second.live = false;
    memset(p, 0xff, it->second.n);
    quarantine.push_back((uintptr_t)p);
    while (quarantine.size() > 300) { void *q = (void *)quarantine.front(); quarantine.pop_front(); drop_range(q); free(q); }
    last[0] = last[1] = 0;
    return 0;
}
// 0 fine, 1 not device memory, 2 freed, 3 too small, 4 not initialised
int fpv_region(void *p, size_t n, int mark, int need_init) {
    Range *r = find((uintptr_t)p);
    if (!r) return 1;
    if (!r->live) return 2;
    size_t o = (uintptr_t)p - r->a;
    if (o + n > r->n) return 3;
    for (size_t k = o / G; n && k <= (o + n - 1) / G; k++) {
        if (mark) r->cells[k].init = 1;
        else if (need_init && !r->cells[k].init) return 4;
    }
    return 0;
}
size_t fpv_live() { size_t n = 0; for (auto &x : ranges) n += x.second.live && !x.second.shared; return n; }
const char *fpv_message() { return msg; }
uint64_t fpv_counter(int k) { return cnt[k]; }

int fpv_launch(void *fn, void **args, int nargs, const unsigned *grid, const unsigned *block, size_t shared, char *sh0, char *sh1, char *m0, char *m1, uint64_t seed) {
    if (!stacks) { stacks = (char *)mmap(0, MAXT * STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (stacks == MAP_FAILED) return 2; }
    size_t nt = (size_t)block[0] * block[1] * block[2];
    failed = false; msg[0] = 0; cur = -1; blk = 0;
    if (nt < 1 || nt > (size_t)MAXT) { snprintf(msg, sizeof msg, "%zu threads in a block", nt); return 1; }
    size_t stat = sh1 - sh0;
    if (shared + stat > 49152) { snprintf(msg, sizeof msg, "%zu + %zu bytes of shared memory in a block", shared, stat); return 1; }
    if (shared + stat > cnt[8]) cnt[8] = shared + stat;
    kfn = (decltype(kfn))fn;
    for (int k = 0; k < 8; k++) kargs[k] = k < nargs ? args[k] : 0;
    modlo = (uintptr_t)m0; modhi = (uintptr_t)m1;
    rs = seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
    for (int k = 0; k < 9; k++) rnd();
    launch_no++; cnt[7]++;
    fpv_b.gdim = {grid[0], grid[1], grid[2]};
    fpv_b.bdim = {block[0], block[1], block[2]};
    // blocks run in any order
    std::vector<unsigned> order(grid[0] * grid[1] * grid[2]);
    for (size_t k = 0; k < order.size(); k++) order[k] = k;
    for (size_t k = order.size(); k > 1; k--) std::swap(order[k - 1], order[rnd() % k]);
    if (!dyn) { dyn = (char *)aligned_alloc(256, 65536); }
    for (unsigned b : order) {
        blk = b;
        ep++; cnt[5]++;
        fpv_b.bid = {b % grid[0], b / grid[0] % grid[1], b / grid[0] / grid[1]};
        memset(dyn, 0xff, 65536);
        if (shared) add_range(dyn, shared, true, false, "dynamic shared memory");
        if (stat) { memset(sh0, 0xff, stat); add_range(sh0, stat, true, false, "static shared memory"); }
        fib.assign(nt, Fiber());
        warpep.assign(nt / 32 + 1, 0);
        ready.clear();
        for (size_t t = 0; t < nt; t++) {
            char *top = stacks + (t + 1) * STK - 64;
            void **sp = (void **)((uintptr_t)top & ~(uintptr_t)15);
            *--sp = 0;                       // return address of entry: never used
            *--sp = (void *)entry;
            for (int k = 0; k < 6; k++) *--sp = 0;
            fib[t].sp = sp;
            make_ready(t);
            cnt[6]++;
        }
        size_t done = 0;
        while (true) {
            while (!ready.empty()) {
                size_t k = rnd() % ready.size();
                int t = ready[k]; ready[k] = ready.back(); ready.pop_back();
                cnt[9] = (cnt[9] ^ (uint64_t)t) * 1099511628211ull; cnt[4]++;
                cur = t;
                unsigned bx = block[0], by = block[1];
                fpv_b.tid = {t % bx, t / bx % by, t / bx / by};
                inside = true;
                fpv_switch(&main_sp, fib[t].sp);
                inside = false;
                if (failed) goto out;
                if (fib[t].st == DONE) done++;
            }
            if (done == nt) break;
            size_t nb = 0;
            for (Fiber &f : fib) nb += f.st == BARRIER;
            if (nb + done != nt) { cur = -1; fail("threads wait for each other: %zu at a barrier, %zu ended, %zu in a shuffle", nb, done, nt - nb - done); goto out; }
            ep++;
            for (size_t t = 0; t < nt; t++) if (fib[t].st == BARRIER) make_ready(t);
        }
    }
out:
    cur = -1;
    drop_range(dyn);
    if (stat) drop_range(sh0);
    modlo = modhi = 0;
    return failed ? 1 : 0;
}

// hooks of -fsanitize=thread
#define RW(n) \
void __tsan_read##n(void *p) { access((uintptr_t)p, n, false, false); } \
void __tsan_write##n(void *p) { access((uintptr_t)p, n, true, false); } \
void __tsan_unaligned_read##n(void *p) { access((uintptr_t)p, n, false, false); } \
void __tsan_unaligned_write##n(void *p) { access((uintptr_t)p, n, true, false); } \
void __tsan_volatile_read##n(void *p) { access((uintptr_t)p, n, false, false); } \
void __tsan_volatile_write##n(void *p) { access((uintptr_t)p, n, true, false); } \
void __tsan_read_write##n(void *p) { access((uintptr_t)p, n, false, false); access((uintptr_t)p, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { if (n) access((uintptr_t)p, n, false, false); }
void __tsan_write_range(void *p, unsigned long n) { if (n) access((uintptr_t)p, n, true, false); }
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_init() {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
}
