// natsim: runs the unmodified runtime under a controlled scheduler.
//
// Every OS thread the runtime creates becomes a fiber of one process; locks,
// sleeps, clocks, thread keys and the event loop are simulated with a virtual
// clock, so an execution is a pure function of the scheduling decisions.
// Decisions are enumerated exhaustively: at each scheduling point the process
// forks one child per alternative while fewer than BOUND deviations from the
// base policy were made.  Memory accesses of the runtime reach the scheduler
// through the thread-sanitizer instrumentation calls (implemented here).
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/auxv.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <elf.h>
#include <malloc.h>
#include <time.h>
#include <unistd.h>
#include <include/uv.h>

#define MAXF 24
#define MAXDEV 12
#define MAXLOCKS 256
#define GBITS 17
#define STACKSZ (2 << 20)
#define LOGMAX 128

enum { F_FREE, F_READY, F_BLOCKED, F_SLEEP, F_DONE };

typedef struct fiber {
    void *sp;
    uint64_t fs;
    int state;
    bool forced; // woken early by the last deviation
    bool lng; // sleeping 5 ms or more outside the event loop
    bool in_loop; // sleeping inside uv_run
    void *wait;
    uint64_t wake;
    uint64_t seq; // order of becoming ready
    void (*fn)(void *);
    void *arg;
    uintptr_t lo, hi;
    void *keys[32];
    int nheld;
    void *held[16];
    uint64_t rr;
} fiber_t;

static fiber_t F[MAXF];
static int nf = 1, cur = 0;
static uint64_t now_ns = 1000000000ull, begin_ns, tick_ns = 50;
static bool exploring = false, begun = false;
static uint64_t ev = 0, nswitch = 0, seqno = 0;
static int budget = 0, ndev = 0;
static bool quiet = false;
typedef struct { uint64_t ev; int to; } dev_t2;
static dev_t2 dev[MAXDEV];
static int policy = 0; // 0: run until blocked; q>0: round robin every q points
static bool reverse_pick = false;
static int cfg_cpus = 2, cfg_bound = 2, cfg_jobs = 1, cfg_gc = 0, cfg_verbose = 0, cfg_noreduce = 0, cfg_hang = 0, cfg_maxpass = 4;
static uint64_t cfg_limit_ms = 400, cfg_maxev = 3000000;
static int nreplay = -1, ireplay = 0;
static struct { uint64_t ev; int to; } rep[MAXDEV];
static int64_t notes[LOGMAX];
static int nnotes = 0;
static char lastout[256];
static bool i_hold_slot = false;
static int nchild_async = 0;

typedef struct {
    _Atomic uint64_t addr; // granule address or 0
    _Atomic uint32_t rd, wr; // fiber masks
    _Atomic uint64_t lk[MAXLOCKS / 64];
    _Atomic uint32_t st; // 1 = lockset initialised
} gran_t;

#define HISTMAX 64
#define OUTMAX 16384
typedef struct { int16_t op; int8_t end, fix; int32_t res; } hev_t; // fix: order against neighbours matters
static hev_t hist[HISTMAX];
static int nhist = 0;
typedef struct { _Atomic uint64_t h; int hang, nhist, ndev; dev_t2 dev[MAXDEV]; hev_t hist[HISTMAX]; } out_t;

typedef struct {
    atomic_int slots;
    atomic_int stop;
    _Atomic uint64_t leaves, pruned, reduced, points, switches, events, forks, maxev, grown, hotpoints;
    _Atomic uint64_t truncated, maxdev_used;
    atomic_int nviol;
    struct { char msg[700]; int n; uint64_t ev[MAXDEV]; int to[MAXDEV]; } viol[8];
    struct { _Atomic int pid; int kind; uint64_t bloom[32], wbloom[32]; } probe[4096];
    _Atomic uint64_t nout;
    out_t outs[OUTMAX];
    _Atomic uint64_t lockaddr[MAXLOCKS];
    _Atomic uint32_t lockfib[MAXLOCKS];
    gran_t g[1 << GBITS];
} shm_t;
static shm_t *S;

// ------------------------------------------------------------ fiber switching
__asm__(
        ".text\n.globl ns_swap\n.type ns_swap,@function\nns_swap:\n"
        "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
        "sub $8,%rsp\nstmxcsr (%rsp)\nfnstcw 4(%rsp)\n"
        "mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
        "ldmxcsr (%rsp)\nfldcw 4(%rsp)\nadd $8,%rsp\n"
        "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n");
extern void ns_swap(void **save, void *to);

static bool have_fsgsbase;
static void set_fs(uint64_t v) {
    if (have_fsgsbase) __asm__ volatile("wrfsbase %0" ::"r"(v));
    else syscall(SYS_arch_prctl, 0x1002, v);
}
static uint64_t get_fs(void) {
    uint64_t v;
    if (have_fsgsbase) __asm__ volatile("rdfsbase %0" : "=r"(v));
    else syscall(SYS_arch_prctl, 0x1003, &v);
    return v;
}

static void leaf_end(void) __attribute__((noreturn));
static void violation(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));

static void note_out(int hang) {
    // neighbouring begins commute, and so do neighbouring ends
    for (int i = 1; i < nhist; i++)
        for (int j = i; j > 0 && hist[j].end == hist[j - 1].end && hist[j].op < hist[j - 1].op && !hist[j].fix && !hist[j - 1].fix; j--) {
            hev_t t = hist[j];
            hist[j] = hist[j - 1];
            hist[j - 1] = t;
        }
    uint64_t h = 1469598103934665603ull;
    for (int i = 0; i < nnotes; i++) h = (h ^ (uint64_t) notes[i]) * 1099511628211ull;
    for (int i = 0; i < nhist; i++) h = (h ^ (uint64_t) (hist[i].op * 2 + hist[i].end + 1)) * 1099511628211ull, h = (h ^ (uint64_t) hist[i].res) * 1099511628211ull;
    h = (h ^ hang) * 1099511628211ull;
    h ^= h >> 29;
    if (!h) h = 1;
    uint64_t i = h % OUTMAX;
    for (int k = 0; k < OUTMAX; k++, i = (i + 1) % OUTMAX) {
        uint64_t x = S->outs[i].h;
        if (x == h) return;
        if (x == 0) {
            uint64_t z = 0;
            if (atomic_compare_exchange_strong(&S->outs[i].h, &z, h)) {
                S->outs[i].hang = hang;
                S->outs[i].nhist = nhist;
                memcpy(S->outs[i].hist, hist, sizeof(hist[0]) * nhist);
                S->outs[i].ndev = ndev;
                memcpy(S->outs[i].dev, dev, sizeof dev);
                S->nout++;
                return;
            }
            if (z == h) return;
        }
    }
    S->truncated++;
}

static void finish_process(void) {
    if (nchild_async) {
        // give the slot back while only waiting
        if (i_hold_slot) { atomic_fetch_add(&S->slots, 1); i_hold_slot = false; }
        while (nchild_async > 0) {
            if (wait(NULL) > 0) nchild_async--;
            else if (errno != EINTR) break;
        }
    } else if (i_hold_slot) { atomic_fetch_add(&S->slots, 1); i_hold_slot = false; }
    _exit(0);
}

static int hung = 0;
static void leaf_end(void) {
    if (begun && nreplay < 0) {
        S->leaves++;
        S->switches += nswitch;
        S->events += ev;
        note_out(hung);
        uint64_t m = S->maxev;
        while (ev > m && !atomic_compare_exchange_weak(&S->maxev, &m, ev)) {}
        finish_process();
    }
    printf("NATSIM-LEAF ok hang=%d events=%lu switches=%lu hist=", hung, ev, nswitch);
    for (int k = 0; k < nhist; k++) printf("%s%d%c%d", k ? " " : "", hist[k].op, hist[k].end ? 'e' : 'b', hist[k].res);
    printf(" notes=");
    for (int i = 0; i < nnotes; i++) printf("%s%ld", i ? "," : "", notes[i]);
    printf("\n");
    fflush(stdout);
    _exit(0);
}

static void violation(const char *fmt, ...) {
    char buf[700];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    exploring = false;
    if (!begun || nreplay >= 0) {
        printf("NATSIM-FAIL %s\n", buf);
        printf("events=%lu notes=", ev);
        for (int i = 0; i < nnotes; i++) printf("%s%ld", i ? "," : "", notes[i]);
        printf("\n");
        for (int i = 0; i < nf; i++)
            printf("thread %d state=%d wait=%p wake=%+ldus\n", i, F[i].state, F[i].wait, (long) (F[i].wake - now_ns) / 1000);
        fflush(stdout);
        _exit(9);
    }
    int k = atomic_fetch_add(&S->nviol, 1);
    if (k < 8) {
        snprintf(S->viol[k].msg, sizeof S->viol[k].msg, "%s", buf);
        S->viol[k].n = ndev;
        for (int i = 0; i < ndev; i++) { S->viol[k].ev[i] = dev[i].ev; S->viol[k].to[i] = dev[i].to; }
    }
    S->leaves++;
    atomic_store(&S->stop, 1);
    finish_process();
    _exit(0);
}

static void fiber_main(void) {
    F[cur].fn(F[cur].arg);
    // thread function returned
    F[cur].state = F_DONE;
    extern void ns_block(void);
    ns_block();
    abort();
}

static void wr_invalidate(void);
static void switch_to(int t) {
    if (t == cur) return;
    int me = cur;
    nswitch++;
    wr_invalidate();
    if (cfg_verbose > 1 && begun) { char b[80]; int n = snprintf(b, 80, "[ev %lu] thread %d -> %d\n", ev, me, t); (void) !write(2, b, n); }
    F[me].fs = get_fs();
    cur = t;
    F[t].rr = 0;
    set_fs(F[t].fs);
    ns_swap(&F[me].sp, F[t].sp);
    // back here: whoever switched to us already set cur and fs
}

static uint64_t tls_size(void) {
    static uint64_t sz = 0;
    if (sz) return sz;
    Elf64_Phdr *ph = (void *) getauxval(AT_PHDR);
    int n = getauxval(AT_PHNUM);
    sz = 64;
    for (int i = 0; i < n; i++)
        if (ph[i].p_type == PT_TLS) sz = (ph[i].p_memsz + 127) & ~63ull;
    return sz;
}

static int fiber_new(void (*fn)(void *), void *arg) {
    if (nf >= MAXF) violation("too many threads");
    int id = nf++;
    fiber_t *f = &F[id];
    memset(f, 0, sizeof *f);
    char *st = mmap(NULL, STACKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    f->lo = (uintptr_t) st;
    f->hi = f->lo + STACKSZ;
    uint64_t ts = tls_size();
    uint64_t fs = get_fs();
    char *tls = mmap(NULL, 8192 + ts, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    char *tp = (char *) (((uintptr_t) tls + ts + 63) & ~63ull);
    memcpy(tp, (void *) fs, 512);
    // initial image: zero plus the file part
    Elf64_Phdr *ph = (void *) getauxval(AT_PHDR);
    int n = getauxval(AT_PHNUM);
    for (int i = 0; i < n; i++)
        if (ph[i].p_type == PT_TLS) {
            uint64_t off = (ph[i].p_memsz + ph[i].p_align - 1) & ~(ph[i].p_align - 1);
            memcpy(tp - off, (void *) ph[i].p_vaddr, ph[i].p_filesz);
        }
    ((uint64_t *) tp)[0] = (uint64_t) tp;
    f->fs = (uint64_t) tp;
    f->fn = fn;
    f->arg = arg;
    uint64_t *sp = (uint64_t *) (f->hi - 64);
    *--sp = 0; // alignment / fake return
    *--sp = (uint64_t) fiber_main;
    for (int i = 0; i < 6; i++) *--sp = 0;
    sp--;
    uint32_t *cw = (uint32_t *) sp;
    cw[0] = 0x1f80;
    cw[1] = 0x037f;
    f->sp = sp;
    f->state = F_READY;
    f->seq = ++seqno;
    return id;
}

// ------------------------------------------------------------ exploration
static void arm_watchdog(void) {
    // a thread that computes without ever reaching the scheduler
    struct itimerval tv = {.it_value = {.tv_sec = 60}};
    setitimer(ITIMER_PROF, &tv, NULL);
}
static void idle_learn(int t);
static bool explore_alt(int t) {
    // returns in the parent (false) and in the child (true)
    if (ndev >= MAXDEV) return false;
    if (atomic_load(&S->stop)) { finish_process(); }
    bool async = false, probe = budget == 1;
    if (probe) S->probe[getpid() & 4095].pid = 0;
    int s = atomic_load(&S->slots);
    while (s > 0 && !probe) {
        if (atomic_compare_exchange_weak(&S->slots, &s, s - 1)) { async = true; break; }
    }
    pid_t p = fork();
    if (p < 0) {
        if (async) atomic_fetch_add(&S->slots, 1);
        S->truncated++;
        return false;
    }
    if (p == 0) {
        arm_watchdog();
        nchild_async = 0;
        i_hold_slot = async;
        budget--;
        dev[ndev].ev = ev;
        dev[ndev].to = t;
        ndev++;
        return true;
    }
    S->forks++;
    if (async) nchild_async++;
    else
        while (waitpid(p, NULL, 0) < 0 && errno == EINTR) {}
    if (probe) idle_learn(t);
    // reap finished asynchronous children
    while (nchild_async > 0 && waitpid(-1, NULL, WNOHANG) > 0) nchild_async--;
    if (atomic_load(&S->stop)) finish_process();
    return false;
}

static bool idle_known(int i);
static bool futile(int i); // resuming i would be cut at once
static bool can_wake_early(int i) {
    // long sleeps belong to the background monitor thread
    return F[i].state == F_SLEEP && (cfg_gc || !F[i].lng) && !(budget == 1 && idle_known(i));
}


static void wake_sleeper(int t) {
    if (F[t].state == F_SLEEP) {
        if (F[t].wake > now_ns) now_ns = F[t].wake;
        F[t].state = F_READY;
        F[t].seq = ++seqno;
    }
}

// What the other threads did during a preemption that turned out redundant:
// until the running thread writes something they read or wrote, preempting it
// before an access that does not conflict with theirs is redundant again.
static struct { bool valid; uint64_t r[32], w[32]; } WR[MAXF];
static uint64_t wr_r[32], wr_w[32];
static inline uint32_t bhash(uintptr_t g) { return (uint32_t) (((g >> 3) * 0x9E3779B97F4A7C15ull) >> 53); }
static inline bool bl_hit(const uint64_t *b, uintptr_t lo, uintptr_t hi) {
    for (uintptr_t x = lo & ~7ull; x < hi; x += 8) {
        uint32_t h = bhash(x);
        if (b[h >> 6] >> (h & 63) & 1) return true;
    }
    return false;
}
static inline void bl_add(uint64_t *b, uintptr_t lo, uintptr_t hi) {
    for (uintptr_t x = lo & ~7ull; x < hi; x += 8) {
        uint32_t h = bhash(x);
        b[h >> 6] |= 1ull << (h & 63);
    }
}
static void wr_invalidate(void) {
    for (int i = 0; i < nf; i++) WR[i].valid = false;
}
static void wr_write(uintptr_t lo, uintptr_t hi) {
    for (int i = 0; i < nf; i++)
        if (WR[i].valid && (bl_hit(WR[i].r, lo, hi) || bl_hit(WR[i].w, lo, hi))) WR[i].valid = false;
}
static bool wr_redundant(int t, uintptr_t lo, uintptr_t hi, bool w) {
    return budget == 1 && WR[t].valid && lo && !bl_hit(WR[t].w, lo, hi) && !(w && bl_hit(WR[t].r, lo, hi));
}

// One polling iteration of an idle thread (from waking up to sleeping again).
// If it changed nothing, repeating it changes nothing either until another
// thread writes something it read: waking it early is then redundant.
typedef struct {
    bool rec, dirty, valid, forced;
    int n;
    uint64_t bloom[32];
    struct { uint64_t *a; uint64_t v; } log[256];
} iter_t;
static iter_t IT[MAXF];
static int nvalid = 0;

static void iter_start(bool forced) {
    iter_t *it = &IT[cur];
    if (it->valid) { it->valid = false; nvalid--; }
    it->rec = true;
    it->dirty = false;
    it->forced = forced;
    it->n = 0;
    memset(it->bloom, 0, sizeof it->bloom);
}

static void iter_access(uintptr_t lo, uintptr_t hi, bool w) {
    if (w) wr_write(lo, hi);
    iter_t *it = &IT[cur];
    if (it->rec && !it->dirty) {
        int k = 0;
        for (uintptr_t x = lo & ~7ull; x < hi; x += 8) {
            uint32_t h = bhash(x);
            it->bloom[h >> 6] |= 1ull << (h & 63);
            if (w) {
                if (it->n >= 256) { it->dirty = true; break; }
                it->log[it->n].a = (uint64_t *) x;
                it->log[it->n++].v = *(uint64_t *) x;
            }
            if (++k > 64) { it->dirty = true; break; }
        }
    }
    if (w && nvalid)
        for (int t = 0; t < nf; t++)
            if (t != cur && IT[t].valid)
                for (uintptr_t x = lo & ~7ull; x < hi; x += 8) {
                    uint32_t h = bhash(x);
                    if (IT[t].bloom[h >> 6] >> (h & 63) & 1) {
                        IT[t].valid = false;
                        nvalid--;
                        break;
                    }
                }
}
static bool timer_due(uint64_t t);
static bool idle_known(int i) { return !cfg_noreduce && IT[i].valid && !timer_due(F[i].wake); }
static void idle_learn(int t) {
    int me = getpid();
    if (S->probe[me & 4095].pid != me) return;
    if (S->probe[me & 4095].kind == 2) {
        memcpy(WR[t].r, S->probe[me & 4095].bloom, sizeof WR[t].r);
        memcpy(WR[t].w, S->probe[me & 4095].wbloom, sizeof WR[t].w);
        WR[t].valid = true;
        return;
    }
    memcpy(IT[t].bloom, S->probe[me & 4095].bloom, sizeof IT[t].bloom);
    if (!IT[t].valid) nvalid++;
    IT[t].valid = true;
}
static void iter_dirty(void) { IT[cur].dirty = true; }

static void iter_end(void) {
    iter_t *it = &IT[cur];
    if (!it->rec) return;
    it->rec = false;
    bool clean = !it->dirty;
    for (int i = 0; clean && i < it->n; i++) {
        bool older = false;
        for (int j = 0; j < i; j++)
            if (it->log[j].a == it->log[i].a) { older = true; break; }
        if (!older && *it->log[i].a != it->log[i].v) clean = false;
    }
    if (!clean) return;
    if (it->forced && nreplay < 0) {
        S->pruned++;
        int pp = getppid();
        memcpy(S->probe[pp & 4095].bloom, it->bloom, sizeof it->bloom);
        S->probe[pp & 4095].kind = 1;
        S->probe[pp & 4095].pid = pp;
        finish_process();
    }
    it->valid = true;
    nvalid++;
}

static int pick_default(void) {
    // round robin over ready fibers starting after cur, then earliest sleeper
    int best = -1;
    for (int i = 0; i < nf; i++)
        if (F[i].state == F_SLEEP && F[i].wake <= now_ns) {
            F[i].state = F_READY;
            F[i].seq = ++seqno;
        }
    if (reverse_pick) {
        for (int i = 0; i < nf; i++)
            if (F[i].state == F_READY && (best < 0 || F[i].seq > F[best].seq)) best = i;
    } else {
        for (int i = 0; i < nf; i++)
            if (F[i].state == F_READY && (best < 0 || F[i].seq < F[best].seq)) best = i;
    }
    if (best >= 0) return best;
    for (int i = 0; i < nf; i++)
        if (F[i].state == F_SLEEP && (best < 0 || F[i].wake < F[best].wake)) best = i;
    return best;
}

static void check_limits(void) {
    if (begun && now_ns > begin_ns + cfg_limit_ms * 1000000ull) {
        char b[300];
        int n = 0;
        for (int i = 0; i < nf; i++) n += snprintf(b + n, sizeof b - n, " t%d:%s", i, F[i].state == F_READY ? "ready" : F[i].state == F_SLEEP ? "idle" : F[i].state == F_BLOCKED ? "blocked" : "done");
        if (cfg_hang) { hung = 1; exploring = false; leaf_end(); }
        violation("no progress: the program did not finish within %lu ms of virtual time (%s )", cfg_limit_ms, b);
    }
}

static bool replay_here(int *t) {
    if (nreplay >= 0 && ireplay < nreplay && rep[ireplay].ev == ev) {
        *t = rep[ireplay].to;
        ireplay++;
        return true;
    }
    return false;
}

// current fiber cannot continue (state already set); choose another one
void ns_block(void) {
    ev++;
    if (begun && ev > cfg_maxev) violation("no progress: more than %lu runtime steps (livelock)", cfg_maxev);
    int d = pick_default();
    if (d < 0) violation("deadlock: no thread can run");
    int t;
    if (exploring) {
        if (replay_here(&t)) {
            d = t;
        } else if (nreplay < 0 && budget > 0 && !quiet) {
            S->points++;
            for (int i = 0; i < nf; i++) {
                if (i == d || i == cur || futile(i)) continue;
                if (F[i].state == F_READY || can_wake_early(i)) {
                    bool sl = F[i].state == F_SLEEP;
                    if (explore_alt(i)) {
                        F[i].forced = sl && budget == 0;
                        d = i;
                        break;
                    }
                }
            }
        }
    }
    wake_sleeper(d);
    check_limits();
    if (d == cur) { return; }
    switch_to(d);
}

// A preemption placed before an access only matters if some other fiber makes
// a conflicting access before the preempted fiber continues; otherwise the
// execution equals one where the preemption comes after the access, which is
// enumerated too.  Such executions are cut when the fiber is resumed.
static struct { bool on, conflict, w; uintptr_t lo, hi; } pend[MAXF];
static int npend = 0, pend_last = -1;
static void pend_touch(uintptr_t lo, uintptr_t hi, bool w) {
    for (int i = 0; i < nf; i++)
        if (i != cur && pend[i].on && !pend[i].conflict && (w || pend[i].w) && lo < pend[i].hi && pend[i].lo < hi) pend[i].conflict = true;
    if (budget == 0) bl_add(w ? wr_w : wr_r, lo, hi);
}
static void pend_set(uintptr_t lo, uintptr_t hi, bool w) {
    bool c = lo == 0 || cfg_noreduce;
    for (int i = 0; i < nf; i++)
        if (i != cur && lo < F[i].hi && F[i].lo < hi) c = true;
    pend[cur].on = true;
    pend[cur].conflict = c;
    pend[cur].w = w;
    pend[cur].lo = lo;
    pend[cur].hi = hi;
    npend++;
    if (budget == 0) {
        memset(wr_r, 0, sizeof wr_r);
        memset(wr_w, 0, sizeof wr_w);
        pend_last = cur;
    }
}
static bool futile(int i) { return npend && pend[i].on && !pend[i].conflict; }
static void pend_check(void) {
    if (!npend || !pend[cur].on) return;
    pend[cur].on = false;
    npend--;
    if (!pend[cur].conflict && nreplay < 0) {
        S->reduced++;
        if (budget == 0 && cur == pend_last) {
            int pp = getppid();
            memcpy(S->probe[pp & 4095].bloom, wr_r, sizeof wr_r);
            memcpy(S->probe[pp & 4095].wbloom, wr_w, sizeof wr_w);
            S->probe[pp & 4095].kind = 2;
            S->probe[pp & 4095].pid = pp;
        }
        finish_process();
    }
}

// current fiber could be preempted here, about to access [lo,hi)
static void sched_point(void *pc, bool hot, uintptr_t lo, uintptr_t hi, bool w) {
    ev++;
    if (ev > cfg_maxev && begun) violation("no progress: more than %lu runtime steps (livelock)", cfg_maxev);
    int t;
    if (nreplay >= 0) {
        if (replay_here(&t)) {
            if (cfg_verbose) { printf("preempt thread %d at %p (event %lu) -> %d\n", cur, pc, ev, t); fflush(stdout); }
            F[cur].seq = ++seqno;
            wake_sleeper(t);
            switch_to(t);
            return;
        }
        if (!hot) return;
    } else {
        if (!hot) return;
        S->hotpoints++;
        if (cfg_verbose == 9) { char b[64]; int n = snprintf(b, 64, "HOT %p %p\n", pc, (void *) lo); (void) !write(2, b, n); }
        if (budget > 0 && !quiet) {
            S->points++;
            for (int i = 0; i < nf; i++) {
                if (i == cur || futile(i)) continue;
                if (F[i].state == F_READY || can_wake_early(i)) {
                    bool sl = F[i].state == F_SLEEP;
                    if (wr_redundant(i, lo, hi, w)) continue;
                    if (explore_alt(i)) {
                        F[i].forced = sl && budget == 0;
                        pend_set(lo, hi, w);
                        F[cur].seq = ++seqno;
                        wake_sleeper(i);
                        switch_to(i);
                        pend_check();
                        return;
                    }
                }
            }
        }
    }
    if (policy > 0 && (int) ++F[cur].rr >= policy) {
        F[cur].rr = 0;
        F[cur].seq = ++seqno;
        int d = pick_default();
        if (d != cur && F[d].state == F_READY) switch_to(d);
    }
}

// ------------------------------------------------------------ sharing table
static int lock_id(void *l) {
    uint32_t h = (uint32_t) (((uintptr_t) l >> 3) * 2654435761u) % MAXLOCKS;
    for (int k = 0; k < 64; k++) {
        int i = (h + k) % MAXLOCKS;
        uint64_t a = S->lockaddr[i];
        if (a == (uint64_t) l) return i;
        if (a == 0) {
            uint64_t z = 0;
            if (atomic_compare_exchange_strong(&S->lockaddr[i], &z, (uint64_t) l)) return i;
            if (z == (uint64_t) l) return i;
        }
    }
    return -1;
}

static gran_t *gran(uintptr_t a) {
    uint64_t key = (a >> 3) + 1;
    uint32_t h = (uint32_t) ((key * 0x9E3779B97F4A7C15ull) >> (64 - GBITS));
    for (int k = 0; k < 512; k++) {
        gran_t *g = &S->g[(h + k) & ((1 << GBITS) - 1)];
        uint64_t x = g->addr;
        if (x == key) return g;
        if (x == 0) {
            uint64_t z = 0;
            if (atomic_compare_exchange_strong(&g->addr, &z, key) || z == key) return g;
        }
    }
    return NULL;
}

static bool gran_hot(gran_t *g) {
    uint32_t all = g->rd | g->wr;
    if (!g->wr || !(all & (all - 1))) return false;
    for (int i = 0; i < MAXLOCKS / 64; i++)
        if (g->lk[i]) return false;
    return true;
}

static bool touch(uintptr_t a, bool w) {
    gran_t *g = gran(a);
    if (!g) return true;
    bool was = gran_hot(g);
    uint32_t bit = 1u << cur;
    if (w) { if (!(g->wr & bit)) atomic_fetch_or(&g->wr, bit); }
    else if (!(g->rd & bit)) atomic_fetch_or(&g->rd, bit);
    uint64_t m[MAXLOCKS / 64] = {0};
    for (int i = 0; i < F[cur].nheld; i++) {
        int id = lock_id(F[cur].held[i]);
        if (id >= 0) m[id / 64] |= 1ull << (id % 64);
    }
    uint32_t z = 0;
    if (g->st == 0 && atomic_compare_exchange_strong(&g->st, &z, 2)) {
        for (int i = 0; i < MAXLOCKS / 64; i++) g->lk[i] = m[i];
        g->st = 1;
    } else {
        while (g->st == 2) sched_yield();
        for (int i = 0; i < MAXLOCKS / 64; i++)
            if (g->lk[i] & ~m[i]) atomic_fetch_and(&g->lk[i], m[i]);
    }
    bool is = gran_hot(g);
    if (is && !was) S->grown++;
    return was || is;
}

static inline bool own_stack(uintptr_t a) { return a >= F[cur].lo && a < F[cur].hi; }

static void access_mem(void *p, size_t n, bool w, void *pc) {
    if (!exploring) return;
    uintptr_t a = (uintptr_t) p;
    if (own_stack(a)) return;
    bool hot = false;
    uintptr_t e = a + (n ? n : 1);
    if (quiet && policy == 0 && nreplay < 0) {
        if (++ev > cfg_maxev) violation("no progress: more than %lu runtime steps (livelock)", cfg_maxev);
        if (npend) pend_touch(a, e, w);
        iter_access(a, e, w);
        return;
    }
    int k = 0;
    for (uintptr_t x = a & ~7ull; x < e && k < 32; x += 8, k++) hot |= touch(x, w);
    sched_point(pc, hot, a, e, w);
    if (npend) pend_touch(a, e, w);
    iter_access(a, e, w);
}

#define PC() __builtin_return_address(0)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
#define RW(n) \
    void __tsan_read##n(void *p) { access_mem(p, n, false, PC()); } \
    void __tsan_write##n(void *p) { access_mem(p, n, true, PC()); } \
    void __tsan_unaligned_read##n(void *p) { access_mem(p, n, false, PC()); } \
    void __tsan_unaligned_write##n(void *p) { access_mem(p, n, true, PC()); } \
    void __tsan_volatile_read##n(void *p) { access_mem(p, n, false, PC()); } \
    void __tsan_volatile_write##n(void *p) { access_mem(p, n, true, PC()); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void *p, void *v) {}
void __tsan_vptr_read(void *p) {}
void __tsan_read_range(void *p, unsigned long n) { access_mem(p, n, false, PC()); }
void __tsan_write_range(void *p, unsigned long n) { access_mem(p, n, true, PC()); }

#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *p, int mo) { access_mem((void *) p, sizeof(T), false, PC()); return *p; } \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) { access_mem((void *) p, sizeof(T), true, PC()); *p = v; } \
    T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) { access_mem((void *) p, sizeof(T), true, PC()); T o = *p; *p = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo) { access_mem((void *) p, sizeof(T), true, PC()); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo) { access_mem((void *) p, sizeof(T), true, PC()); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo) { access_mem((void *) p, sizeof(T), true, PC()); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo) { access_mem((void *) p, sizeof(T), true, PC()); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo) { access_mem((void *) p, sizeof(T), true, PC()); T o = *p; *p = o ^ v; return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int mo) { access_mem((void *) p, sizeof(T), true, PC()); T o = *p; *p = ~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fm) { \
        access_mem((void *) p, sizeof(T), true, PC()); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fm) { \
        access_mem((void *) p, sizeof(T), true, PC()); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fm) { \
        access_mem((void *) p, sizeof(T), true, PC()); T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {}
void __tsan_atomic_signal_fence(int mo) {}

// ------------------------------------------------------------ libc memory
static void raw_copy(void *d, const void *s, size_t n) {
    if ((uintptr_t) d <= (uintptr_t) s || (uintptr_t) d >= (uintptr_t) s + n) {
        __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
    } else {
        d = (char *) d + n - 1;
        s = (char *) s + n - 1;
        __asm__ volatile("std\nrep movsb\ncld" : "+D"(d), "+S"(s), "+c"(n)::"memory");
    }
}
void *ns_memcpy(void *d, const void *s, size_t n) {
    if (exploring && n) {
        access_mem((void *) s, n, false, PC());
        access_mem(d, n, true, PC());
    }
    raw_copy(d, s, n);
    return d;
}
void *ns_memmove(void *d, const void *s, size_t n) {
    if (exploring && n) {
        access_mem((void *) s, n, false, PC());
        access_mem(d, n, true, PC());
    }
    raw_copy(d, s, n);
    return d;
}
void *ns_memset(void *d, int c, size_t n) {
    if (exploring && n) access_mem(d, n, true, PC());
    void *r = d;
    __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
    return r;
}
void ns_free(void *p) {
    if (!p) return;
    size_t n = malloc_usable_size(p);
    if (begun) memset(p, 0xDD, n);
    free(p);
}

// ------------------------------------------------------------ locks
typedef struct { int owner, count, rec, pad; } nlock_t;

static void held_add(void *m) {
    if (F[cur].nheld < 16) F[cur].held[F[cur].nheld++] = m;
    else violation("too many locks held");
}
static void held_del(void *m) {
    for (int i = F[cur].nheld - 1; i >= 0; i--)
        if (F[cur].held[i] == m) {
            memmove(&F[cur].held[i], &F[cur].held[i + 1], sizeof(void *) * (F[cur].nheld - i - 1));
            F[cur].nheld--;
            return;
        }
}
static bool lock_hot(void *m) {
    if (!exploring) return false;
    int id = lock_id(m);
    if (id < 0) return true;
    uint32_t b = 1u << cur;
    uint32_t o = S->lockfib[id];
    if (!(o & b)) {
        o = atomic_fetch_or(&S->lockfib[id], b);
        if (o && !(o & (o - 1))) S->grown++;
    }
    o |= b;
    return (o & (o - 1)) != 0;
}

static int do_lock(void *mp, bool try, void *pc) {
    nlock_t *m = mp;
    if (exploring) {
        bool foreign = m->owner && m->owner != cur + 1;
        sched_point(pc, lock_hot(mp), foreign ? 0 : (uintptr_t) mp, (uintptr_t) mp + 1, true);
        if (npend) pend_touch((uintptr_t) mp, (uintptr_t) mp + 1, true);
        iter_access((uintptr_t) mp, (uintptr_t) mp + 8, true);
    }
    while (m->owner) {
        if (m->owner < 0 || m->owner > nf) violation("lock %p is corrupt or was not initialised", mp);
        if (m->owner == cur + 1) {
            if (m->rec) { m->count++; return 0; }
            if (try) return EBUSY;
            violation("self-deadlock: thread %d locks a mutex it already holds (pc %p)", cur, pc);
        }
        if (try) return EBUSY;
        F[cur].state = F_BLOCKED;
        F[cur].wait = mp;
        iter_dirty();
        ns_block();
        F[cur].wait = NULL;
    }
    m->owner = cur + 1;
    m->count = 1;
    held_add(mp);
    return 0;
}
static int do_unlock(void *mp, void *pc) {
    nlock_t *m = mp;
    if (m->owner != cur + 1) {
        if (begun) violation("unlock of a mutex not held by the unlocking thread (pc %p, owner %d)", pc, m->owner - 1);
        m->owner = 0;
        return 0;
    }
    if (m->rec && m->count > 1) { m->count--; return 0; }
    if (exploring) {
        sched_point(pc, lock_hot(mp), (uintptr_t) mp, (uintptr_t) mp + 1, true);
        if (npend) pend_touch((uintptr_t) mp, (uintptr_t) mp + 1, true);
        iter_access((uintptr_t) mp, (uintptr_t) mp + 8, true);
    }
    m->owner = 0;
    m->count = 0;
    held_del(mp);
    for (int i = 0; i < nf; i++)
        if (F[i].state == F_BLOCKED && F[i].wait == mp) {
            F[i].state = F_READY;
            F[i].seq = ++seqno;
        }
    return 0;
}
int ns_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    memset(m, 0, sizeof *m);
    int ty = 0;
    if (a) ty = *(unsigned *) a & 3;
    ((nlock_t *) m)->rec = ty == PTHREAD_MUTEX_RECURSIVE;
    return 0;
}
int ns_pthread_mutex_lock(pthread_mutex_t *m) { return do_lock(m, false, PC()); }
int ns_pthread_mutex_trylock(pthread_mutex_t *m) { return do_lock(m, true, PC()); }
int ns_pthread_mutex_unlock(pthread_mutex_t *m) { return do_unlock(m, PC()); }
int ns_pthread_mutex_destroy(pthread_mutex_t *m) { return 0; }
// spin locks are 4 bytes: keep their state aside
static struct { void *a; nlock_t l; } spins[64];
static int nspins;
static nlock_t *spin_of(void *a) {
    for (int i = 0; i < nspins; i++)
        if (spins[i].a == a) return &spins[i].l;
    if (nspins >= 64) violation("too many spin locks");
    spins[nspins].a = a;
    return &spins[nspins++].l;
}
int ns_pthread_spin_init(pthread_spinlock_t *s, int x) { memset(spin_of((void *) s), 0, sizeof(nlock_t)); *(int *) s = 0; return 0; }
int ns_pthread_spin_lock(pthread_spinlock_t *s) { return do_lock(spin_of((void *) s), false, PC()); }
int ns_pthread_spin_trylock(pthread_spinlock_t *s) { return do_lock(spin_of((void *) s), true, PC()); }
int ns_pthread_spin_unlock(pthread_spinlock_t *s) { return do_unlock(spin_of((void *) s), PC()); }
int ns_pthread_spin_destroy(pthread_spinlock_t *s) { return 0; }
int ns_uv_mutex_init(uv_mutex_t *m) { memset(m, 0, sizeof *m); return 0; }
int ns_uv_mutex_init_recursive(uv_mutex_t *m) { memset(m, 0, sizeof *m); ((nlock_t *) m)->rec = 1; return 0; }
void ns_uv_mutex_destroy(uv_mutex_t *m) {}
void ns_uv_mutex_lock(uv_mutex_t *m) { do_lock(m, false, PC()); }
int ns_uv_mutex_trylock(uv_mutex_t *m) { return do_lock(m, true, PC()) ? UV_EBUSY : 0; }
void ns_uv_mutex_unlock(uv_mutex_t *m) { do_unlock(m, PC()); }

// ------------------------------------------------------------ threads, time
pthread_t ns_pthread_self(void) { return (pthread_t) (uintptr_t) (cur + 1); }
int ns_pthread_getattr_np(pthread_t t, pthread_attr_t *a) { memset(a, 0, sizeof *a); *(uintptr_t *) a = (uintptr_t) t; return 0; }
int ns_pthread_attr_getstack(const pthread_attr_t *a, void **addr, size_t *sz) {
    int id = (int) *(uintptr_t *) a - 1;
    *addr = (void *) F[id].lo;
    *sz = F[id].hi - F[id].lo;
    return 0;
}
int ns_pthread_attr_destroy(pthread_attr_t *a) { return 0; }
int ns_uv_thread_create(uv_thread_t *t, uv_thread_cb fn, void *arg) {
    int id = fiber_new(fn, arg);
    *(uintptr_t *) t = id + 1;
    iter_dirty();
    if (exploring) sched_point(PC(), true, 0, 0, true);
    return 0;
}
int ns_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    return ns_uv_thread_create((uv_thread_t *) t, (uv_thread_cb) (void *) fn, arg);
}
uv_thread_t ns_uv_thread_self(void) { return (uv_thread_t) (uintptr_t) (cur + 1); }
static int nkeys = 0;
int ns_uv_key_create(uv_key_t *k) { *(int *) k = ++nkeys; return 0; }
void *ns_uv_key_get(uv_key_t *k) { return F[cur].keys[*(int *) k & 31]; }
void ns_uv_key_set(uv_key_t *k, void *v) {
    if (exploring) iter_access((uintptr_t) &F[cur].keys[*(int *) k & 31], (uintptr_t) (&F[cur].keys[*(int *) k & 31] + 1), true);
    F[cur].keys[*(int *) k & 31] = v;
}
int ns_uv_cpu_info(uv_cpu_info_t **i, int *n) { *i = NULL; *n = cfg_cpus; return 0; }
void ns_uv_free_cpu_info(uv_cpu_info_t *i, int n) {}

uint64_t ns_uv_hrtime(void) { now_ns += tick_ns; return now_ns; }
int ns_clock_gettime(clockid_t c, struct timespec *ts) {
    now_ns += tick_ns;
    ts->tv_sec = now_ns / 1000000000ull;
    ts->tv_nsec = now_ns % 1000000000ull;
    return 0;
}
static void sleep_until(uint64_t t) {
    iter_end();
    F[cur].forced = false;
    F[cur].state = F_SLEEP;
    F[cur].wake = t;
    F[cur].lng = !F[cur].in_loop && t - now_ns >= 5000000;
    ns_block();
    iter_start(F[cur].forced && !cfg_noreduce);
    F[cur].forced = false;
}
int ns_usleep(useconds_t us) {
    uint64_t d = (uint64_t) us * 1000;
    if (d < 500000) d = 500000; // idle polling: coarse virtual time
    sleep_until(now_ns + d);
    return 0;
}
int ns_nanosleep(const struct timespec *a, struct timespec *b) { return ns_usleep(a->tv_sec * 1000000 + a->tv_nsec / 1000); }
int ns_sched_yield(void) {
    now_ns += 200;
    F[cur].seq = ++seqno;
    if (exploring) {
        ev++;
        if (ev > cfg_maxev) violation("no progress: more than %lu runtime steps (livelock)", cfg_maxev);
        check_limits();
    }
    int d = pick_default();
    if (d >= 0 && d != cur && F[d].state == F_READY) switch_to(d);
    return 0;
}
int ns_rand(void) { return 0; }

// ------------------------------------------------------------ event loop
typedef struct { uv_timer_t *h; uv_timer_cb cb; uint64_t due, seq; bool on; } tm_t;
typedef struct { uv_async_t *h; uv_async_cb cb; bool pend; } as_t;
static tm_t TM[64];
static as_t AS[16];
static struct { uv_handle_t *h; uv_close_cb cb; } CL[64];
static int nas, ncl;
static int loop_owner = -1;
static bool timer_due(uint64_t t) {
    int n = 0;
    for (int i = 0; i < nas; i++) if (AS[i].pend) return true;
    for (int i = 0; i < 64; i++) n += TM[i].h && TM[i].on && TM[i].due <= t;
    return n > 1 || ncl > 0;
}
static void loop_guard(const char *what) {
    if (loop_owner >= 0 && loop_owner != cur && begun)
        violation("event loop used by two threads at once (%s by thread %d while thread %d runs it)", what, cur, loop_owner);
}
int ns_uv_loop_init(uv_loop_t *l) { memset(l, 0, sizeof *l); return 0; }
static tm_t *tm_of(uv_timer_t *h, bool mk) {
    tm_t *f = NULL;
    for (int i = 0; i < 64; i++) {
        if (TM[i].h == h) return &TM[i];
        if (!TM[i].h && !f) f = &TM[i];
    }
    if (!mk) return NULL;
    if (!f) violation("too many timers");
    memset(f, 0, sizeof *f);
    f->h = h;
    return f;
}
int ns_uv_timer_init(uv_loop_t *l, uv_timer_t *h) {
    loop_guard("timer init");
    void *data = h->data;
    memset(h, 0, sizeof *h);
    h->data = data;
    h->loop = l;
    tm_of(h, true)->on = false;
    return 0;
}
static uint64_t tmseq;
int ns_uv_timer_start(uv_timer_t *h, uv_timer_cb cb, uint64_t ms, uint64_t rpt) {
    loop_guard("timer start");
    tm_t *t = tm_of(h, true);
    t->cb = cb;
    t->due = now_ns + ms * 1000000ull;
    t->seq = ++tmseq;
    t->on = true;
    return 0;
}
int ns_uv_timer_stop(uv_timer_t *h) {
    loop_guard("timer stop");
    tm_t *t = tm_of(h, false);
    if (t) t->on = false;
    return 0;
}
void ns_uv_close(uv_handle_t *h, uv_close_cb cb) {
    loop_guard("close");
    tm_t *t = tm_of((uv_timer_t *) h, false);
    if (t) { t->on = false; t->h = NULL; }
    if (ncl < 64) { CL[ncl].h = h; CL[ncl++].cb = cb; }
    iter_dirty();
}
int ns_uv_async_init(uv_loop_t *l, uv_async_t *h, uv_async_cb cb) {
    loop_guard("async init");
    h->loop = l;
    AS[nas].h = h;
    AS[nas].pend = false;
    AS[nas++].cb = cb;
    return 0;
}
int ns_uv_async_send(uv_async_t *h) {
    if (exploring) {
        sched_point(PC(), true, (uintptr_t) AS, (uintptr_t) AS + 1, true);
        if (npend) pend_touch((uintptr_t) AS, (uintptr_t) AS + 1, true);
    }
    iter_dirty();
    wr_invalidate();
    for (int i = 0; i < nas; i++)
        if (AS[i].h == h) AS[i].pend = true;
    for (int i = 0; i < nf; i++)
        if (F[i].state == F_SLEEP && F[i].in_loop) {
            F[i].state = F_READY;
            F[i].seq = ++seqno;
        }
    return 0;
}
void ns_uv_stop(uv_loop_t *l) {}
int ns_uv_run(uv_loop_t *l, uv_run_mode mode) {
    if (loop_owner >= 0 && loop_owner != cur) loop_guard("run");
    loop_owner = cur;
    if (npend) pend_touch((uintptr_t) AS, (uintptr_t) AS + 1, true);
    if (mode != UV_RUN_NOWAIT) {
        bool pend = ncl > 0;
        for (int i = 0; i < nas; i++) pend |= AS[i].pend;
        if (!pend) {
            uint64_t due = now_ns + 1000000000ull;
            for (int i = 0; i < 64; i++)
                if (TM[i].h && TM[i].on && TM[i].due < due) due = TM[i].due;
            if (due > now_ns) {
                F[cur].in_loop = true;
                sleep_until(due);
                F[cur].in_loop = false;
            }
        }
    } else if (exploring)
        sched_point(PC(), true, (uintptr_t) AS, (uintptr_t) AS + 1, true);
    if (npend) pend_touch((uintptr_t) AS, (uintptr_t) AS + 1, true);
    for (int i = 0; i < nas; i++)
        if (AS[i].pend) {
            AS[i].pend = false;
            iter_dirty();
            AS[i].cb(AS[i].h);
        }
    while (ncl > 0) {
        uv_handle_t *h = CL[0].h;
        uv_close_cb cb = CL[0].cb;
        memmove(CL, CL + 1, sizeof(CL[0]) * --ncl);
        if (cb) cb(h);
    }
    uint64_t limit = now_ns;
    while (1) {
        tm_t *b = NULL;
        for (int i = 0; i < 64; i++)
            if (TM[i].h && TM[i].on && TM[i].due <= limit && (!b || TM[i].due < b->due || (TM[i].due == b->due && TM[i].seq < b->seq))) b = &TM[i];
        if (!b) break;
        b->on = false;
        b->cb(b->h);
    }
    loop_owner = -1;
    return 1;
}

// ------------------------------------------------------------ process level
void ns___assert_fail(const char *e, const char *f, int l, const char *fn) {
    violation("assertion failed: %s (%s:%d %s)", e, f, l, fn);
}
void ns_abort(void) { violation("abort called"); }
void ns_exit(int c) {
    if (begun) {
        if (cfg_hang) { hung = c ? 2 : 3; exploring = false; leaf_end(); }
        if (c) violation("process exits with %d: %s", c, lastout);
        leaf_end();
    }
    exit(c);
}
ssize_t ns_write(int fd, const void *b, size_t n) {
    if ((fd == 1 || fd == 2) && begun) {
        size_t k = n < 255 ? n : 255;
        memcpy(lastout, b, k);
        lastout[k] = 0;
        if (nreplay < 0) return n;
    }
    return write(fd, b, n);
}
int ns_sigaction(int s, const struct sigaction *a, struct sigaction *o) { return 0; }
static void on_crash(int s, siginfo_t *si, void *u) {
    ucontext_t *uc = u;
    if (s == SIGPROF) violation("no progress: thread %d computes forever at pc=%p", cur, (void *) uc->uc_mcontext.gregs[16]);
    violation("signal %d in thread %d at pc=%p addr=%p", s, cur, (void *) uc->uc_mcontext.gregs[16], si->si_addr);
}
static char altstk[65536];

#ifdef NS_HOOK
// safepoint of generated code: always takes the slow path, which the build
// redirects here; the real handler runs only when the runtime asked for it
__attribute__((aligned(128))) uint64_t global_safepoint[16] = {1};
extern uint64_t natsim_safepoint[16];
void natsim_safepoint_hook(void *pc) { if (exploring) sched_point(pc, cfg_gc > 0, 0, 0, true); }
#define STR_(x) #x
#define STR(x) STR_(x)
__asm__(
        ".text\n.globl natsim_preempt\nnatsim_preempt:\n"
        "mov (%rsp),%rdi\nsub $8,%rsp\ncall natsim_safepoint_hook\nadd $8,%rsp\n"
        "mov natsim_safepoint(%rip),%rax\ntest %rax,%rax\njz 1f\njmp " STR(NS_PREEMPT) "\n1: ret\n");
#endif

static long envn(const char *k, long d) { char *v = getenv(k); return v && *v ? atol(v) : d; }

__attribute__((constructor)) static void ns_init(void) {
    int pers = personality(0xffffffff);
    if (!(pers & ADDR_NO_RANDOMIZE) && !getenv("NATSIM_NOREEXEC")) {
        personality(pers | ADDR_NO_RANDOMIZE);
        setenv("NATSIM_NOREEXEC", "1", 1);
        char exe[512];
        ssize_t n = readlink("/proc/self/exe", exe, 511);
        if (n > 0) {
            exe[n] = 0;
            char *av[] = {exe, NULL};
            extern char **environ;
            execve(exe, av, environ);
        }
    }
    have_fsgsbase = (getauxval(AT_HWCAP2) & 2) != 0;
    cfg_cpus = envn("NATSIM_CPUS", 2);
    cfg_bound = envn("NATSIM_BOUND", 2);
    cfg_jobs = envn("NATSIM_JOBS", 8);
    cfg_gc = envn("NATSIM_GC", 0);
    cfg_verbose = envn("NATSIM_VERBOSE", 0);
    cfg_hang = envn("NATSIM_HANG", 0);
    cfg_maxev = envn("NATSIM_MAXEV", cfg_maxev);
    cfg_noreduce = envn("NATSIM_NOREDUCE", 0);
    cfg_maxpass = envn("NATSIM_MAXPASS", 4);
    cfg_limit_ms = envn("NATSIM_LIMIT_MS", 400);
    policy = envn("NATSIM_POLICY", 0);
    if (policy < 0) { policy = 0; reverse_pick = true; }
    tick_ns = envn("NATSIM_TICK", 50);
    char *r = getenv("NATSIM_REPLAY");
    if (r) {
        nreplay = 0;
        while (*r && nreplay < MAXDEV) {
            rep[nreplay].ev = strtoull(r, &r, 10);
            if (*r == ':') r++;
            rep[nreplay].to = strtol(r, &r, 10);
            if (*r == ',') r++;
            nreplay++;
        }
    }
    S = mmap(NULL, sizeof(shm_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    F[0].state = F_READY;
    F[0].fs = get_fs();
    pthread_attr_t a;
    void *lo;
    size_t sz;
    uintptr_t sp = (uintptr_t) &a;
    F[0].hi = (sp + 65536) & ~4095ull;
    F[0].lo = F[0].hi - (4 << 20);
    (void) lo; (void) sz;
    stack_t ss = {.ss_sp = altstk, .ss_size = sizeof altstk};
    sigaltstack(&ss, NULL);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_crash;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    int sig[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGPROF};
    for (int i = 0; i < 6; i++) sigaction(sig[i], &sa, NULL);
}

static void run_pass(int bound) {
    S->leaves = S->reduced = S->pruned = S->points = S->switches = S->events = S->forks = S->maxev = S->hotpoints = S->truncated = 0;
    S->grown = 0;
    S->slots = cfg_jobs - 1;
    pid_t p = fork();
    if (p == 0) {
        arm_watchdog();
        budget = bound;
        exploring = true;
        i_hold_slot = false;
        return; // child continues into the scenario
    }
    while (waitpid(p, NULL, 0) < 0 && errno == EINTR) {}
}

// ------------------------------------------------------------ scenario API
void natsim_begin(void) {
    if (begun) return;
    begun = true;
    begin_ns = now_ns;
    ev = nswitch = 0;
    memset(IT, 0, sizeof IT);
    nvalid = 0;
    if (nreplay >= 0) { exploring = true; return; }
    fflush(stdout);
    pid_t root = getpid();
    int pass = 0;
    for (int b = 0;; pass++) {
        run_pass(b);
        if (getpid() != root) return;
        if (S->nviol) break;
        if (b < cfg_bound) { b++; continue; }
        if (cfg_bound == 0 || S->grown == 0 || pass >= cfg_maxpass + cfg_bound) break;
    }
    printf("NATSIM bound=%d leaves=%lu pruned=%lu reduced=%lu points=%lu hot=%lu switches=%lu events=%lu maxev=%lu outcomes=%lu passes=%d unstable=%lu truncated=%lu viol=%d\n",
           cfg_bound, S->leaves, S->pruned, S->reduced, S->points, S->hotpoints, S->switches, S->events, S->maxev, S->nout, pass + 1, S->grown, S->truncated, S->nviol);
    if (getenv("NATSIM_HIST"))
        for (int i = 0; i < OUTMAX; i++)
            if (S->outs[i].h) {
                out_t *o = &S->outs[i];
                printf("H %d ", o->hang);
                for (int k = 0; k < o->ndev; k++) printf("%s%lu:%d", k ? "," : "", o->dev[k].ev, o->dev[k].to);
                printf("%s", o->ndev ? "" : "-");
                for (int k = 0; k < o->nhist; k++) printf(" %d%c%d", o->hist[k].op, o->hist[k].end ? 'e' : 'b', o->hist[k].res);
                printf("\n");
            }
    for (int i = 0; i < S->nviol && i < 8; i++) {
        printf("NATSIM-VIOLATION %s\n  schedule=", S->viol[i].msg);
        for (int k = 0; k < S->viol[i].n; k++) printf("%s%lu:%d", k ? "," : "", S->viol[i].ev[k], S->viol[i].to[k]);
        printf("\n");
    }
    fflush(stdout);
    _exit(S->nviol ? 9 : 0);
}
void natsim_end(void) { exploring = false; leaf_end(); }
void natsim_fail(int64_t code) { violation("scenario check %ld failed", code); }
void natsim_gc(void) {}
// the current thread does not run for a while
void natsim_pause(int64_t us) {
    if (!exploring) return;
    F[cur].wake = now_ns + us * 1000;
    F[cur].state = F_SLEEP;
    ns_block();
}
// debugging aid
extern __attribute__((weak)) int gc_stage;
void natsim_trace(int64_t v) {
    if (!cfg_verbose) return;
    printf("TRACE %ld us thread %d stage %d: %ld\n", (long) ((now_ns - begin_ns) / 1000), cur, &gc_stage ? gc_stage : -1, (long) v);
    fflush(stdout);
}
// no further alternatives are explored in this execution
void natsim_quiet(void) { quiet = true; }
void natsim_note(int64_t v) { if (nnotes < LOGMAX) notes[nnotes++] = v; }
int64_t natsim_now(void) { return (int64_t) now_ns; }
void natsim_point(void) { if (exploring) sched_point(PC(), true, 0, 0, true); }

// Program given as numbers: NATSIM_ARGS="a0,a1,..." and
// NATSIM_PROG="place:op.a.v.b.w.d op.a.v.b.w.d;place:..."
static int64_t args[32];
static struct { int n, place; int64_t f[24][6]; } prog[8];
static int nprog = 0, ndone = 0;
static bool prog_ready = false;
static void prog_load(void) {
    prog_ready = true;
    char *s = getenv("NATSIM_ARGS");
    for (int i = 0; s && *s && i < 32; i++) {
        args[i] = strtol(s, &s, 10);
        if (*s == ',') s++;
    }
    s = getenv("NATSIM_PROG");
    while (s && *s && nprog < 8) {
        prog[nprog].place = strtol(s, &s, 10);
        if (*s == ':') s++;
        while (*s && *s != ';') {
            int64_t *f = prog[nprog].f[prog[nprog].n++];
            for (int j = 0; j < 6; j++) {
                f[j] = strtol(s, &s, 10);
                if (*s != '.') break;
                s++;
            }
            while (*s == ' ') s++;
        }
        if (*s == ';') s++;
        nprog++;
    }
}
int64_t natsim_arg(int64_t i) {
    if (!prog_ready) prog_load();
    return i >= 0 && i < 32 ? args[i] : 0;
}
int64_t natsim_op(int64_t id, int64_t k, int64_t f) {
    if (!prog_ready) prog_load();
    if (id < 0 || id >= nprog) return 0;
    if (k < 0) return f == 0 ? prog[id].n : prog[id].place;
    return prog[id].f[k][f];
}
static char hist_clock[8];
void natsim_hb(int64_t id, int64_t k) {
    access_mem(hist_clock, 1, false, PC());
    if (nhist < HISTMAX) { hist[nhist].op = id * 32 + k; hist[nhist].end = 0; hist[nhist++].res = 0; }
}
void natsim_he(int64_t id, int64_t k, int64_t r) {
    access_mem(hist_clock, 1, true, PC());
    if (nhist < HISTMAX) { hist[nhist].op = id * 32 + k; hist[nhist].end = 1; { long o_ = natsim_op(id, k, 0); hist[nhist].fix = o_ >= 40 || o_ == 31; } hist[nhist++].res = r; }
}
void natsim_worker_done(void) {
    if (!prog_ready) prog_load();
    if (++ndone == nprog && args[3] != 2) natsim_end();
}
int64_t natsim_now_us(void) { return (int64_t) (now_ns / 1000); }
