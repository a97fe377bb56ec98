// A simulated OpenMP runtime and memory-access seam for the CPU kernels.
//
// The kernels are compiled with -fopenmp -fsanitize=thread; the calls the compiler inserts for memory accesses (__tsan_*)
// and for the OpenMP runtime (GOMP_*, omp_*, renamed to sim_GOMP_*, sim_omp_* in the object files) end up here.
// Every simulated thread is a real OS thread (so thread-local storage is real), but exactly one of them runs at a time;
// at every memory access the scheduler may hand over to another one. All choices come from one seeded generator, or from
// a recorded schedule. Within a parallel region every access is also checked against the happens-before order of the
// region (barriers, critical sections, locks, atomics): two accesses of different threads to one byte, one of them a
// write, that nothing orders are a data race.
#include <atomic>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <malloc.h>
#include <map>
#include <mutex>
#include <pthread.h>
#include <semaphore.h>
#include <string>
#include <unistd.h>
#include <vector>

extern "C" int PyGILState_Check(void) __attribute__((weak));

namespace {

struct Team;
struct Loop;

constexpr int MAXT = 64;

struct VC {
    uint32_t c[MAXT] = {};
    void join(const VC &o)
    {
        for (int i = 0; i < MAXT; i++)
            if (o.c[i] > c[i]) c[i] = o.c[i];
    }
};

struct T {
    int id = 0;
    sem_t sem;
    bool runnable = false, waiting_lock = false, done = false;
    void *lock = nullptr;
    Team *team = nullptr;   // innermost active team
    int tnum = 0;           // number within the team
    int root = 0;           // the caller this thread works for
    pthread_t th {};
    void (*fn)(void *) = nullptr;
    void *data = nullptr;
    Team *job = nullptr;
    uint64_t loop_seq = 0, single_seq = 0, nregions = 0;
    long prio = 0;
    Team *rteam = nullptr;  // the team accesses are checked against
    int rnum = 0;
    VC vc;
};

struct Team {
    int n = 1;
    std::vector<T *> members;
    int active = 0;      // members that have not finished
    int barrier_in = 0;
    uint64_t epoch = 0;
    bool gil = false;
    std::map<uint64_t, Loop *> loops;
    std::map<uint64_t, bool> singles;
    uint64_t region = 0;
    VC bvc;                      // joined at a barrier
    std::map<void *, VC> sync;   // locks and atomics of this region
    std::vector<void *> copyp;
};

struct Loop {
    long next = 0, end = 0, incr = 1, chunk = 1;
    bool up = true, ull = false;
    int kind = 0; // 0 static, 1 dynamic, 2 guided
    int left = 0;
    std::map<int, long> spos;
};

thread_local T *self __attribute__((tls_model("initial-exec"))) = nullptr;

struct World {
    bool on = false;
    uint64_t s = 0, seed = 0;
    int style = 0, nthreads = 1, ncallers = 1;
    bool dyn = false;
    std::vector<T *> all;
    std::map<int, T *> byid;
    int entered = 0;
    T *cur = nullptr;
    long budget = 0;
    uint64_t points = 0, run_points = 0, max_points = 0, hard = 300000000, switches = 0;
    uint32_t hot = 0;
    std::vector<int64_t> trace; // pairs
    std::vector<int64_t> sched;
    size_t spos = 0;
    bool replay = false;
    long left = -1;
    uint64_t regions = 0, parallel_regions = 0, maxteam = 1;
    sem_t finished;
    int starve = -1;
    uint64_t region_id = 0, checked = 0;
    bool raced = false;
    size_t overflow = 0;
    uint64_t race[6] = {};
    uint64_t digest = 1469598103934665603ull;
} W;

uint64_t rnd()
{
    uint64_t z = (W.s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
long rint_(long n) { return n <= 1 ? 0 : (long)(rnd() % (uint64_t)n); }

void die(const char *why, int code)
{
    fprintf(stderr, "simomp: %s\n", why);
    fflush(stderr);
    _exit(code);
}

bool gil_of(T *t)
{
    if (t->team && t->team->gil) return true;
    return false;
}

T *pick(T *from, bool gil)
{
    T *en[1024];
    int n = 0;
    for (T *t : W.all)
        if (t->runnable && !t->done && (!gil || t->root == from->root) && n < 1024) en[n++] = t;
    if (n == 0) {
        bool alive = false;
        for (T *t : W.all) alive |= !t->done && t->id < 64;
        if (!alive) return nullptr;
        die("deadlock: every simulated thread waits", 77);
    }
    if (W.replay) {
        while (W.spos + 1 < W.sched.size()) {
            int id = (int)W.sched[W.spos];
            long k = W.sched[W.spos + 1];
            W.spos += 2;
            for (int i = 0; i < n; i++)
                if (en[i]->id == id) {
                    W.left = k > 0 ? k : 1l << 60;
                    return en[i];
                }
        }
        // the recorded schedule has ended: thread by thread
        W.left = -1;
        W.budget = 1000000;
        W.style = 5;
        W.hot = 0;
        W.replay = false;
        return en[0];
    }
    if (W.points > W.max_points) { // long enough: the rest runs in long slices
        W.budget = 50000;
        return en[rint_(n)];
    }
    if (W.style == 5) { // always the first one
        W.budget = 1000000;
        if (n > 1 && from == en[0]) return en[1];
        return en[0];
    }
    switch (W.style) {
    case 0: W.budget = rint_(4); break;
    case 1: {
        long a[3] = {4, 40, 2000};
        W.budget = rint_(a[rint_(3)]);
        break;
    }
    case 2: W.budget = rint_(20000); break;
    case 3: W.budget = 1000000; break; // only at hot places and when blocked
    default: W.budget = rint_(300); break;
    }
    if (W.style == 4 && n > 1) { // one thread is stalled while any other can run
        int m = 0;
        T *e2[1024];
        for (int i = 0; i < n; i++)
            if (en[i]->tnum != W.starve) e2[m++] = en[i];
        if (m) return e2[rint_(m)];
    }
    if (W.style == 3) {
        T *b = en[0];
        for (int i = 1; i < n; i++)
            if (en[i]->prio > b->prio) b = en[i];
        if (rint_(4)) return b;
    }
    return en[rint_(n)];
}

// the schedule: thread, number of points it passed before it was preempted (0: it ran until it had to stop)
void note(T *t, bool stopped)
{
    size_t n = W.trace.size();
    if (n && W.trace[n - 2] == t->id && W.trace[n - 1] > 0)
        W.trace[n - 1] = stopped ? 0 : W.trace[n - 1] + (int64_t)W.run_points;
    else {
        W.trace.push_back(t->id);
        W.trace.push_back(stopped ? 0 : (int64_t)W.run_points);
    }
    W.digest = (W.digest ^ (uint64_t)(t->id + 1)) * 1099511628211ull;
    W.digest = (W.digest ^ W.run_points) * 1099511628211ull;
    W.run_points = 0;
}

void hand(T *me, T *nx)
{
    if (nx == me) return;
    W.switches++;
    W.cur = nx;
    sem_post(&nx->sem);
    while (sem_wait(&me->sem)) {}
}

// me stays runnable (yield) or not (block)
void resched(T *me)
{
    note(me, !me->runnable);
    bool gil = gil_of(me) || (!me->team && PyGILState_Check && PyGILState_Check());
    T *nx = pick(me, gil);
    if (!nx) die("no thread to run", 78);
    if (nx != me) me->prio = (long)rint_(1000);
    hand(me, nx);
}

inline void point(void *pc)
{
    T *me = self;
    if (!me || !W.on) return;
    W.run_points++;
    if (++W.points > W.hard) die("no progress", 80);
    if (W.replay) {
        if (--W.left > 0) return;
        resched(me);
        return;
    }
    if (W.budget-- > 0) {
        if (!W.hot) return;
        // a few places of the code are chosen by the seed as places of preemption
        uint64_t h = ((uint64_t)pc & 0xfff) * 0x9E3779B97F4A7C15ull ^ W.hot;
        h ^= h >> 29;
        h *= 0xBF58476D1CE4E5B9ull;
        if ((h >> 40) % 61 || rint_(3) || W.points > W.max_points) return;
    }
    resched(me);
}

// ---- data races
struct Acc {
    uint32_t clk = 0;
    uint8_t t = 0, mask = 0, atomic = 0, used = 0;
    void *pc = nullptr;
};
struct Cell {
    uint64_t addr = 0, region = 0;
    Acc w, r[3];
};
constexpr uint64_t NCELLS = 1 << 19;
Cell *cells = nullptr;

Cell *cell(uint64_t a8) { return &cells[(a8 * 0x9E3779B97F4A7C15ull) >> 45]; }

void report(const Acc &o, bool ow, int t, bool w, void *pc, uint64_t addr)
{
    if (W.raced) return;
    W.raced = true;
    uint64_t v[] = {(uint64_t)o.pc, (uint64_t)pc, o.t, (uint64_t)t, (uint64_t)ow * 2 + w, addr};
    memcpy(W.race, v, sizeof v);
}

void check1(T *me, uint64_t a8, uint8_t mask, bool write, bool atomic, void *pc)
{
    Cell *c = cell(a8);
    Team *tm = me->rteam;
    if (c->addr != a8 || c->region != tm->region) {
        *c = Cell();
        c->addr = a8;
        c->region = tm->region;
    }
    auto bad = [&](const Acc &o) {
        return o.used && o.t != me->rnum && (o.mask & mask) && !(o.atomic && atomic) && o.clk > me->vc.c[o.t];
    };
    if (bad(c->w)) report(c->w, true, me->rnum, write, pc, a8 * 8);
    Acc n;
    n.clk = me->vc.c[me->rnum];
    n.t = (uint8_t)me->rnum;
    n.mask = mask;
    n.atomic = atomic;
    n.used = 1;
    n.pc = pc;
    if (write) {
        for (auto &o : c->r)
            if (bad(o)) report(o, false, me->rnum, true, pc, a8 * 8);
        if (c->w.used && c->w.t == n.t && c->w.clk == n.clk) n.mask |= c->w.mask;
        c->w = n;
    } else {
        int k = -1;
        for (int i = 0; i < 3; i++)
            if (c->r[i].used && c->r[i].t == n.t) k = i;
        for (int i = 0; i < 3 && k < 0; i++)
            if (!c->r[i].used) k = i;
        if (k < 0) k = (int)(n.clk % 3);
        if (c->r[k].used && c->r[k].t == n.t && c->r[k].clk == n.clk) n.mask |= c->r[k].mask;
        c->r[k] = n;
    }
    W.checked++;
}

void access(const volatile void *p, size_t n, bool write, void *pc, bool atomic = false)
{
    T *me = self;
    if (!me || !W.on || !me->rteam || me->rteam->n < 2) return;
    uint64_t a = (uint64_t)p, e = a + n;
    while (a < e) {
        uint64_t a8 = a >> 3, lo = a & 7, hi = (e >> 3) > a8 ? 8 : (e & 7);
        check1(me, a8, (uint8_t)((0xffu << lo) & (0xffu >> (8 - hi))), write, atomic, pc);
        a = (a8 + 1) << 3;
    }
}

void forget(void *p, size_t n)
{
    T *me = self;
    if (!me || !W.on || !me->rteam || !cells) return;
    uint64_t a = (uint64_t)p >> 3, e = ((uint64_t)p + n + 7) >> 3;
    if (e - a > NCELLS) return;
    for (; a < e; a++) {
        Cell *c = cell(a);
        if (c->addr == a) c->region = 0;
    }
}

void sync_acquire(T *me, void *l)
{
    if (!me || !me->rteam) return;
    auto it = me->rteam->sync.find(l);
    if (it != me->rteam->sync.end()) me->vc.join(it->second);
}
void sync_release(T *me, void *l)
{
    if (!me || !me->rteam) return;
    me->rteam->sync[l].join(me->vc);
    me->vc.c[me->rnum]++;
}

void block(T *me)
{
    me->runnable = false;
    resched(me);
}

void *worker_main(void *p)
{
    T *me = (T *)p;
    self = me;
    for (;;) {
        while (sem_wait(&me->sem)) {}
        if (!me->job) return nullptr;
        Team *tm = me->job;
        me->team = me->rteam = tm;
        me->loop_seq = me->single_seq = 0;
        me->fn(me->data);
        me->team = me->rteam = nullptr;
        me->job = nullptr;
        me->runnable = false;
        // gone for this region
        bool gil = tm->gil;
        if (--tm->active == 0) tm->members[0]->runnable = true;
        note(me, true);
        T *nx = pick(me, gil);
        W.switches++;
        W.cur = nx;
        sem_post(&nx->sem);
    }
}

T *worker(int root, int k)
{
    int id = 64 + root * 64 + k;
    auto it = W.byid.find(id);
    if (it != W.byid.end()) return it->second;
    T *t = new T;
    t->id = id;
    t->root = root;
    t->tnum = k;
    sem_init(&t->sem, 0, 0);
    W.all.push_back(t);
    W.byid[id] = t;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 8 << 20);
    if (pthread_create(&t->th, &at, worker_main, t)) die("cannot create a thread", 79);
    return t;
}

void parallel(void (*fn)(void *), void *data, unsigned want)
{
    T *me = self;
    W.regions++;
    if (!me || !W.on || me->team) { // outside of the simulation, or nested
        Team tm;
        T tmp;
        T *t = me ? me : &tmp;
        Team *sv = t->team;
        int svn = t->tnum;
        uint64_t l = t->loop_seq, s = t->single_seq;
        tm.members = {t};
        tm.active = 1;
        tm.gil = sv ? sv->gil : false;
        t->team = &tm;
        t->tnum = 0;
        t->loop_seq = t->single_seq = 0;
        if (!me) self = t;
        fn(data);
        if (!me) self = nullptr;
        t->team = sv;
        t->tnum = svn;
        t->loop_seq = l;
        t->single_seq = s;
        return;
    }
    int n = want ? (int)want : W.nthreads;
    if (n > W.nthreads && !want) n = W.nthreads;
    if (W.dyn && n > 1) { // the runtime gives fewer threads than asked for
        uint64_t h = (W.seed ^ ((uint64_t)me->id << 32) ^ ++me->nregions) * 0x9E3779B97F4A7C15ull;
        h = (h ^ (h >> 29)) * 0xBF58476D1CE4E5B9ull;
        n = 1 + (int)((h >> 33) % (uint64_t)n);
    }
    if (n > 60) n = 60;
    if (n < 1) n = 1;
    if (n > 1) W.parallel_regions++;
    if ((uint64_t)n > W.maxteam) W.maxteam = n;
    Team tm;
    tm.n = n;
    tm.region = ++W.region_id;
    tm.active = n;
    tm.gil = PyGILState_Check && PyGILState_Check();
    tm.members.push_back(me);
    for (int k = 1; k < n; k++) {
        T *t = worker(me->root, k);
        t->fn = fn;
        t->data = data;
        t->job = &tm;
        t->tnum = k;
        t->runnable = true;
        t->rnum = k;
        t->vc = VC();
        t->vc.c[k] = 1;
        tm.members.push_back(t);
    }
    me->rteam = &tm;
    me->rnum = 0;
    me->vc = VC();
    me->vc.c[0] = 1;
    W.starve = W.style == 4 ? (int)rint_(n) : -1;
    uint64_t l = me->loop_seq, s = me->single_seq;
    me->team = &tm;
    me->tnum = 0;
    me->loop_seq = me->single_seq = 0;
    point((void *)fn);
    fn(data);
    if (--tm.active != 0) block(me);
    me->runnable = true;
    me->team = me->rteam = nullptr;
    me->loop_seq = l;
    me->single_seq = s;
    for (auto &kv : tm.loops) delete kv.second;
}

void barrier()
{
    T *me = self;
    if (!me || !me->team || me->team->n == 1) return;
    Team *tm = me->team;
    tm->bvc.join(me->vc);
    if (++tm->barrier_in == tm->n) {
        tm->barrier_in = 0;
        tm->epoch++;
        for (T *t : tm->members) {
            t->runnable = true;
            t->vc = tm->bvc;
            t->vc.c[t->rnum]++;
        }
        point((void *)&barrier);
    } else {
        uint64_t e = tm->epoch;
        me->runnable = false;
        while (tm->epoch == e) resched(me);
    }
}

std::map<void *, T *> *locks()
{
    static std::map<void *, T *> m;
    return &m;
}
bool lock_try(void *l)
{
    auto &m = *locks();
    if (m.count(l) && m[l]) return false;
    m[l] = self;
    sync_acquire(self, l);
    return true;
}
void lock(void *l)
{
    if (!self) return;
    point(l);
    while (!lock_try(l)) {
        self->lock = l;
        block(self);
        self->lock = nullptr;
    }
}
void unlock(void *l)
{
    if (!self) return;
    sync_release(self, l);
    (*locks())[l] = nullptr;
    for (T *t : W.all)
        if (t->lock == l && !t->runnable) t->runnable = true;
    point(l);
}

Loop *loop_get(bool fresh)
{
    T *me = self;
    if (!me || !me->team) return nullptr;
    uint64_t k = fresh ? ++me->loop_seq : me->loop_seq;
    Loop *&l = me->team->loops[k];
    if (!l) {
        l = new Loop;
        l->left = -1;
    }
    return l;
}

bool loop_next(long *a, long *b)
{
    Loop *l = loop_get(false);
    if (!l) return false;
    T *me = self;
    point((void *)&loop_next);
    auto more = [&](long p) { return l->up ? p < l->end : p > l->end; };
    if (l->kind == 0) { // static, chunked round robin
        long total = l->up ? (l->end - l->next + l->incr - 1) / l->incr : (l->next - l->end - l->incr - 1) / -l->incr;
        if (total < 0) total = 0;
        long n = me->team->n, ch = l->chunk;
        if (!l->spos.count(me->tnum)) l->spos[me->tnum] = me->tnum;
        if (ch <= 0) {
            if (l->spos[me->tnum] != me->tnum) return false;
            l->spos[me->tnum] = -1;
            long q = total / n, r = total % n, s0 = me->tnum * q + (me->tnum < r ? me->tnum : r), c = q + (me->tnum < r);
            if (!c) return false;
            *a = l->next + s0 * l->incr;
            *b = l->next + (s0 + c) * l->incr;
            if (l->up ? *b > l->end : *b < l->end) *b = l->end;
            return true;
        }
        long blk = l->spos[me->tnum];
        long s0 = blk * ch;
        if (s0 >= total) return false;
        l->spos[me->tnum] = blk + n;
        *a = l->next + s0 * l->incr;
        long e = s0 + ch > total ? total : s0 + ch;
        *b = l->next + e * l->incr;
        if (l->up ? *b > l->end : *b < l->end) *b = l->end;
        return true;
    }
    if (!more(l->next)) return false;
    long ch = l->chunk > 0 ? l->chunk : 1;
    if (l->kind == 2) {
        long rem = (l->end - l->next) / l->incr;
        long g = rem / me->team->n;
        if (g > ch) ch = g;
    }
    *a = l->next;
    long e = l->next + ch * l->incr;
    if (l->up ? e > l->end : e < l->end) e = l->end;
    *b = e;
    l->next = e;
    return true;
}

bool loop_start(int kind, long start, long end, long incr, long chunk, long *a, long *b)
{
    Loop *l = loop_get(true);
    if (!l) return false;
    if (l->left == -1) {
        l->left = 1;
        l->kind = kind;
        l->next = start;
        l->end = end;
        l->incr = incr;
        l->chunk = chunk;
        l->up = incr > 0;
    }
    return loop_next(a, b);
}

struct PL {
    void (*fn)(void *);
    void *data;
    int kind;
    long start, end, incr, chunk;
};
void pl_run(void *p)
{
    PL *q = (PL *)p;
    Loop *l = loop_get(true);
    if (l && l->left == -1) {
        l->left = 1;
        l->kind = q->kind;
        l->next = q->start;
        l->end = q->end;
        l->incr = q->incr;
        l->chunk = q->chunk;
        l->up = q->incr > 0;
    }
    q->fn(q->data);
}
void parallel_loop(void (*fn)(void *), void *data, unsigned n, int kind, long s, long e, long i, long c)
{
    PL p {fn, data, kind, s, e, i, c};
    parallel(pl_run, &p, n);
}

int glock;

} // namespace

#define X extern "C" __attribute__((visibility("default")))
#define PC __builtin_return_address(0)

// ---- control -------------------------------------------------------------------------------------------------------
X void simctl_begin(uint64_t seed, int style, int nthreads, int dyn, int ncallers, uint64_t max_points, int hot,
                    const int64_t *sched, int64_t nsched)
{
    W.s = W.seed = seed;
    if (!cells) cells = (Cell *)calloc(NCELLS, sizeof(Cell));
    W.style = style;
    W.nthreads = nthreads;
    W.dyn = dyn;
    W.ncallers = ncallers;
    W.max_points = max_points;
    W.hot = hot ? (uint32_t)rnd() | 1 : 0;
    W.replay = sched != nullptr;
    if (sched) W.sched.assign(sched, sched + nsched);
    W.spos = 0;
    W.left = -1;
    W.points = W.run_points = W.switches = W.regions = W.parallel_regions = 0;
    W.entered = 0;
    W.trace.clear();
    for (int i = 0; i < ncallers; i++) {
        T *t = new T;
        t->id = i;
        t->root = i;
        sem_init(&t->sem, 0, 0);
        t->runnable = true;
        W.all.push_back(t);
        W.byid[i] = t;
    }
    W.on = true;
}
static std::mutex enter_mu;
X void simctl_enter(int k)
{
    T *me = W.byid[k];
    self = me;
    bool last;
    {
        std::lock_guard<std::mutex> g(enter_mu);
        last = ++W.entered == W.ncallers;
    }
    if (last) {
        T *nx = pick(me, false);
        W.cur = nx;
        sem_post(&nx->sem);
    }
    while (sem_wait(&me->sem)) {}
}
X void simctl_leave()
{
    T *me = self;
    me->done = true;
    me->runnable = false;
    self = nullptr;
    note(me, true);
    bool alive = false;
    for (T *t : W.all) alive |= t->id < 64 && !t->done;
    if (!alive) return;
    T *nx = pick(me, false);
    W.cur = nx;
    sem_post(&nx->sem);
}
namespace
{
void sweep();
}
X void simctl_end()
{
    sweep();
    W.on = false;
}
X uint64_t simctl_stat(int i)
{
    uint64_t v[] = {W.points, W.switches, W.regions, W.parallel_regions, W.maxteam, W.digest, W.checked, W.raced, W.overflow};
    return v[i];
}
// where: the other access, this access; each as offset and file name
X uint64_t simctl_race(int i) { return W.race[i]; }
X int64_t simctl_where(int i, char *buf, int64_t n)
{
    Dl_info d;
    if (!dladdr((void *)W.race[i], &d) || !d.dli_fname) return -1;
    snprintf(buf, n, "%s", d.dli_fname);
    return (int64_t)(W.race[i] - (uint64_t)d.dli_fbase);
}
X int64_t simctl_trace_len() { return (int64_t)W.trace.size(); }
X const int64_t *simctl_trace() { return W.trace.data(); }

// ---- OpenMP --------------------------------------------------------------------------------------------------------
X void sim_GOMP_parallel(void (*fn)(void *), void *d, unsigned n, unsigned) { parallel(fn, d, n); }
X unsigned sim_GOMP_parallel_reductions(void (*fn)(void *), void *d, unsigned n, unsigned)
{
    parallel(fn, d, n);
    return n;
}
X void sim_GOMP_barrier() { barrier(); }
X bool sim_GOMP_barrier_cancel()
{
    barrier();
    return false;
}
X void sim_GOMP_critical_start() { lock(&glock); }
X void sim_GOMP_critical_end() { unlock(&glock); }
X void sim_GOMP_critical_name_start(void **p) { lock(p); }
X void sim_GOMP_critical_name_end(void **p) { unlock(p); }
X void sim_GOMP_atomic_start() { lock((char *)&glock + 1); }
X void sim_GOMP_atomic_end() { unlock((char *)&glock + 1); }
X bool sim_GOMP_single_start()
{
    T *me = self;
    if (!me || !me->team) return true;
    point(PC);
    bool &taken = me->team->singles[++me->single_seq];
    if (taken) return false;
    taken = true;
    return true;
}
X void *sim_GOMP_single_copy_start()
{
    T *me = self;
    if (!me || !me->team || me->team->n == 1) return nullptr;
    point(PC);
    bool &taken = me->team->singles[++me->single_seq];
    if (!taken) {
        taken = true;
        return nullptr;
    }
    barrier();
    void *p = me->team->copyp.empty() ? nullptr : me->team->copyp.back();
    return p;
}
X void sim_GOMP_single_copy_end(void *d)
{
    T *me = self;
    if (!me || !me->team || me->team->n == 1) return;
    me->team->copyp.push_back(d);
    barrier();
}
#define LOOP(NAME, KIND)                                                                                               \
    X bool sim_GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *a, long *b)                              \
    {                                                                                                                  \
        return loop_start(KIND, s, e, i, c, a, b);                                                                     \
    }                                                                                                                  \
    X bool sim_GOMP_loop_##NAME##_next(long *a, long *b) { return loop_next(a, b); }                                   \
    X bool sim_GOMP_loop_ull_##NAME##_start(bool up, uint64_t s, uint64_t e, uint64_t i, uint64_t c, uint64_t *a,      \
                                            uint64_t *b)                                                               \
    {                                                                                                                  \
        (void)up;                                                                                                      \
        return loop_start(KIND, (long)s, (long)e, (long)i, (long)c, (long *)a, (long *)b);                             \
    }                                                                                                                  \
    X bool sim_GOMP_loop_ull_##NAME##_next(uint64_t *a, uint64_t *b) { return loop_next((long *)a, (long *)b); }       \
    X void sim_GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c,      \
                                         unsigned)                                                                     \
    {                                                                                                                  \
        parallel_loop(fn, d, n, KIND, s, e, i, c);                                                                     \
    }
LOOP(static, 0)
LOOP(dynamic, 1)
LOOP(guided, 2)
LOOP(nonmonotonic_dynamic, 1)
LOOP(nonmonotonic_guided, 2)
#define RLOOP(NAME)                                                                                                    \
    X bool sim_GOMP_loop_##NAME##_start(long s, long e, long i, long *a, long *b)                                      \
    {                                                                                                                  \
        return loop_start(1, s, e, i, 1, a, b);                                                                        \
    }                                                                                                                  \
    X bool sim_GOMP_loop_##NAME##_next(long *a, long *b) { return loop_next(a, b); }                                   \
    X void sim_GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned)    \
    {                                                                                                                  \
        parallel_loop(fn, d, n, 1, s, e, i, 1);                                                                        \
    }
RLOOP(runtime)
RLOOP(nonmonotonic_runtime)
RLOOP(maybe_nonmonotonic_runtime)
X void sim_GOMP_loop_end() { barrier(); }
X bool sim_GOMP_loop_end_cancel()
{
    barrier();
    return false;
}
X void sim_GOMP_loop_end_nowait() {}
X unsigned sim_GOMP_sections_start(unsigned n)
{
    long a, b;
    return loop_start(1, 1, (long)n + 1, 1, 1, &a, &b) ? (unsigned)a : 0;
}
X unsigned sim_GOMP_sections_next()
{
    long a, b;
    return loop_next(&a, &b) ? (unsigned)a : 0;
}
X void sim_GOMP_sections_end() { barrier(); }
X void sim_GOMP_sections_end_nowait() {}
X void sim_GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned cnt, unsigned)
{
    parallel_loop(fn, d, n, 1, 1, (long)cnt + 1, 1, 1);
}
X void sim_GOMP_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long arg_size, long arg_align, bool, unsigned,
                     void **, int, void *)
{
    if (cpyfn) {
        std::vector<char> buf(arg_size + arg_align - 1);
        char *arg = (char *)(((uintptr_t)buf.data() + arg_align - 1) & ~(uintptr_t)(arg_align - 1));
        cpyfn(arg, data);
        fn(arg);
    } else
        fn(data);
}
template <class T>
static void taskloop(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long arg_size, long arg_align, T start, T end)
{
    if (start == end) return;
    ((T *)data)[0] = start;
    ((T *)data)[1] = end;
    std::vector<char> buf(arg_size + arg_align - 1);
    char *arg = (char *)(((uintptr_t)buf.data() + arg_align - 1) & ~(uintptr_t)(arg_align - 1));
    if (cpyfn)
        cpyfn(arg, data);
    else
        memcpy(arg, data, arg_size);
    ((T *)arg)[0] = start;
    ((T *)arg)[1] = end;
    fn(arg);
}
X void sim_GOMP_taskloop(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long arg_size, long arg_align, unsigned,
                         unsigned long, int, long start, long end, long)
{
    taskloop<long>(fn, data, cpyfn, arg_size, arg_align, start, end);
}
X void sim_GOMP_taskloop_ull(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long arg_size, long arg_align, unsigned,
                             unsigned long, int, uint64_t start, uint64_t end, uint64_t)
{
    taskloop<uint64_t>(fn, data, cpyfn, arg_size, arg_align, start, end);
}
X void sim_GOMP_taskwait() {}
X void sim_GOMP_taskyield() { point(PC); }
X void sim_GOMP_taskgroup_start() {}
X void sim_GOMP_taskgroup_end() {}
X int sim_omp_get_thread_num() { return self && self->team ? self->tnum : 0; }
X int sim_omp_get_num_threads() { return self && self->team ? self->team->n : 1; }
X int sim_omp_get_max_threads() { return W.on ? W.nthreads : 1; }
X int sim_omp_get_num_procs()
{
    if (!W.on) return 1;
    uint64_t h = (W.seed ^ 0x70726f63) * 0x9E3779B97F4A7C15ull; // the machine may have fewer processors than threads, or more
    h = (h ^ (h >> 29)) * 0xBF58476D1CE4E5B9ull;
    return (h >> 20) & 1 ? W.nthreads : 1 + (int)((h >> 33) % 16);
}
X int sim_omp_in_parallel() { return self && self->team && self->team->n > 1; }
X int sim_omp_get_level() { return self && self->team ? 1 : 0; }
X void sim_omp_set_num_threads(int) {}
X int sim_omp_get_max_active_levels() { return 1; }
X void sim_omp_set_max_active_levels(int) {}
X int sim_omp_get_active_level() { return sim_omp_in_parallel(); }
X int sim_omp_get_nested() { return 0; }
X void sim_omp_set_nested(int) {}
X int sim_omp_get_thread_limit() { return 1 << 20; }
X int sim_omp_get_cancellation() { return 0; }
X double sim_omp_get_wtick() { return 1e-8; }
X int sim_omp_get_dynamic() { return 0; }
X void sim_omp_set_dynamic(int) {}
X double sim_omp_get_wtime() { return (double)W.points * 1e-8; }
X void sim_omp_init_lock(void *) {}
X void sim_omp_destroy_lock(void *) {}
X void sim_omp_set_lock(void *l) { lock(l); }
X void sim_omp_unset_lock(void *l) { unlock(l); }
X int sim_omp_test_lock(void *l) { return !self || lock_try(l); }

// ---- memory accesses -----------------------------------------------------------------------------------------------
// ---- what the kernels use of the C and C++ libraries that can block, allocate or touch memory
X int sim___cxa_guard_acquire(uint64_t *g)
{
    if (*(volatile char *)g) {
        sync_acquire(self, g);
        return 0;
    }
    if (self) lock(g);
    if (*(volatile char *)g) {
        if (self) unlock(g);
        return 0;
    }
    return 1;
}
X void sim___cxa_guard_release(uint64_t *g)
{
    *(volatile char *)g = 1;
    if (self) unlock(g);
}
X void sim___cxa_guard_abort(uint64_t *g)
{
    if (self) unlock(g);
}
X int sim_pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!self || !W.on) return pthread_mutex_lock(m);
    lock(m);
    return 0;
}
X int sim_pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (!self || !W.on) return pthread_mutex_unlock(m);
    unlock(m);
    return 0;
}
X int sim_pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (!self || !W.on) return pthread_mutex_trylock(m);
    return lock_try(m) ? 0 : 16;
}
X int sim_pthread_once(pthread_once_t *o, void (*f)(void))
{
    if (!self || !W.on) return pthread_once(o, f);
    lock(o);
    int r = pthread_once(o, f);
    unlock(o);
    return r;
}
X void *sim_memset(void *d, int c, size_t n)
{
    point(PC);
    access(d, n, true, PC);
    return memset(d, c, n);
}
X void *sim_memcpy(void *d, const void *s, size_t n)
{
    point(PC);
    access(s, n, false, PC);
    access(d, n, true, PC);
    return memcpy(d, s, n);
}
X void *sim_memmove(void *d, const void *s, size_t n)
{
    point(PC);
    access(s, n, false, PC);
    access(d, n, true, PC);
    return memmove(d, s, n);
}
// preloaded: memory that is given back carries no history; blocks allocated by simulated threads end in a red zone
extern "C" void __libc_free(void *);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void *__libc_malloc(size_t);
extern "C" void *__libc_memalign(size_t, size_t);
namespace
{
constexpr size_t RZ = 64;
struct Blk {
    void *p;
    size_t n;
};
Blk blks[1 << 16];
std::atomic_flag blk_mu = ATOMIC_FLAG_INIT;
struct BlkLock {
    BlkLock()
    {
        while (blk_mu.test_and_set(std::memory_order_acquire)) {}
    }
    ~BlkLock() { blk_mu.clear(std::memory_order_release); }
};
Blk *blk(void *p) { return &blks[((uint64_t)p * 0x9E3779B97F4A7C15ull) >> 48]; }
void blk_check(Blk *b)
{
    const unsigned char *q = (const unsigned char *)b->p + b->n;
    for (size_t i = 0; i < RZ; i++)
        if (q[i] != 0xA7) {
            if (!W.overflow) W.overflow = b->n + 1;
            return;
        }
}
void *guard(void *p, size_t n)
{
    if (!p) return p;
    memset((char *)p + n, 0xA7, RZ);
    BlkLock l;
    *blk(p) = Blk {p, n};
    return p;
}
void unguard(void *p)
{
    if (!W.on) return;
    BlkLock l;
    Blk *b = blk(p);
    if (b->p != p) return;
    blk_check(b);
    b->p = nullptr;
}
void sweep()
{
    BlkLock l;
    for (Blk &b : blks)
        if (b.p) {
            blk_check(&b);
            b.p = nullptr;
        }
}
inline bool guarded(size_t n) { return self && W.on && n < (1ul << 40); }
} // namespace
X void *malloc(size_t n)
{
    return guarded(n) ? guard(__libc_malloc(n + RZ), n) : __libc_malloc(n);
}
X int posix_memalign(void **out, size_t al, size_t n)
{
    if (!al || al & (al - 1) || al % sizeof(void *)) return 22;
    void *p = guarded(n) ? guard(__libc_memalign(al, n + RZ), n) : __libc_memalign(al, n);
    if (!p) return 12;
    *out = p;
    return 0;
}
X void free(void *p)
{
    if (p) {
        unguard(p);
        if (self) forget(p, malloc_usable_size(p));
    }
    __libc_free(p);
}
X void *realloc(void *p, size_t n)
{
    if (p) {
        unguard(p);
        if (self) forget(p, malloc_usable_size(p));
    }
    return __libc_realloc(p, n);
}

X void __tsan_init() {}
X void __tsan_func_entry(void *) {}
X void __tsan_func_exit() {}
#define ACC(N)                                                                                                         \
    X void __tsan_read##N(void *p)                                                                                     \
    {                                                                                                                  \
        point(PC);                                                                                                     \
        access(p, N, false, PC);                                                                                       \
    }                                                                                                                  \
    X void __tsan_write##N(void *p)                                                                                    \
    {                                                                                                                  \
        point(PC);                                                                                                     \
        access(p, N, true, PC);                                                                                        \
    }                                                                                                                  \
    X void __tsan_unaligned_read##N(void *p)                                                                           \
    {                                                                                                                  \
        point(PC);                                                                                                     \
        access(p, N, false, PC);                                                                                       \
    }                                                                                                                  \
    X void __tsan_unaligned_write##N(void *p)                                                                          \
    {                                                                                                                  \
        point(PC);                                                                                                     \
        access(p, N, true, PC);                                                                                        \
    }                                                                                                                  \
    X void __tsan_volatile_read##N(void *p)                                                                            \
    {                                                                                                                  \
        point(PC);                                                                                                     \
        access(p, N, false, PC);                                                                                       \
    }                                                                                                                  \
    X void __tsan_volatile_write##N(void *p)                                                                           \
    {                                                                                                                  \
        point(PC);                                                                                                     \
        access(p, N, true, PC);                                                                                        \
    }                                                                                                                 
ACC(1)
ACC(2)
ACC(4)
ACC(8)
ACC(16)
X void __tsan_read_range(void *p, unsigned long n)
{
    point(PC);
    access(p, n, false, PC);
}
X void __tsan_write_range(void *p, unsigned long n)
{
    point(PC);
    access(p, n, true, PC);
}
X void __tsan_vptr_update(void **, void *) {}
X void __tsan_vptr_read(void **) {}
static void at(const volatile void *a, size_t n, void *pc, bool write = true)
{
    point(pc);
    sync_acquire(self, (void *)a);
    access(a, n, write, pc, true);
    sync_release(self, (void *)a);
}
#define ATOM(B, TY)                                                                                                    \
    X TY __tsan_atomic##B##_load(const volatile TY *a, int)                                                            \
    {                                                                                                                  \
        at(a, sizeof(TY), PC, false);                                                                                                     \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                   \
    }                                                                                                                  \
    X void __tsan_atomic##B##_store(volatile TY *a, TY v, int)                                                         \
    {                                                                                                                  \
        at(a, sizeof(TY), PC);                                                                                                     \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                      \
    }                                                                                                                  \
    X TY __tsan_atomic##B##_exchange(volatile TY *a, TY v, int)                                                        \
    {                                                                                                                  \
        at(a, sizeof(TY), PC);                                                                                                     \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                  \
    X TY __tsan_atomic##B##_fetch_add(volatile TY *a, TY v, int)                                                       \
    {                                                                                                                  \
        at(a, sizeof(TY), PC);                                                                                                     \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    X TY __tsan_atomic##B##_fetch_sub(volatile TY *a, TY v, int)                                                       \
    {                                                                                                                  \
        at(a, sizeof(TY), PC);                                                                                                     \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    X TY __tsan_atomic##B##_fetch_and(volatile TY *a, TY v, int)                                                       \
    {                                                                                                                  \
        at(a, sizeof(TY), PC);                                                                                                     \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    X TY __tsan_atomic##B##_fetch_or(volatile TY *a, TY v, int)                                                        \
    {                                                                                                                  \
        at(a, sizeof(TY), PC);                                                                                                     \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                              \
    }                                                                                                                  \
    X TY __tsan_atomic##B##_fetch_xor(volatile TY *a, TY v, int)                                                       \
    {                                                                                                                  \
        at(a, sizeof(TY), PC);                                                                                                     \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    X bool __tsan_atomic##B##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int, int)                           \
    {                                                                                                                  \
        at(a, sizeof(TY), PC);                                                                                                     \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
    }                                                                                                                  \
    X bool __tsan_atomic##B##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int, int)                             \
    {                                                                                                                  \
        at(a, sizeof(TY), PC);                                                                                                     \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
    }                                                                                                                  \
    X TY __tsan_atomic##B##_compare_exchange_val(volatile TY *a, TY c, TY v, int, int)                                 \
    {                                                                                                                  \
        at(a, sizeof(TY), PC);                                                                                                     \
        __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                              \
        return c;                                                                                                      \
    }
ATOM(8, uint8_t)
ATOM(16, uint16_t)
ATOM(32, uint32_t)
ATOM(64, uint64_t)
X void __tsan_atomic_thread_fence(int) {}
X void __tsan_atomic_signal_fence(int) {}
