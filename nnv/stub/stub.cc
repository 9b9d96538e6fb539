// Stand-in for the StarPU runtime: tasks are queued at submission and executed later, in a random
// order that respects the declared data accesses.  Buffers declared write-only are poisoned before
// the task runs, buffers declared read-only must not change, writes around a buffer are detected.
#include <starpu.h>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <random>
#include <algorithm>
#include <set>
#include <map>
#include <stdexcept>

static const size_t G = 64;                     // guard bytes
static std::mt19937_64 rng(1);
static std::string errors;
static void err(const std::string &s) { if(errors.size() < 2000) { errors += s; errors += "; "; } }

struct Buf
{
    char *base; char *p; size_t size; bool own;
    Buf(size_t n): size(n), own(true)
    {
        base = (char *)malloc(n + 2 * G);
        memset(base, 0xA5, n + 2 * G);
        p = base + G;
        memset(p, 0xFF, n);
    }
    Buf(void *q, size_t n): base(nullptr), p((char *)q), size(n), own(false) {}
    ~Buf() { if(own) free(base); }
    bool guard() const
    {
        if(!own) return true;
        for(size_t i = 0; i < G; ++i) if(base[i] != (char)0xA5 || p[size + i] != (char)0xA5) return false;
        return true;
    }
};

struct _starpu_data_state
{
    Buf *buf; starpu_codelet *redux = nullptr, *init = nullptr;
    std::vector<Buf *> priv;                    // private copies of an unfinished reduction
    bool dead = false; int id;
    int lastacc = 0;
};

struct Acc { starpu_data_handle_t h; unsigned mode; };
struct Task { starpu_codelet *cl; std::vector<Acc> acc; void *args; bool ownargs; size_t argsize; bool cpy; };

static std::vector<Task> pending;
static std::vector<starpu_data_handle_t> all;
static long submitted = 0, executed = 0, waits = 0;
static std::vector<std::string> names;
static int nextid = 0;

static unsigned base_mode(unsigned m) { return m & (STARPU_RW | STARPU_SCRATCH | STARPU_REDUX); }

static bool conflict(const Acc &a, const Acc &b)
{
    if(a.h != b.h) return false;
    unsigned ma = base_mode(a.mode), mb = base_mode(b.mode);
    if(ma & STARPU_SCRATCH || mb & STARPU_SCRATCH) return false;
    if(ma == STARPU_R && mb == STARPU_R) return false;
    if(ma & STARPU_REDUX && mb & STARPU_REDUX) return false;
    if(ma == STARPU_RW && mb == STARPU_RW && (a.mode & STARPU_COMMUTE) && (b.mode & STARPU_COMMUTE)) return false;
    return true;
}

static void call(starpu_codelet *cl, std::vector<Buf *> bufs, void *args)
{
    std::vector<starpu_variable_interface> v(bufs.size() + 1);
    std::vector<void *> ptr(bufs.size() + 1);
    for(size_t i = 0; i < bufs.size(); ++i)
    {
        memset(&v[i], 0, sizeof(v[i]));
        v[i].ptr = (uintptr_t)bufs[i]->p; v[i].elemsize = bufs[i]->size; v[i].dev_handle = v[i].ptr;
        ptr[i] = &v[i];
    }
    if(!cl->cpu_funcs[0]) { err(std::string("codelet without CPU function: ") + (cl->name ? cl->name : "?")); return; }
    cl->cpu_funcs[0](ptr.data(), args);
}

static void flush_redux(starpu_data_handle_t h)
{
    std::shuffle(h->priv.begin(), h->priv.end(), rng);
    for(Buf *b : h->priv)
    {
        call(h->redux, {h->buf, b}, nullptr);
        delete b;
    }
    h->priv.clear();
}

static void run(Task &t)
{
    ++executed;
    std::vector<Buf *> bufs, tmp;
    std::vector<std::string> snap(t.acc.size());
    for(size_t i = 0; i < t.acc.size(); ++i)
    {
        Acc &a = t.acc[i];
        unsigned m = base_mode(a.mode);
        if(m & STARPU_SCRATCH) { Buf *b = new Buf(a.h->buf->size); tmp.push_back(b); bufs.push_back(b); continue; }
        if(m & STARPU_REDUX)
        {
            if(!a.h->redux || !a.h->init) { err("STARPU_REDUX on a handle without reduction methods"); bufs.push_back(a.h->buf); continue; }
            Buf *b;
            if(!a.h->priv.empty() && rng() % 3 == 0) b = a.h->priv[rng() % a.h->priv.size()];
            else { b = new Buf(a.h->buf->size); call(a.h->init, {b}, nullptr); a.h->priv.push_back(b); }
            bufs.push_back(b); continue;
        }
        if(!a.h->priv.empty()) flush_redux(a.h);
        if(m == STARPU_W) memset(a.h->buf->p, 0xFF, a.h->buf->size);
        if(m == STARPU_R) snap[i].assign(a.h->buf->p, a.h->buf->size);
        bufs.push_back(a.h->buf);
    }
    const char *nm = t.cpy ? "data_cpy" : t.cl->name ? t.cl->name : "?";
    if(t.cpy)
    {
        if(bufs[0]->size != bufs[1]->size) err("starpu_data_cpy with different sizes");
        else memcpy(bufs[1]->p, bufs[0]->p, bufs[0]->size);
    }
    else call(t.cl, bufs, t.args);
    for(size_t i = 0; i < t.acc.size(); ++i)
    {
        if(base_mode(t.acc[i].mode) == STARPU_R && snap[i] != std::string(bufs[i]->p, bufs[i]->size))
            err(std::string(nm) + " modifies a buffer declared STARPU_R");
        if(!bufs[i]->guard()) err(std::string(nm) + " writes outside its buffer");
    }
    for(Buf *b : tmp) delete b;
    if(t.ownargs) free(t.args);
}

extern "C" void stub_drain()
{
    std::vector<Task> q; q.swap(pending);
    while(!q.empty())
    {
        std::vector<size_t> ready;
        for(size_t i = 0; i < q.size() && ready.size() < 12; ++i)
        {
            bool ok = true;
            for(size_t j = 0; j < i && ok; ++j)
                for(auto &a : q[i].acc) for(auto &b : q[j].acc) if(conflict(a, b)) ok = false;
            if(ok) ready.push_back(i);
        }
        size_t k = ready[rng() % 2 ? rng() % ready.size() : ready.size() - 1];
        Task t = q[k]; q.erase(q.begin() + k);
        run(t);
    }
}

extern "C" {
long stub_submitted() { return submitted; }
long stub_pending() { return (long)pending.size(); }
long stub_waits() { return waits; }
const char *stub_errors() { return errors.c_str(); }
void stub_reset(unsigned long seed) { stub_drain(); errors.clear(); submitted = executed = waits = 0; names.clear(); rng.seed(seed); }
const char *stub_name(long i) { return i < (long)names.size() ? names[i].c_str() : ""; }
void *stub_ptr(starpu_data_handle_t h) { if(!h->priv.empty()) flush_redux(h); return h->buf->p; }
size_t stub_size(starpu_data_handle_t h) { return h->buf->size; }
bool stub_guard(starpu_data_handle_t h) { return h->buf->guard(); }

int starpu_conf_init(struct starpu_conf *c) { memset(c, 0, sizeof(*c)); return 0; }
int starpu_init(struct starpu_conf *) { return 0; }
int starpu_initialize(struct starpu_conf *, int *, char ***) { return 0; }
void starpu_shutdown(void) { stub_drain(); }
void starpu_fxt_autostart_profiling(int) {}
int starpu_worker_get_count_by_type(enum starpu_worker_archtype) { return 1; }
uint32_t starpu_hash_crc32c_be_n(const void *, size_t, uint32_t x) { return x; }
uint32_t starpu_hash_crc32c_be(uint32_t a, uint32_t b) { return a ^ b; }

void starpu_variable_data_register(starpu_data_handle_t *h, int home, uintptr_t ptr, size_t size)
{
    auto *s = new _starpu_data_state; s->buf = home < 0 ? new Buf(size) : new Buf((void *)ptr, size); s->id = nextid++;
    *h = s; all.push_back(s);
}
void starpu_data_set_reduction_methods(starpu_data_handle_t h, struct starpu_codelet *r, struct starpu_codelet *i) { h->redux = r; h->init = i; }
void starpu_data_unregister(starpu_data_handle_t h) { stub_drain(); if(!h->buf->guard()) err("write outside a buffer"); flush_redux(h); delete h->buf; delete h; }
void starpu_data_unregister_no_coherency(starpu_data_handle_t h) { starpu_data_unregister(h); }
void starpu_data_unregister_submit(starpu_data_handle_t h) { starpu_data_unregister(h); }
void starpu_data_invalidate_submit(starpu_data_handle_t) {}
void starpu_data_wont_use(starpu_data_handle_t) {}
int starpu_data_acquire(starpu_data_handle_t h, enum starpu_data_access_mode) { stub_drain(); if(!h->priv.empty()) flush_redux(h); return 0; }
int starpu_data_acquire_cb(starpu_data_handle_t h, enum starpu_data_access_mode, void (*cb)(void *), void *arg) { stub_drain(); cb(arg); return 0; }
void starpu_data_release(starpu_data_handle_t) {}
void *starpu_data_get_local_ptr(starpu_data_handle_t h) { return h->buf->p; }
int starpu_task_wait_for_all(void) { ++waits; stub_drain(); return 0; }

int starpu_data_cpy(starpu_data_handle_t dst, starpu_data_handle_t src, int asynchronous, void (*cb)(void *), void *arg)
{
    Task t; t.cl = nullptr; t.args = nullptr; t.ownargs = false; t.argsize = 0; t.cpy = true;
    t.acc.push_back({src, STARPU_R}); t.acc.push_back({dst, STARPU_W});
    ++submitted; names.push_back("data_cpy"); pending.push_back(t);
    if(!asynchronous) stub_drain();
    return 0;
}

#undef starpu_task_insert
static bool parse(Task &t, struct starpu_codelet *cl, va_list ap)
{
    t.cl = cl; t.args = nullptr; t.ownargs = true; t.argsize = 0; t.cpy = false;
    std::string packed; int npacked = 0;
    int ty;
    while((ty = va_arg(ap, int)) != 0)
    {
        unsigned m = (unsigned)ty;
        if(m & STARPU_R || m & STARPU_W || m & STARPU_SCRATCH || m & STARPU_REDUX)
        {
            if(ty < (1 << 16)) { t.acc.push_back({va_arg(ap, starpu_data_handle_t), m}); continue; }
        }
        if(ty == STARPU_VALUE)
        {
            void *p = va_arg(ap, void *); size_t n = va_arg(ap, size_t);
            packed.append((const char *)&n, sizeof(n)); packed.append((const char *)p, n); ++npacked;
        }
        else if(ty == STARPU_CL_ARGS || ty == STARPU_CL_ARGS_NFREE)
        {
            t.args = va_arg(ap, void *); t.argsize = va_arg(ap, size_t);
            t.ownargs = ty == STARPU_CL_ARGS;
        }
        else if(ty == STARPU_FLOPS) (void)va_arg(ap, double);
        else if(ty == STARPU_PRIORITY || ty == STARPU_TASK_LINE) (void)va_arg(ap, int);
        else if(ty == STARPU_TASK_FILE) (void)va_arg(ap, char *);
        else if(ty == STARPU_TAG_ONLY || ty == STARPU_NAME || ty == STARPU_CALLBACK || ty == STARPU_CALLBACK_ARG) (void)va_arg(ap, void *);
        else { err("task argument of an unknown kind"); break; }
    }
    if(npacked)
    {
        char *q = (char *)malloc(sizeof(int) + packed.size());
        memcpy(q, &npacked, sizeof(int)); memcpy(q + sizeof(int), packed.data(), packed.size());
        t.args = q; t.ownargs = true;
    }
    if(cl->nbuffers >= 0 && cl->nbuffers != (int)STARPU_VARIABLE_NBUFFERS && cl->nbuffers != (int)t.acc.size())
        err(std::string("number of buffers of ") + (cl->name ? cl->name : "?"));
    for(size_t i = 0; i < t.acc.size(); ++i) if(!t.acc[i].h) { err("null handle"); return false; }
    return true;
}
static void queue(const Task &t) { ++submitted; names.push_back(t.cl->name ? t.cl->name : "?"); pending.push_back(t); }
int starpu_task_insert(struct starpu_codelet *cl, ...)
{
    Task t;
    va_list ap; va_start(ap, cl); bool ok = parse(t, cl, ap); va_end(ap);
    if(!ok) return -1;
    queue(t);
    return 0;
}
#undef starpu_task_build
static std::map<struct starpu_task *, Task> built;
struct starpu_task *starpu_task_build(struct starpu_codelet *cl, ...)
{
    Task t;
    va_list ap; va_start(ap, cl); bool ok = parse(t, cl, ap); va_end(ap);
    if(!ok) return nullptr;
    auto *p = (struct starpu_task *)calloc(1, sizeof(struct starpu_task));
    p->cl = cl; p->cl_arg = t.args; p->cl_arg_size = t.argsize; p->cl_arg_free = t.args && t.ownargs;
    built[p] = t;
    return p;
}
#undef starpu_task_submit
int starpu_task_submit(struct starpu_task *p)
{
    if(!p) return -1;
    Task t = built[p]; built.erase(p);
    t.args = p->cl_arg; t.argsize = p->cl_arg_size; t.ownargs = p->cl_arg_free; t.cl = p->cl;
    queue(t); free(p);
    return 0;
}
}
