// Bounded check of the data movement functions on the real code: gather, scatter, copy and intersection copy
// (tensor and tile) on the stand-in runtime against element-wise references.
// move MODE SEED COUNT ASPECT(values|accept|wait) -> "OK n" or "BAD <what> | <case>"
#include "th.hh"
#include <csignal>
#include <unistd.h>
using V = std::vector<Index>;
static std::string cur;
static std::string str(const V &v) { std::ostringstream o; o << "("; for(size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i]; o << ")"; return o.str(); }
static void bad(const std::string &w) { std::cout << "BAD " << w << " | " << cur << std::endl; _exit(1); }
struct Skip {};
static std::string aspect;
static void badif(const char *a, const std::string &w) { if(aspect == a) bad(w); }
static void onsig(int s) { const char *m = s == SIGALRM ? "BAD does not return | " : "BAD aborts (access outside of a vector or signal) | "; if(write(1, m, strlen(m)) + write(1, cur.c_str(), cur.size()) + write(1, "\n", 1)) {} _exit(1); }
static Index ri(Index a, Index b) { return a + (Index)(hr() % (unsigned long)(b - a + 1)); }
static V shape(int lo) { static const int R[] = {0, 1, 1, 2, 2, 2, 3, 3, 4}; int n; do n = R[hr() % 9]; while(n < lo); V s(n); for(auto &x : s) x = ri(0, 4) == 0 ? 1 : ri(1, n <= 2 ? 9 : n == 3 ? 5 : 4); return s; }
static V base(const V &s) { V b(s); for(auto &x : b) { int k = ri(0, 4); x = k == 0 ? x : k == 1 ? x + ri(1, 3) : k == 2 ? 1 : ri(1, x); } return b; }
static bool next(V &x, const V &s) { for(size_t d = 0; d < s.size(); ++d) { if(++x[d] < s[d]) return true; x[d] = 0; } return false; }
static Index lin(const V &x, const V &s) { Index r = 0, f = 1; for(size_t d = 0; d < s.size(); ++d) { r += x[d] * f; f *= s[d]; } return r; }
template<typename T> using Arr = std::vector<T>;

// operand whose content is distinct integers
template<typename T> struct O: Operand<T>
{
    O(const V &s, const V &b, double first, bool tile = false): Operand<T>(Spec{s, b, 'r', 0}, tile, '-') { for(Index i = 0; i < this->n; ++i) this->arr[i] = (T)(first + i); this->load(); }
    template<typename F> void fill(F f) { for(Index i = 0; i < this->n; ++i) this->arr[i] = f(i); this->load(); }
    void close(const Arr<T> &w, const char *nm, double tol)
    {
        std::string e = this->fetch(); if(e.size()) bad(std::string(nm) + ": " + e);
        for(Index i = 0; i < this->n; ++i) if(!(std::isnan(w[i]) && std::isnan(this->got[i])) && !(std::abs(this->got[i] - w[i]) <= tol * (1 + std::abs(w[i]))))
        { std::ostringstream o; o << nm << " element " << i << " is " << (double)this->got[i] << " instead of " << (double)w[i]; bad(o.str()); }
    }
    void expect(const Arr<T> &w, const char *nm)
    {
        std::string e = this->fetch(); if(e.size()) bad(std::string(nm) + ": " + e);
        for(Index i = 0; i < this->n; ++i) if(!(this->got[i] == w[i]))
        {
            V x; Index q = i; for(Index d : this->s.shape) { x.push_back(q % d); q /= d; }
            std::ostringstream o; o << nm << str(x) << " is " << (double)this->got[i] << " instead of " << (double)w[i]; bad(o.str());
        }
    }
    Arr<T> old() const { return Arr<T>(this->arr, this->arr + this->n); }
};

template<typename F> static bool runs(F f, bool valid, bool blocking)
{
    bool th = false; std::string w;
    try { f(); } catch(const std::exception &e) { th = true; w = e.what(); }
    long sub = stub_submitted(), pend = stub_pending();
    if(th && sub) badif("accept", "tasks were submitted before the operands were rejected");
    if(!th && blocking && pend) badif("wait", "returns with submitted tasks not completed");
    stub_drain();
    if(th == valid) { badif("accept", th ? "compatible operands are rejected: " + w : "incompatible operands are accepted"); throw Skip(); }
    if(aspect != "values") throw Skip();
    if(*stub_errors()) bad(stub_errors());
    return !th;
}

template<typename T> static void gather_scatter(bool gather)
{
    V s = shape(0), b = base(s), sb(s); for(auto &x : sb) x += ri(0, 3) ? 0 : ri(0, 2);
    V s2(s); bool valid = true;
    if(ri(0, 7) == 0 && s.size()) { size_t d = hr() % s.size(); if(ri(0, 1)) s2[d] += 1; else if(s2[d] > 1) sb[d] = s2[d] - 1; if(s2 != s) sb[d] = std::max(sb[d], s2[d]); }
    for(size_t d = 0; d < s.size(); ++d) if(s2[d] != s[d] || sb[d] < s2[d]) valid = false;
    bool bl = ri(0, 1);
    cur = std::string("tensor::") + (gather ? "gather" : "scatter") + (bl ? "" : "_async") + " tiled shape=" + str(s) + " basetile=" + str(b) + " single shape=" + str(s2) + " basetile=" + str(sb);
    O<T> a(s, b, 1), c(s2, sb, 5000);
    Arr<T> oa = a.old(), oc = c.old();
    if(gather) { if(runs([&]{ if(bl) tensor::gather<T>(*a.ten, *c.ten); else tensor::gather_async<T>(*a.ten, *c.ten); }, valid, bl)) oc = oa; }
    else if(runs([&]{ if(bl) tensor::scatter<T>(*c.ten, *a.ten); else tensor::scatter_async<T>(*c.ten, *a.ten); }, valid, bl)) oa = oc;
    a.expect(oa, gather ? "src" : "dst"); c.expect(oc, gather ? "dst" : "src");
}

template<typename T> static void intersection(bool tile)
{
    V s = shape(0); size_t n = s.size(); V d(n), so(n), of(n);
    bool same = ri(0, 9) == 0, disj = ri(0, 9) == 0;
    for(size_t i = 0; i < n; ++i)
    {
        so[i] = ri(-3, 6); int k = ri(0, 5);
        d[i] = same || k == 0 ? s[i] : ri(1, 7);
        of[i] = same || k == 1 ? so[i] : k == 2 ? so[i] + s[i] - d[i] : ri(so[i] - d[i] + 1, so[i] + s[i] - 1);
    }
    if(disj && n) { size_t i = hr() % n; of[i] = ri(0, 1) ? so[i] + s[i] + ri(0, 2) : so[i] - d[i] - ri(0, 2); }
    V sb = base(s), db = base(d); if(same && ri(0, 1)) db = sb;
    bool valid = true; V so2(so), of2(of), d2(d), db2(db);
    if(ri(0, 11) == 0) { valid = false; switch(ri(0, 2)) { case 0: so2.push_back(0); break; case 1: of2.push_back(0); break; default: d2.push_back(2); db2.push_back(1); of2.push_back(0); } }
    bool bl = ri(0, 1);
    Index scr = 2 * n + ri(0, 2); if(tile && ri(0, 11) == 0 && n) { scr = 2 * n - 1; valid = false; }
    if(scr < 1) scr = 1;
    cur = std::string(tile ? "tile" : "tensor") + "::copy_intersection" + (bl ? "" : "_async") + " src shape=" + str(s) + (tile ? "" : " basetile=" + str(sb)) + " offset=" + str(so2) + " dst shape=" + str(d2) + (tile ? "" : " basetile=" + str(db2)) + " offset=" + str(of2);
    O<T> a(s, sb, 1, tile), c(d2, db2, 5000, tile);
    Arr<T> oa = a.old(), oc = c.old();
    bool ok;
    if(tile)
    {
        tile::Tile<Index> t(V{scr});
        ok = runs([&]{ if(bl) tile::copy_intersection<T>(*a.til, so2, *c.til, of2, t); else tile::copy_intersection_async<T>(*a.til, so2, *c.til, of2, t); }, valid, bl);
    }
    else ok = runs([&]{ if(bl) tensor::copy_intersection<T>(*a.ten, so2, *c.ten, of2); else tensor::copy_intersection_async<T>(*a.ten, so2, *c.ten, of2); }, valid, bl);
    if(ok)
    {
        V x(n, 0);
        do
        {
            V y(n); bool in = true; for(size_t i = 0; i < n; ++i) { y[i] = x[i] + so[i] - of[i]; if(y[i] < 0 || y[i] >= d[i]) in = false; }
            if(in) oc[lin(y, d)] = oa[lin(x, s)];
        } while(next(x, s));
    }
    a.expect(oa, "src"); c.expect(oc, "dst");
}

template<typename T> static void copy(bool tile)
{
    V s = shape(0), b = base(s), s2(s), b2(b); bool valid = true;
    if(ri(0, 7) == 0 && s.size()) { size_t d = hr() % s.size(); if(tile || ri(0, 1)) s2[d] += 1; else b2[d] += 1; valid = false; }
    bool bl = ri(0, 1);
    cur = std::string(tile ? "tile" : "tensor") + "::copy" + (bl ? "" : "_async") + " src shape=" + str(s) + " basetile=" + str(b) + " dst shape=" + str(s2) + " basetile=" + str(b2);
    O<T> a(s, b, 1, tile), c(s2, b2, 5000, tile);
    Arr<T> oa = a.old(), oc = c.old();
    bool ok = tile ? runs([&]{ if(bl) tile::copy<T>(*a.til, *c.til); else tile::copy_async<T>(*a.til, *c.til); }, valid, bl)
                   : runs([&]{ if(bl) tensor::copy<T>(*a.ten, *c.ten); else tensor::copy_async<T>(*a.ten, *c.ten); }, valid, bl);
    if(ok) oc = oa;
    a.expect(oa, "src"); c.expect(oc, "dst");
}

static void unlin(Index q, const V &s, V &x) { x.clear(); for(Index d : s) { x.push_back(q % d); q /= d; } }

template<typename T> static void embedding(bool back)
{
    V xs = shape(0); while(xs.size() > 3) xs.pop_back();
    V xb = base(xs); Index ax = ri(0, xs.size()), E = ri(1, 7), W = ri(1, 6), wb = ri(1, E), eb = wb * ri(1, 3);
    V es(xs), ebt(xb); es.insert(es.begin() + ax, E); ebt.insert(ebt.begin() + ax, eb);
    V vs{E, W}, vb{wb, W + (ri(0, 9) == 0 ? 1 : 0)};
    bool valid = vb[1] == W; Index ax2 = ax;
    if(ri(0, 3) == 0) switch(ri(0, 6))
    {
        case 0: if(xs.size()) { size_t d = hr() % xs.size(); xs[d] += 1; valid = false; } break;
        case 1: if(xs.size()) { size_t d = hr() % xs.size(); xb[d] += 1; valid = false; } break;
        case 2: vs[0] += 1; valid = false; break;
        case 3: ax2 = ri(0, 1) ? -1 : (Index)es.size(); valid = false; break;
        case 4: es.push_back(2); ebt.push_back(1); valid = false; break;
        case 5: if(W > 1) { vb[1] = ri(1, W - 1); valid = false; } break;
        case 6: vb[0] = eb + 1; valid = false; break;
    }
    if(vb[1] != vs[1]) valid = false;
    int redux = ri(0, 1); bool bl = ri(0, 1);
    cur = std::string("tensor::embedding") + (back ? "_backward" : "") + (bl ? "" : "_async") + " index shape=" + str(xs) + " basetile=" + str(xb) + " embed shape=" + str(es) + " basetile=" + str(ebt) + " vocab shape=" + str(vs) + " basetile=" + str(vb) + " axis=" + std::to_string(ax2);
    O<Index> I(xs, xb, 0); I.fill([&](Index) { return ri(0, W - 1); });
    O<T> e(es, ebt, 1), v(vs, vb, 1000);
    if(redux) v.ten->set_reduction_add();
    Arr<T> oe = e.old(), ov = v.old(); Arr<Index> oi = I.old();
    bool ok = runs([&]{
        if(back) { if(bl) tensor::embedding_backward<T>(*I.ten, *e.ten, *v.ten, ax2, redux); else tensor::embedding_backward_async<T>(*I.ten, *e.ten, *v.ten, ax2, redux); }
        else { if(bl) tensor::embedding<T>(*I.ten, *v.ten, *e.ten, ax2); else tensor::embedding_async<T>(*I.ten, *v.ten, *e.ten, ax2); } }, valid, bl);
    if(ok)
    {
        V x(es.size(), 0); Index l = 0;
        do { V y(x); y.erase(y.begin() + ax); Index c = oi[lin(y, xs)]; Index p = x[ax] + c * E; if(back) ov[p] += oe[l]; else oe[l] = ov[p]; ++l; } while(next(x, es));
    }
    I.expect(oi, "index"); e.expect(oe, "embed"); v.close(ov, "vocab", sizeof(T) == 8 ? 1e-12 : 1e-5);
}

template<typename T> static void nrm2(bool tile)
{
    V s = shape(0), b = base(s), gr; for(size_t d = 0; d < s.size(); ++d) gr.push_back((s[d] + b[d] - 1) / b[d]);
    V ds, db, ts(gr), tb(gr.size(), 1); bool valid = true;
    if(tile) { ts.clear(); tb.clear(); }
    if(ri(0, 5) == 0) switch(ri(0, 3))
    {
        case 0: ds.push_back(1); db.push_back(1); valid = false; break;
        case 1: ts.push_back(1); tb.push_back(1); valid = false; break;
        case 2: if(ts.size()) { ts[hr() % ts.size()] += 1; valid = false; } break;
        case 3: if(ts.size()) { tb[hr() % tb.size()] += 1; valid = false; } break;
    }
    T al = ri(0, 3) == 0 ? T(ri(-1, 1)) : T(uni(-2, 2)), be = ri(0, 2) == 0 ? T(ri(-1, 1)) : T(uni(-2, 2)); bool bl = ri(0, 1);
    cur = std::string(tile ? "tile" : "tensor") + "::nrm2" + (bl ? "" : "_async") + " src shape=" + str(s) + " basetile=" + str(b) + " dst shape=" + str(ds) + " tmp shape=" + str(ts) + " basetile=" + str(tb) + " alpha=" + std::to_string(al) + " beta=" + std::to_string(be);
    O<T> a(s, b, 1, tile), d(ds, db, 1, tile), t(ts, tb, 1, tile);
    a.fill([&](Index) { return T(uni(-2, 2)); });
    if(be == 0) d.fill([&](Index) { return std::numeric_limits<T>::quiet_NaN(); }); else d.fill([&](Index) { return T(uni(0, 3)); });
    Arr<T> oa = a.old(), od = d.old();
    bool ok = runs([&]{
        if(tile) { if(bl) tile::nrm2<T>(al, *a.til, be, *d.til, *t.til); else tile::nrm2_async<T>(al, *a.til, be, *d.til, *t.til); }
        else { if(bl) tensor::nrm2<T>(al, *a.ten, be, *d.ten, *t.ten); else tensor::nrm2_async<T>(al, *a.ten, be, *d.ten, *t.ten); } }, valid, bl);
    if(ok) { double q = 0; for(T x : oa) q += (double)x * x; double o = be == 0 ? 0 : (double)be * od[0]; od[0] = T(std::sqrt((double)al * al * q + o * o)); }
    a.expect(oa, "src"); d.close(od, "dst", sizeof(T) == 8 ? 1e-10 : 1e-4);
}

// generator of the reference: the value of the element with global position p
static unsigned long long lcg(unsigned long long s) { return 6364136223846793005ULL * s + 1ULL; }
template<typename T> static T draw(unsigned long long s, T mean, T dev)
{
    const T mul = sizeof(T) == 4 ? T(5.4210108624275222e-20f) : T(5.4210108624275222e-20);
    const T two = 2.0, twopi = 6.2831853071795864769252867663;
    T t1 = s * mul; s = lcg(s); T t2 = s * mul * twopi;
    return dev * (std::sqrt(-two * std::log(t1)) * std::cos(t2)) + mean;
}

template<typename T> static void randn(bool tile)
{
    V s = shape(0), b = base(s), st(s.size()), un(s.size()); bool valid = true;
    for(size_t d = 0; d < s.size(); ++d) { st[d] = ri(0, 3); un[d] = st[d] + s[d] + ri(0, 3); }
    V st2(st), un2(un);
    if(ri(0, 5) == 0) switch(ri(0, 3))
    {
        case 0: st2.push_back(0); valid = false; break;
        case 1: un2.push_back(9); valid = false; break;
        case 2: if(s.size()) { st2[hr() % s.size()] = -1; valid = false; } break;
        case 3: if(s.size()) { size_t d = hr() % s.size(); un2[d] = st[d] + s[d] - 1; valid = false; } break;
    }
    unsigned long long seed = hr(); T mean = T(uni(-1, 1)), dev = T(uni(0, 2)); bool bl = ri(0, 1);
    cur = std::string(tile ? "tile" : "tensor") + "::randn" + (bl ? "" : "_async") + " shape=" + str(s) + " basetile=" + str(b) + " start=" + str(st2) + " underlying=" + str(un2) + " seed=" + std::to_string(seed);
    O<T> a(s, b, 1, tile); Arr<T> oa = a.old();
    bool ok = runs([&]{
        if(tile) { if(bl) tile::randn<T>(*a.til, st2, un2, seed, mean, dev); else tile::randn_async<T>(*a.til, st2, un2, seed, mean, dev); }
        else { if(bl) tensor::randn<T>(*a.ten, st2, un2, seed, mean, dev); else tensor::randn_async<T>(*a.ten, st2, un2, seed, mean, dev); } }, valid, bl);
    if(ok)
    {
        V x(s.size(), 0); Index l = 0;
        do { V g(x); for(size_t d = 0; d < g.size(); ++d) g[d] += st[d]; Index p = lin(g, un); unsigned long long q = seed; for(Index i = 0; i < 2 * p; ++i) q = lcg(q); oa[l++] = draw<T>(q, mean, dev); } while(next(x, s));
    }
    a.close(oa, "dst", sizeof(T) == 8 ? 1e-9 : 1e-4);
}

template<typename T> static void one_case(const std::string &m)
{
    if(m == "gather") gather_scatter<T>(true);
    else if(m == "scatter") gather_scatter<T>(false);
    else if(m == "tensor_copy_intersection") intersection<T>(false);
    else if(m == "tile_copy_intersection") intersection<T>(true);
    else if(m == "tensor_copy") copy<T>(false);
    else if(m == "tile_copy") copy<T>(true);
    else if(m == "embedding") embedding<T>(false);
    else if(m == "embedding_backward") embedding<T>(true);
    else if(m == "tensor_nrm2") nrm2<T>(false);
    else if(m == "tile_nrm2") nrm2<T>(true);
    else if(m == "tensor_randn") randn<T>(false);
    else if(m == "tile_randn") randn<T>(true);
    else { std::cout << "no such mode\n"; _exit(2); }
}

int main(int argc, char **argv)
{
    starpu::init();
    aspect = argv[4]; unsigned long seed = strtoul(argv[2], 0, 10); long cnt = atol(argv[3]);
    for(int s : {SIGABRT, SIGSEGV, SIGFPE, SIGALRM, SIGBUS}) signal(s, onsig);
    for(long i = 0; i < cnt; ++i)
    {
        hr.seed(seed * 1000003 + i); stub_reset(seed + i);
        alarm(10);
        try { if(i % 3) one_case<fp64_t>(argv[1]); else one_case<fp32_t>(argv[1]); } catch(Skip &) {} catch(const std::exception &e) { bad(std::string("unexpected error: ") + e.what()); }
    }
    std::cout << "OK " << cnt << std::endl;
    _exit(0);
}
