// Replay of the geometry contracts (C01-C04) on the real classes: random shapes against an
// independent reference.  geom MODE SEED COUNT -> "OK n" or "BAD <what> | <case>"
#include <nntile/tensor/tensor.hh>
#include <nntile/tensor/distributions.hh>
#include <random>
#include <sstream>
#include <iostream>
#include <csignal>
#include <cstring>
#include <set>
#include <unistd.h>
using namespace nntile;
using V = std::vector<Index>;
extern "C" { size_t stub_size(starpu_data_handle_t); }

static std::mt19937_64 rg;
static Index ri(Index a, Index b) { return a + (Index)(rg() % (unsigned long)(b - a + 1)); }
static std::string cur;
static std::string str(const V &v) { std::ostringstream o; o << "("; for(size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i]; o << ")"; return o.str(); }
static std::string str(const std::vector<int> &v) { return str(V(v.begin(), v.end())); }
static void bad(const std::string &w) { std::cout << "BAD " << w << " | " << cur << std::endl; _exit(1); }
static void onsig(int s) { const char *m = s == SIGALRM ? "BAD does not return | " : "BAD aborts (access outside of a vector, or arithmetic error) | "; write(1, m, strlen(m)); write(1, cur.c_str(), cur.size()); write(1, "\n", 1); _exit(1); }
static Index prod(const V &v, size_t a, size_t b) { Index r = 1; for(size_t i = a; i < b; ++i) r *= v[i]; return r; }

static V shape(bool neg)
{
    static const int R[] = {0, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6};
    size_t n = R[rg() % 13]; V s(n);
    Index m = n <= 2 ? 12 : n <= 4 ? 5 : 3;
    for(auto &x : s) x = ri(0, 3) == 0 ? 1 : ri(1, m);
    if(neg && n && ri(0, 4) == 0) s[rg() % n] = ri(-2, 0);
    return s;
}
static bool allpos(const V &s) { for(Index x : s) if(x <= 0) return false; return true; }
// the multi-index of position l, from the definition (enumeration order: first dimension fastest)
static bool next(V &x, const V &s) { for(size_t d = 0; d < s.size(); ++d) { if(++x[d] < s[d]) return true; x[d] = 0; } return false; }

static void geometry(const tile::TileTraits &t, const V &s, const std::string &p)
{
    size_t n = s.size();
    if(t.ndim != (Index)n) bad(p + "ndim");
    if(t.shape != s) bad(p + "shape is " + str(t.shape));
    if(t.nelems != prod(s, 0, n)) bad(p + "nelems is " + std::to_string(t.nelems));
    if(t.stride.size() != n) bad(p + "number of strides");
    for(size_t d = 0; d < n; ++d) if(t.stride[d] != prod(s, 0, d)) bad(p + "stride[" + std::to_string(d) + "] is " + std::to_string(t.stride[d]));
    if(t.matrix_shape.size() != n + 1) bad(p + "length of matrix_shape");
    for(size_t d = 0; d <= n; ++d) if(t.matrix_shape[d][0] != prod(s, 0, d) || t.matrix_shape[d][1] != prod(s, d, n))
        bad(p + "matrix_shape[" + std::to_string(d) + "] is (" + std::to_string(t.matrix_shape[d][0]) + "," + std::to_string(t.matrix_shape[d][1]) + ")");
}

template<typename F> static bool throws(F f) { try { f(); return false; } catch(const std::exception &) { return true; } }

static void c01()
{
    V s = shape(true); cur = "shape " + str(s);
    if(!allpos(s)) { if(!throws([&]{ tile::TileTraits t(s); })) bad("a nonpositive extent is accepted"); return; }
    try { tile::TileTraits t(s); geometry(t, s, ""); } catch(const std::exception &e) { bad(std::string("a valid shape is rejected: ") + e.what()); }
    Index N = prod(s, 0, s.size());
    tile::TileTraits t(s);
    tile::Tile<fp32_t> a(s); geometry(a, s, "Tile(shape): ");
    tile::Tile<fp64_t> b(t); geometry(b, s, "Tile(traits): ");
    auto sz = [](const starpu::Handle &h) { return (Index)stub_size(static_cast<starpu_data_handle_t>(h)); };
    if(sz(a) != 4 * N) bad("bytes of Tile(shape) " + std::to_string(sz(a)));
    if(sz(b) != 8 * N) bad("bytes of Tile(traits) " + std::to_string(sz(b)));
    Index k = N + ri(-2, 2); if(k < 0) k = 0;
    std::vector<fp32_t> u(N + 4);
    cur += " user memory of " + std::to_string(k) + " elements";
    for(int w = 0; w < 2; ++w)
    {
        bool th = false;
        try { tile::Tile<fp32_t> c = w ? tile::Tile<fp32_t>(t, u.data(), k) : tile::Tile<fp32_t>(s, u.data(), k); geometry(c, s, "Tile(ptr): "); if(sz(c) != 4 * N) bad("bytes of Tile(ptr)"); }
        catch(const std::exception &) { th = true; }
        if(th != (k < N)) bad(th ? "sufficient user memory is rejected" : "insufficient user memory is accepted");
    }
}

static void c02()
{
    V s = shape(false); tile::TileTraits t(s); size_t n = s.size();
    cur = "shape " + str(s);
    V x(n, 0); Index l = 0;
    do
    {
        if(t.index_to_linear(x) != l) bad("index_to_linear(" + str(x) + ") is " + std::to_string(t.index_to_linear(x)) + " instead of " + std::to_string(l));
        V y = t.linear_to_index(l);
        if(y != x) bad("linear_to_index(" + std::to_string(l) + ") is " + str(y) + " instead of " + str(x));
        if(!t.contains_index(x)) bad("contains_index(" + str(x) + ") is false");
        ++l;
    } while(next(x, s));
    for(Index o : {(Index)-1, (Index)-ri(1, 9), l, l + ri(0, 9)}) if(!throws([&]{ t.linear_to_index(o); })) bad("offset " + std::to_string(o) + " is accepted");
    for(int k = 0; k < 8; ++k)
    {
        V y(n + (ri(0, 3) == 0 ? ri(-(n > 0), 2) : 0)); for(size_t d = 0; d < y.size(); ++d) y[d] = d < n ? ri(0, s[d] - 1) : 0;
        if(y.size() && y.size() == n && ri(0, 3)) { size_t d = rg() % y.size(); y[d] = ri(0, 1) ? -ri(1, 2) : s[d] + ri(0, 1); }
        bool len = y.size() == n, in = len;
        for(size_t d = 0; in && d < n; ++d) if(y[d] < 0 || y[d] >= s[d]) in = false;
        if(throws([&]{ t.index_to_linear(y); }) == in) bad("index_to_linear(" + str(y) + ") " + (in ? "is rejected" : "is accepted"));
        if(throws([&]{ t.contains_index(y); }) == len) bad("contains_index(" + str(y) + ") " + (len ? "is rejected" : "is accepted"));
        if(len && t.contains_index(y) != in) bad("contains_index(" + str(y) + ") is wrong");
    }
}

static V base(const V &s) { V b(s); for(auto &x : b) { int k = ri(0, 4); x = k == 0 ? x : k == 1 ? x + ri(1, 3) : k == 2 ? 1 : ri(1, x); } return b; }
static V exts(const V &x, const V &s, const V &b) { V r(x.size()); for(size_t d = 0; d < x.size(); ++d) r[d] = std::min(b[d], s[d] - x[d] * b[d]); return r; }

static void c03()
{
    V s = shape(false), b = base(s);
    if(ri(0, 9) == 0) b.push_back(2);
    else if(ri(0, 9) == 0 && b.size()) b.pop_back();
    else if(ri(0, 9) == 0 && b.size()) b[rg() % b.size()] = ri(-1, 0);
    cur = "shape " + str(s) + " base tile " + str(b);
    bool ok = b.size() == s.size() && allpos(b);
    if(!ok) { if(!throws([&]{ tensor::TensorTraits t(s, b); })) bad("an invalid base tile is accepted"); return; }
    size_t n = s.size();
    V g(n); for(size_t d = 0; d < n; ++d) { g[d] = 0; while(g[d] * b[d] < s[d]) ++g[d]; }
    try { tensor::TensorTraits t(s, b); } catch(const std::exception &e) { bad(std::string("a valid base tile is rejected: ") + e.what()); }
    tensor::TensorTraits t(s, b);
    geometry(t, s, ""); geometry(t.grid, g, "grid.");
    if(t.basetile_shape != b) bad("basetile_shape");
    V last(n); for(size_t d = 0; d < n; ++d) last[d] = g[d] - 1;
    if(t.leftover_shape != exts(last, s, b)) bad("leftover_shape is " + str(t.leftover_shape));
    V x(n, 0);
    do { V e = t.get_tile_shape(x); if(e != exts(x, s, b)) bad("get_tile_shape(" + str(x) + ") is " + str(e)); } while(next(x, g));
    for(int k = 0; k < 4; ++k)
    {
        V y(n); for(size_t d = 0; d < n; ++d) y[d] = ri(0, g[d] - 1);
        if(n && ri(0, 1)) { size_t d = rg() % n; y[d] = ri(0, 1) ? -ri(1, 2) : g[d] + ri(0, 1); }
        else if(n && ri(0, 1)) y.pop_back();
        else y.push_back(0);
        if(!throws([&]{ t.get_tile_shape(y); })) bad("get_tile_shape(" + str(y) + ") is accepted");
        if(y.size() < n) continue;
    }
    if(t.grid.nelems > 400) return;
    starpu_mpi_tag_t tag = ri(0, 5);
    std::vector<int> distr(t.grid.nelems); for(auto &r : distr) r = ri(0, 3);
    for(int k : {-1, 1})
    {
        std::vector<int> w(distr); if(k < 0) w.pop_back(); else w.push_back(0);
        if(!throws([&]{ tensor::Tensor<fp32_t> T(t, w, tag); })) bad("a distribution of wrong length is accepted");
    }
    tensor::Tensor<fp32_t> T(t, distr, tag);
    geometry(T, s, "Tensor: "); geometry(T.grid, g, "Tensor.grid.");
    if(T.tile_distr != distr) bad("tile_distr");
    if(T.basetile_shape != b || T.leftover_shape != t.leftover_shape) bad("Tensor shapes");
    if((Index)T.tile_traits.size() != t.grid.nelems || (Index)T.tile_handles.size() != t.grid.nelems) bad("number of tiles of a Tensor");
    V y(n, 0); Index l = 0; std::set<void *> seen;
    do
    {
        V e = exts(y, s, b); std::string p = "tile " + str(y) + ": ";
        geometry(T.get_tile_traits(l), e, p); geometry(T.get_tile_traits(y), e, p); geometry(T.get_tile(l), e, p); geometry(T.get_tile(y), e, p);
        auto h = static_cast<starpu_data_handle_t>(T.get_tile_handle(l));
        if(h != static_cast<starpu_data_handle_t>(T.get_tile_handle(y)) || h != static_cast<starpu_data_handle_t>(T.get_tile(l)) || h != static_cast<starpu_data_handle_t>(T.get_tile(y))) bad(p + "different handles");
        if(!seen.insert((void *)h).second) bad(p + "handle is shared with another tile");
        if(stub_size(h) != 4 * (size_t)prod(e, 0, n)) bad(p + "bytes of the handle " + std::to_string(stub_size(h)));
        ++l;
    } while(next(y, g));
    for(Index o : {(Index)-1, l, l + 3}) if(!throws([&]{ T.get_tile(o); })) bad("get_tile(" + std::to_string(o) + ") is accepted");
    if(n) { V z(last); z[rg() % n] = -1; if(!throws([&]{ T.get_tile(z); }) || !throws([&]{ T.get_tile_traits(z); }) || !throws([&]{ T.get_tile_handle(z); })) bad("tile index " + str(z) + " is accepted"); }
}

static void c04()
{
    V g = shape(true); size_t n = g.size();
    std::vector<int> m(n); for(auto &x : m) x = ri(0, 3) == 0 ? 1 : ri(1, 4);
    if(ri(0, 9) == 0) m.push_back(2); else if(n && ri(0, 9) == 0) m.pop_back();
    Index P = 1; for(int x : m) P *= x;
    int mx = ri(0, 2) == 0 ? (int)P : ri(0, 2) == 0 ? 1 : (int)ri(1, P + 3), st = ri(0, 5) == 0 ? ri(-1, mx + 1) : ri(0, mx - 1);
    cur = "tensor grid " + str(g) + " process grid " + str(m) + " start " + std::to_string(st) + " ranks " + std::to_string(mx);
    bool ok = m.size() == n && allpos(g) && st >= 0 && st < mx;
    std::vector<int> r;
    try { r = tensor::distributions::block_cyclic(g, m, st, mx); if(!ok) bad("invalid arguments are accepted"); }
    catch(const std::exception &e) { if(ok) bad(std::string("valid arguments are rejected: ") + e.what()); return; }
    Index N = prod(g, 0, n); if((Index)r.size() != N) bad("number of ranks");
    V x(n, 0); Index l = 0;
    do
    {
        Index q = 0, f = 1; for(size_t d = 0; d < n; ++d) { q += (x[d] % m[d]) * f; f *= m[d]; }
        Index want = (q + st) % mx;
        if(r[l] != want) bad("rank of tile " + str(x) + " is " + std::to_string(r[l]) + " instead of " + std::to_string(want));
        ++l;
    } while(next(x, g));
}

int main(int argc, char **argv)
{
    int mode = atoi(argv[1]); rg.seed(strtoul(argv[2], 0, 10)); long cnt = atol(argv[3]);
    for(int s : {SIGABRT, SIGSEGV, SIGFPE, SIGALRM, SIGBUS}) signal(s, onsig);
    void (*fn[])() = {c01, c02, c03, c04};
    for(long i = 0; i < cnt; ++i)
    {
        alarm(10);
        try { fn[mode - 1](); } catch(const std::exception &e) { bad(std::string("unexpected error: ") + e.what()); }
    }
    std::cout << "OK " << cnt << std::endl;
    _exit(0);
}
