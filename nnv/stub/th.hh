// Harness of the tensor / tile layer: the real operation on tiled operands against the tasks of its
// contract on whole (untiled) arrays.
#pragma once
#include <nntile/starpu.hh>
#include <nntile/tensor.hh>
#include <nntile/tile.hh>
#include <cstring>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <random>
#include <cmath>
using namespace nntile;
extern "C" {
long stub_submitted(); long stub_pending(); long stub_waits(); const char *stub_errors(); void stub_reset(unsigned long);
void *stub_ptr(starpu_data_handle_t); size_t stub_size(starpu_data_handle_t); void stub_drain(); const char *stub_name(long); bool stub_guard(starpu_data_handle_t);
}

static std::mt19937_64 hr(1);
static double uni(double a, double b) { return a + (b - a) * ((hr() >> 11) * (1.0 / 9007199254740992.0)); }

struct Spec { std::vector<Index> shape, bt; char fill; double par; };

template<typename T> void fill_arr(std::vector<T> &v, const Spec &s)
{
    for(size_t i = 0; i < v.size(); ++i)
    {
        if constexpr (std::is_floating_point_v<T>)
        {
            if(s.fill == 'n') v[i] = std::numeric_limits<T>::quiet_NaN();
            else if(s.fill == 'p') v[i] = (T)uni(0.2, 2.);
            else if(s.fill == 'z') v[i] = 0;
            else if(s.fill == 'm') v[i] = i % 2 ? (T)uni(0.5, 4.) : (T)uni(-1., 3.);       // (maximum, sum) pairs
            else if(s.fill == 's') v[i] = i % 2 ? (T)(uni(4., 8.)) : (T)uni(-1., 1.);      // (sum, norm) pairs
            else v[i] = (T)uni(-2., 2.);
        }
        else if constexpr (std::is_same_v<T, bool>) v[i] = hr() % 2;
        else if constexpr (std::is_integral_v<T>) v[i] = (T)(hr() % (unsigned long)(s.par < 1 ? 1 : s.par));
        else { short x = (short)hr(); std::memcpy((void *)&v[i], &x, sizeof(T) < 2 ? sizeof(T) : 2); }
    }
}

static Index prodv(const std::vector<Index> &v) { Index r = 1; for(Index x : v) r *= x; return r; }

// copies between the whole array and the tiles, by the definition of a tiling
template<typename T> struct Geo
{
    Spec s; std::vector<Index> grid;
    Geo(const Spec &s_): s(s_) { for(size_t i = 0; i < s.shape.size(); ++i) grid.push_back((s.shape[i] + s.bt[i] - 1) / s.bt[i]); }
    template<typename F> void each(F f) const
    {
        Index n = prodv(s.shape); size_t nd = s.shape.size();
        std::vector<Index> x(nd);
        for(Index l = 0; l < n; ++l)
        {
            Index q = l, tl = 0, gs = 1, el = 0, es = 1;
            for(size_t d = 0; d < nd; ++d)
            {
                Index c = q % s.shape[d]; q /= s.shape[d];
                Index t = c / s.bt[d], in = c % s.bt[d];
                Index ext = std::min(s.bt[d], s.shape[d] - t * s.bt[d]);
                tl += t * gs; gs *= grid[d]; el += in * es; es *= ext;
            }
            f(l, tl, el);
        }
    }
};

struct Base
{
    virtual ~Base() {}
    virtual void load() = 0; virtual std::string fetch() = 0;
    virtual starpu_data_handle_t whole() = 0;
    virtual std::string compare(double tol) = 0;
};

template<typename T> struct Operand: Base
{
    Spec s; Geo<T> g; T *arr; Index n; T *got; starpu_data_handle_t w = nullptr;
    tensor::Tensor<T> *ten = nullptr; tile::Tile<T> *til = nullptr;
    std::vector<starpu_data_handle_t> hs;
    char redux = 0;
    Operand(const Spec &s_, bool tile, char redux_): s(s_), g(s_), redux(redux_)
    {
        n = prodv(s.shape);
        struct B { T x; };
        std::vector<B> v(n), v2(n);
        arr = new T[n]; got = new T[n];
        std::vector<T> tmp;
        if constexpr (std::is_same_v<T, bool>) { for(Index i = 0; i < n; ++i) arr[i] = hr() % 2; }
        else { tmp.resize(n); fill_arr<T>(tmp, s); for(Index i = 0; i < n; ++i) arr[i] = tmp[i]; }
        if(tile)
        {
            til = new tile::Tile<T>(s.shape);
            hs.push_back(static_cast<starpu_data_handle_t>(*til));
        }
        else
        {
            starpu_mpi_tag_t tag = 0;
            Index nt = prodv(g.grid);
            tensor::TensorTraits tr(s.shape, s.bt);
            ten = new tensor::Tensor<T>(tr, std::vector<int>(nt, 0), tag);
            for(Index i = 0; i < nt; ++i) hs.push_back(static_cast<starpu_data_handle_t>(ten->get_tile_handle(i)));
            if constexpr (std::is_same_v<T, double> || std::is_same_v<T, float>)
            {
                if(redux == 'a') ten->set_reduction_add();
                if(redux == 'h') ten->set_reduction_hypot();
                if(redux == 'x') ten->set_reduction_maxsumexp();
            }
        }
    }
    void load() override
    {
        if(til) std::memcpy(stub_ptr(hs[0]), arr, n * sizeof(T));
        else g.each([&](Index l, Index t, Index e) { check(t, e); ((T *)stub_ptr(hs[t]))[e] = arr[l]; });
    }
    void check(Index t, Index e)
    {
        if(t >= (Index)hs.size() || (e + 1) * sizeof(T) > stub_size(hs[t])) { printf("GEOMETRY tile %ld has %ld bytes\n", (long)t, t < (Index)hs.size() ? (long)stub_size(hs[t]) : -1L); fflush(stdout); _exit(3); }
    }
    std::string fetch() override
    {
        for(auto h : hs) if(!stub_guard(h)) return "write outside a buffer";
        if(til) std::memcpy(got, stub_ptr(hs[0]), n * sizeof(T));
        else g.each([&](Index l, Index t, Index e) { got[l] = ((T *)stub_ptr(hs[t]))[e]; });
        return "";
    }
    starpu_data_handle_t whole() override
    {
        if(!w)
        {
            starpu_variable_data_register(&w, -1, 0, n * sizeof(T));
            std::memcpy(stub_ptr(w), arr, n * sizeof(T));
        }
        return w;
    }
    std::string compare(double tol) override
    {
        const T *want = w ? (const T *)stub_ptr(w) : arr;
        double mag = 1.;
        if constexpr (std::is_floating_point_v<T>) for(Index i = 0; i < n; ++i) if(std::isfinite(want[i])) mag = std::max(mag, std::abs((double)want[i]));
        for(Index i = 0; i < n; ++i)
        {
            bool same;
            if constexpr (std::is_floating_point_v<T>)
                same = (std::isnan(want[i]) && std::isnan(got[i])) || want[i] == got[i] || std::abs(want[i] - got[i]) <= tol * mag;
            else same = !std::memcmp((const void *)&want[i], (const void *)&got[i], sizeof(T));
            if(!same)
            {
                std::ostringstream o; o << "element " << i;
                if constexpr (std::is_floating_point_v<T>) o << " is " << got[i] << ", contract value " << want[i];
                else if constexpr (std::is_integral_v<T>) o << " is " << (long)got[i] << ", contract value " << (long)want[i];
                return o.str();
            }
        }
        return "";
    }
    ~Operand() { delete ten; delete til; if(w) starpu_data_unregister(w); delete[] arr; delete[] got; }
};

static Spec read_spec(std::istream &in)
{
    Spec s; int r; in >> r; s.shape.resize(r); s.bt.resize(r);
    for(auto &x : s.shape) in >> x;
    for(auto &x : s.bt) in >> x;
    in >> s.fill >> s.par;
    return s;
}
static starpu::Handle wrap(starpu_data_handle_t h) { return starpu::Handle(std::shared_ptr<_starpu_data_state>(h, [](starpu_data_handle_t) {})); }
