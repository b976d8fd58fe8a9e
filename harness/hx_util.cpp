// Harness for the numerical building blocks: polynomials, Legendre projections and eta functions.
#include "hx.h"
#include <matslise/util/polynomial.h>
#include <matslise/util/legendre.h>
#include <matslise/util/calculateEta.h>

using namespace matslise;
using hx::num;
typedef boost::multiprecision::float128 Q;

template<typename S>
S rd(std::istream &in) {
    std::string t;
    in >> t;
    return S(strtold(t.c_str(), nullptr)); // at most long double precision is requested
}

template<typename C>
std::string arr(const C &c, size_t n) {
    std::string r = "[";
    for (size_t i = 0; i < n; ++i) r += (i ? "," : "") + num(c[i]);
    return r + "]";
}

#ifdef HX_POLY
// ---------------------------------------------------------------- polynomials: registers of fixed degree 0..MAXD
constexpr int MAXD = 8, BIND = 4;

template<typename S>
struct Polys {
    struct P { // type erased polynomial
        virtual ~P() = default;
        virtual int degree() const = 0;
        virtual std::string dump() const = 0;
        virtual std::unique_ptr<P> unary(const std::string &op, std::istream &in) = 0;
        virtual std::string observe(const std::string &op, std::istream &in) = 0;
        virtual std::unique_ptr<P> binary(const std::string &op, P &o) = 0;
    };

    template<int d>
    struct T : P {
        Polynomial<S, d> p;

        T() = default;

        explicit T(const Polynomial<S, d> &p) : p(p) {}

        int degree() const override { return d; }

        std::string dump() const override { return arr(p, d + 1); }

        template<int e>
        static std::unique_ptr<P> make(const Polynomial<S, e> &q) {
            if constexpr (e >= 0 && e <= MAXD) return std::make_unique<T<e>>(q);
            else return nullptr;
        }

        std::unique_ptr<P> unary(const std::string &op, std::istream &in) override {
            if (op == "neg") return make<d>(-p);
            if (op == "pos") return make<d>(+p);
            if (op == "der0") return make<d>(p.template derivative<0>());
            if constexpr (d >= 1) if (op == "der1") return make<d - 1>(p.derivative());
            if constexpr (d >= 2) if (op == "der2") return make<d - 2>(p.template derivative<2>());
            if constexpr (d >= 3) if (op == "der3") return make<d - 3>(p.template derivative<3>());
            if constexpr (d < MAXD) {
                if (op == "integ") return make<d + 1>(p.integral());
                if (op == "up") return make<d + 1>(Polynomial<S, d + 1>(p));
            }
            if constexpr (d + 2 <= MAXD) if (op == "up2") return make<d + 2>(Polynomial<S, d + 2>(p));
            S s = rd<S>(in);
            if (op == "sadd") return make<d>(p + s);
            if (op == "ssub") return make<d>(p - s);
            if (op == "smul") return make<d>(p * s);
            if (op == "sdiv") return make<d>(p / s);
            if (op == "rsadd") return make<d>(s + p);
            if (op == "rssub") return make<d>(s - p);
            if (op == "rsmul") return make<d>(s * p);
            if (op == "isadd") { auto &r = p += s; return &r == &p ? make<d>(p) : nullptr; }
            if (op == "issub") { auto &r = p -= s; return &r == &p ? make<d>(p) : nullptr; }
            if (op == "ismul") { auto &r = p *= s; return &r == &p ? make<d>(p) : nullptr; }
            if (op == "isdiv") { auto &r = p /= s; return &r == &p ? make<d>(p) : nullptr; }
            if (op == "fill") return make<d>(Polynomial<S, d>(s));
            return nullptr;
        }

        std::string observe(const std::string &op, std::istream &in) override {
            if (op == "size") return num<S>(S(p.size()));
            S x = rd<S>(in);
            if (op == "eval") return num<S>(p(x));
            if (op == "deval0") return num<S>(p.template derivative<0>(x));
            if (op == "deval1") return num<S>(p.derivative(x));
            if (op == "deval2") return num<S>(p.template derivative<2>(x));
            if (op == "deval3") return num<S>(p.template derivative<3>(x));
            if (op == "ieval") return num<S>(p.integral(x));
            return "";
        }

        template<int e>
        std::unique_ptr<P> bin(const std::string &op, Polynomial<S, e> &q) {
            if (op == "add") return make<(d > e ? d : e)>(p + q);
            if (op == "sub") return make<(d > e ? d : e)>(p - q);
            if (op == "mul") return make<d + e>(p * q);
            if constexpr (e <= d) {
                if (op == "iadd") { auto &r = p += q; return &r == &p ? make<d>(p) : nullptr; }
                if (op == "isub") { auto &r = p -= q; return &r == &p ? make<d>(p) : nullptr; }
            }
            if constexpr (e == d) {
                if (op == "eq") return make<0>(Polynomial<S, 0>(S(p == q ? 1 : 0)));
                if (op == "ne") return make<0>(Polynomial<S, 0>(S(p != q ? 1 : 0)));
                if (op == "asg") { p = q; return make<d>(p); }
            }
            return nullptr;
        }

        std::unique_ptr<P> binary(const std::string &op, P &o) override {
            switch (o.degree()) {
#define CASE(e) case e: if constexpr (d <= BIND && e <= BIND) return bin<e>(op, static_cast<T<e> &>(o).p); else return nullptr;
                CASE(0) CASE(1) CASE(2) CASE(3) CASE(4)
            }
            return nullptr;
        }
    };

    std::map<std::string, std::unique_ptr<P>> regs;

    template<int d>
    static std::unique_ptr<P> create(std::istream &in) {
        auto t = std::make_unique<T<d>>();
        for (int i = 0; i <= d; ++i) t->p[i] = rd<S>(in);
        return t;
    }

    std::string all() {
        std::string r = "{";
        bool f = true;
        for (auto &x: regs) {
            r += std::string(f ? "" : ",") + "\"" + x.first + "\":" + x.second->dump();
            f = false;
        }
        return r + "}";
    }

    std::string exec(const std::string &op, std::istream &in) {
        std::string a, b, dst;
        if (op == "regs") return "\"R\":" + all();
        if (op == "new") {
            int d;
            in >> dst >> d;
            switch (d) {
#define NEW(e) case e: regs[dst] = create<e>(in); break;
                NEW(0) NEW(1) NEW(2) NEW(3) NEW(4)
            }
            return "\"c\":" + regs[dst]->dump();
        }
        if (op == "bin") {
            std::string o;
            in >> o >> dst >> a >> b;
            auto r = regs.at(a)->binary(o, *regs.at(b));
            if (!r) return "\"bad\":\"binary\"";
            std::string c = r->dump();
            regs[dst] = std::move(r);
            return "\"c\":" + c + ",\"R\":" + all();
        }
        if (op == "un") {
            std::string o;
            in >> o >> dst >> a;
            auto r = regs.at(a)->unary(o, in);
            if (!r) return "\"bad\":\"unary\"";
            std::string c = r->dump();
            regs[dst] = std::move(r);
            return "\"c\":" + c + ",\"R\":" + all();
        }
        if (op == "obs") {
            std::string o;
            in >> o >> a;
            std::string r = regs.at(a)->observe(o, in);
            return r.empty() ? "\"bad\":\"observation\"" : "\"c\":[" + r + "],\"R\":" + all();
        }
        return "\"bad\":\"unknown\"";
    }
};

#endif
#ifdef HX_LEG
// ---------------------------------------------------------------- Legendre
template<typename S, int n>
std::string legendre_(const hx::Fn<S> &f, const S &a, const S &b) {
    std::vector<S> xs;
    auto g = [&](const S &x) { xs.push_back(x); return f(x); };
    legendre::Legendre<S, n> L(g, a, b);
    size_t count = xs.size();
    bool inside = true;
    for (auto &x: xs) inside = inside && a <= x && x <= b;
    auto co = L.getCoefficients();
    S i0 = L.integrate();
    std::string r = "\"c\":" + arr(co, n) + ",\"I\":" + num<S>(i0);
    if constexpr (n <= 16) {
        auto p = L.asPolynomial();
        auto q = L.asPolynomial();
        bool same = p == q;
        r += ",\"p\":" + arr(p, n);
        auto c2 = L.getCoefficients();
        for (int i = 0; i < n; ++i) same = same && co[i] == c2[i];
        legendre::Legendre<S, n> L2(g, a, b); // the other order of requests
        auto p2 = L2.asPolynomial();
        auto c3 = L2.getCoefficients();
        same = same && p2 == p && L2.integrate() == i0 && L.integrate() == i0;
        for (int i = 0; i < n; ++i) same = same && co[i] == c3[i];
        count = xs.size() - count == count ? count : 0;
        r += std::string(",\"same\":") + (same ? "1" : "0");
    } else {
        auto c2 = L.getCoefficients();
        bool same = L.integrate() == i0;
        for (int i = 0; i < n; ++i) same = same && co[i] == c2[i];
        r += std::string(",\"same\":") + (same ? "1" : "0");
    }
    // matrices, as the coupled problems use them
    if constexpr (!std::is_same<S, Q>::value) {
        typedef Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> M;
        auto h = [&](const S &x) -> M { M m(2, 2); S y = f(x); m << y, 2 * y, 2 * y, -y; return m; };
        auto mc = legendre::getCoefficients<n, S, M>(h, a, b);
        std::vector<S> e;
        for (int i = 0; i < n; ++i) {
            e.push_back(mc[i](0, 0));
            e.push_back(mc[i](0, 1) / 2);
            e.push_back(mc[i](1, 0) / 2);
            e.push_back(-mc[i](1, 1));
        }
        r += ",\"m\":" + arr(e, e.size());
    }
    return r + ",\"n\":" + std::to_string(count) + ",\"in\":" + (inside ? "1" : "0");
}

template<typename S>
std::string legendreN(int n, const hx::Fn<S> &f, const S &a, const S &b) {
    switch (n) {
#define L(k) case k: return legendre_<S, k>(f, a, b);
        L(1) L(2) L(3) L(4) L(5) L(6) L(7) L(8) L(9) L(10) L(11) L(12) L(13) L(14) L(15) L(16) L(17) L(18)
    }
    return "\"bad\":\"order\"";
}

#endif
#ifdef HX_ETA
// ---------------------------------------------------------------- eta
template<typename S, int n>
std::string eta_(const std::vector<S> &Z, bool asArray) {
    std::string r = "[";
    if (asArray) {
        Eigen::Array<S, Eigen::Dynamic, 1> z(Z.size());
        for (size_t i = 0; i < Z.size(); ++i) z[i] = Z[i];
        Eigen::Array<S, n, Eigen::Dynamic> e = calculateEta<S, n>(z);
        for (size_t i = 0; i < Z.size(); ++i) {
            std::vector<S> v;
            for (int j = 0; j < n; ++j) v.push_back(e(j, i));
            r += (i ? "," : "") + arr(v, n);
        }
    } else {
        for (size_t i = 0; i < Z.size(); ++i) r += (i ? "," : "") + arr(calculateEta<S, n>(Z[i]), n);
    }
    return r + "]";
}

template<typename S>
std::string etaN(int n, const std::vector<S> &Z, bool asArray) {
    switch (n) {
#define E(k) case k: return eta_<S, k>(Z, asArray);
        E(2) E(3) E(4) E(5) E(6) E(7) E(8) E(9) E(10) E(11) E(12) E(14)
    }
    return "[]";
}

#endif

struct Session {
#ifdef HX_POLY
    Polys<double> pd;
    Polys<long double> pl;
#endif

    template<typename S>
    std::string numeric(const std::string &cmd, std::istream &in) {
#ifdef HX_LEG
        if (cmd == "leg") { // leg t n a b fn
            int n;
            in >> n;
            S a = rd<S>(in), b = rd<S>(in);
            return legendreN<S>(n, hx::Fn<S>::parse(in), a, b);
        }
#endif
#ifdef HX_ETA
        if (cmd == "eta" || cmd == "etaA") { // eta t n k Z1 .. Zk
            int n, k;
            in >> n >> k;
            std::vector<S> z;
            while (k-- > 0) z.push_back(rd<S>(in));
            return "\"Z\":" + arr(z, z.size()) + ",\"e\":" + etaN<S>(n, z, cmd == "etaA");
        }
#endif
        return "\"bad\":\"unknown command\"";
    }

    std::string exec(const std::string &cmd, std::istream &in) {
        std::string t;
        in >> t;
#ifdef HX_POLY
        if (cmd == "poly") {
            std::string op;
            in >> op;
            return t == "double" ? pd.exec(op, in) : pl.exec(op, in);
        }
#endif
        if (t == "double") return numeric<double>(cmd, in);
        if (t == "long") return numeric<long double>(cmd, in);
        return numeric<Q>(cmd, in);
    }

    void run(const std::vector<std::string> &lines, hx::Out &o) {
        for (auto &l: lines) {
            std::istringstream in(l);
            std::string cmd, r;
            in >> cmd;
            try {
                r = exec(cmd, in);
            } catch (const std::exception &e) {
                r = "\"exc\":" + hx::esc(e.what());
            }
            o.line("{\"ev\":\"" + cmd + "\"," + r + "}");
        }
    }
};

int main(int argc, char **argv) {
    return hx::main_loop(argc, argv, [](std::vector<std::string> &lines, hx::Out &o) {
        Session s;
        s.run(lines, o);
    });
}
