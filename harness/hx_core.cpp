// Harness for the scalar problems: Matslise, MatsliseHalf, PeriodicMatslise, SturmLiouville, LiouvilleTransformation.
#include "hx.h"
#include <climits>
#include <matslise/matslise.h>
#ifdef HX_SL
#include <matslise/liouville.h>
#endif

#ifndef HX_SCALARS
#define HX_DOUBLE_ONLY
#endif

using namespace matslise;
using hx::num;

template<typename S>
struct Session {
    typedef typename AbstractMatslise<S>::Eigenfunction EF;
    struct Sampling { // evaluations of user functions
        std::atomic<long> constructing{0}, later{0}, outside{0};
        std::atomic<bool> ready{false};
        S lo, hi;
        bool hasDomain = false;
        std::mutex m;
        std::vector<S> pts;
        bool log = false;
    };
    struct Obj {
        std::string kind;
        std::shared_ptr<Matslise<S>> ms;
        std::shared_ptr<MatsliseHalf<S>> half;
#ifdef HX_PERIODIC
        std::shared_ptr<PeriodicMatslise<S>> per;
#endif
#ifdef HX_SL
        std::shared_ptr<SturmLiouville<S>> sl;
        std::shared_ptr<LiouvilleTransformation<S>> lt;
#endif
        AbstractMatslise<S> *am = nullptr;
        std::vector<std::shared_ptr<Sampling>> sampling;
        const Matslise<S> *mesh() const {
            if (ms) return ms.get();
            if (half) return half->ms.get();
#ifdef HX_PERIODIC
            if (per) return &per->matslise;
#endif
            return nullptr;
        }
    };

    std::map<std::string, hx::Fn<S>> fns;
    std::map<std::string, Obj> objs;
    std::map<std::string, std::shared_ptr<EF>> efs;
    hx::Out *out;
    bool logPoints = false;

    // a number, or a position relative to the mesh of an object:
    //   @m:<obj>:<k>  left end of sector k (k modulo the number of sectors + 1), @M:<obj> the matching point,
    //   @c:<obj>:<k>:<f>  point at fraction f of sector k,  @v:<obj>:<k>:<off>  mean potential of sector k plus off / h^2
    S rd(std::istream &in) {
        std::string t;
        in >> t;
        if (t[0] == '@') {
            std::vector<std::string> p;
            std::istringstream ss(t);
            std::string q;
            while (std::getline(ss, q, ':')) p.push_back(q);
            const Matslise<S> *m = objs.at(p[1]).mesh();
            long n = (long) m->sectors.size();
            if (p[0] == "@M") return m->sectors[m->matchIndex]->max;
            long k = std::stol(p[2]);
            if (p[0] == "@m") {
                k %= n + 1;
                return k == n ? m->sectors[n - 1]->max : m->sectors[k]->min;
            }
            k %= n;
            S f(strtod(p[3].c_str(), nullptr));
            if (p[0] == "@c") {
                S x = m->sectors[k]->min + f * (m->sectors[k]->max - m->sectors[k]->min);
                return x > m->sectors[k]->max ? m->sectors[k]->max : x;
            }
            return m->sectors[k]->vs[0] + f / (m->sectors[k]->h * m->sectors[k]->h);
        }
        if (t.find('/') != std::string::npos) { // high part / low part: exact sum of two doubles
            auto p = t.find('/');
            return S(strtod(t.substr(0, p).c_str(), nullptr)) + S(strtod(t.substr(p + 1).c_str(), nullptr));
        }
        return S(strtod(t.c_str(), nullptr));
    }

    Y<S> rdY(std::istream &in) {
        Y<S> y;
        y.y()[0] = rd(in);
        y.y()[1] = rd(in);
        return y;
    }

    std::function<S(S)> wrap(Obj &o, const std::string &name, const S &lo, const S &hi) {
        auto s = std::make_shared<Sampling>();
        s->lo = lo;
        s->hi = hi;
        s->log = logPoints;
        o.sampling.push_back(s);
        auto f = std::make_shared<hx::Fn<S>>(fns.at(name));
        return [s, f](S x) -> S {
            if (s->ready) ++s->later; else ++s->constructing;
            if (!(x >= s->lo && x <= s->hi)) ++s->outside;
            if (s->log) {
                std::lock_guard<std::mutex> g(s->m);
                s->pts.push_back(x);
            }
            return (*f)(x);
        };
    }

    std::string samples(const Obj &o) {
        long a = 0, b = 0, c = 0;
        for (auto &s: o.sampling) {
            a += s->constructing;
            b += s->later;
            c += s->outside;
        }
        return "\"sc\":" + std::to_string(a) + ",\"sl\":" + std::to_string(b) + ",\"so\":" + std::to_string(c);
    }

    std::unique_ptr<sector_builder::SectorBuilder<Matslise<S>>> builder(std::istream &in, const S &tol) {
        std::string k;
        in >> k;
        if (k == "uni") {
            int n;
            in >> n;
            return std::make_unique<sector_builder::UniformSectorBuilder<Matslise<S>>>(n);
        }
        auto b = std::make_unique<sector_builder::AutomaticSectorBuilder<Matslise<S>>>(tol);
        if (k == "jump") {
            int n;
            in >> n;
            for (int i = 0; i < n; ++i) b->jumps.push_back(rd(in));
        }
        return b;
    }

    static std::string jy(const Eigen::Array<S, 2, 1> &a) {
        return "[" + num<S>(a[0]) + "," + num<S>(a[1]) + "]";
    }

    static std::string jY(const Y<S> &y) {
        return "[" + num<S>(y.data[0]) + "," + num<S>(y.data[1]) + "," + num<S>(y.data[2]) + "," + num<S>(y.data[3]) + "]";
    }

    template<typename V>
    static std::string jvals(const V &v) {
        std::string r = "[";
        for (auto &p: v) r += (r.size() > 1 ? "," : "") + ("[" + std::to_string(p.first)) + "," + num<S>(p.second) + "]";
        return r + "]";
    }

    // executes one command; returns the JSON fields of the event
    std::string exec(const std::string &cmd, std::istream &in) {
        std::string o;
        if (cmd == "fn") {
            in >> o;
            fns[o] = hx::Fn<S>::parse(in);
            return "";
        }
        if (cmd == "log") {
            logPoints = true;
            return "";
        }
        if (cmd == "ms" || cmd == "half" || cmd == "per") {
            std::string f;
            in >> o >> f;
            Obj ob;
            ob.kind = cmd;
            S a = cmd == "half" ? S(0) : rd(in);
            S b = rd(in);
            S tol = rd(in);
            auto sb = builder(in, tol);
            auto V = wrap(ob, f, a, b);
            if (cmd == "ms") {
                ob.ms = std::make_shared<Matslise<S>>(V, a, b, tol, *sb);
                ob.am = ob.ms.get();
            } else if (cmd == "half") {
                ob.half = std::make_shared<MatsliseHalf<S>>(V, b, tol, *sb);
                ob.am = ob.half.get();
            }
#ifdef HX_PERIODIC
            else {
                Eigen::Matrix<S, 2, 2> K;
                for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) K(i, j) = rd(in);
                ob.per = std::make_shared<PeriodicMatslise<S>>(V, a, b, tol, *sb, K);
            }
#endif
            for (auto &s: ob.sampling) s->ready = true;
            std::string r = "\"ok\":1," + samples(ob);
            objs[o] = ob;
            return r;
        }
        if (cmd == "msauto") { // constructors without explicit builder: msauto o f a b tol
            std::string f;
            in >> o >> f;
            Obj ob;
            ob.kind = "ms";
            S a = rd(in), b = rd(in), tol = rd(in);
            auto V = wrap(ob, f, a, b);
            ob.ms = std::make_shared<Matslise<S>>(V, a, b, tol);
            ob.am = ob.ms.get();
            for (auto &s: ob.sampling) s->ready = true;
            objs[o] = ob;
            return "\"ok\":1," + samples(ob);
        }
#ifdef HX_SL
        if (cmd == "sl" || cmd == "lt") {
            std::string p, q, w;
            in >> o >> p >> q >> w;
            Obj ob;
            ob.kind = cmd;
            S a = rd(in), b = rd(in), tol = cmd == "sl" ? rd(in) : S(0);
            auto P = wrap(ob, p, a, b), Q = wrap(ob, q, a, b), W = wrap(ob, w, a, b);
            if (cmd == "sl") ob.sl = std::make_shared<SturmLiouville<S>>(P, Q, W, Domain<S>{a, b}, tol);
            else ob.lt = std::make_shared<LiouvilleTransformation<S>>(Domain<S>{a, b}, P, Q, W);
            for (auto &s: ob.sampling) s->ready = true;
            objs[o] = ob;
            return "\"ok\":1," + samples(ob);
        }
        if (cmd == "pieces") {
            in >> o;
            Obj &ob = objs.at(o);
            std::string r = "\"pieces\":[";
            bool f = true;
            for (auto &p: ob.lt->pieces) {
                r += std::string(f ? "" : ",") + "[" + num<S>(p.r.min) + "," + num<S>(p.r.max) + "," + num<S>(p.x.min) + "," + num<S>(p.x.max) + "]";
                f = false;
            }
            auto d = ob.lt->xDomain();
            auto rd_ = ob.lt->rDomain();
            return r + "],\"xd\":[" + num<S>(d.min) + "," + num<S>(d.max) + "],\"rd\":[" + num<S>(rd_.min) + "," + num<S>(rd_.max) + "]";
        }
        if (cmd == "r2x" || cmd == "x2r" || cmd == "ltV") {
            in >> o;
            Obj &ob = objs.at(o);
            S x = rd(in);
            S v = cmd == "r2x" ? ob.lt->r2x(x) : cmd == "x2r" ? ob.lt->x2r(x) : ob.lt->V(x);
            return "\"x\":" + num<S>(x) + ",\"v\":" + num<S>(v);
        }
        if (cmd == "z2y" || cmd == "y2z") {
            in >> o;
            Obj &ob = objs.at(o);
            S x = rd(in);
            Y<S> y;
            for (int i = 0; i < 4; ++i) y.data[i] = rd(in);
            Y<S> z = cmd == "z2y" ? ob.lt->z2y(x, y) : ob.lt->y2z(x, y);
            return "\"Y\":" + jY(z);
        }
        if (cmd == "ltms") { // ltms new lt tol : Matslise on the transformed problem
            std::string l;
            in >> o >> l;
            S tol = rd(in);
            auto lt = objs.at(l).lt;
            Obj ob;
            ob.kind = "ms";
            ob.ms = std::make_shared<Matslise<S>>([lt](S x) { return lt->V(x); }, lt->xDomain(), tol);
            ob.am = ob.ms.get();
            objs[o] = ob;
            return "\"ok\":1";
        }
#endif
        if (cmd == "points") {
            in >> o;
            std::string r = "\"pts\":[";
            bool f = true;
            for (auto &s: objs.at(o).sampling) for (auto &x: s->pts) {
                r += (f ? "" : ",") + num<S>(x);
                f = false;
            }
            return r + "]";
        }
        if (cmd == "samples") {
            in >> o;
            return samples(objs.at(o));
        }
        if (cmd == "sectors") {
            in >> o;
            const Matslise<S> *m = objs.at(o).mesh();
            std::string r = "\"mi\":" + std::to_string(m->matchIndex) + ",\"sc\":" + std::to_string(m->sectorCount) + ",\"s\":[";
            bool f = true;
            for (auto &s: m->sectors) {
                r += std::string(f ? "" : ",") + "[" + num<S>(s->min) + "," + num<S>(s->max) + "," + num<S>(s->h) + "," +
                     std::to_string(s->direction == forward ? 1 : s->direction == backward ? -1 : 0) + "]";
                f = false;
            }
            return r + "]";
        }
        if (cmd == "prop" || cmd == "perprop1") { // prop o E y dy ye dye a b use_h
            in >> o;
            Obj &ob = objs.at(o);
            S E = rd(in);
            Y<S> y;
            for (int i = 0; i < 4; ++i) y.data[i] = rd(in);
            S a = rd(in), b = rd(in);
            int uh;
            in >> uh;
            auto r = ob.mesh()->template propagate<1>(E, y, a, b, uh != 0);
            return "\"Y\":" + jY(r.first) + ",\"th\":" + num<S>(r.second) + ",\"E\":" + num<S>(E) + ",\"ab\":[" + num<S>(a) + "," + num<S>(b) + "]";
        }
        if (cmd == "walk") { // walk o E y dy ye dye n x0 .. xn : n chained propagations
            in >> o;
            Obj &ob = objs.at(o);
            S E = rd(in);
            Y<S> y;
            for (int i = 0; i < 4; ++i) y.data[i] = rd(in);
            int n;
            in >> n;
            S a = rd(in);
            std::string r = "\"E\":" + num<S>(E) + ",\"x\":[" + num<S>(a), ys = ",\"Y\":[" + jY(y), th = ",\"th\":[";
            for (int i = 0; i < n; ++i) {
                S b = rd(in);
                auto q = ob.mesh()->template propagate<1>(E, y, a, b, i % 2 == 0);
                y = q.first;
                a = b;
                r += "," + num<S>(b);
                ys += "," + jY(y);
                th += (i ? "," : "") + num<S>(q.second);
            }
            return r + "]" + ys + "]" + th + "]";
        }
        if (cmd == "prop2") { // two columns
            in >> o;
            Obj &ob = objs.at(o);
            S E = rd(in);
            Y<S, 1, 2> y;
            for (int j = 0; j < 2; ++j) for (int i = 0; i < 4; ++i) y.data(i, j) = rd(in);
            S a = rd(in), b = rd(in);
            int uh;
            in >> uh;
#ifdef HX_PERIODIC
            auto r = ob.per ? ob.per->propagate(E, y, a, b, uh != 0) : ob.mesh()->template propagate<2>(E, y, a, b, uh != 0);
#else
            auto r = ob.mesh()->template propagate<2>(E, y, a, b, uh != 0);
#endif
            return "\"Y\":[" + jY(r.first.col(0)) + "," + jY(r.first.col(1)) + "],\"th\":[" + num<S>(r.second[0]) + "," + num<S>(r.second[1]) + "],\"E\":" + num<S>(E) + ",\"ab\":[" + num<S>(a) + "," + num<S>(b) + "]";
        }
        if (cmd == "merr") {
            in >> o;
            Obj &ob = objs.at(o);
            S E = rd(in);
            Y<S> l = rdY(in), r = rdY(in);
            auto t = ob.mesh()->matchingError(E, l, r);
            return "\"E\":" + num<S>(E) + ",\"m\":[" + num<S>(std::get<0>(t)) + "," + num<S>(std::get<1>(t)) + "," + num<S>(std::get<2>(t)) + "]";
        }
        if (cmd == "evi" || cmd == "ev" || cmd == "evi1" || cmd == "ev1") {
            // evi o Imin Imax l r ; ev o Emin Emax l r ; *1: one-sided overload
            in >> o;
            Obj &ob = objs.at(o);
            bool byIndex = cmd[2] == 'i', one = cmd.back() == '1';
            int i0 = 0, i1 = 0;
            S e0(0), e1(0);
            if (byIndex) in >> i0 >> i1;
            else {
                e0 = rd(in);
                e1 = rd(in);
            }
#ifdef HX_PERIODIC
            if (ob.per) {
                auto v = byIndex ? ob.per->eigenvaluesByIndex(i0, i1) : ob.per->eigenvalues(e0, e1);
                std::string r = "\"v\":[";
                for (auto &p: v) r += (r.size() > 5 ? "," : "") + ("[" + std::to_string(std::get<0>(p))) + "," + num<S>(std::get<1>(p)) + "," + std::to_string(std::get<2>(p)) + "]";
                return r + "]";
            }
#endif
            Y<S> l = rdY(in);
            Y<S> r = one ? l : rdY(in);
#ifdef HX_SL
            if (ob.sl) return "\"v\":" + jvals(ob.sl->eigenvaluesByIndex(i0, i1, l, r));
#endif
            if (byIndex) return "\"v\":" + jvals(one ? ob.am->eigenvaluesByIndex(i0, i1, l) : ob.am->eigenvaluesByIndex(i0, i1, l, r));
            return "\"v\":" + jvals(one ? ob.am->eigenvalues(e0, e1, l) : ob.am->eigenvalues(e0, e1, l, r));
        }
        if (cmd == "eve" || cmd == "eve1") { // eve o E l r index
            in >> o;
            Obj &ob = objs.at(o);
            S E = rd(in);
            Y<S> l = rdY(in), r;
            if (cmd == "eve") r = rdY(in);
            int ix;
            in >> ix;
            S v;
#ifdef HX_SL
            if (ob.sl) v = ob.sl->eigenvalueError(E, l, r, ix);
            else
#endif
            v = cmd == "eve1" ? ob.am->eigenvalueError(E, l, ix) : ob.am->eigenvalueError(E, l, r, ix);
            return "\"err\":" + num<S>(v);
        }
        if (cmd == "min") {
            in >> o;
            return "\"v\":" + num<S>(objs.at(o).am->estimatePotentialMinimum());
        }
        if (cmd == "ep" || cmd == "ep1") { // ep prefix o Imin Imax l r : eigenpairs, eigenfunctions stored as prefix<k>
            std::string pre;
            in >> pre >> o;
            Obj &ob = objs.at(o);
            int i0, i1;
            in >> i0 >> i1;
            std::string res = "\"v\":[";
#ifdef HX_PERIODIC
            if (ob.per) {
                auto v = ob.per->eigenpairsByIndex(i0, i1);
                return perPairs(pre, v);
            }
#endif
            Y<S> l = rdY(in);
            Y<S> r = cmd == "ep1" ? l : rdY(in);
            auto store = [&](auto &&v) {
                int k = 0;
                for (auto &t: v) {
                    res += (k ? ",[" : "[") + std::to_string(std::get<0>(t)) + "," + num<S>(std::get<1>(t)) + "]";
                    efs[pre + std::to_string(k++)] = std::shared_ptr<EF>(std::move(std::get<2>(t)));
                }
            };
#ifdef HX_SL
            if (ob.sl) store(ob.sl->eigenpairsByIndex(i0, i1, l, r));
            else
#endif
            if (cmd == "ep1") store(ob.am->eigenpairsByIndex(i0, i1, l));
            else store(ob.am->eigenpairsByIndex(i0, i1, l, r));
            return res + "]";
        }
#ifdef HX_PERIODIC
        if (cmd == "epE") { // energy window with eigenfunctions (periodic)
            std::string pre;
            in >> pre >> o;
            S e0 = rd(in), e1 = rd(in);
            auto v = objs.at(o).per->eigenpairs(e0, e1);
            return perPairs(pre, v);
        }
        if (cmd == "perr") {
            in >> o;
            S E = rd(in);
            auto r = objs.at(o).per->matchingError(E);
            return "\"Y\":[" + jY(r.first.col(0)) + "," + jY(r.first.col(1)) + "],\"th\":[" + num<S>(r.second[0]) + "," + num<S>(r.second[1]) + "]";
        }
        if (cmd == "perf") { // perf prefix o E
            std::string pre;
            in >> pre >> o;
            S E = rd(in);
            auto v = objs.at(o).per->eigenfunction(E);
            int k = 0;
            for (auto &f: v) efs[pre + std::to_string(k++)] = std::shared_ptr<EF>(std::move(f));
            return "\"n\":" + std::to_string(v.size());
        }
#endif
        if (cmd == "ef" || cmd == "ef1") { // ef name o E l r index
            std::string name;
            in >> name >> o;
            Obj &ob = objs.at(o);
            S E = rd(in);
            Y<S> l = rdY(in), r;
            if (cmd == "ef") r = rdY(in);
            int ix;
            in >> ix;
            efs[name] = std::shared_ptr<EF>(cmd == "ef1" ? ob.am->eigenfunction(E, l, ix) : ob.am->eigenfunction(E, l, r, ix));
            return "\"ok\":1";
        }
        if (cmd == "eval" || cmd == "evala") { // eval name n x...
            int n;
            in >> o >> n;
            EF &f = *efs.at(o);
            Eigen::Array<S, Eigen::Dynamic, 1> x(n);
            for (int i = 0; i < n; ++i) x[i] = rd(in);
            std::string r = "\"y\":[";
            if (cmd == "eval") {
                for (int i = 0; i < n; ++i) r += (i ? "," : "") + jy(f(x[i]));
            } else {
                Eigen::Array<S, Eigen::Dynamic, 2> y = f(x);
                if (y.rows() != n) return "\"bad\":\"rows\"";
                for (int i = 0; i < n; ++i) r += (i ? "," : "") + jy(Eigen::Array<S, 2, 1>(y(i, 0), y(i, 1)));
            }
            return r + "]";
        }
        if (cmd == "dropef") {
            in >> o;
            efs.erase(o);
            return "\"ok\":1";
        }
        if (cmd == "drop") {
            in >> o;
            objs.erase(o);
            return "\"ok\":1";
        }
        return "\"bad\":\"unknown command\"";
    }

#ifdef HX_PERIODIC
    template<typename V>
    std::string perPairs(const std::string &pre, V &v) {
        std::string res = "\"v\":[";
        int k = 0;
        bool f = true;
        for (auto &t: v) {
            res += (f ? "[" : ",[") + std::to_string(std::get<0>(t)) + "," + num<S>(std::get<1>(t)) + "," + std::to_string(std::get<2>(t).size()) + "]";
            f = false;
            for (auto &e: std::get<2>(t)) efs[pre + std::to_string(k++)] = std::shared_ptr<EF>(std::move(e));
        }
        return res + "]";
    }
#endif

    std::string event(const std::string &ln) {
        std::istringstream in(ln);
        std::string cmd;
        in >> cmd;
        std::string r;
        try {
            r = exec(cmd, in);
        } catch (const std::bad_alloc &e) {
            r = "\"exc\":\"bad_alloc\"";
        } catch (const std::exception &e) {
            r = "\"exc\":" + hx::esc(e.what());
        } catch (...) {
            r = "\"exc\":\"unknown\"";
        }
        return r;
    }

    void run(const std::vector<std::string> &lines, hx::Out &o) {
        out = &o;
        for (size_t i = 0; i < lines.size(); ++i) {
            if (lines[i].rfind("par ", 0) == 0) { // par <threads> <m> : the next m lines run concurrently, each on <threads> threads
                int nt, m;
                sscanf(lines[i].c_str() + 4, "%d %d", &nt, &m);
                std::vector<std::string> res(nt * m);
                std::vector<std::thread> th;
                std::atomic<int> gate{0};
                for (int t = 0; t < nt; ++t)
                    th.emplace_back([&, t]() {
                        ++gate;
                        while (gate < nt) std::this_thread::yield();
                        for (int k = 0; k < m; ++k) {
                            int q = (k + t) % m;
                            res[t * m + q] = event(lines[i + 1 + q]);
                        }
                    });
                for (auto &t: th) t.join();
                for (int q = 0; q < m; ++q)
                    for (int t = 0; t < nt; ++t)
                        o.line("{\"ev\":\"par\",\"q\":" + std::to_string(q) + ",\"t\":" + std::to_string(t) + "," + res[t * m + q] + "}");
                i += m;
                continue;
            }
            std::istringstream in(lines[i]);
            std::string cmd;
            in >> cmd;
            std::string r = event(lines[i]);
            if (!r.empty()) o.line("{\"ev\":\"" + cmd + "\"," + r + "}");
        }
    }
};

int main(int argc, char **argv) {
    return hx::main_loop(argc, argv, [](std::vector<std::string> &lines, hx::Out &o) {
        std::string scalar = "double";
        if (!lines.empty() && lines[0].rfind("scalar ", 0) == 0) {
            scalar = lines[0].substr(7);
            lines.erase(lines.begin());
        }
#ifdef MATSLISE_LONG_DOUBLE
        if (scalar == "long") {
            Session<long double> s;
            s.run(lines, o);
            return;
        }
#endif
#ifdef MATSLISE_QUADMATH
        if (scalar == "quad") {
            Session<boost::multiprecision::float128> s;
            s.run(lines, o);
            return;
        }
#endif
        Session<double> s;
        s.run(lines, o);
    });
}
