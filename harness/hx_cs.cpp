// Harness for the coupled problems: Matscs.
#include "hx.h"
#include <climits>
#include <matslise/matscs.h>

using namespace matslise;
using hx::num;
typedef double S;
typedef Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> M;

struct Session {
    struct Sampling {
        std::atomic<long> constructing{0}, later{0}, outside{0};
        std::atomic<bool> ready{false};
        S lo, hi;
    };
    struct Obj {
        std::shared_ptr<Matscs<S>> ms;
        std::shared_ptr<Sampling> sampling;
        int n;
    };
    std::map<std::string, hx::Fn<S>> fns;
    std::map<std::string, Obj> objs;

    S rd(std::istream &in) {
        std::string t;
        in >> t;
        if (t[0] == '@') { // see hx_core.cpp
            std::vector<std::string> p;
            std::istringstream ss(t);
            std::string q;
            while (std::getline(ss, q, ':')) p.push_back(q);
            const Matscs<S> *m = objs.at(p[1]).ms.get();
            long n = (long) m->sectors.size();
            if (p[0] == "@M") return m->sectors[m->matchIndex]->max;
            long k = std::stol(p[2]);
            if (p[0] == "@m") {
                k %= n + 1;
                return k == n ? m->sectors[n - 1]->max : m->sectors[k]->min;
            }
            k %= n;
            S f = strtod(p[3].c_str(), nullptr);
            if (p[0] == "@c") {
                S x = m->sectors[k]->min + f * (m->sectors[k]->max - m->sectors[k]->min);
                return x > m->sectors[k]->max ? m->sectors[k]->max : x;
            }
            // @v:<obj>:<k>:<off>:<channel>
            return m->sectors[k]->vs[0](std::stol(p[4]) % m->n, std::stol(p[4]) % m->n) + f / (m->sectors[k]->h * m->sectors[k]->h);
        }
        return strtod(t.c_str(), nullptr);
    }

    M rdM(std::istream &in, int r, int c) {
        M m(r, c);
        for (int j = 0; j < c; ++j) for (int i = 0; i < r; ++i) m(i, j) = rd(in);
        return m;
    }

    static std::string jM(const M &m) { // column by column
        std::string r = "[";
        for (int j = 0; j < m.cols(); ++j) {
            r += j ? ",[" : "[";
            for (int i = 0; i < m.rows(); ++i) r += (i ? "," : "") + num<S>(m(i, j));
            r += "]";
        }
        return r + "]";
    }

    std::unique_ptr<sector_builder::SectorBuilder<Matscs<S>>> builder(std::istream &in, const S &tol) {
        std::string k;
        in >> k;
        int n;
        if (k == "uni") {
            in >> n;
            return std::make_unique<sector_builder::UniformSectorBuilder<Matscs<S>>>(n);
        }
        auto b = std::make_unique<sector_builder::AutomaticSectorBuilder<Matscs<S>>>(tol);
        if (k == "jump") {
            in >> n;
            for (int i = 0; i < n; ++i) b->jumps.push_back(rd(in));
        }
        return b;
    }

    std::string exec(const std::string &cmd, std::istream &in) {
        std::string o;
        if (cmd == "fn") {
            in >> o;
            fns[o] = hx::Fn<S>::parse(in);
            return "";
        }
        in >> o;
        if (cmd == "cs") { // cs o n f11 f12 f22 f13 .. a b tol builder (upper triangle column by column)
            Obj ob;
            in >> ob.n;
            int n = ob.n;
            std::vector<hx::Fn<S>> f;
            for (int i = 0; i < n * (n + 1) / 2; ++i) {
                std::string t;
                in >> t;
                f.push_back(fns.at(t));
            }
            S a = rd(in), b = rd(in), tol = rd(in);
            auto sb = builder(in, tol);
            auto s = std::make_shared<Sampling>();
            s->lo = a;
            s->hi = b;
            ob.sampling = s;
            auto V = [n, f, s](S x) -> M {
                if (s->ready) ++s->later; else ++s->constructing;
                if (!(x >= s->lo && x <= s->hi)) ++s->outside;
                M v(n, n);
                int k = 0;
                for (int j = 0; j < n; ++j) for (int i = 0; i <= j; ++i) v(i, j) = v(j, i) = f[k++](x);
                return v;
            };
            ob.ms = std::make_shared<Matscs<S>>(V, n, a, b, *sb);
            s->ready = true;
            objs[o] = ob;
            return "\"ok\":1,\"sc\":" + std::to_string(s->constructing);
        }
        Obj &ob = objs.at(o);
        const Matscs<S> &m = *ob.ms;
        int n = ob.n;
        if (cmd == "samples")
            return "\"sc\":" + std::to_string(ob.sampling->constructing) + ",\"sl\":" + std::to_string(ob.sampling->later) + ",\"so\":" + std::to_string(ob.sampling->outside);
        if (cmd == "drop") {
            objs.erase(o);
            return "\"ok\":1";
        }
        if (cmd == "sectors") {
            std::string r = "\"mi\":" + std::to_string(m.matchIndex) + ",\"sc\":" + std::to_string(m.sectorCount) + ",\"s\":[";
            bool f = true;
            for (auto &s: m.sectors) {
                r += std::string(f ? "" : ",") + "[" + num<S>(s->min) + "," + num<S>(s->max) + "," + num<S>(s->h) + "," +
                     std::to_string(s->direction == forward ? 1 : s->direction == backward ? -1 : 0) + "]";
                f = false;
            }
            return r + "]";
        }
        S E = rd(in);
        std::string head = "\"E\":" + num<S>(E) + ",";
        if (cmd == "prop") { // prop o E y0 (4n x n, column by column: y, y', yE, y'E) a b use_h
            Y<S, Eigen::Dynamic> y(n);
            y.data = rdM(in, 4 * n, n);
            S a = rd(in), b = rd(in);
            int uh;
            in >> uh;
            auto r = m.propagate(E, y, a, b, uh != 0);
            return head + "\"ab\":[" + num<S>(a) + "," + num<S>(b) + "],\"Y\":" + jM(r.first.data) + ",\"th\":" + num<S>(r.second);
        }
        if (cmd == "walk") { // walk o E y0 (4n x n) k p0 .. pk
            Y<S, Eigen::Dynamic> y(n);
            y.data = rdM(in, 4 * n, n);
            int k;
            in >> k;
            S at = rd(in);
            std::string ys = jM(y.data), xs = num<S>(at);
            S th = 0;
            for (int i = 0; i < k; ++i) {
                S to = rd(in);
                auto r = m.propagate(E, y, at, to);
                y = r.first;
                th += r.second;
                at = to;
                ys += "," + jM(y.data);
                xs += "," + num<S>(at);
            }
            return head + "\"x\":[" + xs + "],\"Y\":[" + ys + "],\"th\":" + num<S>(th);
        }
        if (cmd == "propc1" || cmd == "propc") { // single column / all columns
            int c = cmd == "propc1" ? 1 : n;
            M d = rdM(in, 4 * n, c);
            S a = rd(in), b = rd(in);
            int uh;
            in >> uh;
            M res;
            if (c == 1 && cmd == "propc1") {
                Y<S, Eigen::Dynamic, 1> y(n);
                y.data = d;
                res = m.propagateColumn<1>(E, y, a, b, uh != 0).data;
            } else {
                Y<S, Eigen::Dynamic> y(n);
                y.data = d;
                res = m.propagateColumn<-1>(E, y, a, b, uh != 0).data;
            }
            return head + "\"ab\":[" + num<S>(a) + "," + num<S>(b) + "],\"Y\":" + jM(res);
        }
        if (cmd == "psi") {
            M p = rdM(in, n, n);
            S a = rd(in), b = rd(in);
            M r = m.propagatePsi(E, p, a, b);
            return head + "\"ab\":[" + num<S>(a) + "," + num<S>(b) + "],\"P\":" + jM(r);
        }
        return "\"bad\":\"unknown command\"";
    }

    std::string event(const std::string &ln) {
        std::istringstream in(ln);
        std::string cmd;
        in >> cmd;
        try {
            return exec(cmd, in);
        } catch (const std::bad_alloc &e) {
            return "\"exc\":\"bad_alloc\"";
        } catch (const std::exception &e) {
            return "\"exc\":" + hx::esc(e.what());
        } catch (...) {
            return "\"exc\":\"unknown\"";
        }
    }

    void run(const std::vector<std::string> &lines, hx::Out &o) {
        for (size_t i = 0; i < lines.size(); ++i) {
            if (lines[i].rfind("par ", 0) == 0) {
                int nt, m;
                sscanf(lines[i].c_str() + 4, "%d %d", &nt, &m);
                std::vector<std::string> res(nt * m);
                std::vector<std::thread> th;
                std::atomic<int> gate{0};
                for (int t = 0; t < nt; ++t)
                    th.emplace_back([&, t]() {
                        ++gate;
                        while (gate < nt) std::this_thread::yield();
                        for (int k = 0; k < m; ++k) {
                            int q = (k + t) % m;
                            res[t * m + q] = event(lines[i + 1 + q]);
                        }
                    });
                for (auto &t: th) t.join();
                for (int q = 0; q < m; ++q)
                    for (int t = 0; t < nt; ++t)
                        o.line("{\"ev\":\"par\",\"q\":" + std::to_string(q) + ",\"t\":" + std::to_string(t) + "," + res[t * m + q] + "}");
                i += m;
                continue;
            }
            std::istringstream in(lines[i]);
            std::string cmd;
            in >> cmd;
            std::string r = event(lines[i]);
            if (!r.empty()) o.line("{\"ev\":\"" + cmd + "\"," + r + "}");
        }
    }
};

int main(int argc, char **argv) {
    return hx::main_loop(argc, argv, [](std::vector<std::string> &lines, hx::Out &o) {
        Session s;
        s.run(lines, o);
    });
}
