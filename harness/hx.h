// Script interpreter shared by the harnesses: executes cases against the public API of matslise and
// records one JSON event per command.  Numbers are written as hexadecimal floats (exact).
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <iostream>
#include <functional>
#include <memory>
#include <chrono>
#include <atomic>
#include <mutex>
#include <thread>
#include <unistd.h>
#include <poll.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#ifdef MATSLISE_QUADMATH
#include <boost/multiprecision/float128.hpp>
#include <quadmath.h>
#endif

namespace hx {
    template<typename S>
    std::string num(const S &v);

    template<>
    inline std::string num<double>(const double &v) {
        char b[64];
        snprintf(b, 64, "\"%a\"", v);
        return b;
    }

    template<>
    inline std::string num<long double>(const long double &v) {
        char b[96];
        snprintf(b, 96, "\"%La\"", v);
        return b;
    }

#ifdef MATSLISE_QUADMATH
    template<>
    inline std::string num<boost::multiprecision::float128>(const boost::multiprecision::float128 &v) {
        char b[128];
        quadmath_snprintf(b, 128, "%Qa", v.backend().value());
        return "\"" + std::string(b) + "\"";
    }
#endif

    // ------------------------------------------------------------------ functions
    template<typename S>
    struct Fn {
        struct Tok {
            char op;
            S c;
        };
        std::vector<S> breaks;
        std::vector<std::vector<Tok>> pieces;

        S evalPiece(const std::vector<Tok> &p, const S &x) const {
            using std::sin; using std::cos; using std::exp; using std::sqrt;
            S st[64];
            int n = 0;
            for (auto &t: p) {
                switch (t.op) {
                    case 'c': st[n++] = t.c; break;
                    case 'x': st[n++] = x; break;
                    case '+': --n; st[n - 1] += st[n]; break;
                    case '-': --n; st[n - 1] -= st[n]; break;
                    case '*': --n; st[n - 1] *= st[n]; break;
                    case '/': --n; st[n - 1] /= st[n]; break;
                    case 's': st[n - 1] = sin(st[n - 1]); break;
                    case 'k': st[n - 1] = cos(st[n - 1]); break;
                    case 'e': st[n - 1] = exp(st[n - 1]); break;
                    case 'q': st[n - 1] = sqrt(st[n - 1]); break;
                    default: abort();
                }
            }
            return st[0];
        }

        S operator()(const S &x) const {
            size_t i = 0;
            while (i < breaks.size() && !(x < breaks[i])) ++i;
            return evalPiece(pieces[i], x);
        }

        static Fn parse(std::istream &in) {
            Fn f;
            int np;
            in >> np;
            std::string t;
            for (int i = 0; i + 1 < np; ++i) {
                in >> t;
                f.breaks.push_back(S(strtod(t.c_str(), nullptr)));
            }
            for (int i = 0; i < np; ++i) {
                int nt;
                in >> nt;
                std::vector<Tok> p;
                for (int j = 0; j < nt; ++j) {
                    in >> t;
                    if (t == "x") p.push_back({'x', S(0)});
                    else if (t == "sin") p.push_back({'s', S(0)});
                    else if (t == "cos") p.push_back({'k', S(0)});
                    else if (t == "exp") p.push_back({'e', S(0)});
                    else if (t == "sqrt") p.push_back({'q', S(0)});
                    else if (t.size() == 1 && strchr("+-*/", t[0])) p.push_back({t[0], S(0)});
                    else p.push_back({'c', S(strtod(t.c_str(), nullptr))});
                }
                f.pieces.push_back(p);
            }
            return f;
        }
    };

    // ------------------------------------------------------------------ output
    struct Out {
        std::string buf;

        void line(const std::string &s) {
            std::string t = s + "\n";
            size_t o = 0;
            while (o < t.size()) {
                ssize_t w = ::write(outfd, t.data() + o, t.size() - o);
                if (w <= 0) _exit(99);
                o += w;
            }
        }

        int outfd = 1;
    };

    inline std::string esc(const std::string &s) {
        std::string r = "\"";
        for (char c: s) {
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if ((unsigned char) c < 32) r += ' ';
            else r += c;
        }
        return r + "\"";
    }

    // every case runs in its own child; the child writes its events to a pipe, stray output of the
    // library on stdout/stderr is captured and counted
    template<typename Runner>
    int main_loop(int argc, char **argv, Runner run) {
        if (argc < 3) return 2;
        std::ifstream in(argv[1]);
        FILE *out = fopen(argv[2], "w");
        std::string ln;
        while (std::getline(in, ln)) {
            if (ln.rfind("case ", 0) != 0) continue;
            std::istringstream hd(ln.substr(5));
            std::string id;
            double timeout = 20;
            hd >> id >> timeout;
            std::vector<std::string> lines;
            while (std::getline(in, ln) && ln != "end") if (!ln.empty()) lines.push_back(ln);
            int ev[2], so[2];
            if (pipe(ev) || pipe(so)) return 3;
            fflush(out);
            pid_t pid = fork();
            if (pid == 0) {
                close(ev[0]);
                close(so[0]);
                dup2(so[1], 1);
                dup2(so[1], 2);
                close(so[1]);
                struct rlimit rl{};
                rl.rlim_cur = rl.rlim_max = 0;
                setrlimit(RLIMIT_CORE, &rl);
                if (!getenv("HX_NOMEMLIMIT")) {
                    rl.rlim_cur = rl.rlim_max = 3ul << 30;
                    setrlimit(RLIMIT_AS, &rl);
                }
                Out o;
                o.outfd = ev[1];
                run(lines, o);
                fflush(stdout);
                std::cout.flush();
                _exit(0);
            }
            close(ev[1]);
            close(so[1]);
            auto t0 = std::chrono::steady_clock::now();
            std::string evs;
            std::string stray;
            bool timedOut = false;
            struct pollfd p[2] = {{ev[0], POLLIN, 0}, {so[0], POLLIN, 0}};
            int open = 2;
            char b[65536];
            while (open > 0) {
                double left = timeout - std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
                if (left <= 0) {
                    timedOut = true;
                    kill(pid, SIGKILL);
                    break;
                }
                int k = poll(p, 2, (int) (left * 1000) + 1);
                if (k <= 0) continue;
                for (int i = 0; i < 2; ++i)
                    if (p[i].fd >= 0 && p[i].revents) {
                        ssize_t n = read(p[i].fd, b, sizeof b);
                        if (n <= 0) {
                            close(p[i].fd);
                            p[i].fd = -1;
                            --open;
                        } else if (i == 0) evs.append(b, n);
                        else if (stray.size() < 100000) stray.append(b, n);
                    }
            }
            for (auto &q: p) if (q.fd >= 0) close(q.fd);
            int st = 0;
            waitpid(pid, &st, 0);
            // drop an incomplete last line
            size_t e = evs.rfind('\n');
            evs.resize(e == std::string::npos ? 0 : e + 1);
            std::istringstream es(evs);
            int n = 0;
            while (std::getline(es, ln)) {
                fprintf(out, "{\"case\":%s,\"i\":%d,%s\n", esc(id).c_str(), n++, ln.c_str() + 1);
            }
            std::string status = timedOut ? "timeout" : WIFSIGNALED(st) ? "signal" : WEXITSTATUS(st) ? "exit" : "ok";
            fprintf(out, "{\"case\":%s,\"i\":%d,\"ev\":\"done\",\"status\":\"%s\",\"code\":%d,\"stray\":%s}\n", esc(id).c_str(), n,
                    status.c_str(), WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), esc(stray.substr(0, 2000)).c_str());
        }
        fclose(out);
        return 0;
    }
}
