// Server loop: reads one request from stdin, answers on the original stdout.
#include <cstdio>
#include "server.hpp"
#include <mpi.h>
#include <unistd.h>
#include <fcntl.h>
#include <boost/log/core.hpp>
namespace vh {
std::map<std::string, Op>& ops() {
    static std::map<std::string, Op> o;
    return o;
}
std::vector<std::string> split(const std::string& s, char c) {
    std::vector<std::string> r;
    std::string cur;
    for (char x : s) {
        if (x == c) {
            r.push_back(cur);
            cur.clear();
        } else {
            cur += x;
        }
    }
    r.push_back(cur);
    return r;
}
std::vector<double> numbers(const std::string& s) {
    std::vector<double> r;
    if (s.empty()) {
        return r;
    }
    for (auto& p : split(s, ',')) {
        r.push_back(std::strtod(p.c_str(), nullptr));
    }
    return r;
}
static std::string unesc(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '\\' && i + 1 < s.size()) {
            ++i;
            r += s[i] == 'n' ? '\n' : s[i] == 't' ? '\t' : s[i] == 'r' ? '\r' : s[i];
        } else {
            r += s[i];
        }
    }
    return r;
}
static std::string esc(const std::string& s) {
    std::string r;
    for (char c : s) {
        if (c == '\n') {
            r += "\\n";
        } else if (c == '\t') {
            r += "\\t";
        } else if (c == '\r') {
            r += "\\r";
        } else if (c == '\\') {
            r += "\\\\";
        } else {
            r += c;
        }
    }
    return r;
}
static FILE* out;
static bool readLine(FILE* in, std::string& line) {
    line.clear();
    int c;
    while ((c = std::fgetc(in)) != EOF) {
        if (c == '\n') {
            return true;
        }
        line += char(c);
    }
    return false;
}
static void respond(const std::string& status, const Resp& r) {
    std::string h = status;
    for (auto& p : r.kv) {
        h += "\t" + p.first + "=" + esc(p.second);
    }
    for (auto& p : r.arr) {
        h += "\t@" + p.first + "=" + std::to_string(p.second.size());
    }
    h += "\n";
    std::fwrite(h.data(), 1, h.size(), out);
    for (auto& p : r.arr) {
        std::fwrite(p.second.data(), sizeof(double), p.second.size(), out);
    }
    std::fflush(out);
}
static bool readRequest(FILE* in, Req& q, std::string& raw) {
    std::string line;
    if (!readLine(in, line)) {
        return false;
    }
    raw = line + "\n";
    auto parts = split(line, '\t');
    q.op = parts[0];
    for (size_t i = 1; i < parts.size(); ++i) {
        auto eq = parts[i].find('=');
        auto k = parts[i].substr(0, eq), v = parts[i].substr(eq + 1);
        if (k[0] == '@') {
            size_t n = std::strtoul(v.c_str(), nullptr, 10);
            std::vector<double> data(n);
            if (n && std::fread(data.data(), sizeof(double), n, in) != n) {
                return false;
            }
            raw.append(reinterpret_cast<char*>(data.data()), n * sizeof(double));
            q.arr[k.substr(1)] = std::move(data);
        } else {
            q.kv[k] = unesc(v);
        }
    }
    return true;
}
static std::string run(const Req& q, Resp& r) {
    try {
        auto it = ops().find(q.op);
        if (it == ops().end()) {
            throw std::logic_error("harness: unknown op " + q.op);
        }
        it->second(q, r);
        return "ok";
    } catch (std::logic_error& e) {
        r = Resp();
        std::string w = e.what();
        r.set("what", w.substr(0, 400));
        r.set("kind", w.compare(0, 8, "harness:") == 0 ? "harness" : "logic_error");
    } catch (std::exception& e) {
        r = Resp();
        r.set("what", std::string(e.what()).substr(0, 400));
        r.set("kind", "exception");
    }
    return "err";
}
}
#ifdef VH_TRAP
// A failed bounds assertion of the standard library is reported like a memory error.
namespace std {
[[noreturn]] void __glibcxx_assert_fail(const char* file, int line, const char* function,
    const char* condition) noexcept {
    fprintf(stderr, "%s:%d: %s: %s\n", file, line, function, condition);
    __builtin_trap();
}
}
#endif

int main(int argc, char** argv) {
    using namespace vh;
    // The code under test prints to stdout: keep the protocol away from it.
    out = fdopen(dup(1), "w");
    if (!getenv("VH_VERBOSE")) {
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1);
        if (!getenv("VH_STDERR")) {
            dup2(n, 2);
        }
    }
    boost::log::core::get()->set_logging_enabled(false);
    int provided = 0;
    MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &provided);
    int rank = 0, size = 1;
    MPI_Comm_rank(MPI_COMM_WORLD, &rank);
    MPI_Comm_size(MPI_COMM_WORLD, &size);
    if (size == 1) {
        Req q;
        std::string raw;
        while (readRequest(stdin, q, raw)) {
            if (q.op == "quit") {
                break;
            }
            Resp r;
            respond(run(q, r), r);
            q = Req();
        }
    } else {
        MPI_Comm proto; // apart from what the code under test sends
        MPI_Comm_dup(MPI_COMM_WORLD, &proto);
        // Rank 0 hands every request to all ranks and gathers all answers.
        for (;;) {
            Req q;
            std::string raw;
            unsigned long len = 0;
            if (rank == 0) {
                if (!readRequest(stdin, q, raw) || q.op == "quit") {
                    len = 0;
                } else {
                    len = raw.size();
                }
            }
            MPI_Request news;
            MPI_Ibcast(&len, 1, MPI_UNSIGNED_LONG, 0, proto, &news);
            for (int met = 0; !met;) {
                MPI_Test(&news, &met, MPI_STATUS_IGNORE);
                if (!met) {
                    usleep(100); // no busy waiting between requests
                }
            }
            if (len == 0) {
                break;
            }
            raw.resize(len);
            MPI_Bcast(&raw[0], int(len), MPI_CHAR, 0, proto);
            if (rank != 0) {
                FILE* m = fmemopen(&raw[0], len, "r");
                std::string dummy;
                readRequest(m, q, dummy);
                std::fclose(m);
            }
            Resp r;
            std::string st = run(q, r);
            // A process that fails alone may leave the others waiting for it inside the code
            // under test: say so and end the group.
            MPI_Request all;
            MPI_Ibarrier(proto, &all);
            int met = 0;
            for (double start = MPI_Wtime(); !met;) {
                MPI_Test(&all, &met, MPI_STATUS_IGNORE);
                if (!met && st != "ok" && MPI_Wtime() - start > 4) {
                    r.set("rank", std::to_string(rank));
                    respond("fatal", r);
                    usleep(300000);
                    _exit(3);
                }
                if (!met) {
                    usleep(50);
                }
            }
            // serialise: key/values of each rank get the suffix .<rank>
            std::string text = st;
            for (auto& p : r.kv) {
                text += "\t" + p.first + "." + std::to_string(rank) + "=" + esc(p.second);
            }
            std::vector<double> data;
            for (auto& p : r.arr) {
                text += "\t@" + p.first + "." + std::to_string(rank) + "=" +
                    std::to_string(p.second.size());
                data.insert(data.end(), p.second.begin(), p.second.end());
            }
            int tn = int(text.size()), dn = int(data.size());
            std::vector<int> tns(size), dns(size);
            MPI_Gather(&tn, 1, MPI_INT, tns.data(), 1, MPI_INT, 0, proto);
            MPI_Gather(&dn, 1, MPI_INT, dns.data(), 1, MPI_INT, 0, proto);
            if (rank == 0) {
                std::string head = "ok\tsize=" + std::to_string(size);
                std::vector<double> all(data);
                auto addText = [&](const std::string & t, int rk) {
                    auto p = t.find('\t');
                    head += "\tstatus." + std::to_string(rk) + "=" + t.substr(0, p);
                    if (p != std::string::npos) {
                        head += t.substr(p);
                    }
                };
                addText(text, 0);
                for (int k = 1; k < size; ++k) {
                    std::string t(tns[k], ' ');
                    MPI_Recv(&t[0], tns[k], MPI_CHAR, k, 91, proto, MPI_STATUS_IGNORE);
                    addText(t, k);
                    std::vector<double> dd(dns[k]);
                    MPI_Recv(dd.data(), dns[k], MPI_DOUBLE, k, 92, proto, MPI_STATUS_IGNORE);
                    all.insert(all.end(), dd.begin(), dd.end());
                }
                head += "\n";
                std::fwrite(head.data(), 1, head.size(), out);
                std::fwrite(all.data(), sizeof(double), all.size(), out);
                std::fflush(out);
            } else {
                MPI_Send(&text[0], tn, MPI_CHAR, 0, 91, proto);
                MPI_Send(data.data(), dn, MPI_DOUBLE, 0, 92, proto);
            }
        }
    }
    MPI_Finalize();
    return 0;
}
