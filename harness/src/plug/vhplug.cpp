// Output plug-in (shared library) and sample distribution that record what they receive.
#include <cstdio>
#include <cstring>
#include <map>
#include <mpi.h>
#include <string>
#include <vector>
namespace {
struct Pars {
    std::vector<std::pair<std::string, std::string>> kv;
    std::string get(const std::string& k) const {
        std::string r;
        for (auto& p : kv) {
            if (p.first == k) {
                r = p.second;
            }
        }
        return r;
    }
};
struct Data {
    std::string path;
    Pars* pars;
    int rank{-1}, size{-1};
};
FILE* open(const std::string& path) {
    return std::fopen(path.c_str(), "a");
}
int worldRank() {
    int on = 0, r = 0;
    MPI_Initialized(&on);
    if (on) {
        MPI_Comm_rank(MPI_COMM_WORLD, &r);
    }
    return r;
}
std::string pathOf(const std::string& base) {
    return base + "." + std::to_string(worldRank());
}
}
extern "C" {
    void* vh_create(const char* name, const char*, void* p) {
        auto d = new Data;
        d->pars = static_cast<Pars*>(p);
        d->path = pathOf(d->pars->get("out"));
        FILE* f = open(d->path);
        std::fprintf(f, "create %s\n", name);
        for (auto& x : d->pars->kv) {
            std::fprintf(f, "param %s %s\n", x.first.c_str(), x.second.c_str());
        }
        std::fclose(f);
        return d;
    }
    void vh_delete(void* data) {
        auto d = static_cast<Data*>(data);
        FILE* f = open(d->path);
        std::fprintf(f, "delete\n");
        std::fclose(f);
        delete d;
    }
    void* vh_make_parameters() {
        return new Pars;
    }
    void vh_delete_parameters(void* p) {
        auto q = static_cast<Pars*>(p);
        FILE* f = open(pathOf(q->get("out")));
        std::fprintf(f, "delete_parameters\n");
        std::fclose(f);
        delete q;
    }
    void vh_set_parameter(void* p, const char* k, const char* v) {
        static_cast<Pars*>(p)->kv.emplace_back(k, v);
    }
    void vh_set_mpi_comm(void* data, void*, MPI_Comm c) {
        auto d = static_cast<Data*>(data);
        int s = -1, r = -1;
        MPI_Comm_size(c, &s);
        MPI_Comm_rank(c, &r);
        FILE* f = open(d->path);
        std::fprintf(f, "comm %d %d\n", r, s);
        std::fclose(f);
    }
    bool vh_needs_data_on_host(void*, void*) {
        return true;
    }
    void vh_new_timestep(void* data, void*, double time, int n) {
        FILE* f = open(static_cast<Data*>(data)->path);
        std::fprintf(f, "new %a %d\n", time, n);
        std::fclose(f);
    }
    void vh_end_timestep(void* data, void*, double time, int n) {
        FILE* f = open(static_cast<Data*>(data)->path);
        std::fprintf(f, "end %a %d\n", time, n);
        std::fclose(f);
    }
    void vh_write(void* data, void* p, double time, const char* name, const double* x, int nx,
        int ny, int nz, int gx, int gy, int gz, double ax, double ay, double az, double bx,
        double by, double bz, int gpu) {
        // without a create function there is no data
        std::string path = data ? static_cast<Data*>(data)->path :
            pathOf(static_cast<Pars*>(p)->get("out"));
        FILE* f = open(path);
        std::fprintf(f, "write %a %s %d %d %d %d %d %d %a %a %a %a %a %a %d", time, name, nx, ny,
            nz, gx, gy, gz, ax, ay, az, bx, by, bz, gpu);
        long n = long(nx + 2 * gx) * (ny + 2 * gy) * (nz + 2 * gz);
        for (long i = 0; i < n; ++i) {
            std::fprintf(f, " %a", x[i]);
        }
        std::fprintf(f, "\n");
        std::fclose(f);
    }
    // ---- distribution of samples
    struct Dist {
        int size, dim;
        std::string out;
    };
    void* vh_dist_create(int size, int dim, void* p) {
        auto d = new Dist{size, dim, p ? static_cast<Pars*>(p)->get("out") : ""};
        if (!d->out.empty()) {
            FILE* f = open(pathOf(d->out));
            std::fprintf(f, "create %d %d\n", size, dim);
            for (auto& x : static_cast<Pars*>(p)->kv) {
                std::fprintf(f, "param %s %s\n", x.first.c_str(), x.second.c_str());
            }
            std::fclose(f);
        }
        return d;
    }
    void vh_dist_delete(void* data) {
        auto d = static_cast<Dist*>(data);
        if (!d->out.empty()) {
            FILE* f = open(pathOf(d->out));
            std::fprintf(f, "delete\n");
            std::fclose(f);
        }
        delete d;
    }
    double vh_dist_generate(void* data, int size, int dim, int component, int sample, void* p) {
        auto d = static_cast<Dist*>(data);
        double scale = 1;
        if (p) {
            std::string s = static_cast<Pars*>(p)->get("scale");
            if (!s.empty()) {
                std::sscanf(s.c_str(), "%lf", &scale);
            }
        }
        if (d && (d->size != size || d->dim != dim)) {
            return -1e300;
        }
        return scale * (sample * 16.0 + component + size / 1024.0 + dim / 65536.0);
    }
}
