// Output writers and the decomposition of the domain over processes.
#include "common.hpp"
#include "alsfvm/io/WriterFactory.hpp"
#include "alsfvm/io/MpiWriterFactory.hpp"
#include "alsfvm/io/NetCDFMPIWriter.hpp"
#include "alsfvm/io/HDF5MPIWriter.hpp"
#include "alsfvm/mpi/domain/CartesianDecomposition.hpp"
#include "alsfvm/simulator/TimestepInformation.hpp"
#include "alsfvm/boundary/BoundaryFactory.hpp"
#include "alsutils/mpi/Configuration.hpp"
#include "alsutils/parameters/Parameters.hpp"
#include <mpi.h>
namespace vh {
namespace {
using alsfvm::mpi::ConfigurationPtr;
// The part of a global array [variable,z,y,x] that belongs to the block of a grid.
std::vector<double> blockOf(const std::vector<double>& a, size_t offset, size_t vars,
    const grid::Grid& g) {
    auto gs = g.getGlobalSize(), gp = g.getGlobalPosition(), d = g.getDimensions();
    std::vector<double> r;
    for (size_t v = 0; v < vars; ++v) {
        for (int z = 0; z < d.z; ++z) {
            for (int y = 0; y < d.y; ++y) {
                for (int x = 0; x < d.x; ++x) {
                    size_t i = ((v * gs.z + gp.z + z) * gs.y + gp.y + y) * gs.x + gp.x + x;
                    r.push_back(a.at(offset + i));
                }
            }
        }
    }
    return r;
}
void putGrid(Resp& r, const grid::Grid& g) {
    auto v3 = [&](const char* k, double a, double b, double c) {
        r.add(k, {a, b, c});
    };
    v3("origin", g.getOrigin().x, g.getOrigin().y, g.getOrigin().z);
    v3("top", g.getTop().x, g.getTop().y, g.getTop().z);
    v3("dims", g.getDimensions().x, g.getDimensions().y, g.getDimensions().z);
    v3("gpos", g.getGlobalPosition().x, g.getGlobalPosition().y, g.getGlobalPosition().z);
    v3("gsize", g.getGlobalSize().x, g.getGlobalSize().y, g.getGlobalSize().z);
    v3("h", g.getCellLengths().x, g.getCellLengths().y, g.getCellLengths().z);
    std::vector<double> bc;
    for (int s = 0; s < 6; ++s) {
        bc.push_back(double(g.getBoundaryCondition(s)));
    }
    r.add("bc", bc);
    r.seti("active", g.getActiveDimension());
}
ConfigurationPtr world() {
    return std::make_shared<alsutils::mpi::Configuration>(MPI_COMM_WORLD, "cpu");
}
Register r1("write", [](const Req& q, Resp& r) {
    Ctx c(q);
    auto type = q.s("type");
    alsutils::parameters::Parameters pars = alsutils::parameters::Parameters::empty();
    for (auto& kv : q.kv) {
        if (kv.first.compare(0, 2, "p_") == 0) {
            pars.addStringParameter(kv.first.substr(2), kv.second);
        }
    }
    std::shared_ptr<grid::Grid> g = c.grid;
    std::shared_ptr<io::Writer> w;
    if (q.i("mpi", 0)) {
        auto conf = world();
        alsfvm::mpi::domain::CartesianDecomposition dec(q.i("px", 1), q.i("py", 1),
            q.i("pz", 1));
        g = dec.decompose(conf, *c.grid)->getGrid();
        if (type == "groups") { // several groups share a file
            std::vector<std::string> names = split(q.s("groups"), ',');
            w.reset(new io::NetCDFMPIWriter(q.s("base"), names, q.i("group"), q.i("new"),
                    conf->getCommunicator(), conf->getInfo()));
        } else {
            io::MpiWriterFactory f(conf);
            w = f.createWriter(type, q.s("base"), pars);
        }
    } else {
        io::WriterFactory f;
        w = f.createWriter(type, q.s("base"), pars);
    }
    if (q.has("attr")) {
        boost::property_tree::ptree t;
        t.put("a", q.s("attr"));
        t.put("b.c", q.s("attr"));
        w->addAttributes("extra", t);
    }
    auto d = g->getDimensions();
    auto v = c.volumes->createConservedVolume(d.x, d.y, d.z, q.i("ng", 0));
    const size_t vars = v->getNumberOfVariables();
    const size_t per = vars * c.nx * c.ny * c.nz;
    auto& u = q.a("u");
    auto& t = q.a("t");
    auto& n = q.a("n");
    for (size_t k = 0; k < t.size(); ++k) {
        fillAll(*v, q.d("ghost", -7.25));
        setInterior(*v, blockOf(u, k * per, vars, *g));
        auto before = full(*v);
        simulator::TimestepInformation info(t[k], size_t(n[k]));
        w->write(*v, *g, info);
        auto after = full(*v);
        if (std::memcmp(before.data(), after.data(), before.size() * sizeof(double))) {
            r.seti("changed", 1);
        }
    }
    w->finalize(*g, simulator::TimestepInformation(t.empty() ? 0 : t.back(), t.size()));
    w.reset();
    putGrid(r, *g);
});
Register r2("decompose", [](const Req& q, Resp& r) {
    Ctx c(q);
    auto conf = world();
    alsfvm::mpi::domain::CartesianDecomposition dec(q.i("px", 1), q.i("py", 1), q.i("pz", 1));
    auto info = dec.decompose(conf, *c.grid);
    auto g = info->getGrid();
    putGrid(r, *g);
    auto ex = info->getCellExchanger();
    auto nb = ex->getNeighbours();
    std::vector<double> n;
    for (int s = 0; s < 6; ++s) {
        n.push_back(nb[s]);
    }
    r.add("neighbours", n);
    std::vector<double> m;
    if (q.arr.count("values")) {
        auto& x = q.a("values");
        for (size_t k = 0; k + conf->getNumberOfProcesses() <= x.size();
            k += conf->getNumberOfProcesses()) {
            m.push_back(ex->max(x[k + conf->getRank()]));
        }
        r.add("max", m);
    }
    if (q.arr.count("u")) {
        auto d = g->getDimensions();
        const size_t ng = q.i("ng");
        auto v = c.volumes->createConservedVolume(d.x, d.y, d.z, ng);
        auto o = c.volumes->createConservedVolume(d.x, d.y, d.z, ng);
        const size_t vars = v->getNumberOfVariables();
        const size_t per = vars * c.nx * c.ny * c.nz;
        auto& u = q.a("u");
        std::vector<double> all;
        for (size_t k = 0; (k + 1) * per <= u.size(); ++k) {
            fillAll(*v, q.d("ghost", -7.25));
            setInterior(*v, blockOf(u, k * per, vars, *g));
            if (q.i("inplace", 1)) {
                ex->exchangeCells(*v, *v).waitForAll();
            } else {
                fillAll(*o, q.d("ghost", -7.25));
                ex->exchangeCells(*o, *v).waitForAll();
                std::swap(o, v);
            }
            auto f = full(*v);
            all.insert(all.end(), f.begin(), f.end());
        }
        r.add("full", all);
        r.seti("vars", vars);
    }
});
}
}
