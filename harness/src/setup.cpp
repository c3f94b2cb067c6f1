// Whole runs from a configuration file, the way the command line program does it.
#include "common.hpp"
#include "capture.hpp"
#include "alsfvm/config/SimulatorSetup.hpp"
#include "alsfvm/simulator/Simulator.hpp"
#include "alsfvm/init/InitialData.hpp"
#include <mpi.h>
#ifdef _OPENMP
#include <omp.h>
#endif
namespace vh {
namespace {
Register r1("setup", [](const Req& q, Resp& r) {
#ifdef _OPENMP
    omp_set_num_threads(q.i("threads", 1));
#endif
    config::SimulatorSetup setup;
    const bool parallel = q.i("mpi", 1) != 0;
    if (parallel) {
        setup.enableMPI(MPI_COMM_WORLD, q.i("px", 1), q.i("py", 1), q.i("pz", 1));
    } else {
        setup.setWriterFactory(std::make_shared<io::WriterFactory>());
    }
    auto pair = setup.readSetupFromFile(q.s("file"));
    auto sim = pair.first;
    auto cap = std::make_shared<Capture>();
    if (q.i("capture", 1)) {
        sim->addWriter(cap);
    }
    sim->setInitialValue(pair.second);
    sim->callWriters();
    long n = 0;
    const long most = q.i("maxsteps", 100000);
    while (!sim->atEnd() && n < most) {
        sim->performStep();
        ++n;
    }
    sim->finalize();
    auto& g = *sim->getGrid();
    auto d = g.getDimensions(), p = g.getGlobalPosition(), s = g.getGlobalSize();
    auto h = g.getCellLengths();
    r.seti("steps", n);
    r.set("t", sim->getCurrentTime());
    r.set("end", sim->getEndTime());
    r.set("name", sim->getName());
    r.set("equation", sim->getEquationName());
    r.set("platform", sim->getPlatformName());
    r.add("dims", {double(d.x), double(d.y), double(d.z)});
    r.add("gpos", {double(p.x), double(p.y), double(p.z)});
    r.add("gsize", {double(s.x), double(s.y), double(s.z)});
    r.add("h", {h.x, h.y, h.z});
    if (q.i("capture", 1)) {
        r.add("times", cap->times);
        if (!cap->states.empty()) {
            r.add("first", cap->states.front());
            r.add("last", cap->states.back());
        }
        if (q.i("all", 0)) {
            std::vector<double> all;
            for (auto& x : cap->states) {
                all.insert(all.end(), x.begin(), x.end());
            }
            r.add("all", all);
        }
        std::string names;
        for (auto& x : cap->names) {
            names += (names.empty() ? "" : ",") + x;
        }
        r.set("names", names);
        r.seti("finalized", cap->finalized);
    }
});
}
}
