// Spatial operators, boundary conditions, reconstructions and whole simulations.
#include "common.hpp"
#include "alsfvm/numflux/NumericalFluxFactory.hpp"
#include "alsfvm/reconstruction/ReconstructionFactory.hpp"
#include "alsfvm/diffusion/DiffusionFactory.hpp"
#include "alsfvm/simulator/ConservedSystem.hpp"
#include "alsfvm/simulator/Simulator.hpp"
#include "alsfvm/integrator/IntegratorFactory.hpp"
#include "alsfvm/equation/CellComputerFactory.hpp"
#include "alsfvm/io/FixedIntervalWriter.hpp"
#include "alsfvm/io/CoarseGrainingIntervalWriter.hpp"
#include "alsfvm/io/TimeIntegratedWriter.hpp"
#include "alsfvm/functional/TimeIntegrationFunctional.hpp"
#include "alsfvm/functional/IntervalFunctionalWriter.hpp"
#include "alsfvm/functional/FunctionalFactory.hpp"
#include "alsfvm/init/InitialData.hpp"
#include "capture.hpp"
#include <random>
#ifdef _OPENMP
#include <omp.h>
#endif
namespace vh {
namespace {
std::shared_ptr<diffusion::DiffusionOperator> makeDiffusion(const Req& q, Ctx& c) {
    diffusion::DiffusionFactory f;
    return f.createDiffusionOperator(c.equation, q.s("diff", "none"), q.s("diffrecon",
                "none"), *c.grid, *c.params, c.device, c.memory, *c.volumes);
}
// ---- one evaluation of the spatial operator
void rhs(const Req& q, Resp& r) {
    Ctx c(q);
    numflux::NumericalFluxFactory ff(c.equation, q.s("flux"), q.s("recon", "none"),
        c.params, c.device);
    std::shared_ptr<numflux::NumericalFlux> flux = ff.createNumericalFlux(*c.grid);
    std::shared_ptr<diffusion::DiffusionOperator> diff = makeDiffusion(q, c);
    simulator::ConservedSystem system(flux, diff);
    const bool whole = q.s("mode", "system") == "system";
    size_t ng = whole ? system.getNumberOfGhostCells() : q.s("mode") == "diff" ?
        diff->getNumberOfGhostCells() : flux->getNumberOfGhostCells();
    auto u = c.volumes->createConservedVolume(c.nx, c.ny, c.nz, ng);
    auto o = c.volumes->createConservedVolume(c.nx, c.ny, c.nz, ng);
    const int reps = q.i("reps", 1);
    rvec3 ws(0, 0, 0);
    for (int k = 0; k < reps; ++k) { // repeated calls reuse internal scratch
        fillAll(*u, 0);
        // an additive operator has to start from zero
        fillAll(*o, q.s("mode", "system") == "diff" ? 0.0 : q.d("poison", 0.0));
        if (q.arr.count("full")) {
            setFull(*u, q.a("full"));
        } else {
            setInterior(*u, q.a(k + 1 < reps ? "u0" : "u"));
            boundary::BoundaryFactory bf(c.bc == "neumann" ? "neumann" : "periodic", c.device);
            bf.createBoundary(ng)->applyBoundaryConditions(*u, *c.grid);
        }
        ws = rvec3(0, 0, 0);
        if (q.s("mode", "system") == "system") {
            system(*u, ws, true, *o);
        } else if (q.s("mode") == "flux") {
            flux->computeFlux(*u, ws, true, *o);
        } else {
            diff->applyDiffusion(*o, *u);
        }
    }
    r.add("out", interior(*o));
    r.add("ws", {ws.x, ws.y, ws.z});
    auto h = c.grid->getCellLengths();
    r.add("h", {h.x, h.y, h.z});
    r.seti("ng", ng);
}
Register r1("rhs", rhs);

void recon(const Req& q, Resp& r) {
    Ctx c(q);
    reconstruction::ReconstructionFactory f;
    auto rec = f.createReconstruction(q.s("recon"), c.equation, *c.params, c.memory,
            *c.grid, c.device);
    size_t ng = rec->getNumberOfGhostCells();
    r.seti("ng", ng);
    auto u = c.volumes->createConservedVolume(c.nx, c.ny, c.nz, ng);
    auto a = c.volumes->createConservedVolume(c.nx, c.ny, c.nz, ng);
    auto b = c.volumes->createConservedVolume(c.nx, c.ny, c.nz, ng);
    for (int k = q.has("twice") ? 0 : 1; k < 2; ++k) {
        fillAll(*u, 0);
        fillAll(*a, q.d("poison", 0));
        fillAll(*b, q.d("poison", 0));
        if (k == 0) {
            setInterior(*u, q.a("u0"));
        } else {
            setInterior(*u, q.a("u"));
        }
        boundary::BoundaryFactory bf(c.bc == "neumann" ? "neumann" : "periodic", c.device);
        bf.createBoundary(ng)->applyBoundaryConditions(*u, *c.grid);
        rec->performReconstruction(*u, q.i("dir"), q.i("ind", 0), *a, *b);
    }
    r.add("left", full(*a));
    r.add("right", full(*b));
}
Register r2("recon", recon);

void boundaryOp(const Req& q, Resp& r) {
    Ctx c(q);
    size_t ng = q.i("ng");
    auto u = c.volumes->createConservedVolume(c.nx, c.ny, c.nz, ng);
    setFull(*u, q.a("full"));
    boundary::BoundaryFactory bf(q.s("type"), c.device);
    bf.createBoundary(ng)->applyBoundaryConditions(*u, *c.grid);
    r.add("full", full(*u));
}
Register r3("boundary", boundaryOp);

// ---- simulations
class ArrayData : public init::InitialData {
public:
    ArrayData(std::vector<double> a, bool primitive) : a(a), primitive(primitive) {}
    void setInitialData(volume::Volume& conserved, volume::Volume& prim,
        equation::CellComputer& computer, grid::Grid&) override {
        if (primitive) {
            fillAll(prim, 1.0);
            setInterior(prim, a);
            computer.computeFromPrimitive(prim, conserved);
        } else {
            setInterior(conserved, a);
        }
    }
    void setParameters(const init::Parameters&) override {}
    boost::property_tree::ptree getDescription() const override {
        return boost::property_tree::ptree();
    }
private:
    std::vector<double> a;
    bool primitive;
};
struct Sim {
    std::unique_ptr<Ctx> c;
    std::unique_ptr<numflux::NumericalFluxFactory> ff;
    std::shared_ptr<simulator::Simulator> sim;
    std::vector<std::shared_ptr<Capture>> writers;
};
// writers: ';'-separated list of
//   raw | fixed,interval,end,init | coarse,interval,n,end,skips | tint,time,radius
//   | tintfixed,time,radius,snapshots | func,name | functint...
std::unique_ptr<Sim> makeSim(const Req& q) {
    std::unique_ptr<Sim> s(new Sim);
    s->c.reset(new Ctx(q));
    Ctx& c = *s->c;
    s->ff.reset(new numflux::NumericalFluxFactory(c.equation, q.s("flux"), q.s("recon",
                "none"), c.params, c.device));
    integrator::IntegratorFactory integ(q.s("integ", "forwardeuler"));
    boundary::BoundaryFactory bf(c.bc == "neumann" ? "neumann" : "periodic", c.device);
    equation::CellComputerFactory ccf(c.params, c.device);
    std::string eq = c.equation;
    s->sim = std::make_shared<simulator::Simulator>(*c.params, c.grid, *c.volumes, integ,
            bf, *s->ff, ccf, c.memory, real(q.d("end", 1)), c.device, eq,
            makeDiffusion(q, c), "sim");
    std::shared_ptr<init::InitialData> init = std::make_shared<ArrayData>(q.a("u"),
            q.i("prim", 0) != 0);
    s->sim->setInitialValue(init);
    std::vector<std::shared_ptr<io::Writer>> outer;
    for (auto& w : split(q.s("writers", "raw"), ';')) {
        if (w.empty()) {
            continue;
        }
        auto p = split(w, ',');
        auto num = [&](size_t k) {
            return std::strtod(p.at(k).c_str(), nullptr);
        };
        auto cap = std::make_shared<Capture>();
        s->writers.push_back(cap);
        std::shared_ptr<io::Writer> base = cap, wr;
        if (p[0] == "raw") {
            wr = base;
        } else if (p[0] == "full") {
            cap->whole = true;
            wr = base;
        } else if (p[0] == "fixed") {
            wr = std::make_shared<io::FixedIntervalWriter>(base, num(1), num(2), num(3) != 0);
        } else if (p[0] == "coarse") {
            wr = std::make_shared<io::CoarseGrainingIntervalWriter>(base, num(1), int(num(2)),
                    num(3), int(num(4)));
        } else if (p[0] == "tint") {
            wr = std::make_shared<io::TimeIntegratedWriter>(base, num(1), num(2));
        } else if (p[0] == "tintfixed") {
            std::shared_ptr<io::Writer> ti = std::make_shared<io::TimeIntegratedWriter>(base,
                    num(1), num(2));
            wr = std::make_shared<io::FixedIntervalWriter>(ti, num(2) / num(3),
                    num(1) + num(2), false, std::max(num(1) - num(2), 0.0));
        } else if (p[0] == "ftint") { // ftint,time,radius,functional
            functional::FunctionalFactory fac;
            boost::property_tree::ptree tree;
            for (size_t k = 4; k + 1 < p.size(); k += 2) {
                tree.put(p[k], p[k + 1]);
            }
            functional::Functional::Parameters pars(tree);
            auto f = fac.makeFunctional("cpu", p[3], pars);
            wr = std::make_shared<functional::TimeIntegrationFunctional>(*c.volumes, base, f,
                    num(1), num(2));
        } else {
            throw std::logic_error("harness: unknown writer " + p[0]);
        }
        outer.push_back(wr);
    }
    for (auto& wr : outer) {
        s->sim->addWriter(wr);
    }
    // same order as the configuration reader: outputs first, then adjusters
    for (auto& wr : outer) {
        auto adj = std::dynamic_pointer_cast<integrator::TimestepAdjuster>(wr);
        if (adj) {
            s->sim->addTimestepAdjuster(adj);
        }
    }
    return s;
}
void report(Sim& s, Resp& r) {
    for (size_t k = 0; k < s.writers.size(); ++k) {
        auto& w = *s.writers[k];
        auto p = std::to_string(k);
        std::vector<double> all;
        for (auto& x : w.states) {
            all.insert(all.end(), x.begin(), x.end());
        }
        r.add("t" + p, w.times);
        r.add("n" + p, w.steps);
        r.add("s" + p, all);
        r.add("d" + p, w.dims);
        r.seti("fin" + p, w.finalized);
    }
    r.set("t", s.sim->getCurrentTime());
}
void run(Sim& s, long maxsteps, Resp& r) {
    long n = 0;
    std::string failure;
    try {
        while (!s.sim->atEnd() && n < maxsteps) {
            s.sim->performStep();
            ++n;
        }
    } catch (std::exception& e) {
        failure = e.what();
    }
    r.seti("steps", n);
    r.seti("atend", s.sim->atEnd());
    r.set("failure", failure.substr(0, 200));
}
// Whole run: as the command line tool does it.
void simRun(const Req& q, Resp& r) {
#ifdef _OPENMP
    omp_set_num_threads(q.i("threads", 1));
#endif
    auto s = makeSim(q);
    s->sim->callWriters();
    run(*s, q.i("maxsteps", 100000), r);
    if (q.i("finalize", 1)) {
        try {
            s->sim->finalize();
        } catch (std::exception& e) {
            r.set("finalize_failure", std::string(e.what()).substr(0, 200));
        }
    }
    report(*s, r);
}
Register r4("sim", simRun);

std::map<long, std::unique_ptr<Sim>> sims;
Register r5("sim_new", [](const Req& q, Resp& r) {
    auto s = makeSim(q);
    s->sim->callWriters();
    sims[q.i("id")] = std::move(s);
});
Register r6("sim_step", [](const Req& q, Resp& r) {
    auto& s = sims.at(q.i("id"));
#ifdef _OPENMP
    omp_set_num_threads(q.i("threads", 1));
#endif
    run(*s, q.i("n"), r);
    r.set("t", s->sim->getCurrentTime());
});
Register r7("sim_report", [](const Req& q, Resp& r) {
    report(*sims.at(q.i("id")), r);
});
Register r8("sim_write", [](const Req& q, Resp& r) {
    sims.at(q.i("id"))->sim->callWriters();
});
Register r9("sim_free", [](const Req& q, Resp& r) {
    if (q.has("id")) {
        sims.erase(q.i("id"));
    } else {
        sims.clear();
    }
});
Register r10("setstate", [](const Req& q, Resp& r) {
    // replaces the state of a simulation by (possibly resampled) data
    auto& s = sims.at(q.i("id"));
    Ctx& c = *s->c;
    auto v = c.volumes->createConservedVolume(q.i("nx"), q.i("ny"), q.i("nz"), q.i("ng"));
    setFull(*v, q.a("full"));
    s->sim->setSimulationState(*v);
});
// ---- admissibility predicate and wave speeds on whole volumes
Register r11("cells", [](const Req& q, Resp& r) {
    Ctx c(q);
    equation::CellComputerFactory ccf(c.params, c.device);
    auto cc = ccf.createComputer();
    auto v = c.volumes->createConservedVolume(c.nx, c.ny, c.nz, q.i("ng", 0));
    setFull(*v, q.a("full"));
    r.seti("obeys", cc->obeysConstraints(*v));
    std::vector<double> ws;
    for (int d = 0; d < q.i("dims", 1); ++d) {
        ws.push_back(cc->computeMaxWaveSpeed(*v, d));
    }
    r.add("ws", ws);
    auto e = c.volumes->createExtraVolume(c.nx, c.ny, c.nz, q.i("ng", 0));
    if (e->getNumberOfVariables()) {
        cc->computeExtraVariables(*v, *e);
        r.add("extra", full(*e));
    }
});
Register r12("fromprim", [](const Req& q, Resp& r) {
    Ctx c(q);
    equation::CellComputerFactory ccf(c.params, c.device);
    auto cc = ccf.createComputer();
    auto p = c.volumes->createPrimitiveVolume(c.nx, c.ny, c.nz, q.i("ng", 0));
    auto v = c.volumes->createConservedVolume(c.nx, c.ny, c.nz, q.i("ng", 0));
    setFull(*p, q.a("full"));
    cc->computeFromPrimitive(*p, *v);
    r.add("full", full(*v));
});
Register r13("ping", [](const Req& q, Resp& r) {
    r.add("echo", q.arr.count("x") ? q.a("x") : std::vector<double>());
});
Register r14("sim_names", [](const Req& q, Resp& r) {
    Ctx c(q);
    auto v = c.volumes->createConservedVolume(2, 1, 1, 0);
    std::string n;
    for (size_t i = 0; i < v->getNumberOfVariables(); ++i) {
        n += (i ? "," : "") + v->getName(i);
    }
    r.set("names", n);
});
}
}
