// Ensembles, the way the command line program runs them, and the random parameters alone.
#include "../common.hpp"
#include "alsuq/config/Setup.hpp"
#include "alsuq/run/Runner.hpp"
#include "alsuq/mpi/Configuration.hpp"
#include "alsuq/mpi/SimpleLoadBalancer.hpp"
#include "alsuq/samples/SampleGenerator.hpp"
#include <mpi.h>
#ifdef _OPENMP
#include <omp.h>
#endif
namespace vh {
namespace {
Register r1("uqrun", [](const Req& q, Resp& r) {
#ifdef _OPENMP
    omp_set_num_threads(q.i("threads", 1));
#endif
    alsuq::mpi::ConfigurationPtr world(new alsuq::mpi::Configuration(MPI_COMM_WORLD));
    alsuq::config::Setup setup;
    auto runner = setup.makeRunner(q.s("file"), world, q.i("ms", 1),
            alsuq::ivec3(q.i("px", 1), q.i("py", 1), q.i("pz", 1)));
    runner->run();
    r.seti("steps", runner->getTimestepsPerformedTotal());
    r.set("name", runner->getName());
});

// ask: name,sample pairs separated by ';', all answered by one generator
Register r2("samples", [](const Req& q, Resp& r) {
    alsuq::config::Setup setup;
    auto gen = setup.makeSampleGenerator(q.s("file"));
    std::string names;
    for (auto& n : gen->getParameterList()) {
        names += (names.empty() ? "" : ",") + n;
    }
    r.set("names", names);
    std::vector<double> all, len;
    if (!q.s("ask").empty()) {
        for (auto& a : split(q.s("ask"), ';')) {
            auto p = split(a, ',');
            auto v = gen->generate(p[0], std::strtoul(p[1].c_str(), nullptr, 10));
            len.push_back(v.size());
            all.insert(all.end(), v.begin(), v.end());
        }
    }
    r.add("values", all);
    r.add("lengths", len);
    r.seti("samples", setup.readNumberOfSamples(q.s("file")));
    r.seti("start", setup.readSampleStart(q.s("file")));
});

Register r3("balance", [](const Req& q, Resp& r) {
    std::vector<size_t> samples;
    for (long i = 0; i < q.i("samples"); ++i) {
        samples.push_back(q.i("start") + i);
    }
    alsuq::mpi::ConfigurationPtr world(new alsuq::mpi::Configuration(MPI_COMM_WORLD));
    alsuq::mpi::SimpleLoadBalancer b(samples);
    auto t = b.loadBalance(q.i("ms", 1), alsuq::ivec3(q.i("px", 1), q.i("py", 1), q.i("pz", 1)),
            *world);
    std::vector<double> mine;
    for (auto s : std::get<0>(t)) {
        mine.push_back(s);
    }
    r.add("mine", mine);
    r.add("ranks", {double(std::get<1>(t)->getRank()),
        double(std::get<1>(t)->getNumberOfProcesses()), double(std::get<2>(t)->getRank()),
        double(std::get<2>(t)->getNumberOfProcesses())});
});
}
}
