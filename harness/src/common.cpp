#include "common.hpp"
namespace vh {
std::array<boundary::Type, 6> Ctx::sides(const std::string& bc) {
    if (bc == "periodic") {
        return boundary::allPeriodic();
    }
    if (bc == "neumann") {
        return boundary::allNeumann();
    }
    std::array<boundary::Type, 6> r = boundary::allPeriodic();
    for (int i = 0; i < 6 && i < int(bc.size()); ++i) {
        r[i] = bc[i] == 'n' ? boundary::NEUMANN : bc[i] == 'm' ? boundary::MPI_BC :
            boundary::PERIODIC;
    }
    return r;
}
Ctx::Ctx(const Req& q) {
    equation = q.s("eq", "burgers");
    device = std::make_shared<DeviceConfiguration>(q.s("platform", "cpu"));
    memory = std::make_shared<memory::MemoryFactory>(device);
    params = std::make_shared<simulator::SimulatorParameters>(equation, "cpu");
    params->setCFLNumber(q.d("cfl", 0.5));
    if (q.has("gamma") && equation.compare(0, 5, "euler") == 0) {
        static_cast<equation::euler::EulerParameters&>
        (params->getEquationParameters()).setGamma(q.d("gamma"));
    }
    volumes = std::make_shared<volume::VolumeFactory>(equation, memory);
    nx = q.i("nx", 1);
    ny = q.i("ny", 1);
    nz = q.i("nz", 1);
    bc = q.s("bc", "periodic");
    rvec3 lo(q.d("lx", 0), q.d("ly", 0), q.d("lz", 0));
    rvec3 hi(q.d("hx", 1), q.d("hy", ny > 1 ? 1 : 0), q.d("hz", nz > 1 ? 1 : 0));
    grid = std::make_shared<grid::Grid>(lo, hi, ivec3(nx, ny, nz), sides(bc));
}
template<class F>
static void eachInterior(const volume::Volume& v, F f) {
    const size_t gx = v.getNumberOfXGhostCells(), gy = v.getNumberOfYGhostCells(),
                 gz = v.getNumberOfZGhostCells();
    const size_t tx = v.getTotalNumberOfXCells(), ty = v.getTotalNumberOfYCells(),
                 tz = v.getTotalNumberOfZCells();
    size_t n = 0;
    for (size_t var = 0; var < v.getNumberOfVariables(); ++var) {
        for (size_t z = gz; z < tz - gz; ++z) {
            for (size_t y = gy; y < ty - gy; ++y) {
                for (size_t x = gx; x < tx - gx; ++x) {
                    f(var, (z * ty + y) * tx + x, n++);
                }
            }
        }
    }
}
std::vector<double> interior(const volume::Volume& v) {
    std::vector<double> r;
    eachInterior(v, [&](size_t var, size_t idx, size_t) {
        r.push_back(v.getScalarMemoryArea(var)->getPointer()[idx]);
    });
    return r;
}
void setInterior(volume::Volume& v, const std::vector<double>& a) {
    size_t need = v.getNumberOfVariables() * v.getNumberOfXCells() *
        v.getNumberOfYCells() * v.getNumberOfZCells();
    if (a.size() != need) {
        throw std::logic_error("harness: interior array has wrong size");
    }
    eachInterior(v, [&](size_t var, size_t idx, size_t n) {
        v.getScalarMemoryArea(var)->getPointer()[idx] = a[n];
    });
}
std::vector<double> full(const volume::Volume& v) {
    std::vector<double> r;
    for (size_t var = 0; var < v.getNumberOfVariables(); ++var) {
        auto m = v.getScalarMemoryArea(var);
        r.insert(r.end(), m->getPointer(), m->getPointer() + m->getSize());
    }
    return r;
}
void setFull(volume::Volume& v, const std::vector<double>& a) {
    size_t n = 0;
    for (size_t var = 0; var < v.getNumberOfVariables(); ++var) {
        auto m = v.getScalarMemoryArea(var);
        if (n + m->getSize() > a.size()) {
            throw std::logic_error("harness: full array has wrong size");
        }
        std::copy(a.begin() + n, a.begin() + n + m->getSize(), m->getPointer());
        n += m->getSize();
    }
    if (n != a.size()) {
        throw std::logic_error("harness: full array has wrong size");
    }
}
void fillAll(volume::Volume& v, double x) {
    for (size_t var = 0; var < v.getNumberOfVariables(); ++var) {
        auto m = v.getScalarMemoryArea(var);
        std::fill(m->getPointer(), m->getPointer() + m->getSize(), x);
    }
}
}
