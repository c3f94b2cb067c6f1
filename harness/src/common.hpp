// Builds the objects of the code under test from a request.
#pragma once
#include "server.hpp"
#include "alsfvm/types.hpp"
#include "alsfvm/DeviceConfiguration.hpp"
#include "alsfvm/grid/Grid.hpp"
#include "alsfvm/memory/MemoryFactory.hpp"
#include "alsfvm/volume/VolumeFactory.hpp"
#include "alsfvm/volume/Volume.hpp"
#include "alsfvm/simulator/SimulatorParameters.hpp"
#include "alsfvm/equation/euler/EulerParameters.hpp"
#include "alsfvm/boundary/BoundaryFactory.hpp"
#include "alsfvm/boundary/Type.hpp"

namespace vh {
using namespace alsfvm;
struct Ctx {
    std::string equation;
    std::shared_ptr<DeviceConfiguration> device;
    std::shared_ptr<memory::MemoryFactory> memory;
    std::shared_ptr<simulator::SimulatorParameters> params;
    std::shared_ptr<volume::VolumeFactory> volumes;
    std::shared_ptr<grid::Grid> grid;
    int nx{1}, ny{1}, nz{1};
    std::string bc;
    explicit Ctx(const Req& q);
    static std::array<boundary::Type, 6> sides(const std::string& bc);
};
// Interior cells of all variables, variable-major, x fastest.
std::vector<double> interior(const volume::Volume& v);
std::vector<double> full(const volume::Volume& v);
void setInterior(volume::Volume& v, const std::vector<double>& a);
void setFull(volume::Volume& v, const std::vector<double>& a);
void fillAll(volume::Volume& v, double x);
}
