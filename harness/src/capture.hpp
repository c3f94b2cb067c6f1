// An output that keeps everything it is given.
#pragma once
#include "common.hpp"
#include "alsfvm/io/Writer.hpp"
namespace vh {
class Capture : public io::Writer {
public:
    void write(const volume::Volume& v, const grid::Grid&,
        const simulator::TimestepInformation& t) override {
        states.push_back(whole ? full(v) : interior(v));
        times.push_back(t.getCurrentTime());
        steps.push_back(double(t.getNumberOfStepsPerformed()));
        dims = {double(v.getNumberOfXCells()), double(v.getNumberOfYCells()),
                double(v.getNumberOfZCells()), double(v.getNumberOfVariables())
               };
        for (size_t i = 0; i < v.getNumberOfVariables(); ++i) {
            if (names.size() <= i) {
                names.push_back(v.getName(i));
            }
        }
    }
    void finalize(const grid::Grid&, const simulator::TimestepInformation&) override {
        ++finalized;
    }
    std::vector<std::vector<double>> states;
    std::vector<double> times, steps, dims;
    std::vector<std::string> names;
    int finalized{0};
    bool whole{false};  // with the ghost cells
};
}
