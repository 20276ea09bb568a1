// A solver that records what it is given and answers what it is told.
#pragma once
#include "fvfield.hpp"
#include "NeoFOAM/linearAlgebra/solver.hpp"
namespace
{
// what the solver was given
struct Seen
{
    int calls = 0, tag = 0, made = 0;
    bool execOk = true;
    std::vector<std::vector<scalar>> a;
    std::vector<scalar> b, guess, answer;
};
Seen* seen = nullptr;
}
namespace NeoFOAM::la
{
class RecordingSolver : public SolverFactory::Register<RecordingSolver>
{
    using Base = SolverFactory::Register<RecordingSolver>;
    int tag_;

public:
    RecordingSolver(const Executor& exec, const Dictionary& dict) : Base(exec), tag_(dict.get<int>("tag")) { seen->made++; }
    static std::string name() { return "recording"; }
    static std::string doc() { return "none"; }
    static std::string schema() { return "none"; }
    void solve(const LinearSystem<scalar, localIdx>& ls, Field<scalar>& x) const override
    {
        seen->calls++;
        seen->tag = tag_;
        seen->execOk = ls.exec() == exec_ && x.exec() == exec_;
        seen->a = dense(ls, x.size());
        seen->b = host(ls.rhs());
        seen->guess = host(x);
        if (seen->answer.size()) x = Field<scalar>(x.exec(), seen->answer);
    }
    std::unique_ptr<SolverFactory> clone() const override { return std::make_unique<RecordingSolver>(*this); }
};
}
template class NeoFOAM::RuntimeSelectionFactory<NeoFOAM::la::SolverFactory, NeoFOAM::Parameters<const NeoFOAM::Executor&, const NeoFOAM::Dictionary&>>::Register<NeoFOAM::la::RecordingSolver>;
