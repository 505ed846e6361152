// Scripts, models and the plain one-thread reference used by the simulation checks (C03).
#pragma once
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/model/blackscholes.hpp>
#include <dal/model/dupire.hpp>
#include <dal/model/factory.hpp>
#include <dal/script/event.hpp>
#include <dal/script/simulation.hpp>
#include <dal/storage/globals.hpp>
#include <memory>
#include <vector>

namespace simref {
    using namespace Dal;
    using namespace Dal::AAD;
    using namespace Dal::Script;

    struct Row_ {
        int days; // -1: macro / constant named by `name`
        const char* name;
        const char* text;
    };
    struct Prod_ {
        const char* label;
        std::vector<Row_> rows;
        bool hasIf;
    };
    inline const std::vector<Prod_>& Prods() {
        static const std::vector<Prod_> p = {
            {"call", {{-1, "STRIKE", "100.0"}, {200, "", "call pays MAX(spot() - STRIKE, 0.0)"}}, false},
            {"basket of statements",
             {{-1, "K", "95.0"}, {40, "", "m = spot()"}, {90, "", "m = MAX(m, spot())"}, {150, "", "x pays m - K"}},
             false},
            {"today", {{0, "", "s = spot()"}, {100, "", "x pays (spot() - s) * (spot() - s) / 100"}}, false},
            {"barrier",
             {{-1, "B", "108.0"}, {50, "", "alive = 1"}, {100, "", "if spot() > B then alive = 0 end"}, {150, "", "x = 0 if alive > 0.5 then x pays spot() else x pays 1 end"}},
             true},
            {"constant result", {{-1, "K", "7.0"}, {60, "", "x = K"}}, false},
            {"spot today", {{0, "", "x = spot()"}}, false},
        };
        return p;
    }
    inline ScriptProduct_ Make(const Prod_& p, const Date_& today) {
        Vector_<Cell_> d;
        Vector_<String_> e;
        for (auto& r : p.rows) {
            if (r.days < 0)
                d.push_back(Cell_(String_(r.name)));
            else
                d.push_back(Cell_(today.AddDays(r.days)));
            e.push_back(r.text);
        }
        return ScriptProduct_(d, e);
    }
    inline Handle_<ModelData_> Model(int kind) {
        if (kind == 0)
            return Handle_<ModelData_>(new BSModelData_("bs", 100.0, 0.15, 0.03, 0.01));
        Vector_<> s = {60.0, 90.0, 110.0, 150.0}, t = {0.1, 0.5};
        Matrix_<> v(4, 2);
        for (int i = 0; i < 4; ++i)
            for (int j = 0; j < 2; ++j)
                v(i, j) = 0.3 - 0.04 * i + 0.02 * j;
        return Handle_<ModelData_>(new DupireModelData_("dup", 100.0, 0.03, 0.01, s, t, v));
    }
    struct Res_ {
        double sum = 0.0;
        std::vector<double> risks; // sums over paths
    };
    // the plain average: one generator drawn in order, one fresh evaluator per path, one fresh tape per path
    inline Res_ Plain(const ScriptProduct_& p, const Handle_<ModelData_>& md, size_t n, const String_& rsg, bool bb) {
        Res_ r;
        auto mdl = CreateModel<double>(md);
        mdl->Allocate(p.TimeLine(), p.DefLine());
        mdl->Init(p.TimeLine(), p.DefLine());
        auto rng = CreateRNG(rsg, mdl->SimDim(), bb);
        Vector_<> g(mdl->SimDim());
        for (size_t i = 0; i < n; ++i) {
            rng->FillNormal(&g);
            Scenario_<> path;
            AllocatePath(p.DefLine(), path);
            InitializePath(path);
            mdl->GeneratePath(g, &path);
            auto ev = p.BuildEvaluator<double>();
            p.Evaluate(path, ev);
            r.sum += ev.VarVals()[p.PayOffIdx()];
        }
        return r;
    }
    inline Res_ PlainAAD(const ScriptProduct_& p, const Handle_<ModelData_>& md, size_t n, const String_& rsg, bool bb, bool compiled, int nested, double eps) {
        Res_ r;
        Tape_* old = Number_::Tape();
        static Tape_ tape;
        Number_::SetTape(tape);
        std::unique_ptr<Random_> rng;
        for (size_t i = 0; i < n; ++i) {
            tape.Rewind();
            auto mdl = CreateModel<Number_>(md);
            mdl->Allocate(p.TimeLine(), p.DefLine());
            if (!rng)
                rng = CreateRNG(rsg, mdl->SimDim(), bb);
            Vector_<> g(mdl->SimDim());
            rng->FillNormal(&g);
            Scenario_<Number_> path;
            AllocatePath(p.DefLine(), path);
            InitializePath(path);
            for (auto* q : mdl->Parameters())
                q->PutOnTape();
            mdl->Init(p.TimeLine(), p.DefLine());
            Vector_<Number_>* consts;
            auto done = [&](auto& ev) {
                Number_ res = ev.VarVals()[p.PayOffIdx()] * 1.0;
                res.PropagateToStart();
                r.sum += res.value();
                const size_t np = mdl->Parameters().size();
                r.risks.resize(np + ev.ConstVarVals().size());
                for (size_t j = 0; j < np; ++j)
                    r.risks[j] += mdl->Parameters()[j]->Adjoint();
                for (size_t j = 0; j < ev.ConstVarVals().size(); ++j)
                    r.risks[np + j] += ev.ConstVarVals()[j].Adjoint();
            };
            if (compiled) {
                auto ev = p.BuildEvalState<Number_>();
                for (auto& c : ev.ConstVarVals())
                    c.PutOnTape();
                mdl->GeneratePath(g, &path);
                p.EvaluateCompiled(path, ev);
                done(ev);
            } else {
                auto ev = p.BuildFuzzyEvaluator<Number_>(nested, eps);
                for (auto& c : ev.ConstVarVals())
                    c.PutOnTape();
                mdl->GeneratePath(g, &path);
                p.Evaluate(path, ev);
                done(ev);
            }
        }
        if (old)
            Number_::SetTape(*old);
        return r;
    }
    inline bool Close(double a, double b, double scale) { return std::fabs(a - b) <= 1e-9 * (1.0 + std::fabs(scale)); }
} // namespace simref
