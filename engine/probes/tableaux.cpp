// Probe: every Runge-Kutta method selectable through AllTimeIntegrators.
#include "vt.h"
#include "Base/TimeIntegration/AllTimeIntegrators.h"
#include "Base/TimeIntegration/ButcherTableau.h"
using namespace hpgem;
extern "C" void probe_tableaux() {
    for (long o = 1; o <= 8; ++o)
        for (long s = 1; s <= 10; ++s)
            for (long tvd = 0; tvd < 2; ++tvd)
                vtTry("rule", [&] {
                    long id = o * 100 + s;
                    vt_emit_i("try.rule", o, s, tvd, 1);
                    TimeIntegration::ButcherTableau* r =
                        TimeIntegration::AllTimeIntegrators::Instance().getRule(o, s, tvd != 0);
                    vt_emit_class("rule", o, s, tvd, r);
                    vt_emit_i("order", o, s, tvd, r->getOrder());
                    std::size_t n = r->getNumberOfStages();
                    vt_emit_i("stages", o, s, tvd, n);
                    vt_emit_i("tvd", o, s, tvd, r->getTotalVariationDiminishing());
                    for (std::size_t i = 0; i < n; ++i) {
                        for (std::size_t j = 0; j < i; ++j) vt_emit_d("a", id * 10 + tvd, i, j, r->getA(i, j));
                        vt_emit_d("b", id * 10 + tvd, i, 0, r->getB(i));
                        vt_emit_d("c", id * 10 + tvd, i, 0, r->getC(i));
                    }
                    bool e = r->hasErrorEstimate();
                    vt_emit_i("haserr", o, s, tvd, e);
                    if (e)
                        for (std::size_t i = 0; i < n; ++i)
                            vt_emit_d("e", id * 10 + tvd, i, 0, r->getErrorCoefficient(i));
                    if (!e)
                        vtTry("hidden", [&] {
                            vt_emit_i("try.hidden", o, s, tvd, 1);
                            for (std::size_t i = 0; i < n; ++i)
                                vt_emit_d("h", id * 10 + tvd, i, 0, r->getErrorCoefficient(i));
                        });
                });
}
