// the steps of a run, one by one, on the library's own objects; the entry point of the program
#include "MEpsilonFast.hpp"
#include "MConvectiveFast.hpp"
#include "MDiffusiveFast.hpp"
#include "MStepdata.hpp"
#include "MFlowmove.hpp"
#include <getopt.h>
#include <omp.h>
#include <cstdio>
#include <string>
#include <limits>
#include <vector>
namespace opt { extern int save_profile, show_progress, argc; extern const char *input, *sensors_file; }
int vvflow_main(int argc, char* const* argv);
struct Run {
    Space* S; Stepdata rec; TSortedTree tr; MConvectiveFast cv; MEpsilonFast ep; MDiffusiveFast df; MFlowmove fm; const void* hit = nullptr; std::vector<TVec> at;
    static double size(Space* S, double k, double other) { double dl = S->average_segment_length(); return dl > 0 ? dl * k : other; }
    Run(Space* S, const char* f, bool prof): S(S), rec{S, f, prof}, tr{S, 8, size(S, 5, 0), size(S, 100, std::numeric_limits<double>::max())}, cv{S, &tr}, ep{S, &tr}, df{S, &tr}, fm{S} {}
};
extern "C" {
void rn_opt(int profile, const char* sensors) { static std::string s; opt::save_profile = profile; opt::show_progress = 0; if (sensors) s = sensors; opt::sensors_file = sensors ? s.c_str() : nullptr; omp_set_num_threads(1); }
void* rn_new(void* sp, const char* f, int profile) { try { return new Run((Space*)sp, f, profile); } catch (const std::exception& e) { return nullptr; } }
void rn_at(void* v, double x, double y) { ((Run*)v)->at.push_back(TVec(x, y)); }
void rn_free(void* v) { delete (Run*)v; }
// one step; the velocities at the sensors come out; 1: in contact afterwards
int rn_step(void* v, const char* save, int viscous, double* out) {
    Run& R = *(Run*)v; Space& S = *R.S;
    try {
        if (!S.BodyList.empty()) {
            R.tr.build(); if (R.hit) R.cv.calc_circulation(&R.hit);
            R.cv.calc_circulation(&R.hit); R.tr.destroy();
        }
        R.fm.heat_shed();
        if (save) { S.save(save); R.rec.flush(); }
        R.fm.vortex_shed(); R.fm.streak_shed(); S.calc_forces(); R.rec.write(); S.zero_forces();
        R.tr.build(); R.ep.CalcEpsilonFast(viscous); R.cv.process_all_lists();
        for (size_t i = 0; i < R.at.size(); i++) { TVec u = R.cv.velocity(R.at[i]); out[2*i] = u.x; out[2*i+1] = u.y; }
        if (viscous) { R.df.process_vort_list(); R.df.process_heat_list(); }
        R.tr.destroy(); R.fm.move_and_clean(true, &R.hit); R.fm.heat_crop(16); return R.hit != nullptr;
    } catch (const std::exception& e) { return -1; }
}
// the program itself: arguments separated by \n
int rn_main(const char* args) {
    static std::vector<std::string> keep; keep.clear(); std::string s = args; size_t a = 0;
    for (size_t i = 0; i <= s.size(); i++) if (i == s.size() || s[i] == '\n') { keep.push_back(s.substr(a, i - a)); a = i + 1; }
    std::vector<char*> p; for (auto& x: keep) p.push_back(&x[0]); p.push_back(nullptr);
    rn_opt(0, nullptr); optind = 0; return vvflow_main(int(keep.size()), p.data());
}
}
