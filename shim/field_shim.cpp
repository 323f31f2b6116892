// post-processing fields, evaluated on a grid by the real code
#include "TSpace.hpp"
#include "XVorticity.hpp"
#include "XPressure.hpp"
#include "XStreamfunction.hpp"
#include "XVelocity.hpp"
#include <stdexcept>
#define SP (*(Space*)sp)
template <class F> static int out(F& f, double* map, double* gaps, int* ngaps) {
    try { f.evaluate(); } catch (const std::invalid_argument&) { return 0; }
    for (int j = 0; j < f.yres; j++) for (int i = 0; i < f.xres; i++) map[j*f.xres + i] = f.at(i, j);
    *ngaps = 0;
    for (auto& g: f.gaps) if (*ngaps < 100) { gaps[3**ngaps] = g.xi; gaps[3**ngaps + 1] = g.yj; gaps[3**ngaps + 2] = g.gap; ++*ngaps; }
    return 1;
}
extern "C" {
// geom: xmin ymin dxdy eps_mult
int xf_eval(void* sp, int kind, const double* q, int nx, int ny, int frame, int mode, double* map, double* gaps, int* ngaps) {
    if (kind == 0) { XVorticity f(SP, q[0], q[1], q[2], nx, ny); f.eps_mult = q[3]; return out(f, map, gaps, ngaps); }
    if (kind == 1) { XVelocity f(SP, q[0], q[1], q[2], nx, ny); f.ref_frame = frame; f.mode = mode; return out(f, map, gaps, ngaps); }
    if (kind == 2) { XStreamfunction f(SP, q[0], q[1], q[2], nx, ny); f.eps_mult = q[3]; f.ref_frame = frame; return out(f, map, gaps, ngaps); }
    XPressure f(SP, q[0], q[1], q[2], nx, ny); f.eps_mult = q[3]; f.ref_frame = frame; return out(f, map, gaps, ngaps);
}
double xf_psi(void* sp, double x, double y) { return XStreamfunction::streamfunction(SP, TVec(x, y)); }
}
