#include "MFlowmove.hpp"
#define SP ((Space*)sp)
// where (body, component, which) a collision pointer points: 0..2 kspring, 3..5 force_holder of body b -> b*6+k; -1 none; -2 elsewhere
static int code(Space* s, const void* p) {
    if (!p) return -1;
    int b = 0;
    for (auto& x : s->BodyList) {
        const void* k[] = { &x->kspring.r.x, &x->kspring.r.y, &x->kspring.o, &x->force_holder.r.x, &x->force_holder.r.y, &x->force_holder.o };
        for (int i = 0; i < 6; i++) if (p == k[i]) return b * 6 + i;
        b++;
    }
    return -2;
}
extern "C" {
int fm_move(void* sp, double eps, int remove, long* cleaned, int initial) { const void* c = initial ? (const void*)sp : nullptr; size_t n = 77; MFlowmove(SP, eps).move_and_clean(remove, &c, &n); *cleaned = n; return code(SP, c); }
void fm_shed(void* sp, double eps) { MFlowmove(SP, eps).vortex_shed(); }
void fm_heat_shed(void* sp, double eps) { MFlowmove(SP, eps).heat_shed(); }
void fm_heat_crop(void* sp, double eps, double x) { MFlowmove(SP, eps).heat_crop(x); }
void fm_streak(void* sp, double eps) { MFlowmove(SP, eps).streak_shed(); }
}
