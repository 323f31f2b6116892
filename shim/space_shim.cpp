// flat C access to a Space: used by the bounded executions of the real code
#include "TSpace.hpp"
#include <cstring>
#include <memory>
#include <string>
#define SP ((Space*)sp)
static std::vector<TObj>& lst(void* sp, int k) {
    switch (k) { case 0: return SP->VortexList; case 1: return SP->HeatList; case 2: return SP->SourceList; case 3: return SP->StreakSourceList; default: return SP->StreakList; }
}
struct ent { const char* n; double* p; };
extern "C" {
void* sp_new() { return new Space(); }
void sp_del(void* sp) { delete SP; }
void sp_set(void* sp, const double* p) {
    SP->re = p[0]; SP->pr = p[1]; SP->inf_g = p[2]; SP->inf_marker = TVec(p[3], p[4]); SP->gravity = TVec(p[5], p[6]); SP->finish = p[7];
}
void sp_get(void* sp, double* p) {
    p[0] = SP->re; p[1] = SP->pr; p[2] = SP->inf_g; p[3] = SP->inf_marker.x; p[4] = SP->inf_marker.y; p[5] = SP->gravity.x; p[6] = SP->gravity.y; p[7] = SP->finish;
}
static TTime& tm(void* sp, int k) { return k == 0 ? SP->time : k == 1 ? SP->dt : k == 2 ? SP->dt_save : k == 3 ? SP->dt_streak : SP->dt_profile; }
void sp_settime(void* sp, int k, int v, unsigned ts) { tm(sp, k) = TTime(v, ts); }
void sp_gettime(void* sp, int k, int* v, unsigned* ts) { *v = tm(sp, k).value; *ts = tm(sp, k).timescale; }
void sp_inf(void* sp, const char* x, const char* y) { SP->inf_vx = std::string(x); SP->inf_vy = std::string(y); }
void sp_caption(void* sp, const char* s) { SP->caption = s; }
const char* sp_str(void* sp, int k) { static std::string s; s = k == 0 ? SP->caption : k == 1 ? std::string(SP->inf_vx) : std::string(SP->inf_vy); return s.c_str(); }
void sp_push(void* sp, int k, double x, double y, double g, double vx, double vy, double eps) { TObj o(x, y, g); o.v = TVec(vx, vy); o._1_eps = eps; lst(sp, k).push_back(o); }
long sp_n(void* sp, int k) { return lst(sp, k).size(); }
void sp_obj(void* sp, int k, long i, double* d) { TObj& o = lst(sp, k)[i]; d[0] = o.r.x; d[1] = o.r.y; d[2] = o.g; d[3] = o.v.x; d[4] = o.v.y; d[5] = o._1_eps; }
void sp_setobj(void* sp, int k, long i, const double* d) { TObj& o = lst(sp, k)[i]; o.r = TVec(d[0], d[1]); o.g = d[2]; o.v = TVec(d[3], d[4]); o._1_eps = d[5]; }
void* sp_objptr(void* sp, int k, long i) { return &lst(sp, k)[i]; }
void sp_clear(void* sp, int k) { lst(sp, k).clear(); }
int sp_body(void* sp, int n, const double* c, const int* slip) {
    auto b = std::make_shared<TBody>();
    for (int i = 0; i < n; i++) b->alist.emplace_back(c[2*i], c[2*i+1], slip[i]);
    b->doUpdateSegments(); b->doFillProperties(); SP->BodyList.push_back(b); return SP->BodyList.size() - 1;
}
void sp_refresh(void* sp, int b) { SP->BodyList[b]->doUpdateSegments(); SP->BodyList[b]->doFillProperties(); }
void sp_root(void* sp, int b, int r) { SP->BodyList[b]->root_body = r >= 0 ? SP->BodyList[r] : std::shared_ptr<TBody>(); }
int sp_getroot(void* sp, int b) { auto r = SP->BodyList[b]->root_body.lock(); for (size_t i = 0; i < SP->BodyList.size(); i++) if (SP->BodyList[i] == r) return i; return -1; }
long sp_nb(void* sp) { return SP->BodyList.size(); }
long sp_nseg(void* sp, int b) { return SP->BodyList[b]->alist.size(); }
void* sp_bodyptr(void* sp, int b) { return SP->BodyList[b].get(); }
void* sp_attptr(void* sp, int b, int i) { return &SP->BodyList[b]->alist[i]; }
void sp_bexpr(void* sp, int b, int k, const char* s) { TBody& B = *SP->BodyList[b]; (k == 0 ? B.speed_x : k == 1 ? B.speed_y : k == 2 ? B.speed_o : B.force_o) = std::string(s); }
const char* sp_bstr(void* sp, int b, int k) { static std::string s; TBody& B = *SP->BodyList[b]; s = k == 4 ? B.label : std::string(k == 0 ? B.speed_x : k == 1 ? B.speed_y : k == 2 ? B.speed_o : B.force_o); return s.c_str(); }
void sp_blabel(void* sp, int b, const char* s) { SP->BodyList[b]->label = s; }
#define V3(f) {#f ".x", &B.f.r.x}, {#f ".y", &B.f.r.y}, {#f ".o", &B.f.o}
static double* bf(void* sp, int b, const char* n) {
    TBody& B = *SP->BodyList[b];
    ent t[] = { V3(holder), V3(dpos), V3(kspring), V3(damping), V3(speed_slae), V3(speed_slae_prev), V3(collision_min), V3(collision_max), V3(friction), V3(friction_prev), V3(force_hydro), V3(force_holder), V3(fdt_dead),
        {"bounce", &B.bounce}, {"density", &B.density}, {"nusselt", &B.nusselt}, {"g_dead", &B.g_dead} };
    for (auto& e : t) if (!strcmp(e.n, n)) return e.p;
    return nullptr;
}
double* sp_bfield(void* sp, int b, const char* n) { return bf(sp, b, n); }
double sp_bget(void* sp, int b, const char* n) {
    if (double* p = bf(sp, b, n)) return *p;
    TBody& B = *SP->BodyList[b];
    if (!strcmp(n, "special_segment_no")) return B.special_segment_no;
    if (!strcmp(n, "boundary_condition")) return int(B.boundary_condition);
    if (!strcmp(n, "heat_condition")) return int(B.heat_condition);
    if (!strcmp(n, "eq_forces_no")) return B.eq_forces_no;
    if (!strcmp(n, "slip")) return B.get_slip();
    if (!strcmp(n, "slen")) return B.get_slen();
    if (!strcmp(n, "area")) return B.get_area();
    if (!strcmp(n, "cofm.x")) return B.get_cofm().x;
    if (!strcmp(n, "cofm.y")) return B.get_cofm().y;
    if (!strcmp(n, "axis.x")) return B.get_axis().x;
    if (!strcmp(n, "axis.y")) return B.get_axis().y;
    if (!strcmp(n, "moi_cofm")) return B.get_moi_cofm();
    if (!strcmp(n, "moi_axis")) return B.get_moi_axis();
    return 0.0 / 0.0;
}
int sp_bset(void* sp, int b, const char* n, double v) {
    if (double* p = bf(sp, b, n)) { *p = v; return 1; }
    TBody& B = *SP->BodyList[b];
    if (!strcmp(n, "special_segment_no")) { B.special_segment_no = int(v); return 1; }
    if (!strcmp(n, "boundary_condition")) { B.boundary_condition = bc_t(int(v)); return 1; }
    if (!strcmp(n, "heat_condition")) { B.heat_condition = hc_t(int(v)); return 1; }
    return 0;
}
static double* af(void* sp, int b, int i, const char* n) {
    TAtt& A = SP->BodyList[b]->alist[i];
    ent t[] = { {"r.x", &A.r.x}, {"r.y", &A.r.y}, {"g", &A.g}, {"v.x", &A.v.x}, {"v.y", &A.v.y}, {"_1_eps", &A._1_eps}, {"corner.x", &A.corner.x}, {"corner.y", &A.corner.y}, {"dl.x", &A.dl.x}, {"dl.y", &A.dl.y},
        {"gsum", &A.gsum}, {"hsum", &A.hsum}, {"fric", &A.fric}, {"Cp", &A.Cp}, {"Fr", &A.Fr}, {"Nu", &A.Nu} };
    for (auto& e : t) if (!strcmp(e.n, n)) return e.p;
    return nullptr;
}
double* sp_afield(void* sp, int b, int i, const char* n) { return af(sp, b, i, n); }
double sp_aget(void* sp, int b, int i, const char* n) {
    if (double* p = af(sp, b, i, n)) return *p;
    TAtt& A = SP->BodyList[b]->alist[i];
    if (!strcmp(n, "slip")) return A.slip;
    if (!strcmp(n, "heat_layer_obj_no")) return A.heat_layer_obj_no;
    if (!strcmp(n, "heat_const")) return A.heat_const;
    if (!strcmp(n, "eq_no")) return A.eq_no;
    return 0.0 / 0.0;
}
int sp_aset(void* sp, int b, int i, const char* n, double v) {
    if (double* p = af(sp, b, i, n)) { *p = v; return 1; }
    TAtt& A = SP->BodyList[b]->alist[i];
    if (!strcmp(n, "slip")) { A.slip = v != 0; return 1; }
    if (!strcmp(n, "heat_layer_obj_no")) { A.heat_layer_obj_no = (long)v; return 1; }
    if (!strcmp(n, "heat_const")) { A.heat_const = v; return 1; }
    return 0;
}
int sp_invalid(void* sp, int b, double x, double y) { TBody& B = *SP->BodyList[b]; TAtt* a = B.isPointInvalid(TVec(x, y)); return a ? int(a - B.alist.data()) : -1; }
int sp_inlayer(void* sp, int b, double x, double y) { TBody& B = *SP->BodyList[b]; TAtt* a = B.isPointInHeatLayer(TVec(x, y)); return a ? int(a - B.alist.data()) : -1; }
int sp_inbody(void* sp, double x, double y) { return SP->point_is_in_body(TVec(x, y)); }
void sp_bmove(void* sp, int b, const double* h, const double* d) { SP->BodyList[b]->move(TVec3D(h[0], h[1], h[2]), TVec3D(d[0], d[1], d[2])); }
void sp_enumerate(void* sp) { SP->EnumerateBodies(); }
void sp_calc_forces(void* sp) { SP->calc_forces(); }
void sp_zero_forces(void* sp) { SP->zero_forces(); }
void sp_zero_speed(void* sp) { SP->zero_speed(); }
void sp_finish_step(void* sp) { SP->finish_step(); }
void sp_integrals(void* sp, double* d) { TVec m = SP->hydrodynamic_momentum(); TVec w = SP->inf_speed(); d[0] = SP->integral(); d[1] = SP->gsum(); d[2] = SP->gmax(); d[3] = m.x; d[4] = m.y; d[5] = SP->average_segment_length(); d[6] = SP->total_segment_count(); d[7] = w.x; d[8] = w.y; }
int sp_index(void* sp, void* b) { return SP->get_body_index((TBody*)b); }
const char* sp_name(void* sp, int b) { static std::string s; s = SP->get_body_name(SP->BodyList[b].get()); return s.c_str(); }
}
