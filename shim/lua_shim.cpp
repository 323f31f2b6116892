// scripts run by the real interpreter with the real bindings
#define main vvflow_main
#include "vvflow.cpp"
#undef main
#include "lua_tbody.h"
extern "C" {
void* lu_new() { lua_State* L = luaL_newstate(); luaL_openlibs(L); luaopen_vvd(L); return L; }
void lu_free(void* L) { lua_close((lua_State*)L); }
// the result of a script as text; an error starts with '!'
const char* lu_run(void* v, const char* script) {
    static std::string out; lua_State* L = (lua_State*)v; lua_settop(L, 0);
    if (luaL_loadstring(L, script) || lua_pcall(L, 0, 1, 0)) { out = std::string("!") + (lua_tostring(L, -1) ? lua_tostring(L, -1) : "?"); lua_settop(L, 0); return out.c_str(); }
    const char* s = luaL_tolstring(L, -1, NULL); out = s ? s : ""; lua_settop(L, 0); return out.c_str();
}
static TBody* body(void* v, const char* name) {
    lua_State* L = (lua_State*)v; lua_getglobal(L, name); std::shared_ptr<TBody>* b = (std::shared_ptr<TBody>*)luaL_testudata(L, -1, "TBody"); TBody* r = b ? b->get() : nullptr; lua_settop(L, 0); return r;
}
// the corners of a body in a global variable: x, y, slip
long lu_body(void* v, const char* name, double* out, long cap) {
    TBody* b = body(v, name); if (!b) return -1; long n = b->alist.size(); if (n > cap) return n;
    for (long i = 0; i < n; i++) { out[3*i] = b->alist[i].corner.x; out[3*i+1] = b->alist[i].corner.y; out[3*i+2] = b->alist[i].slip; }
    return n;
}
double lu_area(void* v, const char* name) { TBody* b = body(v, name); return b ? b->get_area() : NAN; }
void* lu_space(void* v) { lua_State* L = (lua_State*)v; lua_getglobal(L, "S"); void* r = *(void**)lua_touserdata(L, -1); lua_settop(L, 0); return r; }
}
// the whole state as text, read directly: S, the bodies in the globals b1..b<n>, without the methods of the bindings
static std::string dmp;
static void put(const char* k, const char* v) { dmp += k; dmp += ' '; dmp += v; dmp += '\n'; }
static void put(const char* k, double v) { char b[64]; snprintf(b, 64, "%.17g", v != v ? NAN : v); put(k, v != v ? "nan" : b); }
static void put(const char* k, int v) { put(k, double(v)); }
static void put(const char* k, const TVec& v) { char b[99]; snprintf(b, 99, "%s.x", k); put(b, v.x); snprintf(b, 99, "%s.y", k); put(b, v.y); }
static void put(const char* k, const TVec3D& v) { put(k, v.r); char b[99]; snprintf(b, 99, "%s.o", k); put(b, v.o); }
static void put(const char* k, const TTime& v) { put(k, std::string(v).c_str()); }
static void put(const char* k, const TEval& v) { put(k, std::string(v).c_str()); }
static void list(const char* k, const std::vector<TObj>& l) {
    char b[99]; snprintf(b, 99, "#%s", k); put(b, double(l.size()));
    for (size_t i = 0; i < l.size(); i++) { snprintf(b, 99, "%s%zu.r", k, i); put(b, l[i].r); snprintf(b, 99, "%s%zu.g", k, i); put(b, l[i].g); snprintf(b, 99, "%s%zu.v", k, i); put(b, l[i].v); }
}
extern "C" {
const char* lu_dump(void* v, int nb) {
    Space& S = *(Space*)lu_space(v); dmp.clear(); std::vector<TBody*> B; char k[99]; char nm[16];
    for (int i = 1; i <= nb; i++) { snprintf(nm, 16, "b%d", i); B.push_back(body(v, nm)); }
    auto index = [&](const TBody* b) { for (size_t i = 0; i < B.size(); i++) if (b && B[i] == b) return double(i + 1); return b ? -1. : 0.; };
    put("caption", S.caption.c_str()); put("re", S.re); put("finish", S.finish); put("inf_g", S.inf_g); put("inf_vx", S.inf_vx); put("inf_vy", S.inf_vy); put("gravity", S.gravity); put("pr", S.pr); put("inf_marker", S.inf_marker);
    put("time", S.time); put("dt", S.dt); put("dt_save", S.dt_save); put("dt_streak", S.dt_streak); put("dt_profile", S.dt_profile);
    list("vort_list", S.VortexList); list("heat_list", S.HeatList); list("sink_list", S.SourceList); list("streak_source_list", S.StreakSourceList); list("streak_domain_list", S.StreakList);
    put("#body_list", double(S.BodyList.size())); for (size_t i = 0; i < S.BodyList.size(); i++) { snprintf(k, 99, "body_list%zu", i); put(k, index(S.BodyList[i].get())); }
    for (size_t i = 0; i < B.size(); i++) if (B[i]) {
        TBody& b = *B[i];
        #define P(N, M) snprintf(k, 99, "b%zu.%s", i + 1, N); put(k, b.M)
        snprintf(k, 99, "b%zu.label", i + 1); put(k, b.label.c_str());
        P("holder_pos", holder); P("delta_pos", dpos); P("speed", speed_slae); P("speed_prev", speed_slae_prev); P("collision_min", collision_min); P("collision_max", collision_max); P("spring_const", kspring); P("spring_damping", damping);
        P("holder_vx", speed_x); P("holder_vy", speed_y); P("holder_vo", speed_o); P("holder_mo", force_o); P("density", density); P("bounce", bounce); P("special_segment", special_segment_no); P("get_slip", get_slip());
        snprintf(k, 99, "b%zu.root", i + 1); put(k, index(b.root_body.lock().get()));
        std::string s; for (auto& a: b.alist) s += a.slip ? '1' : '0'; snprintf(k, 99, "b%zu.slips", i + 1); put(k, s.c_str());
        P("slen", get_slen()); P("area", get_area()); P("cofm", get_cofm());
    }
    return dmp.c_str();
}
// whether the particle behind the global variable is an element of the list of vortices
int lu_member(void* v, const char* name) {
    lua_State* L = (lua_State*)v; Space& S = *(Space*)lu_space(v); lua_getglobal(L, name); TObj** p = (TObj**)luaL_testudata(L, -1, "TObj"); int r = p && *p >= S.VortexList.data() && *p < S.VortexList.data() + S.VortexList.size(); lua_settop(L, 0); return r;
}
}
#include <new>
extern "C" {
// the interpreters of a process share one state: give this one a state of its own; make the shared one as it is at the start of the program
void lu_own(void* v) { lua_State* L = (lua_State*)v; lua_getglobal(L, "S"); *(Space**)lua_touserdata(L, -1) = new Space; lua_settop(L, 0); }
void lu_disown(void* v) { delete (Space*)lu_space(v); }
void lu_reset() { void* L = lu_new(); Space* S = (Space*)lu_space(L); S->~Space(); new (S) Space; lu_free(L); }
}
