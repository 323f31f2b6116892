// tree, convection, diffusion, smoothing: flat C access + recording of the linear system at the LAPACK boundary
#include "TSortedTree.hpp"
#include "MConvectiveFast.hpp"
#include "MDiffusiveFast.hpp"
#include "MEpsilonFast.hpp"
#include <dlfcn.h>
#include <map>
#include <cstring>
#define SP ((Space*)sp)
#define TR ((TSortedTree*)t)
static std::vector<double> buf;
static std::map<const snode*, int> ids;
static std::vector<const snode*> order;
static void number(const snode* n) { if (!n) return; ids[n] = order.size(); order.push_back(n); number(n->ch1); number(n->ch2); }
static void rng(Space* S, std::vector<TObj>& l, const range& r) { buf.push_back(r.first ? r.first - l.data() : 0); buf.push_back(r.first ? r.last - l.data() : 0); }
extern "C" {
void* tr_new(void* sp, int far, double mn, double mx) { return new TSortedTree(SP, far, mn, mx); }
void tr_build(void* t, int v, int b, int h) { TR->build(v, b, h); }
void tr_destroy(void* t) { TR->destroy(); }
void tr_del(void* t) { TR->destroy(); delete TR; }
// preorder dump: per node x y w h | CMp r g eps | CMm r g eps | ch1 ch2 | v h s ranges | nbl bl(body*100000+seg).. | leaf | nnear near.. | nfar far..
const double* tr_dump(void* sp, void* t, long* n) {
    ids.clear(); order.clear(); buf.clear(); number(TR->rootNode); buf.push_back(order.size());
    std::map<const TObj*, int> att; int bi = 0;
    for (auto& b : SP->BodyList) { for (size_t i = 0; i < b->alist.size(); i++) att[&b->alist[i]] = bi * 100000 + i; bi++; }
    auto& bot = TR->getBottomNodes(); std::map<const snode*, int> isb; for (auto x : bot) isb[x]++;
    for (auto x : order) {
        double h[] = { x->x, x->y, x->w, x->h, x->CMp.r.x, x->CMp.r.y, x->CMp.g, x->CMp._1_eps, x->CMm.r.x, x->CMm.r.y, x->CMm.g, x->CMm._1_eps, double(x->ch1 ? ids[x->ch1] : -1), double(x->ch2 ? ids[x->ch2] : -1) };
        buf.insert(buf.end(), h, h + 14);
        rng(SP, SP->VortexList, x->vRange); rng(SP, SP->HeatList, x->hRange); rng(SP, SP->StreakList, x->sRange);
        buf.push_back(x->bllist.size()); for (auto a : x->bllist) buf.push_back(att.count(a) ? att[a] : -1);
        buf.push_back(isb.count(x) ? isb[x] : 0);
        for (auto l : { x->NearNodes, x->FarNodes }) {
            if (!l) { buf.push_back(-1); continue; }
            buf.push_back(l->size()); for (auto y : *l) buf.push_back(ids.count(y) ? ids[y] : -1);
        }
    }
    buf.push_back(bot.size()); for (auto x : bot) buf.push_back(ids.count(x) ? ids[x] : -1);
    *n = buf.size(); return buf.data();
}
int tr_find(void* t, double x, double y) { auto n = TR->findNode(TVec(x, y)); auto i = ids.find(n); return i == ids.end() ? -1 : i->second; }
// convection
void* cv_new(void* sp, void* t) { return new MConvectiveFast(SP, TR); }
void cv_del(void* c) { delete (MConvectiveFast*)c; }
void cv_velocity(void* c, double x, double y, double* o) { TVec v = ((MConvectiveFast*)c)->velocity(TVec(x, y)); o[0] = v.x; o[1] = v.y; }
void cv_process(void* c) { ((MConvectiveFast*)c)->process_all_lists(); }
static const void* ptrof(Space* S, int k) {
    if (k < 0) return nullptr;
    auto& b = S->BodyList[k / 6]; k %= 6;
    const void* p[] = { &b->kspring.r.x, &b->kspring.r.y, &b->kspring.o, &b->force_holder.r.x, &b->force_holder.r.y, &b->force_holder.o };
    return p[k];
}
static int codeof(Space* S, const void* p) { if (!p) return -1; for (size_t k = 0; k < S->BodyList.size() * 6; k++) if (ptrof(S, k) == p) return k; return -2; }
int cv_calc(void* sp, void* c, int code) { const void* p = ptrof(SP, code); ((MConvectiveFast*)c)->calc_circulation(&p); return codeof(SP, p); }
// diffusion, smoothing
void df_vort(void* sp, void* t) { MDiffusiveFast(SP, TR).process_vort_list(); }
void df_heat(void* sp, void* t) { MDiffusiveFast(SP, TR).process_heat_list(); }
int ep_calc(void* sp, void* t, int merge) { MEpsilonFast e(SP, TR); e.CalcEpsilonFast(merge); return e.Merged(); }
double ep_eps2h(void* t, double x, double y) { return MEpsilonFast::eps2h(*TR->findNode(TVec(x, y)), TVec(x, y)); }
double ep_h2(void* t, double x, double y) { return MEpsilonFast::h2(*TR->findNode(TVec(x, y)), TVec(x, y)); }
// ---- the linear system as it reaches LAPACK/BLAS
static int mode = 0;                       // 0: plain, 1: record, 2: record and return column markers instead of the solution
static std::vector<double> recA, recB; static int recN, nsolve, ninv, nmul;
void la_mode(int m) { mode = m; recA.clear(); recB.clear(); recN = 0; nsolve = ninv = nmul = 0; }
int la_get(const double** a, const double** b, int* cnt) { *a = recA.data(); *b = recB.data(); cnt[0] = nsolve; cnt[1] = ninv; cnt[2] = nmul; cnt[3] = recA.size(); cnt[4] = recB.size(); return recN; }
static void* real(const char* n) {
    static void* h[3]; const char* l[] = { "liblapack.so.3", "libblas.so.3", "libcblas.so.3" };
    for (int i = 0; i < 3; i++) { if (!h[i]) h[i] = dlopen(l[i], RTLD_NOW | RTLD_LOCAL); if (h[i]) if (void* p = dlsym(h[i], n)) return p; }
    abort();
}
void dgesv_(int* n, const int* nrhs, double* a, int* lda, int* ipiv, double* x, int* incx, int* info) {
    nsolve++; int N = *n;
    if (mode) { recN = N; recA.resize(size_t(N) * N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) recA[size_t(i) * N + j] = a[i + size_t(j) * *lda]; recB.assign(x, x + N); }
    if (mode == 2) { for (int i = 0; i < N; i++) x[i] = 1000 + i; *info = 0; return; }
    ((decltype(&dgesv_))real("dgesv_"))(n, nrhs, a, lda, ipiv, x, incx, info);
}
void dgetrf_(int* M, int* N, double* A, int* lda, int* ipiv, int* info) {
    ninv++;
    if (mode) { recN = *N; recA.assign(A, A + size_t(*N) * *N); }
    if (mode == 2) { *info = 0; return; }
    ((decltype(&dgetrf_))real("dgetrf_"))(M, N, A, lda, ipiv, info);
}
void dgetri_(int* N, double* A, int* lda, int* ipiv, double* w, int* lw, int* info) {
    if (mode == 2) { *info = 0; return; }
    ((decltype(&dgetri_))real("dgetri_"))(N, A, lda, ipiv, w, lw, info);
}
void cblas_dgemv(int layout, int trans, int m, int n, double alpha, const double* A, int lda, const double* x, int incx, double beta, double* y, int incy) {
    nmul++;
    if (mode) { recN = n; recB.assign(x, x + n); }
    if (mode == 2) { for (int i = 0; i < n; i++) y[i] = 1000 + i; return; }
    ((decltype(&cblas_dgemv))real("cblas_dgemv"))(layout, trans, m, n, alpha, A, lda, x, incx, beta, y, incy);
}
}
