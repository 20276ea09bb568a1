// Model of the SUNDIALS parts that the time integrators use: contexts, Kokkos vectors and the
// explicit Runge-Kutta stepper with a fixed step (documented behaviour of SUNDIALS 7.1 and later).
// The stepper owns the state: the vector given to ARKodeEvolve is only written.
#pragma once
#include <Kokkos_Core.hpp>
#include <cstdlib>
#include <memory>
#include <stdexcept>
#include "sym.h"
using sunrealtype = double;
using sunindextype = int64_t;
using SUNComm = int;
#define SUN_COMM_NULL 0
struct SUNContext_ { int alive = 1; };
using SUNContext = SUNContext_*;
inline int nfSunContexts = 0, nfSunIntegrators = 0;
inline int SUNContext_Create(SUNComm, SUNContext* c) { *c = new SUNContext_; nfSunContexts++; return 0; }
inline int SUNContext_Free(SUNContext* c)
{
    if (c && *c) { sym_assert((*c)->alive == 1, "a context is freed once"); (*c)->alive = 0; delete *c; *c = nullptr; nfSunContexts--; }
    return 0;
}
struct _generic_N_Vector;
using N_Vector = _generic_N_Vector*;
struct _generic_N_Vector
{
    void* content = nullptr;
    SUNContext sunctx = nullptr;
    int space = -1; // execution space of the vector
    int64_t length = 0;
    double* device = nullptr;
    double* host = nullptr;
    N_Vector (*clone)(N_Vector) = nullptr;
    void (*destroy)(N_Vector) = nullptr;
    void (*linear)(N_Vector z, N_Vector x, double a, N_Vector y) = nullptr; // z = x + a y
};
inline double* N_VGetArrayPointer(N_Vector v) { return v->host; }
inline double* N_VGetDeviceArrayPointer(N_Vector v) { return v->device; }
inline int64_t N_VGetLength(N_Vector v) { return v->length; }
namespace sundials::kokkos
{
template<class E = Kokkos::DefaultExecutionSpace> class Vector
{
public:
    using view_type = Kokkos::View<double*, typename E::memory_space>;
    using host_view_type = Kokkos::View<double*, Kokkos::HostSpace>;
    static constexpr int spaceOf = E::id;
    Vector() = default;
    Vector(size_t n, SUNContext c) : view_("v", n), host_("h", n), c_(c), made_(true) { init(); }
    // a copy has the shape of the original; its values are not copied
    Vector(const Vector& o) : view_("v", o.view_.size()), host_("h", o.view_.size()), c_(o.c_), made_(o.made_)
    {
        sym_assert(o.made_, "only an initialised vector is copied");
        init();
    }
    Vector(Vector&& o) noexcept : view_(o.view_), host_(o.host_), c_(o.c_), made_(o.made_), object_(std::move(o.object_)) { refresh(); }
    Vector& operator=(Vector&& o) noexcept
    {
        view_ = o.view_;
        host_ = o.host_;
        c_ = o.c_;
        made_ = o.made_;
        object_ = std::move(o.object_);
        refresh();
        return *this;
    }
    view_type View() { return view_; }
    host_view_type HostView() { return host_; }
    size_t Length() const { return view_.size(); }
    operator N_Vector() { return object_.get(); }
    operator N_Vector() const { return object_.get(); }

private:
    void init()
    {
        object_ = std::make_unique<_generic_N_Vector>();
        refresh();
    }
    void refresh()
    {
        if (!object_) return;
        object_->content = this;
        object_->sunctx = c_;
        object_->space = E::id;
        object_->length = (int64_t)view_.size();
        object_->device = view_.data();
        object_->host = host_.data();
        object_->clone = [](N_Vector v) -> N_Vector { return *new Vector(*static_cast<Vector*>(v->content)); };
        object_->destroy = [](N_Vector v) { delete static_cast<Vector*>(v->content); };
        object_->linear = [](N_Vector z, N_Vector x, double a, N_Vector y)
        {
            sym_assert(z->space == x->space && z->space == y->space && z->length == x->length && z->length == y->length, "vectors of one integration have one space and size");
            double *pz = z->device, *px = x->device, *py = y->device;
            Kokkos::parallel_for(Kokkos::RangePolicy<E>(0, (size_t)z->length), KOKKOS_LAMBDA(const size_t i) { pz[i] = px[i] + a * py[i]; });
        };
    }
    view_type view_;
    host_view_type host_;
    SUNContext c_ = nullptr;
    bool made_ = false;
    std::unique_ptr<_generic_N_Vector> object_;
};
template<class V> V* GetVec(N_Vector v)
{
    sym_assert(v != nullptr && v->content != nullptr, "a vector is initialised before it is used");
    V* r = static_cast<V*>(v->content);
    sym_assert(v->space == V::spaceOf, "a vector is used in its own space");
    return r;
}
}
enum ARKODE_ERKTableID { ARKODE_ERK_NONE = -1, ARKODE_HEUN_EULER_2_1_2 = 0, ARKODE_FORWARD_EULER_1_1 = 24, ARKODE_RALSTON_EULER_2_1_2 = 25, ARKODE_EXPLICIT_MIDPOINT_EULER_2_1_2 = 26 };
#define ARK_NORMAL 1
#define ARK_ONE_STEP 2
#define ARK_SUCCESS 0
#define ARK_MEM_NULL -21
#define ARK_ILL_INPUT -22
#define ARK_TOO_CLOSE -27
#define ARK_RHSFUNC_FAIL -8
using ARKRhsFn = int (*)(sunrealtype, N_Vector, N_Vector, void*);
// one explicit step of fixed size
struct NfArk
{
    int alive = 1;
    ARKRhsFn f;
    double t, h = 0;
    N_Vector y, k;
    void* user = nullptr;
    int table = ARKODE_ERK_NONE;
};
inline void* ERKStepCreate(ARKRhsFn f, double t0, N_Vector y0, SUNContext c)
{
    sym_assert(c != nullptr && c->alive == 1 && y0 != nullptr, "an integrator is made in a living context from initialised values");
    auto* m = new NfArk;
    m->f = f;
    m->t = t0;
    m->y = y0->clone(y0);
    m->k = y0->clone(y0);
    m->y->linear(m->y, y0, 0.0, y0);
    nfSunIntegrators++;
    return m;
}
inline NfArk* nfArk(void* p)
{
    auto* m = static_cast<NfArk*>(p);
    if (m) sym_assert(m->alive == 1, "a freed integrator is not used");
    return m;
}
inline int ERKStepSetTableNum(void* p, ARKODE_ERKTableID id)
{
    auto* m = nfArk(p);
    if (!m) return ARK_MEM_NULL;
    m->table = id;
    return ARK_SUCCESS;
}
inline int ARKodeSetUserData(void* p, void* u)
{
    auto* m = nfArk(p);
    if (!m) return ARK_MEM_NULL;
    m->user = u;
    return ARK_SUCCESS;
}
inline int ARKodeSStolerances(void* p, double, double) { return nfArk(p) ? ARK_SUCCESS : ARK_MEM_NULL; }
inline int ARKodeSetFixedStep(void* p, double h)
{
    auto* m = nfArk(p);
    if (!m) return ARK_MEM_NULL;
    m->h = h;
    return ARK_SUCCESS;
}
inline int ARKodeGetCurrentTime(void* p, double* t)
{
    auto* m = nfArk(p);
    if (!m) return ARK_MEM_NULL;
    *t = m->t;
    return ARK_SUCCESS;
}
inline int ARKodeReset(void* p, double t, N_Vector y)
{
    auto* m = nfArk(p);
    if (!m) return ARK_MEM_NULL;
    m->t = t;
    m->y->linear(m->y, y, 0.0, y);
    return ARK_SUCCESS;
}
inline int ARKodeEvolve(void* p, double tout, N_Vector yout, double* tret, int)
{
    auto* m = nfArk(p);
    if (!m) return ARK_MEM_NULL;
    if (m->table != ARKODE_FORWARD_EULER_1_1 || m->h == 0) return ARK_ILL_INPUT;
    if (tout == m->t) return ARK_TOO_CLOSE;
    // steps go towards the time asked for
    if (((m->h > 0) & (tout < m->t)) | ((m->h < 0) & (tout > m->t))) return ARK_ILL_INPUT;
    // the stepper may evaluate the rate of change more than once
    for (int i = 0; i < 2; i++)
        if (m->f(m->t, m->y, m->k, m->user) != 0) return ARK_RHSFUNC_FAIL;
    m->y->linear(m->y, m->y, m->h, m->k);
    m->t += m->h;
    yout->linear(yout, m->y, 0.0, m->y);
    *tret = m->t;
    return ARK_SUCCESS;
}
inline void ARKodeFree(void** p)
{
    auto* m = nfArk(*p);
    if (!m) return;
    m->alive = 0;
    m->y->destroy(m->y);
    m->k->destroy(m->k);
    delete m;
    *p = nullptr;
    nfSunIntegrators--;
}
