// Stand-in for the FMI library: the functions adevs calls, backed by a scripted FMU that
// checks every call against the FMI 2.0 model exchange protocol.
#ifndef STUB_FMILIB_H
#define STUB_FMILIB_H
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>

typedef unsigned int fmi2_value_reference_t;
typedef double fmi2_real_t;
typedef int fmi2_integer_t;
typedef int fmi2_boolean_t;
typedef char const* fmi2_string_t;
enum { fmi2_false = 0, fmi2_true = 1 };
enum fmi2_status_t { fmi2_status_ok, fmi2_status_warning, fmi2_status_discard, fmi2_status_error, fmi2_status_fatal, fmi2_status_pending };
enum fmi2_base_type_enu_t { fmi2_base_type_real, fmi2_base_type_int, fmi2_base_type_bool, fmi2_base_type_str, fmi2_base_type_enum };
enum jm_status_enu_t { jm_status_error = -1, jm_status_success = 0, jm_status_warning = 1 };
enum jm_log_level_enu_t { jm_log_level_nothing, jm_log_level_fatal, jm_log_level_error, jm_log_level_all };
enum fmi_version_enu_t { fmi_version_unknown_enu, fmi_version_1_enu, fmi_version_2_0_enu, fmi_version_3_0_enu };
enum fmi2_fmu_kind_enu_t { fmi2_fmu_kind_unknown, fmi2_fmu_kind_me, fmi2_fmu_kind_cs, fmi2_fmu_kind_me_and_cs };
enum fmi2_type_t { fmi2_model_exchange, fmi2_cosimulation };
enum fmi2_capabilities_enu_t { fmi2_me_needsExecutionTool, fmi2_me_completedIntegratorStepNotNeeded, fmi2_me_providesDirectionalDerivatives, fmi2_cs_providesDirectionalDerivatives };
struct fmi2_event_info_t {
    fmi2_boolean_t newDiscreteStatesNeeded, terminateSimulation, nominalsOfContinuousStatesChanged, valuesOfContinuousStatesChanged, nextEventTimeDefined;
    fmi2_real_t nextEventTime;
};
struct jm_callbacks;
typedef void (*jm_logger_f)(jm_callbacks*, char const*, jm_log_level_enu_t, char const*);
struct jm_callbacks {
    void* (*malloc)(size_t);
    void* (*calloc)(size_t, size_t);
    void* (*realloc)(void*, size_t);
    void (*free)(void*);
    jm_logger_f logger;
    jm_log_level_enu_t log_level;
    void* context;
    char errMessageBuffer[2000];
};
inline void jm_default_logger(jm_callbacks*, char const*, jm_log_level_enu_t, char const*) {}

// what an FMU computes; the scripts derive from it
struct FmuModel {
    struct Var {
        std::string name;
        fmi2_base_type_enu_t type;
        fmi2_value_reference_t vr;
    };
    int n = 0, z = 0;
    std::vector<Var> vars;
    bool dirder = false;
    virtual ~FmuModel() {}
    virtual void start(double*) = 0;                                                  // states of exit_initialization
    virtual void der(double t, double const* x, double* dx) = 0;
    virtual void ind(double t, double const* x, double* z) = 0;
    virtual double partial(int row, int col) = 0;
    virtual bool completed(double t, double const* x) = 0;                            // enter event mode?
    virtual void update(double t, double* x, bool first, fmi2_event_info_t* info) = 0;  // new_discrete_states
    virtual double* real(unsigned vr) = 0;                                            // a variable that is not a state
    virtual int* integer(unsigned vr) = 0;
    virtual int* boolean(unsigned vr) = 0;
};
enum FmuMode { fmu_parsed, fmu_loaded, fmu_instantiated, fmu_initializing, fmu_event, fmu_continuous, fmu_terminated, fmu_freed, fmu_unloaded, fmu_gone };
struct fmi2_import_t {
    FmuModel* model = nullptr;
    std::string file;
    fmi_version_enu_t version = fmi_version_2_0_enu;
    fmi2_fmu_kind_enu_t kind = fmi2_fmu_kind_me;
    bool parses = true;
    FmuMode mode = fmu_parsed;
    jm_callbacks* cb = nullptr;
    double t = 0;
    std::vector<double> x;
    std::string dir;
    int contexts = 0, dirs = 0, lists = 0;
    bool setup = false, stable = false, first = true, states_set = false;
    double tolerance = -1, start_time = -1;
    long calls = 0, limit = 4000000, completed = 0, updates = 0, events = 0, ders = 0, inds = 0, jacs = 0;
    std::string bad;  // the first illegal call
    void illegal(std::string const &m) {
        if (bad.empty()) bad = m;
    }
    void must(bool b, char const* f) {
        static char const* nm[] = {"not yet loaded", "not instantiated", "instantiated", "in initialization mode", "in event mode", "in continuous time mode", "terminated", "freed", "unloaded", "destroyed"};
        if (!b) illegal(std::string(f) + " is called while the FMU is " + nm[mode]);
        if (++calls > limit) {
            fprintf(stderr, "Assertion: the simulation does not advance, %ld calls were made\n", limit);
            abort();
        }
    }
    bool running() const { return mode == fmu_event || mode == fmu_continuous; }
};
typedef fmi2_import_t fmi_import_context_t;
// the FMU that the next calls are about
inline fmi2_import_t*& the_fmu() {
    static fmi2_import_t* f = nullptr;
    return f;
}
inline char* fmi_import_mk_temp_dir(jm_callbacks* cb, char const* base, char const*) {
    fmi2_import_t* f = the_fmu();
    f->cb = cb;
    f->dirs++;
    f->dir = std::string(base ? base : "") + "/fmil_stub";
    char* r = (char*)cb->malloc(f->dir.size() + 1);
    strcpy(r, f->dir.c_str());
    return r;
}
inline jm_status_enu_t fmi_import_rmdir(jm_callbacks*, char const* d) {
    fmi2_import_t* f = the_fmu();
    if (f->dir != d) f->illegal("a directory that was not made is removed");
    f->dirs--;
    return jm_status_success;
}
inline fmi_import_context_t* fmi_import_allocate_context(jm_callbacks* cb) {
    the_fmu()->contexts++;
    return the_fmu();
}
inline void fmi_import_free_context(fmi_import_context_t* c) { c->contexts--; }
inline fmi_version_enu_t fmi_import_get_fmi_version(fmi_import_context_t* c, char const* file, char const* dir) {
    if (c->file != file) c->illegal("another file is read");
    if (c->dir != dir) c->illegal("the file is unpacked to a directory that was not made");
    return c->version;
}
inline fmi2_import_t* fmi2_import_parse_xml(fmi_import_context_t* c, char const* dir, void*) {
    if (c->dir != dir) c->illegal("the description is read from a directory that was not made");
    return c->parses ? c : nullptr;
}
inline fmi2_fmu_kind_enu_t fmi2_import_get_fmu_kind(fmi2_import_t* f) { return f->kind; }
inline jm_status_enu_t fmi2_import_create_dllfmu(fmi2_import_t* f, fmi2_fmu_kind_enu_t k, void const*) {
    f->must(f->mode == fmu_parsed, "create_dllfmu");
    if (k != fmi2_fmu_kind_me) f->illegal("create_dllfmu loads another kind of FMU");
    f->mode = fmu_loaded;
    return jm_status_success;
}
inline jm_status_enu_t fmi2_import_instantiate(fmi2_import_t* f, char const*, fmi2_type_t ty, char const*, fmi2_boolean_t) {
    f->must(f->mode == fmu_loaded, "instantiate");
    if (ty != fmi2_model_exchange) f->illegal("instantiate makes another kind of FMU");
    f->mode = fmu_instantiated;
    f->x.assign(f->model->n + 1, 0);
    return jm_status_success;
}
inline size_t fmi2_import_get_number_of_continuous_states(fmi2_import_t* f) { return f->model->n; }
inline size_t fmi2_import_get_number_of_event_indicators(fmi2_import_t* f) { return f->model->z; }
typedef fmi2_import_t fmi2_import_variable_list_t;
typedef FmuModel::Var fmi2_import_variable_t;
inline fmi2_import_variable_list_t* fmi2_import_get_variable_list(fmi2_import_t* f, int) {
    f->lists++;
    return f;
}
inline size_t fmi2_import_get_variable_list_size(fmi2_import_variable_list_t* f) { return f->model->vars.size(); }
inline fmi2_import_variable_t* fmi2_import_get_variable(fmi2_import_variable_list_t* f, size_t i) { return i < f->model->vars.size() ? &f->model->vars[i] : nullptr; }
inline char const* fmi2_import_get_variable_name(fmi2_import_variable_t* v) { return v->name.c_str(); }
inline fmi2_value_reference_t fmi2_import_get_variable_vr(fmi2_import_variable_t* v) { return v->vr; }
inline fmi2_base_type_enu_t fmi2_import_get_variable_base_type(fmi2_import_variable_t* v) { return v->type; }
inline void fmi2_import_free_variable_list(fmi2_import_variable_list_t* f) { f->lists--; }
inline fmi2_status_t fmi2_import_set_debug_logging(fmi2_import_t* f, fmi2_boolean_t, size_t, fmi2_string_t*) {
    f->must(f->mode >= fmu_instantiated && f->mode <= fmu_terminated, "set_debug_logging");
    return fmi2_status_ok;
}
inline fmi2_status_t fmi2_import_setup_experiment(fmi2_import_t* f, fmi2_boolean_t td, fmi2_real_t tol, fmi2_real_t t0, fmi2_boolean_t, fmi2_real_t) {
    f->must(f->mode == fmu_instantiated, "setup_experiment");
    f->setup = true;
    f->tolerance = td ? tol : -1;
    f->start_time = t0;
    f->t = t0;
    return fmi2_status_ok;
}
inline unsigned fmi2_import_get_capability(fmi2_import_t* f, fmi2_capabilities_enu_t c) { return c == fmi2_me_providesDirectionalDerivatives ? f->model->dirder : 0; }
inline fmi2_status_t fmi2_import_enter_initialization_mode(fmi2_import_t* f) {
    f->must(f->mode == fmu_instantiated, "enter_initialization_mode");
    if (!f->setup) f->illegal("enter_initialization_mode is called before setup_experiment");
    f->mode = fmu_initializing;
    return fmi2_status_ok;
}
inline fmi2_status_t fmi2_import_exit_initialization_mode(fmi2_import_t* f) {
    f->must(f->mode == fmu_initializing, "exit_initialization_mode");
    f->mode = fmu_event;
    f->stable = false;
    f->first = true;
    f->model->start(f->x.data());
    return fmi2_status_ok;
}
inline fmi2_status_t fmi2_import_new_discrete_states(fmi2_import_t* f, fmi2_event_info_t* i) {
    f->must(f->mode == fmu_event, "new_discrete_states");
    f->updates++;
    f->model->update(f->t, f->x.data(), f->first, i);
    f->first = false;
    f->stable = !i->newDiscreteStatesNeeded;
    return fmi2_status_ok;
}
inline fmi2_status_t fmi2_import_enter_event_mode(fmi2_import_t* f) {
    f->must(f->running(), "enter_event_mode");
    f->mode = fmu_event;
    f->events++;
    f->stable = false;
    f->first = true;
    return fmi2_status_ok;
}
inline fmi2_status_t fmi2_import_enter_continuous_time_mode(fmi2_import_t* f) {
    f->must(f->mode == fmu_event, "enter_continuous_time_mode");
    if (!f->stable) f->illegal("enter_continuous_time_mode is called before the discrete states are stable");
    f->mode = fmu_continuous;
    return fmi2_status_ok;
}
inline fmi2_status_t fmi2_import_set_time(fmi2_import_t* f, fmi2_real_t t) {
    f->must(f->running(), "set_time");
    f->t = t;
    return fmi2_status_ok;
}
inline fmi2_status_t fmi2_import_set_continuous_states(fmi2_import_t* f, fmi2_real_t const* x, size_t n) {
    f->must(f->mode == fmu_continuous, "set_continuous_states");
    if ((int)n != f->model->n) f->illegal("set_continuous_states is given another number of states");
    for (int i = 0; i < f->model->n; i++) f->x[i] = x[i];
    return fmi2_status_ok;
}
inline fmi2_status_t fmi2_import_get_continuous_states(fmi2_import_t* f, fmi2_real_t* x, size_t n) {
    f->must(f->mode == fmu_initializing || f->running(), "get_continuous_states");
    if ((int)n != f->model->n) f->illegal("get_continuous_states is asked for another number of states");
    for (int i = 0; i < f->model->n; i++) x[i] = f->x[i];
    return fmi2_status_ok;
}
inline fmi2_status_t fmi2_import_get_derivatives(fmi2_import_t* f, fmi2_real_t* d, size_t n) {
    f->must(f->mode == fmu_initializing || f->running(), "get_derivatives");
    if ((int)n != f->model->n) f->illegal("get_derivatives is asked for another number of states");
    f->ders++;
    f->model->der(f->t, f->x.data(), d);
    return fmi2_status_ok;
}
inline fmi2_status_t fmi2_import_get_event_indicators(fmi2_import_t* f, fmi2_real_t* z, size_t n) {
    f->must(f->mode == fmu_initializing || f->running(), "get_event_indicators");
    if ((int)n != f->model->z) f->illegal("get_event_indicators is asked for another number of indicators");
    f->inds++;
    f->model->ind(f->t, f->x.data(), z);
    return fmi2_status_ok;
}
inline fmi2_status_t fmi2_import_completed_integrator_step(fmi2_import_t* f, fmi2_boolean_t, fmi2_boolean_t* enter, fmi2_boolean_t* term) {
    f->must(f->mode == fmu_continuous, "completed_integrator_step");
    f->completed++;
    *enter = f->model->completed(f->t, f->x.data());
    *term = fmi2_false;
    return fmi2_status_ok;
}
// v: what is varied, z: what depends on it
inline fmi2_status_t fmi2_import_get_directional_derivative(fmi2_import_t* f, fmi2_value_reference_t const* v, size_t nv, fmi2_value_reference_t const* z, size_t nz,
                                                            fmi2_real_t const* dv, fmi2_real_t* dz) {
    f->must(f->mode == fmu_initializing || f->running(), "get_directional_derivative");
    f->jacs++;
    unsigned n = f->model->n;
    for (size_t j = 0; j < nz; j++) {
        double s = 0;
        for (size_t i = 0; i < nv; i++) {
            if (v[i] >= n || z[j] < n || z[j] >= 2 * n) {
                f->illegal("get_directional_derivative is asked for another variable");
                return fmi2_status_error;
            }
            s += f->model->partial(z[j] - n, v[i]) * dv[i];
        }
        dz[j] = s;
    }
    return fmi2_status_ok;
}
inline fmi2_status_t fmi2_import_get_real(fmi2_import_t* f, fmi2_value_reference_t const* vr, size_t k, fmi2_real_t* v) {
    f->must(f->mode == fmu_initializing || f->running(), "get_real");
    unsigned n = f->model->n;
    std::vector<double> d(n + 1);
    for (size_t i = 0; i < k; i++) {
        if (vr[i] < n)
            v[i] = f->x[vr[i]];
        else if (vr[i] < 2 * n) {
            f->model->der(f->t, f->x.data(), d.data());
            v[i] = d[vr[i] - n];
        } else if (vr[i] == 2 * n)
            v[i] = f->t;
        else if (double* p = f->model->real(vr[i]))
            v[i] = *p;
        else {
            f->illegal("get_real of a variable that is not there");
            return fmi2_status_error;
        }
    }
    return fmi2_status_ok;
}
inline fmi2_status_t fmi2_import_set_real(fmi2_import_t* f, fmi2_value_reference_t const* vr, size_t k, fmi2_real_t const* v) {
    f->must(f->mode == fmu_initializing || f->running(), "set_real");
    unsigned n = f->model->n;
    for (size_t i = 0; i < k; i++) {
        if (vr[i] < n)
            f->x[vr[i]] = v[i];
        else if (double* p = vr[i] > 2 * n ? f->model->real(vr[i]) : nullptr)
            *p = v[i];
        else {
            f->illegal("set_real of a variable that is not there");
            return fmi2_status_error;
        }
    }
    return fmi2_status_ok;
}
inline fmi2_import_variable_t* fmi2_import_get_variable_by_name(fmi2_import_t* f, char const* name) {
    for (auto &v : f->model->vars)
        if (v.name == name) return &v;
    return nullptr;
}
inline jm_callbacks* jm_get_default_callbacks() {
    static jm_callbacks c = {malloc, calloc, realloc, free, jm_default_logger, jm_log_level_fatal, nullptr, ""};
    return &c;
}
inline char const* fmi2_status_to_string(fmi2_status_t) { return "status"; }
#define STUB_GETSET(kind, type)                                                                                                        \
    inline fmi2_status_t fmi2_import_get_##kind(fmi2_import_t* f, fmi2_value_reference_t const* vr, size_t k, type* v) {               \
        f->must(f->mode == fmu_initializing || f->running(), "get_" #kind);                                                            \
        for (size_t i = 0; i < k; i++) {                                                                                               \
            int* p = f->model->kind(vr[i]);                                                                                            \
            if (!p) {                                                                                                                  \
                f->illegal("get_" #kind " of a variable that is not there");                                                           \
                return fmi2_status_error;                                                                                              \
            }                                                                                                                          \
            v[i] = *p;                                                                                                                 \
        }                                                                                                                              \
        return fmi2_status_ok;                                                                                                         \
    }                                                                                                                                  \
    inline fmi2_status_t fmi2_import_set_##kind(fmi2_import_t* f, fmi2_value_reference_t const* vr, size_t k, type const* v) {         \
        f->must(f->mode == fmu_initializing || f->running(), "set_" #kind);                                                            \
        for (size_t i = 0; i < k; i++) {                                                                                               \
            int* p = f->model->kind(vr[i]);                                                                                            \
            if (!p) {                                                                                                                  \
                f->illegal("set_" #kind " of a variable that is not there");                                                           \
                return fmi2_status_error;                                                                                              \
            }                                                                                                                          \
            *p = v[i];                                                                                                                 \
        }                                                                                                                              \
        return fmi2_status_ok;                                                                                                         \
    }
STUB_GETSET(integer, fmi2_integer_t)
STUB_GETSET(boolean, fmi2_boolean_t)
inline fmi2_status_t fmi2_import_terminate(fmi2_import_t* f) {
    f->must(f->running(), "terminate");
    f->mode = fmu_terminated;
    return fmi2_status_ok;
}
inline void fmi2_import_free_instance(fmi2_import_t* f) {
    f->must(f->mode == fmu_instantiated || f->mode == fmu_terminated, "free_instance");
    f->mode = fmu_freed;
}
inline void fmi2_import_destroy_dllfmu(fmi2_import_t* f) {
    f->must(f->mode == fmu_freed || f->mode == fmu_loaded, "destroy_dllfmu");
    f->mode = fmu_unloaded;
}
inline void fmi2_import_free(fmi2_import_t* f) {
    f->must(f->mode == fmu_unloaded || f->mode == fmu_parsed, "free");
    if (f->cb) f->cb->free(f->cb->malloc(16));  // the callbacks must still be there
    f->mode = fmu_gone;
}
#endif
