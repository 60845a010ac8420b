// Plain interface between the simulation (which never includes the library's
// headers) and the instrumented translation units that do.
#pragma once
#include <cstddef>
#include <cstdint>

// Calls into the simulator made by the instrumented units.
extern "C" void *sim_up_alloc(int owner, std::size_t size, std::size_t align);
extern "C" void sim_up_free(int owner, void *p);

extern "C" void sim_built(void *p, int type, int arg_kind, int value);
extern "C" void sim_destroyed(void *p, int type, int value);
// Timers: readings of the simulated clock and what was observed of a timer.
extern "C" int64_t sim_clock_now(int clock);
extern "C" void sim_clock_mark();
extern "C" void sim_timer_value(int which, int64_t v);
extern "C" void sim_timer_fired(int token, const void *timer);
extern "C" void sim_fn_event(int what, const void *at, int token);

// Memory that is filled with a secret by the simulator; it is wiped later on.
extern "C" void sim_secret(void *p, std::size_t n, int freed);

// A wrapped object reports an operation on itself; the answer says whether that
// operation throws (1: before, 2: after its effect).
extern "C" int sim_obj(int what, const void *self, const void *other, std::int64_t value, int can_throw);

// A visitor announces what it should be shown, in order, and then says what it
// is shown; the answer: 1 throws, 2 takes the object's value.
extern "C" void sim_expect(const void *at, int category, std::int64_t value);
// A simulated resource compares itself with another one.
extern "C" __attribute__((weak)) void sim_compares(int owner);
extern "C" int sim_visit(const void *at, int category, int how, std::int64_t value);

namespace sut
{
// ------------------------------------------------------------ any resource
// A resource is handed around as an opaque pointer to its memory_resource base.
using Res = void;

struct Defaults  // one translation unit's view
{
    Res *(*system)();
    Res *(*null)();
    Res *(*get)();
    Res *(*set)(Res *);
    void *(*alloc)(Res *, std::size_t, std::size_t);
    void (*dealloc)(Res *, void *);
    Res *(*early_default)();  // as seen while the program starts
    Res *(*early_system)();
};
const Defaults &unit_a();
const Defaults &unit_b();

std::size_t sim_resource_size();
Res *sim_resource_make(void *mem, int owner);  // simulated upstream
Res *sim_resource_make_same(void *mem, int owner, Res *other);  // a second handle of other
void *res_alloc(Res *, std::size_t size, std::size_t align);
void *res_alloc_default(Res *, std::size_t size);          // allocate(size)
bool res_assign(Res *, const Res *, int how);                // false: that does not compile
void *res_alloc_type(Res *, int which);                    // allocate<T>()
constexpr std::size_t kTypeSize[] = {1, 8, 24, 192, 80};
constexpr std::size_t kTypeAlign[] = {1, 8, 8, 64, 16};
constexpr int kTypes = 5;
void res_dealloc(Res *, void *);
bool res_is_equal(Res *, Res *);
bool res_eq(Res *, Res *);
bool res_ne(Res *, Res *);

// ----------------------------------------------------------- block resource
enum CtorKind
{
    PTR_UP,
    PTR_DEFAULT,
    ARRAY_UP,
    ARRAY_DEFAULT,
    kCtorKinds
};
constexpr std::size_t kArraySizes[] = {1, 7, 64, 100, 257, 1024, 4096};
constexpr int kArrays = 7;
struct BlockApi
{
    std::size_t max_blocks, block, obj_size, obj_align;
    Res *(*construct)(void *mem, void *buf, std::size_t n, int ctor, Res *up);
    void (*destroy)(void *);
    void (*release)(void *);
    std::size_t (*free_count)(void *);
    std::size_t (*busy_count)(void *);
    std::size_t (*size)(void *);
    bool (*in_use)(void *, std::size_t);
    std::size_t (*block_size)(void *, std::size_t);
    std::size_t (*block_bytes)(void *, std::size_t);
    std::size_t (*prev)(void *, std::size_t);
    std::size_t (*next)(void *, std::size_t);
    const void *(*data)(void *);
    Res *(*twin)(void *mem, void *src, int how);  // null: that does not compile
};
extern const BlockApi *const kBlockPart1[];  // 7 layouts
extern const BlockApi *const kBlockPart2[];  // 7 layouts
extern const BlockApi *const kBlockPart3[];  // 2 layouts, of more than 4 GB
constexpr int kLayouts = 16;
constexpr int kSmallLayouts = 12;  // those whose objects take at most a few KB
inline const BlockApi &layout(int i) { return i < 7 ? *kBlockPart1[i] : i < 14 ? *kBlockPart2[i - 7] : *kBlockPart3[i - 14]; }

// ------------------------------------------------------- monotonic resource
struct MonoApi
{
    std::size_t obj_size, obj_align;
    Res *(*construct)(void *mem, void *buf, std::size_t n, int ctor, Res *up);
    void (*destroy)(void *);
    void (*release)(void *);
    std::size_t (*size)(void *);
    const void *(*data)(void *);
    Res *(*twin)(void *mem, void *src, int how);  // null: that does not compile
};
extern const MonoApi kMono;

// --------------------------------------------------------- typed allocators
// How an object under test says that it was built or destroyed.
enum ArgKind
{
    A_NONE,
    A_INT,
    A_LVALUE,
    A_CONST_LVALUE,
    A_RVALUE,
    A_CONST_RVALUE,
    A_MIXED,    // lvalue, rvalue, int
    A_TEXT,     // string literal
    A_MOVE_ONLY,
    A_INT_REF,  // int&, incremented by the constructor
    A_BYVAL_L,  // parameter taken by value, from an lvalue
    A_BYVAL_R,  // ... from an rvalue
    A_T_SHORT,  // deduced by a constructor template
    A_T_BOOL_L,
    A_T_ENUM,
    A_T_CONST_L,
    A_T_PTR,
    A_E_NONE,   // an object without members
    A_E_RVALUE,
    A_L_INT,    // a large, strictly aligned object
    A_L_LVALUE,
    A_LIST_TWO,  // an object that could also be built from a list
    A_LIST_ONE,
    A_LIST_NONE,
    A_Z_NONE,  // an object whose numbers are zero because it is made from nothing
    A_D_INT,   // an object that is deleted through its base
    A_D_NONE,
    kArgKinds
};
struct ArgReport
{
    int a, b, i, m;             // values of the caller's objects afterwards
    int copies, moves;          // of the caller's objects
};
int obj_type_of(int arg_kind);  // which object type the arguments are for
constexpr int kObjTypes = 8;
std::size_t obj_size(int type);
std::size_t obj_align(int type);
struct AllocApi
{
    std::size_t obj_size, obj_align, elem_size, elem_align;
    void (*make_default)(void *);
    void (*make)(void *, Res *);
    // how: in which of several ways the source is passed (6: as a const lvalue)
    void (*copy)(void *dst, void *src, int how);
    void (*convert)(void *dst, int src_type, void *src, int how);
    void (*destroy)(void *);
    Res *(*resource)(void *);
    bool (*eq)(void *, int type2, void *);
    bool (*ne)(void *, int type2, void *);
    void *(*allocate)(void *, std::size_t);
    void (*deallocate)(void *, void *);
    void *(*bytes)(void *, std::size_t, std::size_t);
    void *(*bytes_default)(void *, std::size_t);
    void (*free_bytes)(void *, void *);
    void *(*objects)(void *, int type, std::size_t);
    void (*free_objects)(void *, int type, void *);
    void *(*new_object)(void *, int arg_kind, int v, ArgReport *);
    void (*construct)(void *, int arg_kind, int v, void *where, ArgReport *);
    void (*delete_object)(void *, int type, void *);
    void (*destroy_object)(int type, void *);
};
// ------------------------------------------------------------------- timers
enum TimerValue
{
    V_START,
    V_LEAKED,
    V_SEC,
    V_MILLI,
    V_MICRO,
    V_NANO,
    kTimerValues
};
enum CallableKind
{
    C_FN_REF,      // function reference (one of kFns functions)
    C_FN_PTR,      // lvalue function pointer
    C_FN_PTR_TMP,  // rvalue function pointer
    C_PLAIN,       // trivially copyable, carries the token
    C_CONST_LVALUE,
    C_CONST_RVALUE,
    C_SELF,        // knows where it lives, needs no destruction
    C_OWNER,       // tracked callable, rvalue
    C_OWNER_L,     // tracked callable, lvalue
    C_ALIGNED,     // over-aligned tracked callable, rvalue
    C_COPY_ONLY,   // has no move constructor
    C_MOVE_ONLY,   // has no copy constructor, rvalue
    kCallables,
    C_HOLDER = kCallables  // tracked, owns another timer
};
constexpr int kFns = 6;
enum FnEvent
{
    F_BUILT,
    F_COPIED,
    F_MOVED,
    F_DESTROYED,
    F_INVOKED,
    F_BROKEN,     // used at an address it was never constructed at
    F_SRC_KEPT,   // state of the caller's lvalue afterwards
    F_SRC_LOST,
    F_AT,         // an object that must be aligned to `token` is here
};
struct TimerApi
{
    std::size_t obj_size, obj_align;
    std::int64_t num, den, cap;  // clock period in seconds, largest sane reading
    bool owners;                 // room for tracked callables
    bool holders;                // a callable may own another timer
    void (*start)(void *mem, int kind, int token);
    void (*start_by_value)(void *mem, int kind, int token);
    void (*start_and_throw)(int kind, int token);
    // A callable that owns a timer, moved from another one: new or assigned.
    void (*start_holder)(void *mem, int token, void *src);
    void (*assign_holder)(void *mem, int token, void *src);
    void *(*held)(int token);  // the timer a callable owns
    void (*destroy)(void *);
    void (*move_ctor)(void *dst, void *src);
    void (*assign)(void *dst, void *src);
    void (*assign_new)(void *dst, int kind, int token);
    void (*swap)(void *a, void *b);
    void (*reset)(void *);
    void (*read)(void *, int which);
    void (*vec_push)(void *src);
    void (*vec_push_front)(void *src);
    void (*vec_erase)(std::size_t);
    void (*vec_pop)();
    void (*vec_clear)();
    void (*vec_reserve)(std::size_t);
    void (*vec_rotate)();
    void (*vec_take)(std::size_t, void *dst);  // dst = std::move(v[i])
    void *(*vec_at)(std::size_t);
    std::size_t (*vec_size)();
    void (*vec_begin)();
    void (*vec_end)();
};
constexpr int kTimers = 5;
extern const TimerApi kTimer[kTimers];

// ------------------------------------------------------------ in-place pimpl
enum ObjWhat
{
    O_DEFAULT,
    O_INT,
    O_TWO,
    O_LIST,
    O_TOKEN_L,
    O_TOKEN_CL,
    O_TOKEN_R,
    O_MIXED,
    O_MIXED_OTHER,
    O_COPY,
    O_MOVE,
    O_COPY_ASSIGN,
    O_MOVE_ASSIGN,
    O_DESTROY,
    kObjWhats
};
enum PimplMake
{
    P_DEFAULT,
    P_FWD_NONE,
    P_FWD_INT,
    P_FWD_TWO,
    P_FWD_LV,
    P_FWD_CLV,
    P_FWD_RV,
    P_FWD_MIXED,
    P_COPY,
    P_COPY_NC,  // from a non-const lvalue
    P_COPY_CR,  // from a const rvalue
    P_MOVE,
    P_BARE_COPY,
    P_BARE_MOVE,
    P_BARE_COPY_IMPLICIT,
    P_RETURNED,  // from a function returning by value
    kPimplMakes
};
enum PimplAssign
{
    PA_COPY,
    PA_COPY_NC,
    PA_MOVE,
    PA_BARE_COPY,
    PA_BARE_MOVE,
    PA_TEMP,
    PA_THROUGH_FUNCTION,
    PA_SWAP,
    kPimplAssigns
};
enum PimplVec
{
    PV_PUSH_COPY,
    PV_PUSH_MOVE,
    PV_EMPLACE,
    PV_INSERT,
    PV_ERASE,
    PV_POP,
    PV_CLEAR,
    PV_RESERVE,
    PV_RESIZE,
    PV_ROTATE,
    PV_COPY,   // assigned from a copy of itself
    PV_TAKE,   // slot = std::move(element)
    PV_SORT,
    kPimplVecs
};
constexpr int kTraits = 14;
struct PimplApi
{
    std::size_t size, align;            // of the holder
    std::size_t value_size, value_align;
    bool copyable, movable, nothrow_all;
    bool traits[kTraits];
    // All return 0: done, 1: the object's exception came out, 2: another one
    // did, 3: the type cannot do this.
    int (*make)(int how, void *mem, void *src, int v, int *arg_after);
    int (*assign)(int how, void *dst, void *src, int v, bool *returned_self);
    void (*destroy)(void *);
    int (*value)(const void *);
    int (*value_through_get)(void *);
    void (*set)(void *, int v, bool through_get);
    int (*vec)(int what, void *slot, std::size_t at, int v);
    std::size_t (*vec_size)();
    const void *(*vec_at)(std::size_t);
    void (*vec_begin)();
    void (*vec_end)();
    int (*locals)(int n, int v);        // locals and an array, left by exception
    const void *(*address)(const void *);  // of the object the holder gives access to
};
constexpr int kPimpls = 10;
extern const PimplApi kWrapped[kPimpls];
extern const PimplApi kBare[kPimpls];

// Ordinary types. run() builds one in m (how), does something with it and a
// second one in n (then), and writes what it saw to out[24].
struct PlainApi
{
    std::size_t size, align, value_size, value_align;
    void (*run)(int how, int then, void *m, void *n, int v, std::int64_t *out);
};
constexpr int kPlains = 20, kPlainHows = 4, kPlainThens = 8;
extern const PlainApi kPlainWrapped[kPlains];
extern const PlainApi kPlainBare[kPlains];

// ------------------------------------------------------------ wiped memory
struct WipeApi
{
    int room_forms;   // 0..: wipe (part of) memory of the caller
    int forms;        // ..forms: secrets whose life ends with the wipe
    int heap;         // from here on they are in the program's heap
    int dies;         // the one that ends the process
    int sizes;
    std::size_t (*size)(int ix);
    // Room forms: p and n say what is wiped. The others have a secret of
    // size(ix) somewhere of their own and report it with sim_secret.
    // Returns what the checked form returned, or 0.
    int (*call)(int form, int ix, void *p, std::size_t n);
    // what of [p, p + n) a room form wipes
    std::size_t (*covers)(int form, int ix, std::size_t n);
};
extern const WipeApi kWipe;

// --------------------------------------------------------- byte primitives
struct BytesApi
{
    int copies;
    void *(*move)(void *d, const void *s, std::size_t n);
    void (*copy)(int form, void *d, const void *s, std::size_t n);  // disjoint
    bool (*same)(const void *p, unsigned char v, std::size_t n);
    void (*wipe)(void *p, std::size_t n);
};
extern const BytesApi kBytes;

// --------------------------------------------- array builders and visitors
struct SeqReport
{
    static constexpr int kMost = 48;
    int n = 0;
    std::int64_t got[kMost], want[kMost];  // values, and what they should be
    bool sizes_differ = false;
    int copies = -1;          // how many there must be, if that is known
    int sources_changed = 0;  // sources that lost or changed their value
    int sources_kept = 0;     // given-away sources that were not moved from
    int visitor_copied = 0;
    bool calls_lost = false;  // the caller's visitor did not count all calls
    int how = 0;              // the visitor is used as: 0 lvalue, 1 const lvalue, 2 rvalue, -1 lvalue or rvalue
    bool done = false;
    bool impossible = false;  // the type cannot do this
};
struct SeqApi
{
    std::size_t size, align;
    bool copies_count;  // copies are told from moves
    int (*run)(int form, int v, SeqReport &r);  // 0, 1: the element's exception, 2: another
};
constexpr int kSeqTypes = 5;
extern const SeqApi kSeq[kSeqTypes];
extern const int kSeqBuilds, kSeqForms;  // forms below kSeqBuilds build arrays

// ---------------------------------------------------------- checked aborts
struct AbortApi
{
    int forms;
    const char *file;
    // Runs one form. continued is set when the call returned to its caller,
    // evaluated counts evaluations of the condition, line/func say where it is.
    void (*call)(int form, bool cond, int v, const char *text, volatile int *continued, int *evaluated);
    bool (*has_message)(int form);
    bool (*is_macro)(int form);
    bool (*is_debug)(int form);
    int (*line)(int form);
    const char *(*func)(int form);
    bool debug_enabled;
};
extern const AbortApi kAbort;
constexpr int kElems = 4;
extern const AllocApi kAlloc[kElems];
}  // namespace sut
