// C++ runtime in IR form for the symbolic executor: allocation, exception
// objects, the standard exception classes, and the out-of-line helpers of
// libstdc++'s list and map.  The native replay uses the real libstdc++.
typedef unsigned long size_t_; typedef long long i64;
extern "C" {
void *sx_malloc(size_t_, size_t_); void sx_free(void *); int sx_fault(void); int sx_self(void); void sx_unwind(void *) __attribute__((noreturn)); void *sx_exc_adj(void *); void sx_fail(const char *) __attribute__((noreturn));
}
namespace std {
typedef unsigned long size_t;
class type_info { public: virtual ~type_info(); const char *__name; };
type_info::~type_info() {}
class exception { public: exception() noexcept {} virtual ~exception() noexcept; virtual const char *what() const noexcept; };
exception::~exception() noexcept {} const char *exception::what() const noexcept { return "std::exception"; }
class bad_alloc : public exception { public: bad_alloc() noexcept {} virtual ~bad_alloc() noexcept; virtual const char *what() const noexcept; };
bad_alloc::~bad_alloc() noexcept {} const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
class bad_array_new_length : public bad_alloc { public: virtual ~bad_array_new_length() noexcept; virtual const char *what() const noexcept; };
bad_array_new_length::~bad_array_new_length() noexcept {} const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
class bad_cast : public exception { public: virtual ~bad_cast() noexcept; virtual const char *what() const noexcept; };
bad_cast::~bad_cast() noexcept {} const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
class bad_typeid : public exception { public: virtual ~bad_typeid() noexcept; virtual const char *what() const noexcept; };
bad_typeid::~bad_typeid() noexcept {} const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
class bad_exception : public exception { public: virtual ~bad_exception() noexcept; virtual const char *what() const noexcept; };
bad_exception::~bad_exception() noexcept {} const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
class logic_error : public exception { const char *m; public: explicit logic_error(const char *s); virtual ~logic_error() noexcept; virtual const char *what() const noexcept; };
logic_error::logic_error(const char *s) : m(s) {} logic_error::~logic_error() noexcept {} const char *logic_error::what() const noexcept { return m; }
class length_error : public logic_error { public: explicit length_error(const char *s); virtual ~length_error() noexcept; };
length_error::length_error(const char *s) : logic_error(s) {} length_error::~length_error() noexcept {}
class out_of_range : public logic_error { public: explicit out_of_range(const char *s); virtual ~out_of_range() noexcept; };
out_of_range::out_of_range(const char *s) : logic_error(s) {} out_of_range::~out_of_range() noexcept {}
class invalid_argument : public logic_error { public: explicit invalid_argument(const char *s); virtual ~invalid_argument() noexcept; };
invalid_argument::invalid_argument(const char *s) : logic_error(s) {} invalid_argument::~invalid_argument() noexcept {}
class runtime_error : public exception { const char *m; public: explicit runtime_error(const char *s); runtime_error(const runtime_error &) noexcept; virtual ~runtime_error() noexcept; virtual const char *what() const noexcept; };
runtime_error::runtime_error(const char *s) : m(s) {} runtime_error::runtime_error(const runtime_error &o) noexcept : m(o.m) {} runtime_error::~runtime_error() noexcept {} const char *runtime_error::what() const noexcept { return m; }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call();
struct nothrow_t {}; extern const nothrow_t nothrow; const nothrow_t nothrow{}; enum class align_val_t : size_t {};
namespace __detail {
struct _List_node_base { _List_node_base *_M_next, *_M_prev;
  static void swap(_List_node_base &, _List_node_base &) noexcept; void _M_transfer(_List_node_base *, _List_node_base *) noexcept; void _M_reverse() noexcept; void _M_hook(_List_node_base *) noexcept; void _M_unhook() noexcept; };
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *f, _List_node_base *l) noexcept {
  if (this == l) return; l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f;
  _List_node_base *t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  bool xe = x._M_next == &x, ye = y._M_next == &y; _List_node_base a = x, b = y;
  if (ye) { x._M_next = x._M_prev = &x; } else { x = b; x._M_next->_M_prev = x._M_prev->_M_next = &x; }
  if (xe) { y._M_next = y._M_prev = &y; } else { y = a; y._M_next->_M_prev = y._M_prev->_M_next = &y; } }
}
// A plain (unbalanced) search tree behind libstdc++'s tree interface: same
// ordering semantics, shape differs from the red-black original.
enum _Rb_tree_color { _S_red = false, _S_black = true };
struct _Rb_tree_node_base { _Rb_tree_color c; _Rb_tree_node_base *p, *l, *r; };
typedef _Rb_tree_node_base N;
N *_Rb_tree_increment(N *x) {
  if (x->r) { x = x->r; while (x->l) x = x->l; return x; }
  N *y = x->p; while (x == y->r) { x = y; y = y->p; } if (x->r != y) x = y; return x; }
const N *_Rb_tree_increment(const N *x) { return _Rb_tree_increment((N *)x); }
N *_Rb_tree_decrement(N *x) {
  if (x->c == _S_red && x->p->p == x) return x->r;    // header
  if (x->l) { x = x->l; while (x->r) x = x->r; return x; }
  N *y = x->p; while (x == y->l) { x = y; y = y->p; } return y; }
const N *_Rb_tree_decrement(const N *x) { return _Rb_tree_decrement((N *)x); }
void _Rb_tree_insert_and_rebalance(const bool left, N *x, N *p, N &h) noexcept {
  x->p = p; x->l = x->r = 0; x->c = _S_black;
  if (left) { p->l = x; if (p == &h) { h.p = x; h.r = x; } else if (p == h.l) h.l = x; }
  else { p->r = x; if (p == h.r) h.r = x; } }
N *_Rb_tree_rebalance_for_erase(N *const z, N &h) noexcept {
  if (h.l == z) h.l = z->r ? z->r : z->p; if (z->r && h.l == z->r) while (h.l->l) h.l = h.l->l;
  if (h.r == z) h.r = z->l ? z->l : z->p; if (z->l && h.r == z->l) while (h.r->r) h.r = h.r->r;
  N **link = z->p == &h ? &h.p : z->p->l == z ? &z->p->l : &z->p->r; N *y;
  if (z->p == &h) link = &h.p;
  if (!z->l) y = z->r; else if (!z->r) y = z->l;
  else { N *s = z->r; while (s->l) s = s->l; if (s != z->r) { s->p->l = s->r; if (s->r) s->r->p = s->p; s->r = z->r; z->r->p = s; } s->l = z->l; z->l->p = s; y = s; }
  *link = y; if (y) y->p = z->p; return z; }
}
extern "C" {
char __libc_single_threaded = 0;
void *__dso_handle = 0;
size_t_ strlen(const char *s) { size_t_ n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int memcmp(const void *a, const void *b, size_t_ n) { const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b; for (; n; n--, x++, y++) if (*x != *y) return *x - *y; return 0; }
void *malloc(size_t_ n) { return sx_fault() ? 0 : sx_malloc(n, 16); }
void free(void *p) { if (p) sx_free(p); }
int __cxa_guard_acquire(char *g) { if (*g) return 0; return 1; }
void __cxa_guard_release(char *g) { __atomic_store_n(g, 1, __ATOMIC_RELEASE); }
void __cxa_guard_abort(char *) {}
struct Hdr { void (*dtor)(void *); Hdr *next; long handlers; long rethrown; std::type_info *ti; void *adj; };   // ti at obj-16, adj at obj-8
static struct G { Hdr *caught; unsigned uncaught; } eg[4];
void *__cxa_allocate_exception(size_t_ n) noexcept { Hdr *h = (Hdr *)sx_malloc(n + sizeof(Hdr), 16); return h + 1; }
void __cxa_free_exception(void *p) noexcept { sx_free((Hdr *)p - 1); }
void __cxa_throw(void *obj, std::type_info *ti, void (*d)(void *)) { Hdr *h = (Hdr *)obj - 1; h->dtor = d; h->next = 0; h->handlers = 0; h->rethrown = 0; h->ti = ti; h->adj = obj; eg[sx_self()].uncaught++; sx_unwind(obj); }
void *__cxa_begin_catch(void *obj) noexcept { Hdr *h = (Hdr *)obj - 1; G &g = eg[sx_self()]; g.uncaught--;
  h->handlers = h->handlers < 0 ? -h->handlers + 1 : h->handlers + 1; if (g.caught != h) { h->next = g.caught; g.caught = h; } return sx_exc_adj(obj); }
void *__cxa_get_exception_ptr(void *obj) noexcept { return sx_exc_adj(obj); }
void __cxa_end_catch() { G &g = eg[sx_self()]; Hdr *h = g.caught; if (!h) return; long n = h->handlers;
  if (n < 0) { if (++n == 0) g.caught = h->next; h->handlers = n; return; }
  if (--n == 0) { g.caught = h->next; h->handlers = 0; if (h->dtor) h->dtor(h + 1); sx_free(h); return; }
  h->handlers = n; }
void __cxa_rethrow() { G &g = eg[sx_self()]; Hdr *h = g.caught; if (!h) sx_fail("rethrow without exception"); h->handlers = -h->handlers; g.uncaught++; sx_unwind(h + 1); }
}
void *operator new(size_t_ n) { if (sx_fault()) throw std::bad_alloc(); return sx_malloc(n, 16); }
void *operator new[](size_t_ n) { if (sx_fault()) throw std::bad_alloc(); return sx_malloc(n, 16); }
void *operator new(size_t_ n, const std::nothrow_t &) noexcept { if (sx_fault()) return 0; return sx_malloc(n, 16); }
void *operator new(size_t_ n, std::align_val_t a) { if (sx_fault()) throw std::bad_alloc(); return sx_malloc(n, (size_t_)a); }
void operator delete(void *p) noexcept { if (p) sx_free(p); }
void operator delete[](void *p) noexcept { if (p) sx_free(p); }
void operator delete(void *p, size_t_) noexcept { if (p) sx_free(p); }
void operator delete[](void *p, size_t_) noexcept { if (p) sx_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { if (p) sx_free(p); }
void operator delete(void *p, size_t_, std::align_val_t) noexcept { if (p) sx_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { if (p) sx_free(p); }
