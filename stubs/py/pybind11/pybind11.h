// Stand-in for pybind11: registrations and conversions become calls of the external azpy_* functions, which
// the analysis interprets. Only what a module needs to be type-checked and analysed is here; nothing of it runs.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

extern "C"
{
    typedef struct _azpyobj PyObject;
    typedef std::ptrdiff_t Py_ssize_t;
    typedef Py_ssize_t ssize_t_py;
    extern PyObject *PyExc_RuntimeError, *PyExc_ValueError, *PyExc_TypeError, *PyExc_KeyError, *PyExc_Exception;
    void PyErr_SetString(PyObject*, const char*);
    void PyErr_Clear();

    // registrations
    void azpy_class(const void* cls, const char* name, long size, void (*dtor)(void*));
    void azpy_ctor(const void* cls, void (*thunk)(const void* fn, void* out, void* const* args), const void* fn, int nargs, int takes_kwargs);
    void azpy_method(const void* cls, const char* name, void (*thunk)(const void* fn, void* self, void* const* args), const void* fn, int nargs);
    void azpy_prop(const void* cls,
                   const char* name,
                   void (*get)(const void* fn, void* self, void* const*),
                   const void* getfn,
                   void (*set)(const void* fn, void* self, void* const* args),
                   const void* setfn);
    void azpy_enum(const void* tag, const char* name);
    void azpy_value(const void* tag, const char* name, long long v);
    void azpy_function(const char* name, void (*thunk)(const void* fn, void* self, void* const* args), const void* fn, int nargs);

    // values the interpreter gives (h: a Python object) ...
    void* azpy_item(void* h, const char* key);        // kwargs["key"], obj.attr("key")
    bool azpy_has(void* h, const char* key);
    bool azpy_is_none(void* h);
    const void* azpy_get(void* h, int kind, int size, int is_signed, const void* tag); // address of the C++ value
    void* azpy_none();
    void* azpy_pack(const void* v, int kind, int size, int is_signed, const void* tag); // a new object from a C++ value
    // ... and takes
    void azpy_ret(const void* v, int kind, int size, int is_signed, const void* tag); // a thunk's result
    void azpy_ret_none();
    void azpy_ret_obj(void* h);
    // arrays
    void* azpy_array_ensure(void* h, int flags);
    void* azpy_array_ptr(void* h);
    Py_ssize_t azpy_array_itemsize(void* h);
    Py_ssize_t azpy_array_size(void* h);
    Py_ssize_t azpy_array_nbytes(void* h);
    int azpy_array_flags(void* h);
    int azpy_array_ndim(void* h);
}

namespace pybind11 {
using ssize_t = Py_ssize_t;
using size_t = std::size_t;

template<class T>
struct azpy_tag
{
    static const char id;
};
template<class T>
const char azpy_tag<T>::id = 0;

class object;
class handle
{
  public:
    handle() = default;
    explicit handle(void* p) : h(p) {}
    template<class T> T cast() const;
    bool is_none() const { return azpy_is_none(h); }
    explicit operator bool() const { return h != nullptr; }
    object attr(const char* name) const;
    PyObject* ptr() const { return (PyObject*)h; }
    void* h = nullptr;
};
class object : public handle
{
  public:
    object() = default;
    explicit object(void* p) : handle(p) {}
    object(const handle& o) : handle(o.h) {}
};
inline object handle::attr(const char* name) const { return object(azpy_item(h, name)); }
class none : public object
{
  public:
    none() : object(azpy_none()) {}
};
class str : public object
{
  public:
    using object::object;
    operator std::string() const { return cast<std::string>(); }
};
class dict : public object
{
  public:
    using object::object;
    bool contains(const char* k) const { return azpy_has(h, k); }
    bool contains(const std::string& k) const { return azpy_has(h, k.c_str()); }
    object operator[](const char* k) const { return object(azpy_item(h, k)); }
    object operator[](const std::string& k) const { return object(azpy_item(h, k.c_str())); }
};
class kwargs : public dict
{
  public:
    using dict::dict;
};
class args : public object
{
  public:
    using object::object;
};

class error_already_set : public std::runtime_error
{
  public:
    error_already_set() : std::runtime_error("python") {}
};
class builtin_exception : public std::runtime_error
{
  public:
    using std::runtime_error::runtime_error;
};
class value_error : public builtin_exception { public: using builtin_exception::builtin_exception; };
class type_error : public builtin_exception { public: using builtin_exception::builtin_exception; };
class key_error : public builtin_exception { public: using builtin_exception::builtin_exception; };
class cast_error : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class import_error : public builtin_exception { public: using builtin_exception::builtin_exception; };

struct buffer_info
{
    void* ptr = nullptr;
    ssize_t itemsize = 0;
    ssize_t size = 0;
    std::string format;
    ssize_t ndim = 0;
    std::vector<ssize_t> shape;
    std::vector<ssize_t> strides;
    bool readonly = false;
};
class buffer : public object
{
  public:
    using object::object;
    buffer() = default;
    buffer_info request(bool = false) const
    {
        buffer_info b;
        b.ptr = azpy_array_ptr(h);
        b.itemsize = azpy_array_itemsize(h);
        b.size = azpy_array_size(h);
        b.ndim = azpy_array_ndim(h);
        return b;
    }
};
class array : public buffer
{
  public:
    enum
    {
        c_style = 0x0001,
        f_style = 0x0002,
        forcecast = 0x0010
    };
    using buffer::buffer;
    array() = default;
    array(const object& o) : buffer(o.h) {}
    static array ensure(handle o, int flags = 0) { return array(object(azpy_array_ensure(o.h, flags))); }
    const void* data() const { return azpy_array_ptr(h); }
    void* mutable_data() const { return azpy_array_ptr(h); }
    ssize_t itemsize() const { return azpy_array_itemsize(h); }
    ssize_t size() const { return azpy_array_size(h); }
    ssize_t nbytes() const { return azpy_array_nbytes(h); }
    ssize_t ndim() const { return azpy_array_ndim(h); }
    int flags() const { return azpy_array_flags(h); }
};
template<class T, int F = array::forcecast>
class array_t : public array
{
  public:
    using array::array;
    array_t() = default;
    array_t(const object& o) : array(object(azpy_array_ensure(o.h, F))) {}
    static array_t ensure(handle o) { array_t a; a.h = azpy_array_ensure(o.h, F); return a; }
    const T* data() const { return (const T*)azpy_array_ptr(h); }
};

// kinds of C++ values
template<class T> struct is_vec : std::false_type { using e = void; };
template<class T, class A> struct is_vec<std::vector<T, A>> : std::true_type { using e = T; };
template<class T> struct is_opt : std::false_type { using e = void; };
template<class T> struct is_opt<std::optional<T>> : std::true_type { using e = T; };

template<class T>
std::decay_t<T> azpy_take(void* h)
{
    using D = std::decay_t<T>;
    if constexpr (std::is_base_of_v<array, D>) return D(object(h));
    else if constexpr (std::is_base_of_v<handle, D>) return D(h);
    else if constexpr (std::is_same_v<D, std::string> || std::is_same_v<D, std::string_view>)
        return D(*(const std::string*)azpy_get(h, 's', 0, 0, nullptr));
    else if constexpr (std::is_same_v<D, const char*>) return ((const std::string*)azpy_get(h, 's', 0, 0, nullptr))->c_str();
    else if constexpr (std::is_same_v<D, bool>) return *(const D*)azpy_get(h, 'b', 1, 0, nullptr);
    else if constexpr (std::is_enum_v<D>) return *(const D*)azpy_get(h, 'e', sizeof(D), 0, &azpy_tag<D>::id);
    else if constexpr (std::is_integral_v<D>) return *(const D*)azpy_get(h, 'i', sizeof(D), std::is_signed_v<D>, nullptr);
    else if constexpr (std::is_floating_point_v<D>) return *(const D*)azpy_get(h, 'f', sizeof(D), 1, nullptr);
    else if constexpr (is_opt<D>::value)
    {
        if (azpy_is_none(h)) return std::nullopt;
        return azpy_take<typename is_opt<D>::e>(h);
    }
    else if constexpr (is_vec<D>::value) return *(const D*)azpy_get(h, 'v', sizeof(D), 0, &azpy_tag<typename is_vec<D>::e>::id);
    else return *(const D*)azpy_get(h, 'c', sizeof(D), 0, &azpy_tag<D>::id);
}
template<class T> T handle::cast() const { return azpy_take<T>(h); }

template<class T> int constexpr azpy_kind()
{
    using D = std::decay_t<T>;
    if constexpr (std::is_same_v<D, std::string>) return 's';
    else if constexpr (std::is_same_v<D, bool>) return 'b';
    else if constexpr (std::is_enum_v<D>) return 'e';
    else if constexpr (std::is_integral_v<D>) return 'i';
    else if constexpr (std::is_floating_point_v<D>) return 'f';
    else if constexpr (is_vec<D>::value) return 'v';
    else if constexpr (std::is_same_v<D, const char*> || std::is_same_v<D, char*>) return 'z';
    else return 'c';
}
template<class T> const void* azpy_tagof()
{
    using D = std::decay_t<T>;
    if constexpr (is_vec<D>::value) return &azpy_tag<typename is_vec<D>::e>::id;
    else return &azpy_tag<D>::id;
}
template<class T>
void azpy_give(const T& v)
{
    using D = std::decay_t<T>;
    if constexpr (std::is_base_of_v<handle, D>) azpy_ret_obj(v.h);
    else if constexpr (is_opt<D>::value)
    {
        if (v.has_value()) azpy_give(*v);
        else azpy_ret_none();
    }
    else azpy_ret(&v, azpy_kind<D>(), sizeof(D), std::is_signed_v<D>, azpy_tagof<D>());
}
template<class T>
object cast(const T& v)
{
    using D = std::decay_t<T>;
    if constexpr (std::is_base_of_v<handle, D>) return object(v.h);
    else if constexpr (is_opt<D>::value)
    {
        if (v.has_value()) return cast(*v);
        return none();
    }
    else return object(azpy_pack(&v, azpy_kind<D>(), sizeof(D), std::is_signed_v<D>, azpy_tagof<D>()));
}
template<class T, class H> T cast(const H& h) requires std::is_base_of_v<handle, H> { return h.template cast<T>(); }
template<class T> bool isinstance(const handle& h);

// signatures of callables
template<class F> struct sig : sig<decltype(&F::operator())> {};
template<class R, class... A> struct sig<R (*)(A...)> { using r = R; using a = std::tuple<A...>; };
template<class R, class... A> struct sig<R (A...)> { using r = R; using a = std::tuple<A...>; };
template<class R, class C, class... A> struct sig<R (C::*)(A...)> { using r = R; using a = std::tuple<A...>; };
template<class R, class C, class... A> struct sig<R (C::*)(A...) const> { using r = R; using a = std::tuple<A...>; };
template<class R, class C, class... A> struct sig<R (C::*)(A...) noexcept> { using r = R; using a = std::tuple<A...>; };
template<class R, class C, class... A> struct sig<R (C::*)(A...) const noexcept> { using r = R; using a = std::tuple<A...>; };

template<class F, size_t S, class Tup, size_t... I>
decltype(auto) azpy_invoke0(const F& f, void* const* a, std::index_sequence<I...>)
{
    return f(azpy_take<std::tuple_element_t<S + I, Tup>>(a[I])...);
}
// a function of Python arguments only
template<class F>
void azpy_call_free(const void* fn, void*, void* const* a)
{
    const F& f = *(const F*)fn;
    using Sg = sig<F>;
    constexpr auto n = std::tuple_size_v<typename Sg::a>;
    if constexpr (std::is_void_v<typename Sg::r>)
    {
        azpy_invoke0<F, 0, typename Sg::a>(f, a, std::make_index_sequence<n>{});
        azpy_ret_none();
    }
    else azpy_give(azpy_invoke0<F, 0, typename Sg::a>(f, a, std::make_index_sequence<n>{}));
}
template<class C, class F, size_t... I>
decltype(auto) azpy_invoke_m(const F& f, C* self, void* const* a, std::index_sequence<I...>)
{
    using Tup = typename sig<F>::a;
    if constexpr (std::is_member_function_pointer_v<F>) return (self->*f)(azpy_take<std::tuple_element_t<I, Tup>>(a[I])...);
    else return f(*self, azpy_take<std::tuple_element_t<I + 1, Tup>>(a[I])...);
}
template<class C, class F>
void azpy_call_member(const void* fn, void* self, void* const* a)
{
    const F& f = *(const F*)fn;
    C* c = (C*)self;
    if constexpr (std::is_member_object_pointer_v<F>) azpy_give(c->*f);
    else
    {
        constexpr auto n = std::tuple_size_v<typename sig<F>::a> - (std::is_member_function_pointer_v<F> ? 0 : 1);
        if constexpr (std::is_void_v<typename sig<F>::r>)
        {
            azpy_invoke_m<C, F>(f, c, a, std::make_index_sequence<n>{});
            azpy_ret_none();
        }
        else azpy_give(azpy_invoke_m<C, F>(f, c, a, std::make_index_sequence<n>{}));
    }
}
template<class C, class M>
void azpy_assign(const void* fn, void* self, void* const* a)
{
    M C::*m = *(M C::*const*)fn;
    ((C*)self)->*m = azpy_take<M>(a[0]);
}
template<class F>
const void* azpy_keep(F f)
{
    return new F(std::move(f));
}

template<class... A> struct init_t {};
template<class F> struct factory_t { F f; };
template<class... A> init_t<A...> init() { return {}; }
template<class F> factory_t<F> init(F f) { return { std::move(f) }; }

template<class C, class... A, size_t... I>
void azpy_construct0(void* out, void* const* a, std::index_sequence<I...>)
{
    new (out) C(azpy_take<A>(a[I])...);
}
template<class C, class... A>
void azpy_construct(const void*, void* out, void* const* a)
{
    azpy_construct0<C, A...>(out, a, std::index_sequence_for<A...>{});
}
template<class C, class R>
void azpy_place(void* out, R&& r)
{
    using D = std::decay_t<R>;
    if constexpr (std::is_same_v<D, C>) new (out) C(std::forward<R>(r));
    else if constexpr (std::is_pointer_v<D>) new (out) C(std::move(*r));
    else new (out) C(std::move(*r));
}
template<class C, class F>
void azpy_make(const void* fn, void* out, void* const* a)
{
    const F& f = *(const F*)fn;
    constexpr auto n = std::tuple_size_v<typename sig<F>::a>;
    azpy_place<C>(out, azpy_invoke0<F, 0, typename sig<F>::a>(f, a, std::make_index_sequence<n>{}));
}

struct dynamic_attr {};
struct arg
{
    explicit arg(const char*) {}
    template<class T> arg& operator=(const T&) { return *this; }
    arg& none(bool = true) { return *this; }
    arg& noconvert(bool = true) { return *this; }
};
struct kw_only {};
struct arithmetic {};
struct module_local { explicit module_local(bool = true) {} };
struct call_guard_tag {};
template<class... T> struct call_guard {};
template<class... T> struct keep_alive_t {};
class gil_scoped_release { public: gil_scoped_release(); ~gil_scoped_release(); };
class gil_scoped_acquire { public: gil_scoped_acquire(); ~gil_scoped_acquire(); };
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };

struct azpy_doc
{
    template<class T> azpy_doc& operator=(const T&) { return *this; }
};

class module_ : public object
{
  public:
    using object::object;
    azpy_doc& doc() { static azpy_doc d; return d; }
    template<class F, class... E>
    module_& def(const char* name, F f, const E&...)
    {
        azpy_function(name, &azpy_call_free<F>, azpy_keep(f), (int)std::tuple_size_v<typename sig<F>::a>);
        return *this;
    }
    template<class T> azpy_doc attr(const T&) { return {}; }
};

template<class T> struct takes_kwargs : std::false_type {};
template<class... R> struct takes_kwargs<std::tuple<kwargs, R...>> : std::true_type {};
template<class... R> struct takes_kwargs<std::tuple<const kwargs&, R...>> : std::true_type {};

template<class C>
void azpy_destroy(void* p)
{
    ((C*)p)->~C();
}

template<class C, class... O>
class class_ : public object
{
  public:
    template<class M, class... E>
    class_(M&, const char* name, const E&...)
    {
        azpy_class(&azpy_tag<C>::id, name, (long)sizeof(C), &azpy_destroy<C>);
    }
    template<class... A, class... E>
    class_& def(init_t<A...>, const E&...)
    {
        azpy_ctor(&azpy_tag<C>::id, &azpy_construct<C, A...>, nullptr, sizeof...(A), 0);
        return *this;
    }
    template<class F, class... E>
    class_& def(factory_t<F> f, const E&...)
    {
        using A = typename sig<F>::a;
        azpy_ctor(&azpy_tag<C>::id, &azpy_make<C, F>, azpy_keep(f.f), (int)std::tuple_size_v<A>, takes_kwargs<A>::value);
        return *this;
    }
    template<class F, class... E>
    class_& def(const char* name, F f, const E&...)
    {
        constexpr int n = (int)std::tuple_size_v<typename sig<F>::a> - (std::is_member_function_pointer_v<F> ? 0 : 1);
        azpy_method(&azpy_tag<C>::id, name, &azpy_call_member<C, F>, azpy_keep(f), n);
        return *this;
    }
    template<class G, class S, class... E>
    class_& def_property(const char* name, G g, S s, const E&...)
    {
        azpy_prop(&azpy_tag<C>::id, name, &azpy_call_member<C, G>, azpy_keep(g), &azpy_call_member<C, S>, azpy_keep(s));
        return *this;
    }
    template<class G, class... E>
    class_& def_property_readonly(const char* name, G g, const E&...)
    {
        azpy_prop(&azpy_tag<C>::id, name, &azpy_call_member<C, G>, azpy_keep(g), nullptr, nullptr);
        return *this;
    }
    template<class B, class M, class... E>
    class_& def_readwrite(const char* name, M B::*m, const E&...)
    {
        azpy_prop(&azpy_tag<C>::id, name, &azpy_call_member<C, M B::*>, azpy_keep(m), &azpy_assign<B, M>, azpy_keep(m));
        return *this;
    }
    template<class B, class M, class... E>
    class_& def_readonly(const char* name, M B::*m, const E&...)
    {
        azpy_prop(&azpy_tag<C>::id, name, &azpy_call_member<C, M B::*>, azpy_keep(m), nullptr, nullptr);
        return *this;
    }
};

template<class T>
class enum_ : public object
{
  public:
    template<class M, class... E>
    enum_(M&, const char* name, const E&...)
    {
        azpy_enum(&azpy_tag<T>::id, name);
    }
    enum_& value(const char* name, T v, const char* = nullptr)
    {
        azpy_value(&azpy_tag<T>::id, name, (long long)v);
        return *this;
    }
    enum_& export_values() { return *this; }
};

template<class V, class M>
object bind_vector(M&, const char*)
{
    return object();
}

namespace literals {
inline arg operator""_a(const char* n, std::size_t) { return arg(n); }
}
} // namespace pybind11

#define PYBIND11_MAKE_OPAQUE(...)
#define PYBIND11_MODULE(name, var, ...)                                                                                 \
    static void azpy_init_##name(::pybind11::module_& var);                                                             \
    extern "C" __attribute__((used)) void azpy_module(::pybind11::module_* m)                                           \
    {                                                                                                                   \
        azpy_init_##name(*m);                                                                                           \
    }                                                                                                                   \
    static void azpy_init_##name(::pybind11::module_& var)
