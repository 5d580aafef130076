// C22: what the type traits say about handles, compared with what the owned types can do.
#ifndef VP_TRAITS
#define VP_TRAITS
#include VP_HEADER
#include <cstdio>
#include <functional>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#if !VP_CXX14
#include <compare>
#endif

struct Arg {};
struct Unrelated {};
template <class T>
struct To {  // converts to a T
  operator T() const { throw 1; }
};
template <class T>
struct NoDef {
  using value_type = T;
  int id;
  explicit NoDef(int i) : id(i) {}
  template <class U>
  NoDef(const NoDef<U>& o) : id(o.id) {}
  T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); }
  void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); }
  friend bool operator==(const NoDef& a, const NoDef& b) { return a.id == b.id; }
  friend bool operator!=(const NoDef& a, const NoDef& b) { return a.id != b.id; }
};
template <class T>
struct ExplicitDef : std::allocator<T> {
  explicit ExplicitDef() {}
  template <class U>
  explicit ExplicitDef(const ExplicitDef<U>&) {}
  template <class U>
  struct rebind {
    using other = ExplicitDef<U>;
  };
};

static int combo, failures, asked, refused;
static void answer(const char* what, const char* args, bool got, bool want) {
  ++asked;
  refused += !want;
  if (got != want && failures++ < 3)
    std::printf("FAIL combo %d: %s %s: the trait says %s, expected %s\n", combo, what, args,
                got ? "yes" : "no", want ? "yes" : "no");
}

template <class X>
using bare = typename std::remove_cv<typename std::remove_reference<X>::type>::type;
template <class... Xs>
struct List {};

template <class H, class = void>
struct has_less : std::false_type {};
template <class H>
struct has_less<H, decltype(void(std::declval<const H&>() < std::declval<const H&>()))>
    : std::true_type {};

// Instantiates what a trait promised, without running it.
template <bool>
struct Use {
  template <class H, class... As>
  static void ctor() {}
  template <class H, class A>
  static void assign() {}
};
template <>
struct Use<true> {
  template <class H, class... As>
  static void construct(As&&... as) {
    H h(static_cast<As&&>(as)...);
    (void)h;
  }
  template <class H, class... As>
  static void ctor() {
    void (*volatile f)(As&&...) = &construct<H, As...>;
    (void)f;
  }
  template <class H, class A>
  static void store(H& h, A&& a) {
    h = static_cast<A&&>(a);
  }
  template <class H, class A>
  static void assign() {
    void (*volatile f)(H&, A&&) = &store<H, A>;
    (void)f;
  }
};

#if VP_CXX14
#if VP_POLY
template <class T>
using type_tag = xyz::in_place_type_t<T>;
#else
using tag = xyz::in_place_t;
#endif
#else
template <class T>
using type_tag = std::in_place_type_t<T>;
using tag = std::in_place_t;
#endif
using arg = std::allocator_arg_t;

#if !VP_POLY
template <class T, class A>
struct Facts {
  using H = xyz::indirect<T, A>;
  static constexpr bool D = std::is_default_constructible<A>::value;

  template <class U>
  static constexpr bool value_ok() {
#if VP_CXX14  // only the owned type itself
    return std::is_same<bare<U>, T>::value && std::is_constructible<T, U>::value;
#else
    return !std::is_same<bare<U>, H>::value && !std::is_same<bare<U>, tag>::value &&
           std::is_constructible<T, U>::value;
#endif
  }
  template <class U>
  static constexpr bool skip() {
#if VP_CXX14  // a const or otherwise uncopyable argument of type T is not rejected there
    return std::is_same<bare<U>, T>::value && !std::is_constructible<T, U>::value;
#else
    return false;
#endif
  }
  template <class U>
  static void one(const char* n) {
    constexpr bool self = std::is_same<bare<U>, H>::value;
    if (!skip<U>()) {
      answer("construct from", n, std::is_constructible<H, U>::value, self || (D && value_ok<U>()));
      answer("construct with an allocator from", n, std::is_constructible<H, arg, const A&, U>::value,
             self || value_ok<U>());
      Use<!self && D && value_ok<U>()>::template ctor<H, U>();
      Use<!self && value_ok<U>()>::template ctor<H, arg, const A&, U>();
    }
    answer("convert from", n, std::is_convertible<U, H>::value, self);
    if (!std::is_same<U, std::initializer_list<int>>::value) in_place<!self, U>(n);
    constexpr bool as = std::is_constructible<T, U>::value && std::is_assignable<T&, U>::value;
    answer("assign", n, std::is_assignable<H&, U>::value, self || as);
    Use<!self && as>::template assign<H, U>();
    answer("assign to const", n, std::is_assignable<const H&, U>::value, false);
  }
  template <bool Try, class... Us>
  static void in_place(const char* n) {
    constexpr bool in = std::is_constructible<T, Us...>::value;
    answer("in place from", n, std::is_constructible<H, tag, Us...>::value, D && in);
    answer("in place with an allocator from", n,
           std::is_constructible<H, arg, const A&, tag, Us...>::value, in);
    Use<Try && D && in>::template ctor<H, tag, Us...>();
    Use<Try && in>::template ctor<H, arg, const A&, tag, Us...>();
  }
  template <class... Us>
  static void many(const char* n) {
    in_place<true, Us...>(n);
  }
  template <class... Us>
  static void list(const char* n) {  // an initializer list and more
    using L = std::initializer_list<int>;
    // Whether the list is forwarded as an lvalue or an rvalue is left open.
    constexpr bool in = std::is_constructible<T, L, Us...>::value;
    if (in != std::is_constructible<T, L&, Us...>::value) return;
    answer("in place from a list and", n, std::is_constructible<H, tag, L, Us...>::value, D && in);
    answer("in place with an allocator from a list and", n,
           std::is_constructible<H, arg, const A&, tag, L, Us...>::value, in);
    constexpr bool both = std::is_constructible<T, L&, Us...>::value;
    Use<D && in && both>::template ctor<H, tag, L, Us...>();
    Use<in && both>::template ctor<H, arg, const A&, tag, L, Us...>();
  }
  template <class V>
  static void bad_tags(const char* n) {  // tags and allocators in the wrong place
    answer("construct from a value and", n, std::is_constructible<H, T, V>::value, false);
    answer("allocator without tag and", n, std::is_constructible<H, const A&, V>::value, false);
    answer("allocator_arg without allocator and", n, std::is_constructible<H, arg, V>::value,
           std::is_convertible<V, const A&>::value);
    answer("two values with an allocator and", n, std::is_constructible<H, arg, const A&, T, V>::value, false);
  }
  static void all() {
    answer("default construct", "", std::is_default_constructible<H>::value, D);
    answer("allocator", "", std::is_constructible<H, arg, const A&>::value, true);
    answer("copy", "", std::is_copy_constructible<H>::value, true);
    answer("move", "", std::is_move_constructible<H>::value, true);
    answer("copy assign", "", std::is_copy_assignable<H>::value, true);
    answer("move assign", "", std::is_move_assignable<H>::value, true);
    answer("assign from const rvalue", "", std::is_assignable<H&, const H>::value, true);
    answer("destroy", "", std::is_nothrow_destructible<H>::value, true);
    answer("copy into another allocator", "", std::is_constructible<H, arg, const A&, const H&>::value, true);
    answer("move into another allocator", "", std::is_constructible<H, arg, const A&, H>::value, true);
    answer("trivial copy", "", std::is_trivially_copyable<H>::value, false);
    answer("polymorphic class", "", std::is_polymorphic<H>::value, false);
    answer("aggregate or final", "", std::is_final<H>::value, false);
    answer("to bool", "", std::is_convertible<H, bool>::value || std::is_constructible<bool, H>::value,
           false);
    answer("to value", "", std::is_convertible<H, T>::value, std::is_convertible<Opaque<H>, T>::value);
#if !VP_CXX14
    answer("hash", "", std::is_default_constructible<std::hash<H>>::value,
           std::is_default_constructible<std::hash<T>>::value);
    answer("hash copy", "", std::is_copy_constructible<std::hash<H>>::value,
           std::is_copy_constructible<std::hash<T>>::value);
    answer("less", "", has_less<H>::value, has_less<T>::value);
    answer("three way", "", requires(const H& a) { a <=> a; }, has_less<T>::value);
#endif
    many<>("()");
    list<>("()");
  }
  template <class X>
  struct Opaque {};  // what T makes of an arbitrary type
};
#else
template <class T, class A>
struct Facts {
  using H = xyz::polymorphic<T, A>;
  static constexpr bool D = std::is_default_constructible<A>::value;

  template <class X>
  static constexpr bool copies() {
#if VP_CXX14
    return std::is_copy_constructible<X>::value;
#else
    return std::copy_constructible<X>;
#endif
  }
  template <class X>
  static constexpr bool derives() {
    return std::is_base_of<T, X>::value && std::is_convertible<const X*, const T*>::value;
  }
  template <class U>
  static constexpr bool value_ok() {
    return !std::is_same<bare<U>, H>::value && copies<bare<U>>() && derives<bare<U>>();
  }
  template <class U>
  static void one(const char* n) {
    constexpr bool self = std::is_same<bare<U>, H>::value;
    // Whether an argument that cannot become the object is rejected is left open.
    constexpr bool in = std::is_constructible<bare<U>, U>::value;
    if ((in || !value_ok<U>()) && !open<bare<U>>()) {
      answer("construct from", n, std::is_constructible<H, U>::value, self || (D && value_ok<U>()));
      answer("construct with an allocator from", n, std::is_constructible<H, arg, const A&, U>::value,
             self || value_ok<U>());
      Use<!self && in && D && value_ok<U>() && !open<bare<U>>()>::template ctor<H, U>();
      Use<!self && in && value_ok<U>() && !open<bare<U>>()>::template ctor<H, arg, const A&, U>();
    }
    answer("convert from", n, std::is_convertible<U, H>::value, self);
#if !VP_CXX14
    answer("assign", n, std::is_assignable<H&, U>::value, self);
#endif
    answer("assign to const", n, std::is_assignable<const H&, U>::value, false);
  }
  // The C++14 header looks no further than is_base_of and is_copy_constructible.
  template <class X>
  static constexpr bool open() {
    return VP_CXX14 && ((std::is_base_of<T, X>::value && !derives<X>()) || !std::is_move_constructible<X>::value);
  }
  template <class X, class... Us>
  static void tagged(const char* n) {
    if (open<X>()) return;
    constexpr bool in = std::is_constructible<X, Us...>::value && copies<X>() && derives<X>();
    answer("in place from", n, std::is_constructible<H, type_tag<X>, Us...>::value, D && in);
    answer("in place with an allocator from", n,
           std::is_constructible<H, arg, const A&, type_tag<X>, Us...>::value, in);
    Use<D && in && !open<X>()>::template ctor<H, type_tag<X>, Us...>();
    Use<in && !open<X>()>::template ctor<H, arg, const A&, type_tag<X>, Us...>();
#if !VP_CXX14
    answer("in place of a const type", n, std::is_constructible<H, type_tag<const X>, Us...>::value, false);
#endif
    using L = std::initializer_list<int>;
    constexpr bool both = std::is_constructible<X, L&, Us...>::value;
    if (both != std::is_constructible<X, L, Us...>::value) return;
    constexpr bool li = both && copies<X>() && derives<X>();
    answer("in place from a list and", n, std::is_constructible<H, type_tag<X>, L, Us...>::value, D && li);
    answer("in place with an allocator from a list and", n,
           std::is_constructible<H, arg, const A&, type_tag<X>, L, Us...>::value, li);
    Use<D && li && !open<X>()>::template ctor<H, type_tag<X>, L, Us...>();
    Use<li && !open<X>()>::template ctor<H, arg, const A&, type_tag<X>, L, Us...>();
  }
  template <class X>
  static void derived(const char* n) {
    one<X>(n);
    one<X&>(n);
    one<const X&>(n);
    one<const X>(n);
    one<X*>(n);
    one<To<X>>(n);
    tagged<X>(n);
    tagged<X, int>(n);
    tagged<X, X>(n);
    tagged<X, const X&>(n);
    tagged<X, const char*>(n);
    tagged<X, Arg&>(n);
    tagged<X, const Arg&>(n);
    tagged<X, Arg>(n);
    tagged<X, int, int>(n);
    tagged<X, std::unique_ptr<int>>(n);
    tagged<X, std::unique_ptr<int>&>(n);
    tagged<X, Unrelated>(n);
    answer("construct from a value and", n, std::is_constructible<H, X, int>::value, false);
    answer("allocator without tag and", n, std::is_constructible<H, const A&, X>::value, false);
    answer("two values with an allocator and", n, std::is_constructible<H, arg, const A&, X, int>::value,
           false);
  }
  static void all() {
#if !VP_CXX14
    answer("default construct", "", std::is_default_constructible<H>::value, D);
    answer("allocator", "", std::is_constructible<H, arg, const A&>::value, true);
#endif
    answer("copy", "", std::is_copy_constructible<H>::value, true);
    answer("move", "", std::is_move_constructible<H>::value, true);
    answer("copy assign", "", std::is_copy_assignable<H>::value, true);
    answer("move assign", "", std::is_move_assignable<H>::value, true);
    answer("destroy", "", std::is_nothrow_destructible<H>::value, true);
    answer("copy into another allocator", "", std::is_constructible<H, arg, const A&, const H&>::value, true);
    answer("move into another allocator", "", std::is_constructible<H, arg, const A&, H>::value, true);
    answer("trivial copy", "", std::is_trivially_copyable<H>::value, false);
    answer("polymorphic class", "", std::is_polymorphic<H>::value, false);
    answer("final", "", std::is_final<H>::value, false);
    answer("to bool", "", std::is_convertible<H, bool>::value || std::is_constructible<bool, H>::value,
           false);
    one<H>("handle");
    one<H&>("handle&");
    one<const H&>("const handle&");
    one<xyz::polymorphic<Unrelated>>("another handle");
    one<xyz::polymorphic<T, ExplicitDef<T>>>("a handle with another allocator");
    one<int>("int");
    one<Unrelated>("Unrelated");
    one<std::nullptr_t>("nullptr");
  }
};
#endif
#endif
