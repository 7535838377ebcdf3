// Factory functions called by name. Included by expr.cpp if FACTORIES is
// defined; FAC_DYN selects the functions with dynamically typed indices.
#ifndef VERIF_FACTORY_HPP_
#define VERIF_FACTORY_HPP_

#ifdef FAC_DYN
#define FACNS libcommute::dynamic_indices
#else
#define FACNS libcommute::static_indices
#endif

#define FAC(NAME)                                                              \
  struct fac_##NAME {                                                          \
    template <typename S, int M, typename... I> auto call(I&&... i) const {    \
      return FACNS::NAME<S>(std::forward<I>(i)...);                            \
    }                                                                          \
    template <int M, typename... I> auto calld(I&&... i) const {               \
      return FACNS::NAME(std::forward<I>(i)...);                               \
    }                                                                          \
  };
#define FACS(NAME)                                                             \
  struct fac_##NAME {                                                          \
    template <typename S, int M, typename... I> auto call(I&&... i) const {    \
      if constexpr(M == 0)                                                     \
        return FACNS::NAME<S>(std::forward<I>(i)...);                          \
      else                                                                     \
        return FACNS::NAME<M, S>(std::forward<I>(i)...);                       \
    }                                                                          \
    template <int M, typename... I> auto calld(I&&... i) const {               \
      if constexpr(M == 0)                                                     \
        return FACNS::NAME(std::forward<I>(i)...);                             \
      else                                                                     \
        return FACNS::NAME<M>(std::forward<I>(i)...);                          \
    }                                                                          \
  };
#define FACXY(NAME)                                                            \
  struct fac_##NAME {                                                          \
    template <int M, typename... I> auto calld(I&&... i) const {               \
      if constexpr(M == 0)                                                     \
        return FACNS::NAME(std::forward<I>(i)...);                             \
      else                                                                     \
        return FACNS::NAME<M>(std::forward<I>(i)...);                          \
    }                                                                          \
  };
FAC(c_dag) FAC(c) FAC(n) FAC(a_dag) FAC(a)
FACS(S_p) FACS(S_m) FACS(S_z)
FACXY(S_x) FACXY(S_y)

// Pass the indices in the given way: 0 - rvalues, 1 - lvalues, 2 - constant
// lvalues, 3 - C strings instead of std::string
template <typename T> decltype(auto) as_c(T const& x) {
  if constexpr(std::is_same<T, std::string>::value)
    return x.c_str();
  else
    return T(x);
}
template <typename F, typename... I>
void with_mode(int mode, F&& f, std::tuple<I...> ix) {
  std::apply(
      [&](auto&... x) {
        if(mode == 0)
          f(typename std::decay<decltype(x)>::type(x)...);
        else if(mode == 1)
          f(x...);
        else if(mode == 2)
          f(std::as_const(x)...);
        else
          f(as_c(x)...);
      },
      ix);
}

#ifdef FAC_DYN
template <typename F, typename... I>
void with_idx(std::vector<comp> const& v, int mode, F&& f, I... i) {
  if(sizeof...(I) == v.size()) {
    with_mode(mode, f, std::tuple<I...>(i...));
    return;
  }
  if constexpr(sizeof...(I) < 2) {
    auto const& c = v[sizeof...(I)];
    if(c.is_str)
      with_idx(v, mode, f, i..., c.s);
    else
      with_idx(v, mode, f, i..., c.i);
  }
}
#else
template <typename F>
void with_idx(std::vector<comp> const& v, int mode, F&& f) {
  with_mode(mode, f, cfg::indices(v));
}
#endif

// Call the function; `put` receives the resulting expression
template <typename S, typename F, typename Put>
void call_fac(F const& fn,
              int mult,
              std::vector<comp> const& v,
              int mode,
              Put&& put) {
  with_idx(v, mode, [&](auto&&... x) {
    auto one = [&](auto M) {
      constexpr int m = decltype(M)::value;
      if constexpr(std::is_void<S>::value)
        put(fn.template calld<m>(std::forward<decltype(x)>(x)...));
      else
        put(fn.template call<S, m>(std::forward<decltype(x)>(x)...));
    };
    if constexpr(std::is_same<F, fac_c>::value ||
                 std::is_same<F, fac_c_dag>::value ||
                 std::is_same<F, fac_n>::value ||
                 std::is_same<F, fac_a>::value ||
                 std::is_same<F, fac_a_dag>::value)
      one(std::integral_constant<int, 0>{});
    else
      switch(mult) {
      case 0: one(std::integral_constant<int, 0>{}); break;
      case 2: one(std::integral_constant<int, 2>{}); break;
      case 3: one(std::integral_constant<int, 3>{}); break;
      case 4: one(std::integral_constant<int, 4>{}); break;
      case 7: one(std::integral_constant<int, 7>{}); break;
      }
  });
}

template <typename Put>
void factory(std::string const& name,
             std::string const& scalar,
             int mult,
             std::vector<comp> const& v,
             int mode,
             Put&& put) {
#define DISPATCH(NAME)                                                         \
  if(name == #NAME) {                                                          \
    if(scalar == "-")                                                          \
      call_fac<void>(fac_##NAME{}, mult, v, mode, put);                        \
    else if(scalar == "int")                                                   \
      call_fac<int>(fac_##NAME{}, mult, v, mode, put);                         \
    else                                                                       \
      call_fac<std::complex<double>>(fac_##NAME{}, mult, v, mode, put);        \
    return;                                                                    \
  }
#define DISPATCHXY(NAME)                                                       \
  if(name == #NAME) {                                                          \
    call_fac<void>(fac_##NAME{}, mult, v, mode, put);                          \
    return;                                                                    \
  }
  DISPATCH(c_dag)
  DISPATCH(c)
  DISPATCH(n)
  DISPATCH(a_dag)
  DISPATCH(a)
  DISPATCH(S_p)
  DISPATCH(S_m)
  DISPATCH(S_z)
  DISPATCHXY(S_x)
  DISPATCHXY(S_y)
  std::cerr << "script error: unknown factory " << name << "\n";
  std::exit(3);
}

#endif
