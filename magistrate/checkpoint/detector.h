// Minimal stand-in for magistrate's detection idiom header (see DESIGN.md).
#ifndef VERIF_MINI_MAGISTRATE_DETECTOR_H
#define VERIF_MINI_MAGISTRATE_DETECTOR_H
#include <type_traits>
namespace detection {
struct nonesuch { nonesuch() = delete; ~nonesuch() = delete; nonesuch(nonesuch const&) = delete; void operator=(nonesuch const&) = delete; };
namespace impl {
template <class Default, class AlwaysVoid, template <class...> class Op, class... Args>
struct detector { using value_t = std::false_type; using type = Default; static constexpr bool value = false; };
template <class Default, template <class...> class Op, class... Args>
struct detector<Default, std::void_t<Op<Args...>>, Op, Args...> { using value_t = std::true_type; using type = Op<Args...>; static constexpr bool value = true; };
}
template <template <class...> class Op, class... Args>
using is_detected = typename impl::detector<nonesuch, void, Op, Args...>::value_t;
template <template <class...> class Op, class... Args>
using detected_t = typename impl::detector<nonesuch, void, Op, Args...>::type;
template <class Default, template <class...> class Op, class... Args>
using detected_or = impl::detector<Default, void, Op, Args...>;
template <class Default, template <class...> class Op, class... Args>
using detected_or_t = typename detected_or<Default, Op, Args...>::type;
template <class Expected, template <class...> class Op, class... Args>
using is_detected_exact = std::is_same<Expected, detected_t<Op, Args...>>;
template <class To, template <class...> class Op, class... Args>
using is_detected_convertible = std::is_convertible<detected_t<Op, Args...>, To>;
}
#endif
