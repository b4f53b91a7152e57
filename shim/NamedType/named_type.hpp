// Stand-in for joboccara/NamedType (an empty submodule in this checkout, not packaged by apt).
// Only what SIREN uses: a strong typedef with get(), implicit conversion to the underlying type
// (fluent::Callable) and the Comparable / BinaryAddable / Subtractable skills.
#ifndef VERIF_NAMED_TYPE_STANDIN
#define VERIF_NAMED_TYPE_STANDIN
#include <type_traits>
#include <utility>
#define FLUENT_NODISCARD [[nodiscard]]
#define FLUENT_CONSTEXPR17 constexpr
namespace fluent {
template<typename T, template<typename> class crtpType>
struct crtp {
    constexpr T & underlying() { return static_cast<T &>(*this); }
    constexpr T const & underlying() const { return static_cast<T const &>(*this); }
};
template<typename T, typename Parameter, template<typename> class... Skills>
class NamedType : public Skills<NamedType<T, Parameter, Skills...>>... {
    T value_;
public:
    using UnderlyingType = T;
    NamedType() = default;
    explicit constexpr NamedType(T const & value) : value_(value) {}
    template<typename T_ = T, typename = typename std::enable_if<!std::is_reference<T_>::value>::type>
    explicit constexpr NamedType(T && value) : value_(std::move(value)) {}
    constexpr T & get() { return value_; }
    constexpr T const & get() const { return value_; }
};
template<typename N> struct Callable;
template<typename T, typename P, template<typename> class... S>
struct Callable<NamedType<T, P, S...>> : crtp<NamedType<T, P, S...>, Callable> {
    constexpr operator T const &() const { return this->underlying().get(); }
    constexpr operator T &() { return this->underlying().get(); }
    constexpr T const * operator->() const { return std::addressof(this->underlying().get()); }
    constexpr T * operator->() { return std::addressof(this->underlying().get()); }
};
template<typename T> struct Comparable : crtp<T, Comparable> {
    constexpr bool operator<(T const & o) const { return this->underlying().get() < o.get(); }
    constexpr bool operator==(T const & o) const { return this->underlying().get() == o.get(); }
    constexpr bool operator!=(T const & o) const { return !(*this == o); }
};
template<typename T> struct BinaryAddable : crtp<T, BinaryAddable> {
    constexpr T operator+(T const & o) const { return T(this->underlying().get() + o.get()); }
    constexpr T & operator+=(T const & o) { this->underlying().get() += o.get(); return this->underlying(); }
};
template<typename T> struct Subtractable : crtp<T, Subtractable> {
    constexpr T operator-(T const & o) const { return T(this->underlying().get() - o.get()); }
    constexpr T operator-() const { return T(-this->underlying().get()); }
    constexpr T & operator-=(T const & o) { this->underlying().get() -= o.get(); return this->underlying(); }
};
} // namespace fluent
#endif
