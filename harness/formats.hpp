#pragma once
#include "common.hpp"
#include <eirin/eirin.hpp>

namespace vf
{
template <typename T, typename I, unsigned int f, bool r>
struct fmt<eirin::fixed_num<T, I, f, r>>
{
    using type = eirin::fixed_num<T, I, f, r>;
    using store = T;
    using wide = I;
    static constexpr unsigned frac = f;
    static constexpr bool rounding = r;
    static constexpr bool is_signed = std::is_signed_v<T>;
    static constexpr unsigned bits = sizeof(T) * 8;
    // bits left for the magnitude of the integral part
    static constexpr int ibits = (int)bits - (is_signed ? 1 : 0) - (int)f;
    static const char* name()
    {
        static const std::string n = std::string(is_signed ? "s" : "u") + std::to_string(bits) + "." + std::to_string(f) + (r ? "r" : "") + (sizeof(I) > 2 * sizeof(T) ? "w" : "");
        return n.c_str();
    }
    static type mk(i128 raw) { return type::from_internal_value((T)raw); }
};
template <typename F>
std::vector<typename fmt<F>::store> interesting_of(bool rich = true)
{
    return interesting<typename fmt<F>::store>(fmt<F>::frac, rich);
}

template <unsigned f, bool r = false> using S8 = eirin::fixed_num<int8_t, int16_t, f, r>;
template <unsigned f, bool r = false> using U8 = eirin::fixed_num<uint8_t, uint16_t, f, r>;
template <unsigned f, bool r = false> using S16 = eirin::fixed_num<int16_t, int32_t, f, r>;
template <unsigned f, bool r = false> using U16 = eirin::fixed_num<uint16_t, uint32_t, f, r>;
template <unsigned f, bool r = false> using S32 = eirin::fixed_num<int32_t, int64_t, f, r>;
template <unsigned f, bool r = false> using U32 = eirin::fixed_num<uint32_t, uint64_t, f, r>;
template <unsigned f, bool r = false> using S64 = eirin::fixed_num<int64_t, __int128, f, r>;
template <unsigned f, bool r = false> using U64 = eirin::fixed_num<uint64_t, unsigned __int128, f, r>;
// wider intermediate types than needed
template <unsigned f, bool r = false> using S16W = eirin::fixed_num<int16_t, int64_t, f, r>;
template <unsigned f, bool r = false> using S32W = eirin::fixed_num<int32_t, __int128, f, r>;

template <typename... F>
struct flist
{
    template <typename Fn>
    static void each(Fn&& fn) { (fn.template operator()<F>(), ...); }
};

// every fraction of the 8 bit types
using all8 = flist<S8<1>, S8<2>, S8<3>, S8<4>, S8<5>, S8<6>, S8<7>, U8<1>, U8<2>, U8<3>, U8<4>, U8<5>, U8<6>, U8<7>>;
using all8r = flist<S8<1, true>, S8<2, true>, S8<3, true>, S8<4, true>, S8<5, true>, S8<6, true>, U8<1, true>, U8<4, true>, U8<6, true>>;
using all16 = flist<S16<1>, S16<4>, S16<8>, S16<12>, S16<15>, U16<4>, U16<8>, U16<15>, S16<8, true>, S16<4, true>, S16W<8>>;
using all32a = flist<S32<1>, S32<8>, S32<12>, S32<15>, S32<16>, S32<17>, S32<24>, S32<30>, S32<31>, S32W<16>>;
using all32b = flist<U32<1>, U32<8>, U32<16>, U32<24>, U32<31>, S32<16, true>, S32<8, true>, S32<24, true>, U32<16, true>>;
using all64a = flist<S64<1>, S64<16>, S64<31>, S64<32>, S64<33>, S64<48>, S64<62>, S64<63>>;
using all64b = flist<U64<16>, U64<32>, U64<63>, S64<32, true>, S64<16, true>, S64<48, true>, U64<32, true>>;
} // namespace vf
#ifndef PART
#    define PART 0
#endif
