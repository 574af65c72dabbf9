// Force-included (-include) into every translation unit of a check: the harness
// and /repo's sources alike.  Nothing in /repo has to be changed for it.
#pragma once
#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <fstream>
#include <iostream>
#include <limits>
#include <memory>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <span>
#include <sstream>
#include <string>
#include <vector>

#include <fmt/format.h>
// config_parser.cpp prints std::optional, which fmt formats from version 10 on.
#if FMT_VERSION < 100000
template<typename T>
struct fmt::formatter<std::optional<T>>
{
    constexpr auto parse( format_parse_context & ctx )
    {
        return ctx.begin();
    }
    template<typename C>
    auto format( const std::optional<T> & o, C & ctx ) const
    {
        if( o.has_value() )
            return fmt::format_to( ctx.out(), "optional({})", *o );
        return fmt::format_to( ctx.out(), "none" );
    }
};
#endif

#ifdef MC_RNG
// Every word of the random engine is an environment answer given by the explorer.
// 64-bit words make each libstdc++ distribution take one word per draw.
namespace mc
{
std::uint64_t rng_word();
}
namespace std
{
class mc_engine
{
public:
    using result_type                          = std::uint64_t;
    static constexpr result_type default_seed  = 5489u;
    static constexpr result_type min()
    {
        return 0;
    }
    static constexpr result_type max()
    {
        return ~result_type( 0 );
    }
    mc_engine() = default;
    explicit mc_engine( result_type ) {}
    template<typename Sseq, typename = std::enable_if_t<std::is_class_v<Sseq> && !std::is_same_v<Sseq, mc_engine>>>
    explicit mc_engine( Sseq & )
    {
    }
    void seed( result_type = default_seed ) {}
    void discard( unsigned long long n )
    {
        while( n-- )
            ( *this )();
    }
    result_type operator()()
    {
        return mc::rng_word();
    }
    friend bool operator==( const mc_engine &, const mc_engine & )
    {
        return true;
    }
};
} // namespace std
#define mt19937 mc_engine
#endif
