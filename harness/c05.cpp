// MC: rng nolib
// C05: draw_unique_k_from_n with every random word enumerated over cells that are exact for the pool sizes.
#include "common.hpp"
#include "util/math.hpp"
#include <map>

static size_t binomial( size_t n, size_t k )
{
    size_t r = 1;
    for( size_t i = 0; i < k; i++ )
        r = r * ( n - i ) / ( i + 1 );
    return r;
}

static vector<size_t> dirty( int kind, size_t n, size_t k )
{
    switch( kind )
    {
        case 0: return {};
        case 1: return vector<size_t>( k, 0 );
        case 2: return vector<size_t>( n + 3, n ? n - 1 : 7 );
        default: return { 77, 0, 0 };
    }
}

static void check( const vector<size_t> & b, std::optional<size_t> ignore, size_t k, size_t n )
{
    size_t permitted = n - ( ignore && *ignore < n );
    MC_CHECK( b.size() == std::min( k, permitted ), "{} of {} (excluding {}): {} indices {}", k, n, ignore, b.size(), b );
    std::set<size_t> s;
    for( auto j : b )
    {
        MC_CHECK( j < n, "{} of {} (excluding {}): index {} in {}", k, n, ignore, j, b );
        MC_CHECK( !ignore || j != *ignore, "{} of {}: the excluded index {} was drawn: {}", k, n, j, b );
        MC_CHECK( s.insert( j ).second, "{} of {} (excluding {}): index {} twice in {}", k, n, ignore, j, b );
    }
    mc::step();
    mc::Hash h;
    h( k )( n )( ignore ? *ignore : size_t( -1 ) )( b );
    mc::state( h.h );
}

int main( int argc, char ** argv )
{
    return mc::main( "C05", argc, argv, [] {
        mc::bounds( fmt::format(
            "n = 0..6 (thorough: n = 7 without probabilities), every k up to n+2, every excluded index (none, each, out of range), 4 previous buffer contents: all random words over 60 equal "
            "cells (exact for every pool size up to 6), the probability of every subset computed exactly; two draws into the same buffer; "
            "n up to 1000 with every sequence deviating from a background in at most 2 words." ) );
        for( size_t n = 0; n <= ( mc::thorough() ? 7 : 6 ); n++ )
            for( int ig = -1; ig <= int( n ) + 1; ig++ )
                for( size_t k = 0; k <= n + 2; k++ )
                    mc::scenario( fmt::format( "exact n={} ignore={} k={}", n, ig, k ), [=] {
                        auto ignore      = ig < 0 ? std::nullopt : std::optional<size_t>( ig );
                        size_t permitted = n - ( ignore && *ignore < n );
                        for( int d = 0; d < 4; d++ )
                        {
                            std::map<vector<size_t>, double> prob;
                            mc::Policy p;
                            // a few cells suffice to see that the buffer's former contents do not matter
                            bool exact = d == int( k % 4 );
                            if( permitted > 6 )
                                exact = false; // too many
                            p.menu      = mc::cells( !exact ? ( mc::thorough() ? 9 : 4 ) : 60 );
                            p.max_execs = mc::thorough() ? 200000000 : 3000000;
                            bool all    = mc::explore( p, [&] {
                                std::mt19937 gen( 1 );
                                auto b = dirty( d, n, k );
                                draw_unique_k_from_n( ignore, k, n, b, gen );
                                check( b, ignore, k, n );
                                std::sort( b.begin(), b.end() );
                                prob[b] += mc::weight();
                                if( mc::want_sample() )
                                    mc::sample( fmt::format( "{}", b ) );
                            } );
                            if( !all || !exact )
                                continue;
                            size_t possible = binomial( permitted, std::min( k, permitted ) );
                            MC_CHECK( prob.size() == possible, "only {} of {} subsets occur for k={} n={} excluding {}", prob.size(), possible, k, n, ignore );
                            for( auto & [s, q] : prob )
                                MC_CHECK( std::abs( q - 1.0 / possible ) < 1e-6, "subset {} of n={} (k={}, excluding {}) has probability {} instead of {}", s, n, k, ignore, q, 1.0 / possible );
                        }
                    } );
        mc::scenario( "two draws", [] {
            mc::Policy p;
            p.menu = mc::cells( 12 );
            mc::explore( p, [&] {
                size_t n = 1 + mc::choose( 4 ), k1 = mc::choose( 4 ), k2 = mc::choose( 4 );
                std::mt19937 gen( 1 );
                vector<size_t> b;
                draw_unique_k_from_n( size_t( 0 ), k1, n, b, gen );
                check( b, size_t( 0 ), k1, n );
                draw_unique_k_from_n( n - 1, k2, n, b, gen );
                check( b, n - 1, k2, n );
            } );
        } );
        for( size_t n : { 8, 10, 13, 20, 64, 200, 1000, 5000, 20011, 140003 } )
            mc::scenario( fmt::format( "large n={}", n ), [=] {
                mc::Policy p;
                p.menu       = { 0, mc::frac( 0.5 ), ~0ull };
                p.background = 1;
                p.max_dev    = n <= 64 ? 2 : n <= 5000 ? 1 : 0;
                p.horizon    = n <= 64 ? 60 : n <= 1000 ? 100 : 10;
                mc::explore( p, [&] {
                    size_t k    = mc::pick( { size_t( 0 ), size_t( 1 ), size_t( 2 ), n / 2, n - 2, n - 1, n, n + 1, 2 * n } );
                    auto ignore = mc::pick( { std::optional<size_t>{}, std::optional<size_t>{ 0 }, std::optional<size_t>{ n / 2 }, std::optional<size_t>{ n - 1 }, std::optional<size_t>{ n } } );
                    auto b      = dirty( mc::choose( 4 ), n, k );
                    std::mt19937 gen( 1 );
                    draw_unique_k_from_n( ignore, k, n, b, gen );
                    check( b, ignore, k, n );
                } );
            } );
        for( size_t n : { 8 } ) // every index can be drawn
            for( int ig : { -1, 0, 7 } )
                mc::scenario( fmt::format( "reach n={} ignore={}", n, ig ), [=] {
                    auto ignore = ig < 0 ? std::nullopt : std::optional<size_t>( ig );
                    size_t m    = n - ( ig >= 0 );
                    std::set<size_t> seen;
                    mc::Policy p;
                    p.menu   = mc::cells( 57 );
                    bool all = mc::explore( p, [&] {
                        std::mt19937 gen( 1 );
                        vector<size_t> b;
                        draw_unique_k_from_n( ignore, 1, n, b, gen );
                        check( b, ignore, 1, n );
                        seen.insert( b[0] );
                    } );
                    if( all )
                        MC_CHECK( seen.size() == m, "only {} of {} indices can be drawn", seen.size(), m );
                } );
    } );
}
