// MC: rng nolib
// C06: weighted reservoir sampling with every random word enumerated over cells.
#include "common.hpp"
#include "util/math.hpp"
#include <map>

static vector<size_t> dirty( int kind, size_t n, size_t k )
{
    switch( kind )
    {
        case 0: return {};
        case 1: return vector<size_t>( k, 0 );
        case 2: return vector<size_t>( n + 3, n ? n - 1 : 7 );
        default: return { 77, 0, 0 };
    }
}

static vector<size_t> draw( size_t k, const vector<double> & w, int d )
{
    size_t n = w.size(), positive = 0;
    for( auto x : w )
        positive += x > 0;
    auto b = dirty( d, n, k );
    std::mt19937 gen( 1 );
    reservoir_sampling_A_ExpJ( k, n, [&]( auto j ) { return w.at( j ); }, b, gen );
    MC_CHECK( b.size() == std::min( k, positive ), "k={} weights {}: {} indices {}", k, w, b.size(), b );
    std::sort( b.begin(), b.end() );
    for( size_t i = 0; i < b.size(); i++ )
    {
        MC_CHECK( b[i] < n, "k={} weights {}: index {}", k, w, b[i] );
        MC_CHECK( w[b[i]] > 0, "k={} weights {}: index {} has weight zero", k, w, b[i] );
        MC_CHECK( i == 0 || b[i] != b[i - 1], "k={} weights {}: index {} twice", k, w, b[i] );
    }
    mc::step();
    return b;
}

// Probability of drawing the set one by one without replacement, proportionally to the weights.
static double set_prob( const vector<size_t> & s, const vector<double> & w, double rest )
{
    if( s.empty() )
        return 1;
    double p = 0;
    for( size_t i = 0; i < s.size(); i++ )
    {
        auto t = s;
        t.erase( t.begin() + i );
        p += w[s[i]] / rest * set_prob( t, w, rest - w[s[i]] );
    }
    return p;
}

static void distribution( const std::string & name, size_t k, const vector<double> & w, const vector<int> & counts, double tol )
{
    mc::scenario( "odds " + name + fmt::format( " k={} weights={}", k, w ), [=] {
        std::map<vector<size_t>, double> prob;
        mc::Policy p;
        p.counts    = counts;
        p.max_execs = mc::thorough() ? 100000000 : 15000000;
        bool all    = mc::explore( p, [&] {
            auto b = draw( k, w, 0 );
            prob[b] += mc::weight();
        } );
        if( !all )
            return;
        double total = 0, sum = 0;
        for( auto x : w )
            total += x;
        std::string got;
        size_t n = w.size();
        for( unsigned m = 0; m < ( 1u << n ); m++ )
        {
            vector<size_t> s;
            bool zero = false;
            for( size_t i = 0; i < n; i++ )
                if( m >> i & 1 )
                {
                    s.push_back( i );
                    zero |= w[i] == 0;
                }
            if( s.size() != k || zero )
                continue;
            double x = set_prob( s, w, total ), q = prob.count( s ) ? prob[s] : 0;
            sum += x;
            got += fmt::format( "{}: {:.4f} (exact {:.4f}) ", s, q, x );
            mc::Hash h;
            h( w )( k )( s );
            mc::state( h.h );
            mc::outcome( h.h );
            MC_CHECK( std::abs( q - x ) < tol, "k={} weights {}: set {} has probability {:.4f} instead of {:.4f}", k, w, s, q, x );
        }
        mc::sample( got );
    } );
}

// Only the chance of every single index to be selected (coarser cells suffice).
static void inclusion( const std::string & name, size_t k, const vector<double> & w, const vector<int> & counts, double tol )
{
    mc::scenario( "inclusion " + name + fmt::format( " k={} weights={}", k, w ), [=] {
        size_t n = w.size();
        vector<double> prob( n, 0 ), exact( n, 0 );
        mc::Policy p;
        p.counts    = counts;
        p.max_execs = mc::thorough() ? 100000000 : 15000000;
        bool all    = mc::explore( p, [&] {
            for( size_t i : draw( k, w, 0 ) )
                prob[i] += mc::weight();
        } );
        if( !all )
            return;
        double total = 0;
        size_t positive = 0;
        for( auto x : w )
            total += x, positive += x > 0;
        for( unsigned m = 0; m < ( 1u << n ); m++ )
        {
            vector<size_t> s;
            bool zero = false;
            for( size_t i = 0; i < n; i++ )
                if( m >> i & 1 )
                {
                    s.push_back( i );
                    zero |= w[i] == 0;
                }
            if( s.size() == std::min( k, positive ) && !zero )
                for( size_t i : s )
                    exact[i] += set_prob( s, w, total );
        }
        for( size_t i = 0; i < n; i++ )
        {
            if( getenv( "MC_TIMES" ) )
                fprintf( stderr, "ERR %g %g %s\n", prob[i] - exact[i], exact[i], mc::g.scen.c_str() );
            MC_CHECK( std::abs( prob[i] - exact[i] ) < tol, "k={} weights {}: index {} is selected with probability {:.4f} instead of {:.4f}", k, w, i, prob[i], exact[i] );
        }
        mc::Hash h;
        h( w )( k )( 1 );
        mc::state( h.h );
    } );
}

int main( int argc, char ** argv )
{
    return mc::main( "C06", argc, argv, [] {
        mc::bounds( "structure: n = 0..4, all weights from a menu of 5 (incl. zero, tiny, huge), all k = 0..n+2, 4 previous buffer contents, all random words over 2-4 values "
                    "(incl. both ends); n up to 70 001 with up to 2 deviating words, also with k <= 4 indices outweighing all others, which must be selected. Odds: every set's probability for n = 2..4, all k < n, and n = 6, 8 with k = 1, 2, 5, 20 weight vectors and scales "
                    "1e-200..1e150, by enumerating all words over 12-200 cells (tolerance 2-5 %)." );
        const vector<double> W = { 0.0, 1.0, 1e-3, 7.0, 1e10 };
        for( size_t n = 0; n <= 4; n++ )
            for( size_t k = 0; k <= n + 2; k++ )
                for( int first = 0; first < ( n ? 5 : 1 ); first++ )
                    mc::scenario( fmt::format( "structure n={} k={} first={}", n, k, first ), [=] {
                        mc::Policy p;
                        p.menu = n <= 2 ? vector<mc::u64>{ 0, 1ull << 30, mc::frac( 0.4 ), mc::frac( 0.9 ), ~0ull } : n == 3 ? vector<mc::u64>{ 0, mc::frac( 0.4 ), mc::frac( 0.9 ), ~0ull } : vector<mc::u64>{ 0, mc::frac( 0.6 ), ~0ull };
                        if( n == 4 && !mc::thorough() )
                            p.menu = { mc::frac( 0.01 ), mc::frac( 0.9 ) };
                        mc::explore( p, [&] {
                            vector<double> w;
                            for( size_t i = 0; i < n; i++ )
                                w.push_back( i == 0 ? W[first] : mc::pick( W ) );
                            auto b = draw( k, w, mc::choose( n < 4 ? 4 : 2 ) * ( n < 4 ? 1 : 2 ) );
                            mc::Hash h;
                            h( w )( k )( b );
                            mc::state( h.h );
                            if( mc::want_sample() && n == 3 && k == 2 )
                                mc::sample( fmt::format( "k={} weights={} -> {}", k, w, b ) );
                        } );
                    } );
        for( size_t n : { 5, 8, 17, 64, 300, 1500, 9000, 70001 } )
            mc::scenario( fmt::format( "large n={}", n ), [=] {
                for( int bg = 0; bg < ( n > 2000 ? 1 : 4 ); bg++ )
                {
                    mc::Policy p;
                    p.menu       = { 0, mc::frac( 0.5 ), ~0ull };
                    p.background = bg;
                    p.max_dev    = n < 10 ? 2 : n > 1000 ? 0 : 1;
                    p.horizon    = 100;
                    mc::explore( p, [&] {
                        size_t k = mc::pick( { size_t( 0 ), size_t( 1 ), size_t( 2 ), n / 2, n - 1, n, n + 1, 2 * n } );
                        int pat  = mc::choose( 6 );
                        vector<double> w;
                        for( size_t i = 0; i < n; i++ )
                            w.push_back( pat == 0 ? 1 : pat == 1 ? i : pat == 2 ? ( i % 3 == 1 ? 0.5 + i : 0 ) : pat == 3 ? std::pow( 10., double( i % 21 ) - 10 ) : pat == 4 ? ( i == n - 1 ? 3 : 0 ) : 0 );
                        auto b = draw( k, w, mc::choose( 4 ) );
                        mc::Hash h;
                        h( n )( pat )( k )( b );
                        mc::state( h.h );
                    } );
                }
            } );
        // k indices that outweigh all others together by far are the selection, wherever they are
        for( size_t n : { 5, 17, 64, 300, 1500, 9000, 70001 } )
            for( size_t k : { 1, 2, 4 } )
                mc::scenario( fmt::format( "heavy n={} k={}", n, k ), [=] {
                    for( int bg = 0; bg < 4; bg++ )
                    {
                        mc::Policy p;
                        p.menu       = mc::cells( 3 );
                        p.background = bg;
                        p.max_dev    = n > 1000 ? 0 : 1;
                        p.horizon    = 12;
                        mc::explore( p, [&] {
                            double light = mc::pick( { 1.0, 1e-20, 1e-3, 1e8 } );
                            size_t first = mc::choose( n > 1000 ? 5 : 9 ) * ( n - 1 ) / ( n > 1000 ? 4 : 8 ), dist = mc::pick( { size_t( 1 ), n / 4 } );
                            vector<double> w( n, light );
                            vector<size_t> want;
                            for( size_t i = 0; i < k; i++ )
                                want.push_back( ( first + i * dist ) % n );
                            for( size_t i : want )
                                w[i] = light * 1e18;
                            std::sort( want.begin(), want.end() );
                            auto b = draw( k, w, 0 );
                            std::sort( b.begin(), b.end() );
                            MC_CHECK( b == want, "n={} k={}: {} selected although {} have 10^18 times the weight of the others", n, k, b, want );
                            mc::Hash h;
                            h( n )( light )( k )( b );
                            mc::state( h.h );
                        } );
                    }
                } );
        for( double sc : { 1e-200, 1e-20, 1e-9, 1e-4, 1.0, 1e9, 1e150 } )
        {
            for( auto & v : vector<vector<double>>{ { 1, 1 }, { 1, 3 }, { 3, 1 }, { 1, 50 } } )
                distribution( "n=2", 1, { v[0] * sc, v[1] * sc }, { 200, 200, 4, 2 }, 0.02 );
            if( ( sc < 1e-8 || sc > 1e10 ) && !mc::thorough() )
                continue;
            for( auto & v : vector<vector<double>>{ { 1, 1, 1 }, { 1, 2, 4 }, { 4, 2, 1 }, { 2, 0, 1 }, { 0, 1, 3 } } )
            {
                distribution( "n=3", 1, { v[0] * sc, v[1] * sc, v[2] * sc }, { 40, 40, 8, 40, 2, 2 }, 0.03 );
                distribution( "n=3", 2, { v[0] * sc, v[1] * sc, v[2] * sc }, { 50, 50, 50, 2, 2 }, 0.03 );
            }
        }
        for( auto & v : vector<vector<double>>{ { 1, 1, 1, 1 }, { 1, 2, 3, 4 }, { 4, 3, 2, 1 }, { 0, 2, 1, 1 }, { 1, 1, 0, 5 } } )
        {
            if( mc::thorough() )
                distribution( "n=4", 1, v, { 32, 32, 8, 24, 8, 16, 2, 2 }, 0.03 );
            else
                distribution( "n=4", 1, v, { 24, 24, 5, 16, 5, 12, 1, 1 }, 0.04 );
            distribution( "n=4", 2, v, mc::thorough() ? vector<int>{ 30, 30, 30, 10, 30, 1, 1 } : vector<int>{ 20, 20, 20, 6, 20, 1, 1 }, 0.04 );
            distribution( "n=4", 3, v, { 24, 24, 24, 24, 1, 1 }, 0.04 );
        }
        // longer lists: several jumps
        for( auto & v : vector<vector<double>>{ { 1, 1, 1, 1, 1, 1, 1, 1 }, { 1, 2, 3, 4, 5, 6, 7, 8 }, { 8, 7, 6, 5, 4, 3, 2, 1 }, { 0, 1, 0, 2, 0, 0, 3, 1 } } )
        {
            distribution( "n=8", 1, v, { 16, 16, 5, 12, 4, 8, 2, 2, 1, 1 }, 0.04 );
            inclusion( "n=8", 2, v, { 8, 8, 12, 3, 10, 3, 6, 2, 2 }, 0.06 );
            if( v[7] < 8 ) // otherwise many jumps: not covered by these cells
                inclusion( "n=8", 4, v, { 5, 5, 5, 5, 10, 3, 6, 2, 3 }, 0.06 );
        }
        for( auto & v : vector<vector<double>>{ { 1, 1, 1, 1, 1, 1 }, { 1, 2, 3, 4, 5, 6 }, { 6, 5, 4, 3, 2, 1 } } )
            inclusion( "n=6", 5, v, { 9, 9, 9, 9, 9, 16, 2, 1 }, 0.07 );
    } );
}
