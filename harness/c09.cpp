// MC: rng
// C09: the scalar bounded-confidence model with every random word enumerated over cells.
#include "sim.hpp"
#include <map>
#include <numeric>

using A = SimpleAgent;
using V = vector<double>;

static Simulation<A> simulation( size_t n, double d, double mu, bool lattice )
{
    mc::Quiet q;
    Config::DeffuantSettings s;
    s.homophily_threshold = d;
    s.mu                  = mu;
    s.use_network         = lattice;
    return make_sim<A>( options_deffuant( n, s ) );
}
static V opinions( const Simulation<A> & s )
{
    V x;
    for( auto & a : s.network.agents )
        x.push_back( a.data.opinion );
    return x;
}
static bool set_opinions( Simulation<A> & s, const V & x )
{
    MC_CHECK( s.network.agents.size() == x.size(), "{} agents instead of {}", s.network.agents.size(), x.size() );
    for( size_t i = 0; i < x.size(); i++ )
        s.network.agents[i].data.opinion = x[i];
    return true;
}
static V interact( V x, size_t i, size_t j, double d, double mu )
{
    double diff = x[i] - x[j];
    if( std::abs( diff ) < d )
    {
        x[i] -= mu * diff;
        x[j] += mu * diff;
    }
    return x;
}
static bool near( const V & a, const V & b )
{
    if( a.size() != b.size() )
        return false;
    for( size_t i = 0; i < a.size(); i++ )
        if( !close( a[i], b[i], 1e-11, 1e-12 ) )
            return false;
    return true;
}
static void note( const V & from, const V & to, double d, double mu )
{
    mc::Hash h;
    h( from )( d )( mu );
    mc::state( h.h );
    h( to );
    mc::outcome( h.h );
    if( mc::want_sample() )
        mc::sample( fmt::format( "threshold {} mu {}: {} -> {}", d, mu, from, to ) );
}
static void invariants( const V & x0, const V & x )
{
    double s0 = 0, s = 0, lo = 1e300, hi = -1e300, scale = 1;
    for( double v : x0 )
        s0 += v, lo = std::min( lo, v ), hi = std::max( hi, v ), scale = std::max( scale, std::abs( v ) );
    for( double v : x )
    {
        s += v;
        MC_CHECK( v >= lo - 1e-10 * scale && v <= hi + 1e-10 * scale, "opinion {} outside the initial range [{}, {}]", v, lo, hi );
    }
    MC_CHECK( std::abs( s - s0 ) <= 1e-9 * scale * x.size(), "the sum of opinions went from {} to {}", s0, s );
}

// All outcomes of exactly n interactions, with probabilities if every pair is equally likely.
static vector<std::pair<V, double>> outcomes( const V & x0, const vector<std::pair<size_t, size_t>> & pairs, double d, double mu, size_t count )
{
    vector<std::pair<V, double>> cur = { { x0, 1.0 } };
    for( size_t r = 0; r < count; r++ )
    {
        vector<std::pair<V, double>> next;
        for( auto & [x, p] : cur )
            for( auto [i, j] : pairs )
            {
                auto y   = interact( x, i, j, d, mu );
                auto pos = std::find_if( next.begin(), next.end(), [&]( auto & e ) { return near( e.first, y ); } );
                if( pos == next.end() )
                    next.push_back( { y, p / pairs.size() } );
                else
                    pos->second += p / pairs.size();
            }
        cur = std::move( next );
    }
    return cur;
}
static vector<std::pair<size_t, size_t>> all_pairs( size_t n )
{
    vector<std::pair<size_t, size_t>> r;
    for( size_t i = 0; i < n; i++ )
        for( size_t j = i + 1; j < n; j++ )
            r.push_back( { i, j } );
    return r;
}
static vector<std::pair<size_t, size_t>> lattice_pairs( size_t L )
{
    std::set<std::pair<size_t, size_t>> r;
    for( size_t i = 0; i < L; i++ )
        for( size_t j = 0; j < L; j++ )
        {
            size_t a = i + L * j;
            for( size_t b : { ( i + 1 ) % L + L * j, i + L * ( ( j + 1 ) % L ) } )
                if( a != b )
                    r.insert( { std::min( a, b ), std::max( a, b ) } );
        }
    return { r.begin(), r.end() };
}

static V structured( int kind, size_t n )
{
    V x;
    for( size_t i = 0; i < n; i++ )
        x.push_back( kind == 0 ? double( i ) / n : kind == 1 ? ( i * 37 % n ) / 8.0 - 1 : kind == 2 ? ( i % 2 ? 0.1 : -0.1 ) : ( i * i % 11 ) * 0.07 );
    return x;
}

int main( int argc, char ** argv )
{
    return mc::main( "C09", argc, argv, [] {
        mc::bounds( "n = 2, 3: all draws of one iteration with exact probabilities, opinions on a dyadic grid including differences equal to the threshold; n = 4: draws of the "
                    "first random words, outcome within the set of all 4-interaction sequences; every pair's chance of interacting exact for n = 2..6 (lattices up to 6x6) and reachable for n = 4..8 "
                    "(lattices 2x2 to 4x4: exactly the neighbouring pairs) with up to 2 deviating draws; sums, ranges and number of interactions over several iterations; n = 2..1000 and lattices of 4..1024: 12-250 iterations from several base sequences, separate groups of opinions never mix." );
        // n = 2 and n = 3: exact outcome distributions
        for( double d : { 0.25, 0.5, 1.0 } )
            for( double mu : { 0.0, 0.25, 0.5, 1.0 } )
            {
                mc::scenario( fmt::format( "n=2 d={} mu={}", d, mu ), [=] {
                    mc::Policy p;
                    p.menu = mc::cells( 2 );
                    mc::explore( p, [&] {
                        V x0  = { mc::choose( 9 ) / 8.0, mc::choose( 9 ) / 8.0 };
                        auto s = simulation( 2, d, mu, false );
                        set_opinions( s, x0 );
                        s.model->iteration();
                        mc::step();
                        auto x = opinions( s ), e = interact( interact( x0, 0, 1, d, mu ), 0, 1, d, mu );
                        MC_CHECK( near( x, e ), "threshold {} mu {}: {} -> {} instead of {}", d, mu, x0, x, e );
                        note( x0, x, d, mu );
                    } );
                } );
                vector<V> starts = { { 0, 0.125, 0.25 }, { 0, 0.25, 0.5 }, { 0.5, 0, 0.25 }, { 0.75, 0.125, 0.375 }, { 0, 1, 0.5 }, { 0.25, 0.25, 0.5 } };
                if( mc::thorough() )
                    for( int i = 0; i < 9; i++ )
                        for( int j = 0; j < 9; j++ )
                            starts.push_back( { i / 8.0, j / 8.0, 0.375 } );
                for( auto & x0 : starts )
                    mc::scenario( fmt::format( "n=3 d={} mu={} from {}{}", d, mu, x0, &x0 - &starts[0] ), [=] {
                        auto ref = outcomes( x0, all_pairs( 3 ), d, mu, 3 );
                        V got( ref.size() );
                        mc::Policy p;
                        p.menu   = mc::cells( 6 );
                        auto sim = simulation( 3, d, mu, false );
                        bool all = mc::explore( p, [&] {
                            set_opinions( sim, x0 );
                            sim.model->iteration();
                            mc::step();
                            auto x   = opinions( sim );
                            auto pos = std::find_if( ref.begin(), ref.end(), [&]( auto & e ) { return near( e.first, x ); } );
                            MC_CHECK( pos != ref.end(), "threshold {} mu {}: {} -> {} is no outcome of three interactions", d, mu, x0, x );
                            got[pos - ref.begin()] += mc::weight();
                            note( x0, x, d, mu );
                        } );
                        for( size_t i = 0; all && i < ref.size(); i++ )
                            MC_CHECK( std::abs( got[i] - ref[i].second ) < 1e-9, "threshold {} mu {}: {} -> {} has probability {} instead of {}", d, mu, x0, ref[i].first, got[i], ref[i].second );
                    } );
            }
        // opinions and differences of all magnitudes
        for( double d : { 1e-7, 1.7e-3, 0.3, 2e4, 1e200 } )
            for( double mu : { 0.1, 0.3, 0.5, 0.9, 1.0 } )
                mc::scenario( fmt::format( "n=2 magnitudes d={} mu={}", d, mu ), [=] {
                    const V X = { 0.0, 1e-12, 3e-9, 1e-5, 0.25, 0.25 + 1e-9, 0.25 + 1e-4, 1.0, 1e4, 1e4 + 1e-6, 1e4 + 0.01, 3e8, 1e150,
                                  // just below, at and just above the threshold
                                  d, std::nextafter( d, 0 ), std::nextafter( d, 1e300 ), d * ( 1 - 1e-13 ), d * ( 1 - 1e-9 ), d * ( 1 + 1e-9 ) };
                    auto sim  = simulation( 2, d, mu, false );
                    mc::Policy p;
                    p.menu    = mc::cells( 2 );
                    p.max_dev = 1;
                    mc::explore( p, [&] {
                        V x0 = { mc::pick( X ), mc::pick( X ) };
                        for( auto & v : x0 )
                            v *= mc::choose( 2 ) ? -1 : 1;
                        set_opinions( sim, x0 );
                        sim.model->iteration();
                        mc::step();
                        auto x = opinions( sim ), e = interact( interact( x0, 0, 1, d, mu ), 0, 1, d, mu );
                        for( int i = 0; i < 2; i++ )
                            MC_CHECK( std::abs( x[i] - e[i] ) <= 4e-15 * std::max( std::abs( x0[0] ), std::abs( x0[1] ) ), "threshold {} mu {}: {} -> {} instead of {}", d, mu, x0, x, e );
                        note( x0, x, d, mu );
                    } );
                } );
        // n = 4: within the set of outcomes of four interactions
        for( double d : { 0.25, 0.5 } )
            for( double mu : { 0.25, 0.5, 1.0 } )
                for( int k = 0; k < 4; k++ )
                    mc::scenario( fmt::format( "n=4 d={} mu={} {}", d, mu, k ), [=] {
                        vector<V> st = { { 0, 0.125, 0.25, 0.375 }, { 0, 1, 0.5, 0.25 }, { 0.25, 0.5, 0.75, 1 }, { 0.5, 0, 0.5, 0.125 } };
                        auto x0      = st[k];
                        auto ref     = outcomes( x0, all_pairs( 4 ), d, mu, 4 );
                        std::set<size_t> met;
                        auto sim = simulation( 4, d, mu, false );
                        for( int b = 0; b < 3; b++ )
                        {
                            mc::Policy p;
                            p.menu       = mc::cells( 12 );
                            p.background = b;
                            p.max_dev    = mc::thorough() ? 4 : 3;
                            mc::explore( p, [&] {
                                set_opinions( sim, x0 );
                                sim.model->iteration();
                                mc::step();
                                auto x   = opinions( sim );
                                auto pos = std::find_if( ref.begin(), ref.end(), [&]( auto & e ) { return near( e.first, x ); } );
                                MC_CHECK( pos != ref.end(), "threshold {} mu {}: {} -> {} is no outcome of four interactions", d, mu, x0, x );
                                met.insert( pos - ref.begin() );
                                note( x0, x, d, mu );
                            } );
                        }
                    } );
        // who interacts: one close pair; everything else is far apart
        for( int lat = 0; lat < 2; lat++ )
            for( size_t n : lat ? vector<size_t>{ 4, 9, 16, 25 } : vector<size_t>{ 4, 5, 6, 7, 8 } )
                for( size_t a = 0; a < n; a++ )
                {
                    if( n == 25 && !mc::thorough() && a != 0 && a != 7 && a != 24 )
                        continue;
                    mc::scenario( fmt::format( "{} n={} partner of {}", lat ? "lattice" : "all", n, a ), [=] {
                        size_t L = lat ? size_t( std::lround( std::sqrt( n ) ) ) : 0;
                        std::set<std::pair<size_t, size_t>> nbs;
                        for( auto pr : lat ? lattice_pairs( L ) : all_pairs( n ) )
                            nbs.insert( pr );
                        auto sim = simulation( n, 1.0, 0.5, lat );
                        for( size_t b = 0; b < n; b++ )
                        {
                            if( b == a || ( n > 9 && !mc::thorough() && b > a + 5 && b % 5 != a % 5 ) )
                                continue;
                            V x0;
                            for( size_t i = 0; i < n; i++ )
                                x0.push_back( 100.0 * i );
                            x0[b]     = x0[a] + 0.5;
                            V e       = interact( x0, a, b, 1.0, 0.5 );
                            bool can  = nbs.count( { std::min( a, b ), std::max( a, b ) } ), did = false, all = true;
                            for( int bg = 0; bg < ( n <= 9 ? 2 : 1 ); bg++ )
                            {
                                mc::Policy p;
                                p.menu       = mc::cells( int( n <= 9 ? 36 : n == 16 ? 32 : 50 ) );
                                p.background = bg;
                                p.max_dev    = n <= 5 && mc::thorough() ? 2 : 1;
                                p.horizon    = int( 2 * n );
                                all &= mc::explore( p, [&] {
                                    set_opinions( sim, x0 );
                                    sim.model->iteration();
                                    mc::step();
                                    auto x   = opinions( sim );
                                    bool chg = !near( x, x0 );
                                    MC_CHECK( !chg || can, "agents {} and {} interacted: {} -> {}", a, b, x0, x );
                                    MC_CHECK( !chg || near( x, e ), "agents {} and {}: {} -> {} instead of {}", a, b, x0, x, e );
                                    did |= chg;
                                    note( x0, x, 1, 0.5 );
                                } );
                            }
                            // two deviating draws choose any pair
                            if( all && can && !did )
                            {
                                mc::Policy p;
                                p.menu       = mc::cells( int( 2 * n ) );
                                p.background = 0;
                                p.max_dev    = 2;
                                p.horizon    = 4;
                                all          = mc::explore( p, [&] {
                                    set_opinions( sim, x0 );
                                    sim.model->iteration();
                                    mc::step();
                                    did |= !near( opinions( sim ), x0 );
                                } );
                            }
                            if( all )
                                MC_CHECK( did == can, "agents {} and {} of {} never interact", a, b, n );
                        }
                    } );
                }
        // the pair selection itself, all draws with exact probabilities
        for( size_t n = 2; n <= 6; n++ )
            mc::scenario( fmt::format( "pair odds n={}", n ), [=] {
                auto sim = simulation( n, 1.0, 0.5, false );
                [&]( auto * m ) {
                    if constexpr( requires { m->select_interacting_agent_pair(); } )
                    {
                        if( !m )
                            return;
                        std::map<std::pair<size_t, size_t>, double> prob;
                        mc::Policy p;
                        p.menu   = mc::cells( int( n == 2 ? 4 : n == 3 ? 6 : n == 4 ? 24 : n == 5 ? 60 : 60 ) );
                        bool all = mc::explore( p, [&] {
                            auto pr = m->select_interacting_agent_pair();
                            mc::step();
                            MC_CHECK( pr.size() == 2 && pr[0] != pr[1] && pr[0] < n && pr[1] < n, "pair {} of {} agents", pr, n );
                            prob[{ std::min( pr[0], pr[1] ), std::max( pr[0], pr[1] ) }] += mc::weight();
                        } );
                        double e = 2.0 / ( n * ( n - 1 ) );
                        if( all )
                            for( auto pr : all_pairs( n ) )
                                MC_CHECK( std::abs( prob[pr] - e ) < 1e-9, "n={}: pair ({}, {}) is drawn with probability {} instead of {}", n, pr.first, pr.second, prob[pr], e );
                    }
                }( dynamic_cast<DeffuantModel *>( sim.model.get() ) );
            } );
        // on the lattice all neighbouring pairs are equally likely
        for( size_t L = 2; L <= ( mc::thorough() ? 8 : 6 ); L++ )
            mc::scenario( fmt::format( "lattice pair odds L={}", L ), [=] {
                size_t n = L * L;
                auto sim = simulation( n, 1.0, 0.5, true );
                [&]( auto * m ) {
                    if constexpr( requires { m->select_interacting_agent_pair(); } )
                    {
                        if( !m )
                            return;
                        std::map<std::pair<size_t, size_t>, double> prob;
                        mc::Policy p;
                        p.menu   = mc::cells( int( n % 4 ? 4 * n : n ) );
                        bool all = mc::explore( p, [&] {
                            auto pr = m->select_interacting_agent_pair();
                            mc::step();
                            MC_CHECK( pr.size() == 2 && pr[0] < n && pr[1] < n, "pair {} of {} agents", pr, n );
                            prob[{ std::min( pr[0], pr[1] ), std::max( pr[0], pr[1] ) }] += mc::weight();
                        } );
                        auto pairs = lattice_pairs( L );
                        double e   = 1.0 / pairs.size();
                        if( all )
                            for( auto pr : pairs )
                                MC_CHECK( std::abs( prob[pr] - e ) < 1e-9, "lattice of edge length {}: neighbours ({}, {}) are drawn with probability {} instead of {}", L, pr.first, pr.second, prob[pr], e );
                    }
                }( dynamic_cast<DeffuantModel *>( sim.model.get() ) );
            } );
        // invariants over several iterations; with mu = 1 an interaction is a swap, so the parity counts the interactions
        for( int lat = 0; lat < 2; lat++ )
            for( size_t n : lat ? vector<size_t>{ 4, 9, 16, 36 } : vector<size_t>{ 2, 3, 5, 8, 16, 33 } )
                for( double mu : { 0.1, 0.5, 0.75, 1.0 } )
                    mc::scenario( fmt::format( "history {} n={} mu={}", lat ? "lattice" : "all", n, mu ), [=] {
                        auto sim = simulation( n, 0.2, mu, lat );
                        for( int bg = 0; bg < ( mc::thorough() ? 40 : 4 ); bg++ )
                            for( int kind = 0; kind < 4; kind++ )
                            {
                                mc::Policy p;
                                p.menu       = mc::cells( 6 );
                                p.background = bg;
                                p.max_dev    = mc::thorough() && n <= 9 ? 2 : 1;
                                p.horizon    = int( std::min<size_t>( 4 * n, 40 ) );
                                auto x0      = structured( kind, n );
                                mc::explore( p, [&] {
                                    set_opinions( sim, x0 );
                                    for( int it = 0; it < 3; it++ )
                                    {
                                        sim.model->iteration();
                                        mc::step();
                                        invariants( x0, opinions( sim ) );
                                    }
                                    note( x0, opinions( sim ), 0.2, mu );
                                } );
                            }
                        if( mu != 1.0 || n < 2 )
                            return;
                        auto swaps = simulation( n, 1000, mu, lat );
                        for( int bg = 0; bg < 4; bg++ )
                        {
                            mc::Policy p;
                            p.menu       = mc::cells( 6 );
                            p.background = bg;
                            p.max_dev    = 1;
                            p.horizon    = int( std::min<size_t>( 2 * n, 40 ) );
                            V x0;
                            for( size_t i = 0; i < n; i++ )
                                x0.push_back( double( i ) );
                            mc::explore( p, [&] {
                                set_opinions( swaps, x0 );
                                swaps.model->iteration();
                                mc::step();
                                auto x     = opinions( swaps );
                                size_t inv = 0;
                                for( size_t i = 0; i < n; i++ )
                                {
                                    MC_CHECK( std::count( x.begin(), x.end(), x0[i] ) == 1, "mu=1: opinions {} are no permutation", x );
                                    for( size_t j = 0; j < i; j++ )
                                        inv += x[j] > x[i];
                                }
                                MC_CHECK( inv % 2 == n % 2, "mu=1: {} -> {} takes an {} number of interactions, not {}", x0, x, inv % 2 ? "odd" : "even", n );
                            } );
                        }
                    } );
        // large populations and long histories: groups farther apart than the threshold never mix
        for( int lat = 0; lat < 2; lat++ )
            for( size_t n : lat ? vector<size_t>{ 4, 9, 49, 100, 400, 1024, 66049 } : vector<size_t>{ 2, 5, 20, 64, 100, 257, 1000, 70001 } )
                mc::scenario( fmt::format( "scale {} n={}", lat ? "lattice" : "all", n ), [=] {
                    for( double mu : n > 10000 ? vector<double>{} : vector<double>{ 0.3, 0.5, 1.0 } )
                    {
                        auto sim  = simulation( n, 0.2, mu, lat );
                        int iters = n <= 20 ? 250 : n <= 100 ? 60 : 12;
                        auto runs = [&]( int groups ) {
                            auto group = [&]( size_t i ) { return ( i * 7 + i / 3 ) % groups; };
                            V x0;
                            for( size_t i = 0; i < n; i++ )
                                x0.push_back( 10.0 * group( i ) + ( i * 37 % 11 ) * 0.04 );
                            set_opinions( sim, x0 );
                            V x = x0;
                            for( int it = 0; it < iters; it++ )
                            {
                                sim.model->iteration();
                                mc::step();
                                auto y = opinions( sim );
                                MC_CHECK( y.size() == n, "{} agents", y.size() );
                                for( int g = 0; g < groups; g++ )
                                {
                                    V gx, gy;
                                    for( size_t i = 0; i < n; i++ )
                                        if( int( group( i ) ) == g )
                                            gx.push_back( x[i] ), gy.push_back( y[i] );
                                    if( !gx.empty() )
                                        invariants( gx, gy );
                                    if( mu == 1.0 ) // interactions swap
                                    {
                                        std::sort( gx.begin(), gx.end() );
                                        std::sort( gy.begin(), gy.end() );
                                        MC_CHECK( near( gx, gy ), "mu=1, iteration {}: the opinions of group {} become {}, no permutation of {}", it + 1, g, gy, gx );
                                    }
                                }
                                if( groups > 3 && it == 0 )
                                    note( x, y, 0.2, mu );
                                x = y;
                            }
                        };
                        for( int bg = 0; bg < ( mc::thorough() ? 12 : 3 ); bg++ )
                        {
                            mc::Policy p;
                            p.menu       = mc::cells( 2 );
                            p.background = bg;
                            p.max_dev    = 1;
                            p.horizon    = mc::thorough() ? 8 : 2;
                            for( int groups : { 1, 2, 5 } )
                                mc::explore( p, [&] { runs( groups ); } );
                        }
                    }
                    // the pair selection
                    auto sim = simulation( n, 0.2, 0.5, lat );
                    [&]( auto * m ) {
                        if constexpr( requires { m->select_interacting_agent_pair(); } )
                        {
                            if( !m )
                                return;
                            std::set<std::pair<size_t, size_t>> nb;
                            if( lat )
                                for( auto pr : lattice_pairs( size_t( std::lround( std::sqrt( n ) ) ) ) )
                                    nb.insert( pr );
                            vector<char> met( n, 0 );
                            vector<double> part( 64, 0 );
                            mc::Policy p;
                            p.counts = n > 10000 ? vector<int>{ int( n ), 4 } : vector<int>{ int( 4 * n ), 12, 4, 2 };
                            if( n > 10000 && !lat ) // too long to enumerate: every part of the population takes part in a fixed sequence of draws
                            {
                                p            = {};
                                p.menu       = { mc::frac( 0.5 ) };
                                p.background = 1;
                                p.max_dev    = 0;
                                vector<int> part( 14, 0 );
                                mc::explore( p, [&] {
                                    for( int r = 0; r < 600; r++ )
                                    {
                                        auto pr = m->select_interacting_agent_pair();
                                        mc::step();
                                        MC_CHECK( pr.size() == 2 && pr[0] != pr[1] && pr[0] < n && pr[1] < n, "pair {} of {} agents", pr, n );
                                        for( size_t i : pr )
                                            part[i * 14 / n]++;
                                    }
                                } );
                                MC_CHECK( *std::min_element( part.begin(), part.end() ) > 40 && *std::max_element( part.begin(), part.end() ) < 135, "600 pairs of {} agents fall into the fourteenths of the population as {}", n, part );
                                return;
                            }
                            p.horizon = 3;
                            bool all = mc::explore( p, [&] {
                                auto pr = m->select_interacting_agent_pair();
                                mc::step();
                                MC_CHECK( pr.size() == 2 && pr[0] != pr[1] && pr[0] < n && pr[1] < n, "pair {} of {} agents", pr, n );
                                if( lat )
                                    MC_CHECK( nb.count( { std::min( pr[0], pr[1] ), std::max( pr[0], pr[1] ) } ), "({}, {}) are no neighbours in the lattice of {}", pr[0], pr[1], n );
                                met[pr[0]] = met[pr[1]] = 1;
                                for( size_t i : pr )
                                    part[i * 64 / n] += mc::weight();
                            } );
                            for( size_t b = 0; lat && all && n >= 1024 && b < 64; b++ )
                            {
                                double size = double( ( ( b + 1 ) * n + 63 ) / 64 - ( b * n + 63 ) / 64 );
                                MC_CHECK( std::abs( part[b] * n / size / 2 - 1 ) < 0.15, "agents of part {} of 64 of the lattice of {} interact {:.3f} times as often as they should", b, n, part[b] * n / size / 2 );
                            }
                            for( size_t i = 0; lat && all && i < n; i++ )
                                MC_CHECK( met[i], "agent {} of {} never interacts", i, n );
                        }
                    }( dynamic_cast<DeffuantModel *>( sim.model.get() ) );
                } );
    } );
}
