// MC: rng
// C10: the binary-vector bounded-confidence model with every random word enumerated over cells.
#include "sim.hpp"
#include <map>

using A = DiscreteVectorAgent;
using O = vector<vector<int>>;

static Config::SimulationOptions options( size_t n, size_t dim, double d, double mu, bool lattice )
{
    Config::DeffuantSettings s;
    s.homophily_threshold = d;
    s.mu                  = mu;
    s.use_network         = lattice;
    s.use_binary_vector   = true;
    s.dim                 = dim;
    return options_deffuant( n, s );
}
static Simulation<A> simulation( size_t n, size_t dim, double d, double mu, bool lattice = false )
{
    mc::Quiet q;
    return make_sim<A>( options( n, dim, d, mu, lattice ) );
}
static O opinions( const Simulation<A> & s, size_t dim )
{
    O x;
    for( auto & a : s.network.agents )
    {
        x.push_back( a.data.opinion );
        MC_CHECK( x.back().size() == dim, "opinion {} does not have {} components", x.back(), dim );
        for( int c : x.back() )
            MC_CHECK( c == 0 || c == 1, "opinion {} is not binary", x.back() );
    }
    return x;
}
static void set( Simulation<A> & s, const O & x )
{
    MC_CHECK( s.network.agents.size() == x.size(), "{} agents instead of {}", s.network.agents.size(), x.size() );
    for( size_t i = 0; i < x.size(); i++ )
        s.network.agents[i].data.opinion = x[i];
}
static int dist( const vector<int> & a, const vector<int> & b )
{
    int d = 0;
    for( size_t i = 0; i < a.size(); i++ )
        d += a[i] != b[i];
    return d;
}
// All possible results of an interaction of i and j.
static void interact( const O & x, size_t i, size_t j, double d, std::set<O> & out )
{
    if( !( dist( x[i], x[j] ) < d ) )
    {
        out.insert( x );
        return;
    }
    vector<size_t> disputed;
    for( size_t c = 0; c < x[i].size(); c++ )
        if( x[i][c] != x[j][c] )
            disputed.push_back( c );
    for( unsigned m = 0; m < 1u << disputed.size(); m++ )
    {
        O y = x;
        for( size_t k = 0; k < disputed.size(); k++ )
            y[i][disputed[k]] = y[j][disputed[k]] = m >> k & 1;
        out.insert( y );
    }
}
static void note( const O & from, const O & to, double d, double mu )
{
    mc::Hash h;
    h( from )( d )( mu );
    mc::state( h.h );
    h( to );
    mc::outcome( h.h );
    if( from != to && mc::want_sample() )
        mc::sample( fmt::format( "threshold {} mu {}: {} -> {}", d, mu, from, to ) );
}
static vector<int> word( unsigned bits, size_t dim )
{
    vector<int> v;
    for( size_t c = 0; c < dim; c++ )
        v.push_back( bits >> c & 1 );
    return v;
}

int main( int argc, char ** argv )
{
    return mc::main( "C10", argc, argv, [] {
        mc::bounds( "n = 2: all opinion pairs up to 3 components (thorough 4), 6 thresholds, 4 convergence parameters, all draws over 2-8 cells each; n = 3: outcomes within the set "
                    "of all 3-interaction results, up to 3 (4) deviating draws; n = 4-9, also lattices: every pair isolated by distant code words; n up to 400 with up to 150 components: 6-80 iterations from several base sequences; initial vectors: exact "
                    "probabilities over all draws." );
        for( size_t dim = 1; dim <= ( mc::thorough() ? 4 : 3 ); dim++ )
            for( double d : { 0.2, 1.0, 1.5, 2.0, 3.0, 4.0 } )
                for( double mu : { 0.0, 0.25, 0.5, 1.0 } )
                    mc::scenario( fmt::format( "n=2 dim={} d={} mu={}", dim, d, mu ), [=] {
                        auto sim = simulation( 2, dim, d, mu );
                        for( unsigned b = 0; b < 1u << 2 * dim; b++ )
                        {
                            O x0 = { word( b, dim ), word( b >> dim, dim ) };
                            std::set<O> ref, got;
                            interact( x0, 0, 1, d, ref );
                            mc::Policy p;
                            p.menu   = mc::cells( dim == 1 ? 8 : dim == 2 ? 4 : 2 );
                            bool all = mc::explore( p, [&] {
                                set( sim, x0 );
                                sim.model->iteration();
                                mc::step();
                                auto x = opinions( sim, dim );
                                MC_CHECK( ref.count( x ), "threshold {} mu {}: {} -> {}", d, mu, x0, x );
                                got.insert( x );
                                note( x0, x, d, mu );
                            } );
                            // either value can prevail
                            if( all && mu < 1 && ( dim < 3 || mu < 0.7 ) )
                                for( size_t c = 0; c < dim; c++ )
                                    for( int v = 0; v < 2; v++ )
                                    {
                                        bool can = false, did = false;
                                        for( auto & y : ref )
                                            can |= y[0][c] == v && y[1][c] == v;
                                        for( auto & y : got )
                                            did |= y[0][c] == v && y[1][c] == v;
                                        MC_CHECK( can == did, "threshold {} mu {}: {}: component {} never becomes {} for both", d, mu, x0, c, v );
                                    }
                        }
                    } );
        mc::scenario( "n=2 dim=1 mu=0.97", [] {
            auto sim = simulation( 2, 1, 2, 0.97 );
            for( int v = 0; v < 2; v++ )
            {
                O x0 = { { v }, { 1 - v } };
                std::set<O> got;
                mc::Policy p;
                p.menu   = mc::cells( 40 );
                bool all = mc::explore( p, [&] {
                    set( sim, x0 );
                    sim.model->iteration();
                    mc::step();
                    got.insert( opinions( sim, 1 ) );
                } );
                if( all )
                    MC_CHECK( got == ( std::set<O>{ { { 0 }, { 0 } }, { { 1 }, { 1 } } } ), "mu 0.97: {} only leads to {}", x0, got );
            }
        } );
        for( size_t dim = 1; dim <= 3; dim++ )
            for( double d : { 1.0, 2.0, 3.0, 4.0 } )
                for( double mu : { 0.25, 1.0 } )
                    mc::scenario( fmt::format( "n=3 dim={} d={} mu={}", dim, d, mu ), [=] {
                        auto sim = simulation( 3, dim, d, mu );
                        for( unsigned b = 0; b < 1u << 3 * dim; b++ )
                        {
                            if( dim == 3 && !mc::thorough() && b % 7 != 3 )
                                continue;
                            O x0 = { word( b, dim ), word( b >> dim, dim ), word( b >> 2 * dim, dim ) };
                            std::set<O> ref = { x0 };
                            for( int r = 0; r < 3; r++ )
                            {
                                std::set<O> next;
                                for( auto & x : ref )
                                    for( size_t i = 0; i < 3; i++ )
                                        interact( x, i, ( i + 1 ) % 3, d, next );
                                ref = next;
                            }
                            mc::Policy p;
                            p.menu       = mc::cells( 6 );
                            p.background = int( b % 5 );
                            p.max_dev    = dim == 3 && !mc::thorough() ? 2 : mc::thorough() && dim == 1 ? 4 : 3;
                            p.horizon    = 14;
                            mc::explore( p, [&] {
                                set( sim, x0 );
                                sim.model->iteration();
                                mc::step();
                                auto x = opinions( sim, dim );
                                MC_CHECK( ref.count( x ), "threshold {} mu {}: {} -> {} is no result of three interactions", d, mu, x0, x );
                                note( x0, x, d, mu );
                            } );
                        }
                    } );
        // isolated pairs: code words at distance 8, one pair at distance 2
        for( int lat = 0; lat < 2; lat++ )
            for( size_t n : lat ? vector<size_t>{ 4, 9, 16 } : vector<size_t>{ 3, 4, 5, 6 } )
                for( size_t a = 0; a < n; a++ )
                    mc::scenario( fmt::format( "{} n={} partner of {}", lat ? "lattice" : "all", n, a ), [=] {
                        size_t L = lat ? size_t( std::lround( std::sqrt( n ) ) ) : 0, dim = 16;
                        auto sim = simulation( n, dim, 2.5, 0.25, lat );
                        for( size_t b = 0; b < n; b++ )
                        {
                            if( b == a )
                                continue;
                            O x0;
                            for( size_t i = 0; i < n; i++ )
                            {
                                vector<int> v;
                                for( size_t c = 0; c < dim; c++ )
                                    v.push_back( __builtin_popcountll( ( i ) & c ) & 1 ); // Hadamard rows
                                x0.push_back( v );
                            }
                            x0[b] = x0[a];
                            x0[b][3] ^= 1;
                            x0[b][14] ^= 1;
                            std::set<O> ref, got;
                            interact( x0, a, b, 2.5, ref );
                            bool can = true;
                            if( lat )
                            {
                                size_t ax = a % L, ay = a / L, bx = b % L, by = b / L;
                                size_t dx = std::min( ( ax + L - bx ) % L, ( bx + L - ax ) % L ), dy = std::min( ( ay + L - by ) % L, ( by + L - ay ) % L );
                                can = dx + dy == 1;
                            }
                            bool all = true;
                            for( int bg = 0; bg < 3; bg++ )
                            {
                                mc::Policy p;
                                p.menu       = mc::cells( int( n <= 6 ? 30 : 36 ) );
                                p.background = bg;
                                p.max_dev    = n <= 4 ? 2 : 1;
                                p.horizon    = int( n <= 4 ? 10 : 3 * n );
                                all &= mc::explore( p, [&] {
                                    set( sim, x0 );
                                    sim.model->iteration();
                                    mc::step();
                                    auto x = opinions( sim, dim );
                                    MC_CHECK( x == x0 || can, "agents {} and {} of {} interacted", a, b, n );
                                    MC_CHECK( x == x0 || ref.count( x ), "agents {} and {}: {} -> {}", a, b, x0, x );
                                    got.insert( x );
                                    note( x0, x, 2.5, 0.25 );
                                } );
                            }
                            if( all )
                                MC_CHECK( ( got.size() > 1 ) == can, "agents {} and {} of {} never interact", a, b, n );
                        }
                    } );
        // initial vectors: every vector of the configured dimension, all equally likely
        for( size_t n = 1; n <= 3; n++ )
            for( size_t dim = 1; dim <= 4; dim++ )
                if( n * dim <= 6 )
                    mc::scenario( fmt::format( "initial n={} dim={}", n, dim ), [=] {
                        std::map<O, double> prob;
                        mc::Policy p;
                        auto o                           = options( n, dim, 1, 0.5, false );
                        o.network_settings.n_connections = 0;
                        bool all                         = mc::explore( p, [&] {
                            auto sim = make_sim<A>( o );
                            mc::step();
                            MC_CHECK( sim.network.agents.size() == n, "{} agents", sim.network.agents.size() );
                            auto x = opinions( sim, dim );
                            prob[x] += mc::weight();
                            note( x, x, 0, 0 );
                        } );
                        if( all )
                        {
                            MC_CHECK( prob.size() == 1u << n * dim, "only {} different initial states", prob.size() );
                            for( auto & [x, w] : prob )
                                MC_CHECK( close( w, std::pow( 0.5, n * dim ) ), "initial state {} has probability {}", x, w );
                        }
                    } );
        // long vectors: every component two interacting agents disagree on becomes equal, the others stay
        for( size_t dim : { 1, 2, 7, 8, 31, 32, 33, 63, 64, 65, 100, 128, 129, 256, 300, 1000, 5000 } )
            mc::scenario( fmt::format( "n=2 long dim={}", dim ), [=] {
                for( double mu : { 0.0, 0.5, 1.0 } )
                    for( size_t disputed : { size_t( 0 ), size_t( 1 ), dim / 2, dim - 1, dim } )
                        for( int order = 0; order < 2; order++ )
                        {
                            // the last components are disputed, or every other one first
                            vector<int> a( dim ), b( dim );
                            size_t k = 0;
                            for( size_t c = 0; c < dim; c++ )
                            {
                                size_t pos = order ? ( c % 2 ? c / 2 : ( dim / 2 ) + c / 2 ) : dim - 1 - c;
                                a[c]       = int( c * c % 3 % 2 );
                                b[c]       = pos < disputed ? 1 - a[c] : a[c];
                                k += b[c] != a[c];
                            }
                            for( double d : { double( k ), double( k ) + 0.5, double( dim ) + 1 } )
                            {
                                if( d <= 0 )
                                    continue;
                                auto sim = simulation( 2, dim, d, mu );
                                for( int bg = 0; bg < 2; bg++ )
                                {
                                    mc::Policy p;
                                    p.menu       = mc::cells( 2 );
                                    p.background = bg;
                                    p.max_dev    = 1;
                                    p.horizon    = dim > 300 ? 1 : 3;
                                    mc::explore( p, [&] {
                                        set( sim, { a, b } );
                                        sim.model->iteration();
                                        mc::step();
                                        auto x = opinions( sim, dim );
                                        if( double( k ) < d )
                                        {
                                            MC_CHECK( x[0] == x[1], "{} of {} components disputed, threshold {}, mu {}: the agents still differ in {} afterwards", k, dim, d, mu, dist( x[0], x[1] ) );
                                            for( size_t c = 0; c < dim; c++ )
                                                MC_CHECK( a[c] != b[c] || x[0][c] == a[c], "component {} of {} was agreed on and changed", c, dim );
                                        }
                                        else
                                            MC_CHECK( x == ( O{ a, b } ), "{} of {} components disputed, threshold {}: opinions changed", k, dim, d );
                                        mc::Hash h;
                                        h( dim )( mu )( d )( disputed )( order );
                                        mc::state( h.h );
                                        h( x );
                                        mc::outcome( h.h );
                                    } );
                                }
                            }
                        }
            } );
        // large populations, long vectors, long histories: a component everybody agrees on stays, groups farther apart than the threshold never mix
        for( int lat = 0; lat < 2; lat++ )
            for( size_t n : lat ? vector<size_t>{ 9, 100, 400 } : vector<size_t>{ 2, 5, 40, 300 } )
                for( size_t dim : { 8, 64, 150 } )
                    mc::scenario( fmt::format( "scale {} n={} dim={}", lat ? "lattice" : "all", n, dim ), [=] {
                        size_t q = dim / 4;
                        for( double mu : { 0.0, 0.5, 1.0 } )
                        {
                            auto sim = simulation( n, dim, double( q ) + 1, mu, lat ); // threshold: within a group everybody interacts
                            O x0;
                            for( size_t i = 0; i < n; i++ )
                            {
                                vector<int> v;
                                size_t group = ( i * 7 + i / 3 ) % 2;
                                for( size_t c = 0; c < dim; c++ ) // a quarter everybody agrees on, half the group, a quarter free
                                    v.push_back( c < q ? int( c % 2 ) : c < 3 * q ? int( group ) : int( ( i * 5 + c * c + i / 7 ) % 3 % 2 ) );
                                x0.push_back( v );
                            }
                            for( int bg = 0; bg < ( mc::thorough() ? 10 : 3 ); bg++ )
                            {
                                mc::Policy p;
                                p.menu       = mc::cells( 2 );
                                p.background = bg;
                                p.max_dev    = 1;
                                p.horizon    = mc::thorough() ? 8 : 2;
                                mc::explore( p, [&] {
                                    set( sim, x0 );
                                    auto x   = x0;
                                    int iter = n <= 9 ? 80 : n <= 40 ? 30 : 6;
                                    for( int it = 0; it < iter; it++ )
                                    {
                                        sim.model->iteration();
                                        mc::step();
                                        auto y = opinions( sim, dim );
                                        MC_CHECK( y.size() == n, "{} agents", y.size() );
                                        for( size_t c = 0; c < dim; c++ )
                                            for( int g = 0; g < 2; g++ )
                                            {
                                                bool could[2] = {}, is[2] = {};
                                                for( size_t i = 0; i < n; i++ )
                                                    if( int( ( i * 7 + i / 3 ) % 2 ) == g )
                                                        could[x[i][c]] = is[y[i][c]] = true;
                                                for( int v = 0; v < 2; v++ )
                                                    MC_CHECK( could[v] || !is[v], "threshold {} mu {}, iteration {}: component {} becomes {} in a group where nobody had it", q + 1, mu, it + 1, c, v );
                                            }
                                        if( it == 0 )
                                            note( x, y, double( q ) + 1, mu );
                                        x = y;
                                    }
                                } );
                            }
                        }
                        // nobody interacts at a threshold equal to the distance
                        auto sim = simulation( n, dim, double( dim ), 0.5, lat );
                        O x0;
                        for( size_t i = 0; i < n; i++ )
                            x0.push_back( vector<int>( dim, int( lat ? 0 : i % 2 ) ) );
                        mc::Policy p;
                        p.menu       = mc::cells( 2 );
                        p.background = 0;
                        p.max_dev    = 1;
                        p.horizon    = 4;
                        mc::explore( p, [&] {
                            set( sim, x0 );
                            for( int it = 0; it < 3; it++ )
                            {
                                sim.model->iteration();
                                mc::step();
                                MC_CHECK( opinions( sim, dim ) == x0, "agents differing in {} of {} components interact at threshold {}", dim, dim, dim );
                            }
                        } );
                    } );
    } );
}
