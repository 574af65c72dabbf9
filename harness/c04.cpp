// MC: rng nolib
// C04: generated networks, with every random word an explored environment choice.
#include "common.hpp"
#include "network_generation.hpp"
#include <map>

using A   = SimpleAgent;
using N   = Network<A>;
using Dir = N::EdgeDirection;

static void check_random( const N & net, size_t n, size_t k, bool self )
{
    MC_CHECK( net.n_agents() == n, "{} agents instead of {}", net.n_agents(), n );
    MC_CHECK( net.direction() == Dir::Incoming, "not stored as incoming edges" );
    auto e        = edges_of( net );
    size_t others = std::min( k, n - 1 );
    for( size_t i = 0; i < n; i++ )
    {
        std::set<size_t> s;
        size_t own = 0;
        double sum = 0;
        for( auto & [j, w] : e[i] )
        {
            MC_CHECK( j < n, "agent {} has the neighbour {} of {} agents: {}", i, j, n, str( e ) );
            if( j == i )
                own++;
            else
                MC_CHECK( s.insert( j ).second, "agent {} has the neighbour {} twice: {}", i, j, str( e ) );
            MC_CHECK( w >= 0, "weight {} of agent {}", w, i );
            sum += w;
        }
        MC_CHECK( s.size() == others, "agent {} has {} other neighbours instead of {}: {}", i, s.size(), others, str( e ) );
        MC_CHECK( own == ( self ? 1u : 0u ), "agent {} has {} edges from itself: {}", i, own, str( e ) );
        if( !e[i].empty() )
            MC_CHECK( close( sum, 1.0 ), "the weights of agent {} sum to {}", i, sum );
    }
    mc::Hash h;
    hash( h, e );
    mc::state( h.h );
    mc::step( n );
    if( mc::want_sample() )
        mc::sample( str( e ) );
}

// The sets of neighbours and the weight values met for every agent.
struct Seen
{
    vector<std::set<vector<size_t>>> sets;
    vector<std::map<size_t, std::set<double>>> weights;
    Seen( size_t n ) : sets( n ), weights( n ) {}
    void add( const N & net )
    {
        for( size_t i = 0; i < sets.size(); i++ )
        {
            vector<size_t> v;
            auto nb = net.get_neighbours( i );
            auto w  = net.get_weights( i );
            for( size_t k = 0; k < nb.size(); k++ )
            {
                if( nb[k] != i )
                    v.push_back( nb[k] );
                if( weights[i][nb[k]].size() < 5 )
                    weights[i][nb[k]].insert( w[k] );
            }
            std::sort( v.begin(), v.end() );
            sets[i].insert( v );
        }
    }
};
static size_t binomial( size_t n, size_t k )
{
    if( k > n )
        return 0;
    size_t r = 1;
    for( size_t i = 0; i < k; i++ )
        r = r * ( n - i ) / ( i + 1 );
    return r;
}

int main( int argc, char ** argv )
{
    return mc::main( "C04", argc, argv, [] {
        mc::bounds( "generate_n_connections for n = 1..3 with every sequence of random words over 2-3 cells; n = 1..6, all k = 0..n+2, with every "
                    "sequence that deviates from a fixed background in at most 2 words (12 cells each): every neighbour set is reached; n up to 60 (thorough 200) with "
                    "single deviations, up to 9000 without; generate_fully_connected likewise." );
        for( bool self : { false, true } )
        {
            for( size_t n = 1; n <= 3; n++ )
                for( size_t k = 0; k <= n + 1; k++ )
                    mc::scenario( fmt::format( "full n={} k={} self={}", n, k, self ), [=] {
                        Seen seen( n );
                        mc::Policy p;
                        p.menu      = n < 3 && k < 3 ? mc::cells( 3 ) : mc::cells( 2 );
                        p.max_execs = mc::thorough() ? 3000000 : 300000;
                        mc::explore( p, [&] {
                            std::mt19937 gen( 1 );
                            auto net = NetworkGeneration::generate_n_connections<A>( n, k, self, gen );
                            check_random( net, n, k, self );
                            seen.add( net );
                        } );
                    } );
            for( size_t n = 1; n <= 6; n++ )
                for( size_t k = 0; k <= n + 2; k++ )
                    mc::scenario( fmt::format( "reach n={} k={} self={}", n, k, self ), [=] {
                        Seen seen( n );
                        mc::Policy p;
                        p.menu       = mc::cells( n < 6 ? 12 : 8 );
                        p.background = 1;
                        p.max_dev    = 2;
                        bool all     = mc::explore( p, [&] {
                            std::mt19937 gen( 1 );
                            auto net = NetworkGeneration::generate_n_connections<A>( n, k, self, gen );
                            check_random( net, n, k, self );
                            seen.add( net );
                        } );
                        if( all )
                            for( size_t i = 0; i < n; i++ )
                            {
                                // selection sampling of at most 2 of the words decides about up to 4 of the n-1 others
                                size_t possible = binomial( n - 1, std::min( k, n - 1 ) );
                                if( n <= 5 )
                                    MC_CHECK( seen.sets[i].size() == possible, "agent {} of {} meets only {} of the {} possible sets of {} neighbours", i, n, seen.sets[i].size(), possible, k );
                                size_t vary = 0;
                                for( auto & [j, w] : seen.weights[i] )
                                    vary += w.size() > 1;
                                if( std::min( k, n - 1 ) + self > 1 )
                                    MC_CHECK( vary > 0, "the weights of agent {} never vary", i );
                            }
                    } );
            for( size_t n : { 7, 10, 16, 17, 30, 60, 200 } )
                for( size_t k : { size_t( 0 ), size_t( 1 ), size_t( 2 ), n / 2, n - 2, n - 1, n, n + 1, 3 * n } )
                {
                    if( n > 60 && !mc::thorough() )
                        continue;
                    mc::scenario( fmt::format( "large n={} k={} self={}", n, k, self ), [=] {
                        for( int b = 0; b < 3; b++ )
                        {
                            mc::Policy p;
                            p.menu       = { 1ull << 40, mc::frac( 0.5 ), ~0ull };
                            p.background = b;
                            p.max_dev    = n > 20 && b ? 0 : 1;
                            p.horizon    = 400;
                            mc::explore( p, [&] {
                                std::mt19937 gen( 1 );
                                check_random( NetworkGeneration::generate_n_connections<A>( n, k, self, gen ), n, k, self );
                            } );
                        }
                    } );
                }
        }
        for( size_t n : { 130, 257, 300, 1000, 2000, 9000 } )
            for( bool self : { false, true } )
                mc::scenario( fmt::format( "scale n={} self={}", n, self ), [=] {
                    for( int b = 0; b < 3; b++ )
                        for( size_t k : { size_t( 1 ), size_t( 3 ), size_t( 100 ), size_t( 128 ), size_t( 256 ), n / 2 + 1, n - 2, n - 1, n } )
                        {
                            if( ( n > 300 && ( b || k > 256 ) && k != n - 1 ) || ( n > 2000 && k > 3 ) || ( n > 1000 && b ) )
                                continue;
                            mc::Policy p;
                            p.menu       = { mc::frac( 0.5 ) };
                            p.background = b;
                            p.max_dev    = 0;
                            mc::explore( p, [&] {
                                std::mt19937 gen( 1 );
                                check_random( NetworkGeneration::generate_n_connections<A>( n, k, self, gen ), n, k, self );
                                if( self && k == 1 && n <= 1000 )
                                    check_random( NetworkGeneration::generate_fully_connected<A>( n, gen ), n, n, true );
                            } );
                        }
                } );
        for( size_t n = 0; n <= 24; n++ )
            mc::scenario( fmt::format( "fully connected n={}", n ), [=] {
                mc::once( [&] {
                    for( double w : { 0.0, 1.0, -2.5, 0.125 } )
                    {
                        auto net = NetworkGeneration::generate_fully_connected<A>( n, w );
                        MC_CHECK( net.n_agents() == n && net.direction() == Dir::Incoming, "agents or direction" );
                        Edges x( n );
                        for( size_t i = 0; i < n; i++ )
                            for( size_t j = 0; j < n; j++ )
                                x[i].push_back( { j, w } );
                        MC_CHECK( sorted( edges_of( net ) ) == x, "fully connected network of {} with weight {}: {}", n, w, str( edges_of( net ) ) );
                        mc::step();
                    }
                } );
                mc::Policy p;
                p.menu       = { 1ull << 40, mc::frac( 0.25 ), mc::frac( 0.5 ), ~0ull };
                p.background = 1;
                p.max_dev    = n <= 3 ? 3 : n <= 8 ? 2 : 1;
                p.max_execs  = 2000000;
                Seen seen( n );
                bool all = mc::explore( p, [&] {
                    std::mt19937 gen( 1 );
                    auto net = NetworkGeneration::generate_fully_connected<A>( n, gen );
                    if( n )
                        check_random( net, n, n, true );
                    else
                        MC_CHECK( net.n_agents() == 0, "agents" );
                    seen.add( net );
                } );
                if( all && n > 1 )
                    for( size_t i = 0; i < n; i++ )
                        for( auto & [j, w] : seen.weights[i] )
                            MC_CHECK( w.size() > 1, "the weight between {} and {} is always {}", i, j, *w.begin() );
            } );
    } );
}
