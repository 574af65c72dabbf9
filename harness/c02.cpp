// MC: nolib
// C02: remove_double_counting on every small combination of neighbour lists, against a map-based reference.
#include "common.hpp"
#include <map>

using N   = Network<SimpleAgent>;
using Dir = N::EdgeDirection;

static Edges reference( const Edges & e )
{
    Edges r( e.size() );
    for( size_t i = 0; i < e.size(); i++ )
    {
        std::map<size_t, double> m;
        for( auto & [j, w] : e[i] )
            m[j] += w;
        r[i].assign( m.begin(), m.end() );
    }
    return r;
}

static void check( const Edges & e, Dir dir )
{
    N net = make_network<N>( e, dir );
    for( size_t i = 0; i < e.size(); i++ )
        net.agents[i].data.opinion = 10.0 + i;
    for( int round = 0; round < 2; round++ )
    {
        net.remove_double_counting();
        mc::step();
        auto r = edges_of( net ), x = reference( e );
        MC_CHECK( r == x, "{} became {} (application {}), expected {}", str( e ), str( r ), round + 1, str( x ) );
        MC_CHECK( net.n_agents() == e.size() && net.direction() == dir, "agents or direction changed" );
        size_t total = 0;
        for( size_t i = 0; i < e.size(); i++ )
        {
            MC_CHECK( net.agents[i].data.opinion == 10.0 + i, "agent {} changed", i );
            MC_CHECK( net.n_edges( i ) == x[i].size(), "n_edges({})", i );
            total += x[i].size();
        }
        MC_CHECK( net.n_edges() == total, "n_edges()" );
        mc::Hash h;
        hash( h, r );
        mc::state( h.h );
    }
    // the network goes on working as a network
    N t = net;
    t.toggle_incoming_outgoing();
    t.toggle_incoming_outgoing();
    MC_CHECK( sorted( edges_of( t ) ) == edges_of( net ), "toggling after the removal loses edges" );
    mc::Hash h;
    hash( h, e );
    mc::state( h.h );
    if( mc::want_sample() )
        mc::sample( str( e ) + "-> " + str( edges_of( net ) ) );
}

// weight patterns: sums identify the subset, cancel, are zero, are all the same
static double weight( int pattern, int k )
{
    switch( pattern )
    {
        case 0: return std::ldexp( 1.0, k );
        case 1: return k % 2 ? -1.0 : 1.0;
        case 2: return 0.0;
        case 3: return std::ldexp( 1.0, -80 - k ); // tiny
        case 4: return std::ldexp( k % 3 == 1 ? -1.0 : 1.0, 900 + k );
        default: return 0.25 * ( 7 - k );
    }
}

static void fill( Edges & e, size_t agent, int targets, int max_len, int pattern, int & k, int first_len = -1 )
{
    int len = first_len >= 0 ? first_len : mc::choose( max_len + 1 );
    for( int i = 0; i < len; i++ )
        e[agent].push_back( { size_t( mc::choose( targets ) ), weight( pattern, k++ ) } );
}

int main( int argc, char ** argv )
{
    return mc::main( "C02", argc, argv, [] {
        int L1 = mc::thorough() ? 9 : 7, T1 = 3, L2 = mc::thorough() ? 5 : 4;
        mc::bounds( fmt::format(
            "every neighbour list of up to {} entries over {} targets (6 over 4) with 6 weight patterns (also tiny and huge ones); every pair of lists of up to {} entries over "
            "3 agents; every triple of up to 2; arithmetic-progression lists of 15..3000 entries.", L1, T1, L2 ) );
        for( int p = 0; p < 6; p++ )
        {
            for( int len = 0; len <= L1; len++ )
                mc::scenario( fmt::format( "one list p={} len={}", p, len ), [=] {
                    mc::explore( {}, [&] {
                        Edges e( 3 );
                        int k = 0;
                        fill( e, mc::choose( len <= 4 ? 3 : 1 ), T1, 0, p, k, len );
                        check( e, len % 2 ? Dir::Incoming : Dir::Outgoing );
                    } );
                } );
            mc::scenario( fmt::format( "one list of 4 targets p={}", p ), [=] {
                mc::explore( {}, [&] {
                    Edges e( 4 );
                    int k = 0;
                    fill( e, 3, 4, mc::thorough() ? 7 : 6, p, k );
                    check( e, Dir::Incoming );
                } );
            } );
            for( int len = 0; len <= L2; len++ )
                mc::scenario( fmt::format( "two lists p={} len={}", p, len ), [=] {
                    mc::explore( {}, [&] {
                        Edges e( 3 );
                        int k = 0;
                        fill( e, 0, 3, 0, p, k, len );
                        fill( e, 2, 3, L2 - ( p > 0 ), p, k );
                        check( e, Dir::Outgoing );
                    } );
                } );
            mc::scenario( fmt::format( "three lists p={}", p ), [=] {
                mc::explore( {}, [&] {
                    Edges e( 3 );
                    int k = 0;
                    for( int a = 0; a < 3; a++ )
                        fill( e, a, 3, 2, p, k );
                    check( e, Dir::Incoming );
                } );
            } );
        }
        for( size_t n : { 15, 16, 17, 18, 20, 31, 32, 33, 48, 64, 100, 200, 300, 1000, 3000 } )
            mc::scenario( fmt::format( "long lists of {}", n ), [=] {
                mc::explore( {}, [&] {
                    size_t mod = mc::pick( { size_t( 2 ), size_t( 3 ), size_t( 7 ), n / 2, n - 1, n } );
                    size_t mul = mc::pick( { 1, 3, 5, 11, 13 } ), add = mc::pick( { 0, 1, 6 } );
                    int shape = mc::choose( 4 );
                    Edges e( n );
                    for( size_t a : { size_t( 0 ), n / 2, n - 1 } )
                        for( size_t k = 0; k < n; k++ )
                        {
                            size_t j = shape == 0 ? ( k * mul + add ) % mod : shape == 1 ? ( n - 1 - k ) % mod : shape == 2 ? ( k * k * mul + add ) % mod : ( k / ( 1 + add ) ) % mod;
                            e[a].push_back( { j, double( 1 + ( k * 37 + a ) % 1024 ) } );
                        }
                    check( e, Dir::Incoming );
                } );
            } );
    } );
}
