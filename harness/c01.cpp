// MC: nolib
// C01: every operation sequence up to a depth, from every small network, against an edge-list reference.
#include "common.hpp"

using N   = Network<SimpleAgent>;
using Dir = N::EdgeDirection;

struct Ref
{
    Edges e;
    Dir dir;
    vector<double> op;
};

static Dir flip( Dir d )
{
    return d == Dir::Incoming ? Dir::Outgoing : Dir::Incoming;
}
static Edges transposed( const Edges & e )
{
    Edges t( e.size() );
    for( size_t i = 0; i < e.size(); i++ )
        for( auto & [j, w] : e[i] )
            t[j].push_back( { i, w } );
    return t;
}

// Compares the implementation with the reference; the order inside the lists is taken over if it may change.
static void compare( const N & net, Ref & r, bool order_fixed, const char * what )
{
    size_t n = r.e.size();
    MC_CHECK( net.n_agents() == n, "{}: {} agents instead of {}", what, net.n_agents(), n );
    MC_CHECK( net.direction() == r.dir, "{}: wrong direction", what );
    auto e = edges_of( net );
    if( order_fixed )
        MC_CHECK( e == r.e, "{}: lists {} expected {}", what, str( e ), str( r.e ) );
    else
        MC_CHECK( sorted( e ) == sorted( r.e ), "{}: edges {} expected {}", what, str( e ), str( r.e ) );
    r.e          = e;
    size_t total = 0;
    for( size_t i = 0; i < n; i++ )
    {
        MC_CHECK( net.n_edges( i ) == e[i].size(), "{}: n_edges({}) = {} for a list of {}", what, i, net.n_edges( i ), e[i].size() );
        total += e[i].size();
        MC_CHECK( net.agents[i].data.opinion == r.op[i], "{}: agent {} changed", what, i );
    }
    MC_CHECK( net.n_edges() == total, "{}: n_edges() = {} but {} edges are stored", what, net.n_edges(), total );
    N copy( net );
    MC_CHECK( edges_of( copy ) == e, "{}: a copy differs", what );
    mc::Hash h;
    hash( h, e );
    h( r.dir );
    mc::state( h.h );
    mc::step();
}

static const vector<double> W = { 1.0, -2.5, 0.25 };

// One operation with parameters chosen by the explorer.
static void op( N & net, Ref & r, bool small, int kind = -1 )
{
    size_t n = r.e.size();
    vector<vector<size_t>> lists;
    lists.push_back( {} );
    if( n > 0 )
    {
        lists.push_back( { n - 1, 0 } );
        if( !small )
            lists.push_back( { 0 } );
        if( !small )
            lists.push_back( { 0, n - 1, 0 } );
        if( !small && n > 2 )
            lists.push_back( { 2, 1, 0, 1 } );
    }
    auto agent = [&] { return size_t( mc::choose( int( n ) ) ); };
    // refused updates (the last two kinds) are tried as last operations
    switch( kind >= 0 ? kind : mc::choose( n == 0 ? 4 : small && !mc::thorough() ? 9 : 11 ) )
    {
        case 0:
            net.toggle_incoming_outgoing();
            r.e   = transposed( r.e );
            r.dir = flip( r.dir );
            compare( net, r, false, "toggle" );
            break;
        case 1:
            net.transpose();
            r.e = transposed( r.e );
            compare( net, r, false, "transpose" );
            break;
        case 2:
            net.switch_direction_flag();
            r.dir = flip( r.dir );
            compare( net, r, true, "switch" );
            break;
        case 3:
            net.clear();
            for( auto & l : r.e )
                l.clear();
            compare( net, r, true, "clear" );
            break;
        case 4:
        {
            auto i    = agent();
            auto l    = mc::pick( lists );
            double w  = small ? 1.5 : mc::pick( W );
            net.set_neighbours_and_weights( i, l, w );
            r.e[i].clear();
            for( auto j : l )
                r.e[i].push_back( { j, w } );
            compare( net, r, true, "set_neighbours_and_weights(constant)" );
            break;
        }
        case 5:
        {
            auto i = agent();
            auto l = mc::pick( lists );
            vector<double> w;
            for( size_t k = 0; k < l.size(); k++ )
                w.push_back( 0.5 + k );
            net.set_neighbours_and_weights( i, l, w );
            r.e[i].clear();
            for( size_t k = 0; k < l.size(); k++ )
                r.e[i].push_back( { l[k], w[k] } );
            compare( net, r, true, "set_neighbours_and_weights(list)" );
            break;
        }
        case 9:
        {
            auto i = agent();
            auto l = mc::pick( lists );
            vector<double> w( small ? l.size() + 1 : mc::pick( { l.size() + 1, l.size() + 7, l.size() - ( l.empty() ? 0 : 1 ), size_t( 0 ) } ), 3.0 );
            if( w.size() == l.size() )
                break;
            MC_CHECK( throws( [&] { net.set_neighbours_and_weights( i, l, w ); } ), "lists of lengths {} and {} were accepted", l.size(), w.size() );
            compare( net, r, true, "refused set_neighbours_and_weights" );
            break;
        }
        case 7:
        {
            auto i = agent();
            vector<double> w;
            for( size_t k = 0; k < r.e[i].size(); k++ )
                w.push_back( 7.5 - k );
            net.set_weights( i, w );
            for( size_t k = 0; k < w.size(); k++ )
                r.e[i][k].second = w[k];
            compare( net, r, true, "set_weights" );
            break;
        }
        case 10:
        {
            auto i   = agent();
            size_t s = r.e[i].size();
            size_t b = small ? s + 1 : mc::pick( { s + 1, s + 5, s - ( s ? 1 : 0 ), size_t( 0 ) } );
            if( b == s )
                break;
            vector<double> w( b, 3.0 );
            MC_CHECK( throws( [&] { net.set_weights( i, w ); } ), "{} weights for {} neighbours were accepted", b, s );
            compare( net, r, true, "refused set_weights" );
            break;
        }
        case 6:
        {
            auto i   = agent();
            auto j   = small ? size_t( mc::choose( 2 ) ? i : 0 ) : agent();
            double w = small ? 9.0 : mc::pick( W );
            net.push_back_neighbour_and_weight( i, j, w );
            r.e[i].push_back( { j, w } );
            compare( net, r, true, "push_back" );
            break;
        }
        case 8: // writing through the views
        {
            auto i = agent();
            if( r.e[i].empty() )
                break;
            size_t k                = mc::choose( int( std::min<size_t>( r.e[i].size(), small ? 1 : 3 ) ) );
            net.get_weights( i )[k] = 11.0;
            r.e[i][k].second        = 11.0;
            compare( net, r, true, "write to weight view" );
            net.get_neighbours( i )[k] = n - 1;
            r.e[i][k].first            = n - 1;
            compare( net, r, true, "write to neighbour view" );
            break;
        }
    }
}

static void start( N & net, Ref & r )
{
    for( size_t i = 0; i < r.e.size(); i++ )
    {
        net.agents[i].data.opinion = 100.0 + i;
        r.op.push_back( 100.0 + i );
    }
    compare( net, r, true, "constructed" );
}

int main( int argc, char ** argv )
{
    return mc::main( "C01", argc, argv, [] {
        int depth = mc::thorough() ? 4 : 3; // the last operation with the larger menus
        mc::bounds( fmt::format(
            "all sequences of {} operations (11 kinds, all parameters from a menu) on 0..3 agents from 6 starting networks; all "
            "single operations on every network of 3 agents with lists of up to 2 edges and every 2-agent network with up to 3; "
            "1-2 operations on structured networks of up to 300 agents.", depth ) );
        // sequences
        for( size_t n = 0; n <= 3; n++ )
            for( int s = 0; s < 6; s++ )
                for( int first = 0; first < ( n == 0 ? 1 : 11 ); first++ )
                    mc::scenario( fmt::format( "seq n={} start={} first={}", n, s, first ), [=] {
                        mc::explore( mc::Policy{}, [&] {
                            Ref r{ Edges( n ), Dir::Incoming, {} };
                            N net;
                            switch( s )
                            {
                                case 0: net = N( n ); break;
                                case 1:
                                case 2:
                                    for( size_t i = 0; i < n; i++ )
                                        for( size_t j = 0; j < n; j++ )
                                            r.e[i].push_back( { j, 1.0 + i + 10.0 * j } );
                                    r.dir = s == 1 ? Dir::Incoming : Dir::Outgoing;
                                    net   = make_network<N>( r.e, r.dir );
                                    break;
                                case 3: // star with parallel edges
                                    if( n )
                                        for( size_t j = 0; j < n; j++ )
                                        {
                                            r.e[0].push_back( { j, 2.0 } );
                                            r.e[0].push_back( { j, 3.0 + j } );
                                        }
                                    net = make_network<N>( r.e, r.dir );
                                    break;
                                case 4: // chain, unequal lists
                                    for( size_t i = 0; i + 1 < n; i++ )
                                        r.e[i].push_back( { i + 1, 0.5 + i } );
                                    r.dir = Dir::Outgoing;
                                    net   = make_network<N>( r.e, r.dir );
                                    break;
                                case 5: net = N( vector<SimpleAgent>( n ) ); break;
                            }
                            start( net, r );
                            for( int d = 0; d < depth; d++ )
                            {
                                op( net, r, ( d == depth - 1 && true ) ? false : true, d == 0 && n > 0 ? first : -1 );
                            }
                        } );
                    } );
        // single operations on all small networks
        for( int d = 0; d < 2; d++ )
            for( int a = 0; a < 13; a++ )
                mc::scenario( fmt::format( "step n=3 dir={} list0={}", d, a ), [=] {
                    mc::explore( mc::Policy{}, [&] {
                        Ref r{ Edges( 3 ), d ? Dir::Outgoing : Dir::Incoming, {} };
                        double w = 1;
                        for( int i = 0; i < 3; i++ )
                        {
                            int c = i == 0 ? a : mc::choose( 13 );
                            if( c >= 1 && c <= 3 )
                                r.e[i].push_back( { size_t( c - 1 ), w++ } );
                            else if( c > 3 )
                            {
                                r.e[i].push_back( { size_t( ( c - 4 ) / 3 ), w++ } );
                                r.e[i].push_back( { size_t( ( c - 4 ) % 3 ), w++ } );
                            }
                        }
                        N net = make_network<N>( r.e, r.dir );
                        start( net, r );
                        op( net, r, false );
                        if( mc::want_sample() )
                            mc::sample( str( r.e ) );
                    } );
                } );
        for( int a = 0; a < 15; a++ )
            mc::scenario( fmt::format( "step n=2 list0={}", a ), [=] {
                mc::explore( mc::Policy{}, [&] {
                    Ref r{ Edges( 2 ), mc::choose( 2 ) ? Dir::Outgoing : Dir::Incoming, {} };
                    double w = 1;
                    for( int i = 0; i < 2; i++ )
                    {
                        int c = i == 0 ? a : mc::choose( 15 );
                        // lists of length 0..3 over two targets: 1 + 2 + 4 + 8
                        int len = c == 0 ? 0 : c < 3 ? 1 : c < 7 ? 2 : 3;
                        int bits = c - ( ( 1 << len ) - 1 );
                        for( int k = 0; k < len; k++ )
                            r.e[i].push_back( { size_t( bits >> k & 1 ), w++ } );
                    }
                    N net = make_network<N>( r.e, r.dir );
                    start( net, r );
                    op( net, r, true );
                    op( net, r, !mc::thorough() );
                } );
            } );
        // larger structured networks
        for( size_t n : { 4, 7, 16, 17, 33, 64, 100, 257, 300, 5000 } )
            for( int s = n > 1000; s < ( n > 1000 ? 3 : 4 ); s++ )
                mc::scenario( fmt::format( "large n={} shape={}", n, s ), [=] {
                    mc::explore( mc::Policy{}, [&] {
                        Ref r{ Edges( n ), mc::choose( 2 ) ? Dir::Outgoing : Dir::Incoming, {} };
                        for( size_t i = 0; i < n; i++ )
                        {
                            if( s == 0 ) // ring with chords
                            {
                                r.e[i].push_back( { ( i + 1 ) % n, 1.0 + i } );
                                r.e[i].push_back( { ( i * 7 + 3 ) % n, 0.5 * i } );
                            }
                            else if( s == 1 && ( i == 0 || i == n - 1 ) ) // hubs
                                for( size_t j = 0; j < n; j++ )
                                    r.e[i].push_back( { j, i + 0.001 * j } );
                            else if( s == 2 ) // all point to the last
                                r.e[i].push_back( { n - 1, 1.0 * i } );
                            else if( s == 3 && n <= 33 ) // complete
                                for( size_t j = 0; j < n; j++ )
                                    r.e[i].push_back( { n - 1 - j, i + 0.001 * j } );
                        }
                        N net = make_network<N>( r.e, r.dir );
                        start( net, r );
                        for( int k = 0; k < 3; k++ )
                            switch( mc::choose( 5 ) )
                            {
                                case 0:
                                    net.toggle_incoming_outgoing();
                                    r.e   = transposed( r.e );
                                    r.dir = flip( r.dir );
                                    compare( net, r, false, "toggle" );
                                    break;
                                case 1:
                                    net.transpose();
                                    r.e = transposed( r.e );
                                    compare( net, r, false, "transpose" );
                                    break;
                                case 2:
                                    net.switch_direction_flag();
                                    r.dir = flip( r.dir );
                                    compare( net, r, true, "switch" );
                                    break;
                                case 3:
                                    net.clear();
                                    for( auto & l : r.e )
                                        l.clear();
                                    compare( net, r, true, "clear" );
                                    break;
                                case 4:
                                    net.push_back_neighbour_and_weight( n / 2, 0, -4.0 );
                                    r.e[n / 2].push_back( { 0, -4.0 } );
                                    compare( net, r, true, "push_back" );
                                    break;
                            }
                    } );
                } );
    } );
}
