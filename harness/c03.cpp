// MC: nolib O2
// C03: all small digraphs in all representations, against a transitive-closure reference.
#include "common.hpp"

using N   = Network<SimpleAgent>;
using Dir = N::EdgeDirection;

using Comp = vector<vector<size_t>>;

static void check( const vector<vector<size_t>> & adj, const vector<int> & cls, const char * what )
{
    size_t n = adj.size();
    vector<vector<size_t>> a = adj;
    vector<vector<double>> w( n );
    for( size_t i = 0; i < n; i++ )
        w[i].assign( a[i].size(), 1.0 );
    N net( std::move( a ), std::move( w ), Dir::Outgoing );
    auto scc = net.strongly_connected_components();
    mc::step();
    vector<int> comp( n, -1 );
    for( size_t c = 0; c < scc.size(); c++ )
    {
        MC_CHECK( !scc[c].empty(), "{}: empty component for {}", what, adj );
        for( auto v : scc[c] )
        {
            MC_CHECK( v < n, "{}: agent {} does not exist in {}", what, v, adj );
            MC_CHECK( comp[v] == -1, "{}: agent {} appears twice for {}", what, v, adj );
            comp[v] = int( c );
        }
    }
    for( size_t v = 0; v < n; v++ )
        MC_CHECK( comp[v] >= 0, "{}: agent {} is in no component for {}", what, v, adj );
    if( n <= 8 )
    {
        for( size_t u = 0; u < n; u++ )
            for( size_t v = 0; v < u; v++ )
                MC_CHECK( ( comp[u] == comp[v] ) == ( cls[u] == cls[v] ), "{}: agents {} and {} of {}: reported components {}", what, u, v, adj, scc );
    }
    else
    {
        // same partition: a bijection between the labels
        std::map<int, int> f, g;
        for( size_t v = 0; v < n; v++ )
        {
            auto a = f.emplace( comp[v], cls[v] ), b = g.emplace( cls[v], comp[v] );
            MC_CHECK( a.first->second == cls[v] && b.first->second == comp[v], "{}: agent {} is in the wrong component (of {})", what, v, n );
        }
    }
}

// mutual-reachability classes by transitive closure over bit masks
static vector<int> classes( const vector<vector<size_t>> & adj )
{
    size_t n = adj.size();
    vector<vector<bool>> r( n, vector<bool>( n ) );
    for( size_t i = 0; i < n; i++ )
    {
        r[i][i] = true;
        for( auto j : adj[i] )
            r[i][j] = true;
    }
    if( n <= 8 )
    {
        for( size_t k = 0; k < n; k++ )
            for( size_t i = 0; i < n; i++ )
                if( r[i][k] )
                    for( size_t j = 0; j < n; j++ )
                        if( r[k][j] )
                            r[i][j] = true;
    }
    else
        for( size_t i = 0; i < n; i++ )
        {
            vector<size_t> todo{ i };
            vector<bool> seen( n );
            seen[i] = true;
            while( !todo.empty() )
            {
                auto v = todo.back();
                todo.pop_back();
                for( auto u : adj[v] )
                    if( !seen[u] )
                    {
                        seen[u] = true;
                        todo.push_back( u );
                    }
            }
            r[i] = seen;
        }
    vector<int> c( n, -1 );
    for( size_t i = 0; i < n; i++ )
        for( size_t j = 0; j <= i; j++ )
            if( r[i][j] && r[j][i] )
            {
                c[i] = int( j );
                break;
            }
    return c;
}

static vector<vector<size_t>> transpose( const vector<vector<size_t>> & a )
{
    vector<vector<size_t>> t( a.size() );
    for( size_t i = 0; i < a.size(); i++ )
        for( auto j : a[i] )
            t[j].push_back( i );
    return t;
}

static vector<vector<size_t>> from_bits( int n, unsigned bits, bool loops )
{
    vector<vector<size_t>> a( n );
    int b = 0;
    for( int i = 0; i < n; i++ )
        for( int j = 0; j < n; j++ )
        {
            if( i == j && !loops )
                continue;
            if( bits >> b++ & 1 )
                a[i].push_back( j );
        }
    return a;
}

static void all_representations( const vector<vector<size_t>> & a, bool full )
{
    auto c = classes( a );
    check( a, c, "digraph" );
    check( transpose( a ), c, "reversed digraph" );
    auto r = a;
    for( auto & l : r )
        std::reverse( l.begin(), l.end() );
    check( r, c, "reversed lists" );
    if( full )
    {
        auto d = a;
        for( size_t i = 0; i < d.size(); i++ )
        {
            auto l = d[i];
            d[i].insert( d[i].end(), l.rbegin(), l.rend() );
            d[i].insert( d[i].begin(), i );
            d[i].push_back( i );
        }
        check( d, c, "with parallel edges and self loops" );
    }
    mc::Hash h;
    h( a );
    mc::state( h.h );
}

int main( int argc, char ** argv )
{
    return mc::main( "C03", argc, argv, [] {
        mc::bounds( fmt::format(
            "all digraphs of 0..4 agents with self loops (every order of every neighbour list up to 3 agents), all digraphs of 5 agents without, each also reversed, "
            "with reversed lists{}; structured digraphs (cycles, chains, trees, nested cycles, cliques) of up to 3000 agents.",
            mc::thorough() ? ", with parallel edges and loops; the digraphs of 6 agents with out-degree at most 2 (three agents) and 1 (the others)" : "" ) );
        for( int n = 0; n <= 3; n++ )
            mc::scenario( fmt::format( "all n={}", n ), [=] {
                mc::explore( {}, [&] {
                    all_representations( from_bits( n, mc::choose( 1 << ( n * n ) ), true ), true );
                } );
                mc::explore( {}, [&] {
                    // every order of every list
                    auto a = from_bits( n, mc::choose( 1 << ( n * n ) ), true );
                    for( auto & l : a )
                    {
                        vector<size_t> p;
                        while( !l.empty() )
                        {
                            int k = mc::choose( int( l.size() ) );
                            p.push_back( l[k] );
                            l.erase( l.begin() + k );
                        }
                        l = p;
                    }
                    check( a, classes( a ), "permuted lists" );
                } );
            } );
        for( int hi = 0; hi < 16; hi++ )
            mc::scenario( fmt::format( "all n=4 part {}", hi ), [=] {
                mc::explore( {}, [&] { all_representations( from_bits( 4, unsigned( hi ) << 12 | unsigned( mc::choose( 1 << 12 ) ), true ), true ); } );
            } );
        for( int hi = 0; hi < 64; hi++ )
            mc::scenario( fmt::format( "all n=5 part {}", hi ), [=] {
                mc::explore( {}, [&] {
                    auto a = from_bits( 5, unsigned( hi ) << 14 | unsigned( mc::choose( 1 << 14 ) ), false );
                    all_representations( a, mc::thorough() );
                    if( mc::want_sample() && hi == 37 )
                        mc::sample( fmt::format( "{} -> classes {}", a, classes( a ) ) );
                } );
            } );
        if( mc::thorough() )
            for( int a0 = 0; a0 < 22; a0++ )
                mc::scenario( fmt::format( "n=6 out-degree <= 2, first {}", a0 ), [=] {
                    // 22 lists: none, one of 6, two of 6 (15)
                    vector<vector<size_t>> lists( 1 );
                    for( size_t i = 0; i < 6; i++ )
                        lists.push_back( { i } );
                    for( size_t i = 0; i < 6; i++ )
                        for( size_t j = 0; j < i; j++ )
                            lists.push_back( { i, j } );
                    mc::explore( {}, [&] {
                        vector<vector<size_t>> a( 6 );
                        a[0] = lists[a0];
                        for( int i = 1; i < 6; i++ )
                            a[i] = lists[mc::choose( i < 3 ? 22 : 7 )];
                        check( a, classes( a ), "out-degree 2" );
                        mc::Hash h;
                        h( a );
                        mc::state( h.h );
                    } );
                } );
        for( size_t n : { 6, 7, 8, 12, 20, 50, 150 } )
            mc::scenario( fmt::format( "structured n={}", n ), [=] {
                mc::explore( {}, [&] {
                    vector<vector<size_t>> a( n );
                    size_t p = mc::pick( { 1, 2, 3, 5 } );
                    switch( mc::choose( 8 ) )
                    {
                        case 0: // cycle with stride
                            for( size_t i = 0; i < n; i++ )
                                a[i] = { ( i + p ) % n };
                            break;
                        case 1: // chain, one back edge at a time
                        {
                            size_t from = mc::choose( int( std::min<size_t>( n, 20 ) ) ) * ( n / std::min<size_t>( n, 20 ) ), to = n - 1 - mc::choose( int( std::min<size_t>( n, 20 ) ) ) * ( n / std::min<size_t>( n, 20 ) );
                            for( size_t i = 0; i + 1 < n; i++ )
                                a[i] = { i + 1 };
                            a[from].insert( a[from].begin() + ( p % 2 ? 0 : a[from].size() ), to );
                            break;
                        }
                        case 2: // blocks, linked one way
                            for( size_t i = 0; i < n; i++ )
                            {
                                size_t b = i / ( p + 1 ), lo = b * ( p + 1 ), hi = std::min( n, lo + p + 1 );
                                a[i].push_back( i + 1 < hi ? i + 1 : lo );
                                if( hi < n )
                                    a[i].push_back( hi );
                            }
                            break;
                        case 3: // blocks, linked backwards
                            for( size_t i = 0; i < n; i++ )
                            {
                                size_t b = i / ( p + 1 ), lo = b * ( p + 1 ), hi = std::min( n, lo + p + 1 );
                                if( lo > 0 )
                                    a[i].push_back( lo - 1 );
                                a[i].push_back( i + 1 < hi ? i + 1 : lo );
                            }
                            break;
                        case 4: // binary tree, with edges up from every p-th node
                            for( size_t i = 0; i < n; i++ )
                            {
                                if( 2 * i + 1 < n )
                                    a[i].push_back( 2 * i + 1 );
                                if( 2 * i + 2 < n )
                                    a[i].push_back( 2 * i + 2 );
                                if( i && i % ( p + 1 ) == 0 )
                                    a[i].push_back( ( i - 1 ) / 2 );
                            }
                            break;
                        case 5: // complete up to one sink and one source
                            for( size_t i = 0; i < n; i++ )
                                for( size_t j = 0; j < n; j++ )
                                    if( i != p % n && j != 0 )
                                        a[i].push_back( j );
                            break;
                        case 6: // arithmetic digraph
                            for( size_t i = 0; i < n; i++ )
                                for( size_t k = 1; k <= p; k++ )
                                    if( ( i * k ) % 3 )
                                        a[i].push_back( ( i * k * 5 + p ) % n );
                            break;
                        case 7: // two cycles joined by one edge in a chosen direction
                        {
                            size_t h = n / 2;
                            for( size_t i = 0; i < h; i++ )
                                a[i] = { ( i + 1 ) % h };
                            for( size_t i = h; i < n; i++ )
                                a[i] = { i + 1 < n ? i + 1 : h };
                            size_t x = mc::choose( int( std::min<size_t>( h, 12 ) ) ), y = n - 1 - mc::choose( int( std::min<size_t>( n - h, 12 ) ) );
                            if( mc::choose( 2 ) )
                                std::swap( x, y );
                            a[x].push_back( y );
                            break;
                        }
                    }
                    if( n <= 50 || mc::thorough() )
                        all_representations( a, n <= 20 );
                    else
                        check( a, classes( a ), "structured" );
                } );
            } );
        mc::scenario( "deep", [] {
            mc::explore( {}, [&] {
                size_t n = mc::pick( { 1000, 3000, 200000 } );
                vector<vector<size_t>> a( n );
                vector<int> c( n );
                int s = mc::choose( 3 );
                for( size_t i = 0; i < n; i++ )
                {
                    c[i] = s == 0 ? int( i ) : s == 1 ? 0 : int( i / 10 );
                    if( s == 0 && i + 1 < n )
                        a[i] = { i + 1 };
                    if( s == 1 )
                        a[i] = { ( i + 1 ) % n };
                    if( s == 2 )
                    {
                        a[i] = { i % 10 == 9 ? i - 9 : i + 1 };
                        if( i + 10 < n )
                            a[i].push_back( i + 10 );
                    }
                }
                check( a, c, "deep" );
                mc::Hash h;
                h( a );
                mc::state( h.h );
            } );
        } );
    } );
}
