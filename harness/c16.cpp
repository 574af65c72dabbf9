// MC: nolib
// C16: network files written, perturbed in their formatting and read back.
#include "common.hpp"
#include "network_generation.hpp"
#include "network_io.hpp"

using A   = SimpleAgent;
using N   = Network<A>;
using Dir = N::EdgeDirection;

static std::string file()
{
    return mc::scratch() + "/net.txt";
}
static void same( const Edges & want, const N & net, const std::string & what )
{
    MC_CHECK( net.n_agents() == want.size(), "{}: {} agents instead of {}", what, net.n_agents(), want.size() );
    MC_CHECK( net.agents.size() == want.size(), "{}: {} agents instead of {}", what, net.agents.size(), want.size() );
    MC_CHECK( net.direction() == Dir::Incoming, "{}: the network read back does not store incoming edges", what );
    auto got = edges_of( net );
    for( size_t i = 0; i < want.size(); i++ )
    {
        MC_CHECK( got[i].size() == want[i].size(), "{}: agent {} has {} neighbours instead of {}", what, i, got[i].size(), want[i].size() );
        for( size_t k = 0; k < want[i].size(); k++ )
            MC_CHECK( got[i][k].first == want[i][k].first && same_bits( got[i][k].second, want[i][k].second ), "{}: agent {} entry {}: neighbour {} weight {:a} instead of {} {:a}", what, i, k,
                got[i][k].first, got[i][k].second, want[i][k].first, want[i][k].second );
    }
    mc::Hash h;
    hash( h, want );
    mc::state( h.h );
}
// every row starts with the index of its agent
static void check_indices( size_t n )
{
    std::ifstream f( file() );
    std::string l;
    size_t i = 0;
    while( std::getline( f, l ) )
    {
        if( l.empty() || l[0] == '#' )
            continue;
        char * end;
        auto k = std::strtoull( l.c_str(), &end, 10 );
        MC_CHECK( end != l.c_str() && k == i && ( *end == ',' || *end == ' ' ), "row {} of {} is '{}'", i, n, l );
        i++;
    }
    MC_CHECK( i == n, "{} rows for {} agents", i, n );
}
static void round_trip( const Edges & e )
{
    auto net = make_network<N>( e, Dir::Incoming );
    network_to_file( net, file() );
    check_indices( e.size() );
    auto back = NetworkGeneration::generate_from_file<A>( file() );
    same( e, back, e.size() < 6 ? "written " + str( e ) : fmt::format( "{} agents", e.size() ) );
    network_to_file( back, file() );
    same( e, NetworkGeneration::generate_from_file<A>( file() ), "second round" );
    mc::step( 4 );
    if( e.size() < 6 && mc::want_sample() )
        mc::sample( str( e ) );
}
static vector<double> values()
{
    vector<double> v;
    for( mc::u64 ex = 0; ex < 2047; ex++ )
        for( mc::u64 m : { 0ull, 1ull, 2ull, 0xfffffffffffffull, 0xffffffffffffeull, 0x8000000000000ull, 0x5555555555555ull, 0x999999999999aull, 0x3f7ced916872bull } )
            for( mc::u64 s = 0; s < 2; s++ )
            {
                mc::u64 b = s << 63 | ex << 52 | m;
                double d;
                memcpy( &d, &b, 8 );
                v.push_back( d );
            }
    for( int k = -320; k <= 308; k++ )
        for( int u = -1; u <= 1; u++ )
        {
            double d = std::strtod( fmt::format( "1e{}", k ).c_str(), nullptr );
            v.push_back( u == 0 ? d : std::nextafter( d, u * 1e308 ) );
        }
    for( double d : { 0.1, 0.2, 0.3, 1.0 / 3, 2.0 / 3, 1e5, 123456.0, 1234567.0, 99999.0, 1e15, 1e16, 1e17, 9007199254740993.0, 0.1 + 0.2, 5e-324, 1.7976931348623157e308 } )
        v.push_back( d );
    return v;
}

int main( int argc, char ** argv )
{
    return mc::main( "C16", argc, argv, [] {
        mc::bounds( "All networks of up to 3 agents with lists of up to 3 edges (2 agents) or 2 edges (3 agents); every binary exponent x 9 mantissas x sign and all powers of ten with neighbours as weights, in "
                    "several row lengths; n = 0..70 with 6 degree patterns; 100 200 agents with 6-digit indices; 5 x 3 x 4 x 3 x 2 x 4 formattings of 6 networks." );
        const vector<double> W = { 1.0, -0.1, 0.0, 1e-310 };
        for( int la = 0; la <= 3; la++ )
            for( int lb = 0; lb <= 3; lb++ )
                mc::scenario( fmt::format( "n=2 lists {} {}", la, lb ), [=] {
                    mc::explore( {}, [&] {
                        Edges e( 2 );
                        for( int k = 0; k < la; k++ )
                            e[0].push_back( { size_t( mc::choose( 2 ) ), W[mc::choose( k ? 2 : 4 )] } );
                        for( int k = 0; k < lb; k++ )
                            e[1].push_back( { size_t( mc::choose( 2 ) ), W[( k + mc::choose( 2 ) ) % 4] } );
                        round_trip( e );
                    } );
                } );
        mc::scenario( "n=0,1", [=] {
            mc::explore( {}, [&] {
                Edges e( mc::choose( 2 ) );
                if( !e.empty() )
                    for( int k = mc::choose( 4 ); k > 0; k-- )
                        e[0].push_back( { 0, mc::pick( W ) } );
                round_trip( e );
            } );
        } );
        for( int l = 0; l < 27; l++ )
            mc::scenario( fmt::format( "n=3 degrees {}", l ), [=] {
                mc::explore( {}, [&] {
                    Edges e( 3 );
                    int d[3] = { l % 3, l / 3 % 3, l / 9 };
                    for( int i = 0; i < 3; i++ )
                        for( int k = 0; k < d[i]; k++ )
                            e[i].push_back( { size_t( mc::choose( 3 ) ), W[( i + k ) % 4] } );
                    round_trip( e );
                } );
            } );
        for( size_t deg : { 1, 2, 3, 7, 64, 1000 } )
            mc::scenario( fmt::format( "weights rows of {}", deg ), [=] {
                auto v = values();
                mc::explore( {}, [&] {
                    // a file at a time, so that a failing value is easy to find
                    size_t part = mc::choose( 16 ), lo = v.size() * part / 16, hi = v.size() * ( part + 1 ) / 16;
                    size_t n = ( hi - lo + deg - 1 ) / deg;
                    Edges e( n );
                    for( size_t k = lo; k < hi; k++ )
                        e[( k - lo ) / deg].push_back( { ( k * 7 ) % n, v[k] } );
                    round_trip( e );
                } );
            } );
        mc::scenario( "sizes", [] {
            mc::explore( {}, [&] {
                size_t n = mc::choose( 71 ), pat = mc::choose( 6 );
                Edges e( n );
                for( size_t i = 0; i < n; i++ )
                {
                    size_t deg = pat == 0 ? 0 : pat == 1 ? 1 : pat == 2 ? i % 4 : pat == 3 ? ( i + 1 == n ? 0 : 3 ) : pat == 4 ? ( i + 1 == n ? 12 : 0 ) : n;
                    for( size_t k = 0; k < deg; k++ )
                        e[i].push_back( { ( i * 3 + k ) % n, 0.1 * k - i } );
                }
                round_trip( e );
            } );
        } );
        mc::scenario( "six digits", [] {
            mc::once( [] {
                size_t n = 100200;
                Edges e( n );
                for( size_t i = 0; i < n; i += 97 )
                    for( size_t k = 0; k < i % 5; k++ )
                        e[i].push_back( { n - 1 - ( i * k ) % n, 1.0 / ( 3 + i + k ) } );
                e[n - 1].push_back( { 99999, 1.0 / 7 } );
                e[n - 1].push_back( { 100000, -1.0 / 7e7 } );
                round_trip( e );
            } );
        } );
        // formatting of hand-made files
        for( int which = 0; which < 6; which++ )
            mc::scenario( fmt::format( "formatting {}", which ), [=] {
                Edges e( which == 0 ? 1 : which < 4 ? 3 : 12 );
                for( size_t i = 0; i < e.size(); i++ )
                    for( size_t k = 0; k < ( which == 1 ? 0 : which == 2 ? 2 : which == 3 ? 2 - i : i % 3 ); k++ )
                        e[i].push_back( { ( i + k ) % e.size(), k == 0 ? 0.1 * ( i + 1 ) : -2.5e-7 } );
                mc::explore( {}, [&] {
                    int before = mc::choose( 5 ), after = mc::choose( 3 ), comments = mc::choose( 4 ), numbers = mc::choose( 3 ), newline = mc::choose( 2 ), head = mc::choose( 4 );
                    auto pad   = [&]( int k ) { return std::string( k == 4 ? 25 : k, ' ' ); };
                    std::string s;
                    auto comment = [&]( size_t i ) {
                        if( comments == 1 || ( comments == 2 && i % 2 ) )
                            s += "# comment, 1, 2, 3\n";
                        else if( comments == 3 )
                            s += "#\n##, \n";
                    };
                    s += head == 0 ? "" : head == 1 ? "# idx_agent, n_neighbours_in, indices_neighbours_in[...], weights_in[...]\n" : head == 2 ? "#\n" : "#1,2,3,4\n#5\n";
                    for( size_t i = 0; i < e.size(); i++ )
                    {
                        comment( i );
                        s += pad( before ) + fmt::format( "{}", i ) + pad( after ) + "," + pad( before ) + fmt::format( "{}", e[i].size() ) + pad( after );
                        for( auto & [j, w] : e[i] )
                            s += "," + pad( before ) + fmt::format( "{}", j ) + pad( after );
                        for( auto & [j, w] : e[i] )
                            s += "," + pad( before ) + ( numbers == 0 ? fmt::format( "{}", w ) : numbers == 1 ? fmt::format( "{:.17e}", w ) : fmt::format( "{:+.25f}", w ) ) + pad( after );
                        if( i + 1 < e.size() || newline )
                            s += "\n";
                    }
                    if( newline )
                        comment( 1 );
                    std::ofstream( file() ) << s;
                    auto net  = NetworkGeneration::generate_from_file<A>( file() );
                    Edges ref = e;
                    if( numbers == 2 )
                        for( auto & l : ref )
                            for( auto & [j, w] : l )
                                w = std::strtod( fmt::format( "{:.25f}", w ).c_str(), nullptr );
                    same( ref, net, "file " + s.substr( 0, 300 ) );
                    mc::step();
                    mc::Hash h;
                    h( s );
                    mc::outcome( h.h );
                } );
            } );
        mc::scenario( "missing file", [] {
            mc::once( [] { MC_CHECK( throws( [] { NetworkGeneration::generate_from_file<A>( mc::scratch() + "/none.txt" ); } ), "no error for a missing network file" ); } );
        } );
    } );
}
