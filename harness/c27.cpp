// MC: nolib
// C27: DOT export of all small networks and structured larger ones.
#include "common.hpp"
#include "network_generation.hpp"
#include "network_io.hpp"
#include <sstream>

static std::string slurp( const std::string & p )
{
    std::ifstream f( p, std::ios::binary );
    return { std::istreambuf_iterator<char>( f ), {} };
}
static std::string trim( const std::string & s )
{
    auto a = s.find_first_not_of( " \t\r;" ), b = s.find_last_not_of( " \t\r;" );
    return a == std::string::npos ? "" : s.substr( a, b - a + 1 );
}
// "i <- {j, k}" -> numbers; false if the line has another form
static bool parse( const std::string & l, size_t & agent, vector<size_t> & nb )
{
    nb.clear();
    size_t p    = 0;
    auto blanks = [&] {
        while( p < l.size() && ( l[p] == ' ' || l[p] == '\t' ) )
            p++;
    };
    auto number = [&]( size_t & x ) {
        blanks();
        size_t q = p;
        x        = 0;
        while( p < l.size() && isdigit( (unsigned char)l[p] ) )
            x = 10 * x + ( l[p++] - '0' );
        return p > q;
    };
    auto lit = [&]( const std::string & s ) {
        blanks();
        if( l.compare( p, s.size(), s ) )
            return false;
        p += s.size();
        return true;
    };
    if( !number( agent ) || !lit( "<-" ) || !lit( "{" ) )
        return false;
    blanks();
    if( p < l.size() && l[p] == '}' )
        p++;
    else
        while( true )
        {
            size_t x;
            if( !number( x ) )
                return false;
            nb.push_back( x );
            if( lit( "," ) )
                continue;
            if( lit( "}" ) )
                break;
            return false;
        }
    blanks();
    if( p < l.size() && l[p] == ';' )
        p++;
    blanks();
    return p == l.size();
}

template<typename A>
static void check( const Edges & e, typename Network<A>::EdgeDirection dir, bool over_old )
{
    auto f = mc::scratch() + "/net.dot";
    if( over_old )
        std::ofstream( f ) << std::string( 5000, 'x' ) << "\n";
    else
        std::filesystem::remove( f );
    auto net = make_network<Network<A>>( e, dir );
    network_to_dot_file( net, f );
    mc::step();
    auto text = slurp( f );
    MC_CHECK( edges_of( net ) == e, "the export changed the network {} to {}", str( e ), str( edges_of( net ) ) );
    vector<std::string> lines;
    std::istringstream in( text );
    for( std::string l; std::getline( in, l ); )
        if( !trim( l ).empty() )
            lines.push_back( l );
    auto what = [&] { return fmt::format( "network {} is exported as\n{}", str( e ).substr( 0, 500 ), text.substr( 0, 800 ) ); };
    MC_CHECK( lines.size() == e.size() + 2, "{}\n: {} lines for {} agents", what(), lines.size(), e.size() );
    auto head = trim( lines[0] );
    MC_CHECK( head.rfind( "digraph", 0 ) == 0 && head.back() == '{', "{}\n: no digraph block", what() );
    MC_CHECK( trim( lines.back() ) == "}", "{}\n: the block is not closed", what() );
    for( size_t i = 0; i < e.size(); i++ )
    {
        size_t agent;
        vector<size_t> nb, want;
        for( auto & [j, w] : e[i] )
            want.push_back( j );
        MC_CHECK( parse( lines[i + 1], agent, nb ), "{}\n: line '{}'", what(), lines[i + 1] );
        MC_CHECK( agent == i, "{}\n: line {} names agent {}", what(), i, agent );
        MC_CHECK( nb == want, "{}\n: neighbours of {} are {} instead of {}", what(), i, nb, want );
    }
    mc::Hash h;
    hash( h, e );
    mc::state( h.h );
    if( mc::want_sample() && e.size() > 2 )
        mc::sample( what() );
}

int main( int argc, char ** argv )
{
    return mc::main( "C27", argc, argv, [] {
        const int N = mc::thorough() ? 4 : 3;
        mc::bounds( fmt::format( "All networks of 0 to {} agents with neighbour lists of up to {} entries in any order (repeated and self edges included), both directions, new and existing files; agents with 0 to 40 neighbours and up to {} agents; one network of 100 003.", N,
            mc::thorough() ? "3 (4 agents: 2)" : "2 (2 agents: 4)", 2000 ) );
        for( int n = 0; n <= N; n++ )
        {
            int len = n <= 1 ? 4 : n == 2 ? 4 : n == 3 ? ( mc::thorough() ? 3 : 2 ) : 2;
            int first = n == 0 ? 1 : len + 1;
            for( int l0 = 0; l0 < first; l0++ )
                mc::scenario( fmt::format( "{} agents, first list of {}", n, l0 ), [=] {
                    mc::explore( {}, [&] {
                        Edges e( n );
                        for( int i = 0; i < n; i++ )
                        {
                            int l = i == 0 ? l0 : mc::choose( len + 1 );
                            for( int k = 0; k < l; k++ )
                                e[i].push_back( { size_t( mc::choose( n ) ), 0.5 + k } );
                        }
                        bool out = n <= 2 && mc::choose( 2 );
                        using D  = Network<SimpleAgent>::EdgeDirection;
                        check<SimpleAgent>( e, out ? D::Outgoing : D::Incoming, l0 % 2 );
                    } );
                } );
        }
        mc::scenario( "larger", [] {
            mc::explore( {}, [&] {
                int n    = mc::pick( { 1, 2, 5, 11, 101, 1001, 2000 } );
                int form = mc::choose( 5 );
                int k    = mc::pick( { 0, 1, 2, 3, 10, 40 } );
                Edges e( n );
                for( int i = 0; i < n; i++ )
                {
                    int l = form == 0 ? k : form == 1 ? ( i == 0 ? k : 0 ) : form == 2 ? ( i == n - 1 ? k : 1 ) : form == 3 ? ( i % 3 ) * k : ( i + k ) % 5;
                    for( int j = 0; j < l; j++ )
                        e[i].push_back( { size_t( n - 1 - ( i * 7 + j * 3 ) % n ), 1e-3 * j } );
                }
                check<ActivityAgent>( e, Network<ActivityAgent>::EdgeDirection::Incoming, form % 2 );
            } );
        } );
        mc::scenario( "six digits", [] {
            mc::once( [] {
                size_t n = 100003;
                Edges e( n );
                for( size_t i = 0; i < n; i++ )
                    for( size_t j = 0; j < ( i < 10 || i > n - 10 ? 5 : i % 7 == 0 ); j++ )
                        e[i].push_back( { n - 1 - ( i * 7 + j * 9973 ) % n, 1.0 } );
                check<SimpleAgent>( e, Network<SimpleAgent>::EdgeDirection::Incoming, false );
            } );
        } );
        mc::scenario( "generated", [] {
            mc::explore( {}, [&] {
                int k = mc::choose( 4 );
                mc::Quiet q;
                std::mt19937 gen( 5 );
                auto net = k == 0 ? NetworkGeneration::generate_square_lattice<SimpleAgent>( 4 ) : k == 1 ? NetworkGeneration::generate_fully_connected<SimpleAgent>( 5 ) : NetworkGeneration::generate_n_connections<SimpleAgent>( 6, k, k == 3, gen );
                check<SimpleAgent>( edges_of( net ), net.direction(), true );
            } );
        } );
    } );
}
