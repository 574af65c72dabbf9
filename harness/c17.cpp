// MC: nolib
// C17: agent files of every agent type written, perturbed in their formatting and read back.
#include "common.hpp"
#include "agent_io.hpp"

static std::string file()
{
    return mc::scratch() + "/agents.txt";
}

// The stored attributes in file order.
template<typename A>
static vector<double> attributes( const A & a )
{
    if constexpr( std::is_same_v<A, SimpleAgent> )
        return { a.data.opinion };
    else if constexpr( std::is_same_v<A, ActivityAgent> )
        return { a.data.opinion, a.data.activity, a.data.reluctance };
    else if constexpr( std::is_same_v<A, InertialAgent> )
        return { a.data.opinion, a.data.velocity, a.data.activity, a.data.reluctance };
    else
        return vector<double>( a.data.opinion.begin(), a.data.opinion.end() );
}
template<typename A>
static A agent( const vector<double> & v )
{
    A a;
    if constexpr( std::is_same_v<A, SimpleAgent> )
        a.data.opinion = v.at( 0 );
    else if constexpr( std::is_same_v<A, ActivityAgent> )
    {
        a.data.opinion    = v.at( 0 );
        a.data.activity   = v.at( 1 );
        a.data.reluctance = v.at( 2 );
    }
    else if constexpr( std::is_same_v<A, InertialAgent> )
    {
        a.data.opinion    = v.at( 0 );
        a.data.velocity   = v.at( 1 );
        a.data.activity   = v.at( 2 );
        a.data.reluctance = v.at( 3 );
    }
    else
        for( double d : v )
            a.data.opinion.push_back( int( d ) );
    return a;
}
template<typename A>
static void same( const vector<vector<double>> & want, const vector<A> & got, const std::string & what )
{
    MC_CHECK( got.size() == want.size(), "{}: {} agents instead of {}", what, got.size(), want.size() );
    for( size_t i = 0; i < want.size(); i++ )
    {
        auto a = attributes( got[i] );
        MC_CHECK( a.size() == want[i].size(), "{}: agent {} has {} attributes instead of {}", what, i, a.size(), want[i].size() );
        for( size_t k = 0; k < a.size(); k++ )
            MC_CHECK( same_bits( a[k], want[i][k] ), "{}: agent {} attribute {} is {:a} instead of {:a}", what, i, k, a[k], want[i][k] );
    }
    mc::Hash h;
    h( want.size() );
    for( auto & l : want )
        h( l );
    mc::state( h.h );
}
// every row starts with the index of its agent
static void check_indices( size_t n )
{
    std::ifstream f( file() );
    std::string l;
    size_t i = 0;
    while( std::getline( f, l ) )
    {
        if( l.empty() || l[0] == '#' )
            continue;
        char * end;
        auto k = std::strtoull( l.c_str(), &end, 10 );
        MC_CHECK( end != l.c_str() && k == i && ( *end == ',' || *end == ' ' ), "row {} of {} is '{}'", i, n, l );
        i++;
    }
    MC_CHECK( i == n, "{} rows for {} agents", i, n );
}
template<typename A>
static void round_trip( const vector<vector<double>> & v )
{
    Network<A> net( v.size() );
    for( size_t i = 0; i < v.size(); i++ )
        net.agents[i] = agent<A>( v[i] );
    agents_to_file( net, file() );
    check_indices( v.size() );
    auto back = agents_from_file<A>( file() );
    same( v, back, v.size() < 4 ? fmt::format( "written {}", v ) : fmt::format( "{} agents", v.size() ) );
    net.agents = back;
    agents_to_file( net, file() );
    same( v, agents_from_file<A>( file() ), "second round" );
    mc::step( 4 );
    if( v.size() < 4 && mc::want_sample() )
        mc::sample( fmt::format( "{}", v ) );
}
static vector<double> values()
{
    vector<double> v;
    for( mc::u64 ex = 0; ex < 2047; ex++ )
        for( mc::u64 m : { 0ull, 1ull, 2ull, 0xfffffffffffffull, 0xffffffffffffeull, 0x8000000000000ull, 0x5555555555555ull, 0x999999999999aull, 0x3f7ced916872bull } )
            for( mc::u64 s = 0; s < 2; s++ )
            {
                mc::u64 b = s << 63 | ex << 52 | m;
                double d;
                memcpy( &d, &b, 8 );
                v.push_back( d );
            }
    for( int k = -320; k <= 308; k++ )
        for( int u = -1; u <= 1; u++ )
        {
            double d = std::strtod( fmt::format( "1e{}", k ).c_str(), nullptr );
            v.push_back( u == 0 ? d : std::nextafter( d, u * 1e308 ) );
        }
    return v;
}

template<typename A>
static void scenarios_for( const std::string & nm, size_t width )
{
    const vector<double> V = { 0.0, -0.0, 1.0, -1.0, 0.1, -1.0 / 3, 1e-300, -1e300, 5e-324, 123456789.125, 1e-5, 1e22 };
    for( size_t n = 0; n <= ( width == 1 ? 3 : 1 ); n++ )
        mc::scenario( fmt::format( "{} values n={}", nm, n ), [=] {
            mc::explore( {}, [&] {
                vector<vector<double>> v( n );
                for( auto & a : v )
                    for( size_t k = 0; k < width; k++ )
                        a.push_back( mc::pick( V ) );
                round_trip<A>( v );
            } );
        } );
    mc::scenario( nm + " all exponents", [=] {
        auto v = values();
        mc::explore( {}, [&] {
            size_t part = mc::choose( 16 ), col = mc::choose( int( width ) ), lo = v.size() * part / 16, hi = v.size() * ( part + 1 ) / 16;
            vector<vector<double>> a;
            for( size_t k = lo; k < hi; k++ )
            {
                a.push_back( vector<double>( width, 0.5 ) );
                a.back()[col] = v[k];
                a.back()[( col + 1 ) % width] = v[width > 1 ? ( k * 31 ) % v.size() : k];
            }
            round_trip<A>( a );
        } );
    } );
    mc::scenario( nm + " sizes", [=] {
        mc::explore( {}, [&] {
            size_t n = mc::choose( 75 ) * ( mc::choose( 2 ) ? 1 : 37 );
            vector<vector<double>> a( n );
            for( size_t i = 0; i < n; i++ )
                for( size_t k = 0; k < width; k++ )
                    a[i].push_back( i * 0.1 - k );
            round_trip<A>( a );
        } );
    } );
    mc::scenario( nm + " six digits", [=] {
        mc::once( [=] {
            vector<vector<double>> a( 100200 );
            for( size_t i = 0; i < a.size(); i++ )
                for( size_t k = 0; k < width; k++ )
                    a[i].push_back( i / 3.0 + k );
            round_trip<A>( a );
        } );
    } );
    mc::scenario( nm + " formatting", [=] {
        mc::explore( {}, [&] {
            int before = mc::choose( 4 ), after = mc::choose( 3 ), comments = mc::choose( 4 ), newline = mc::choose( 2 ), head = mc::choose( 3 ), numbers = mc::choose( 2 );
            size_t n = mc::pick( { 1, 2, 5 } );
            // activity agents may lack the reluctance
            size_t cols = std::is_same_v<A, ActivityAgent> && mc::choose( 2 ) ? 2 : width;
            auto pad    = [&]( int k ) { return std::string( k == 3 ? 25 : k, ' ' ); };
            std::string s;
            auto comment = [&]( size_t i ) {
                if( comments == 1 || ( comments == 2 && i % 2 ) )
                    s += "# comment, 1, 2, 3\n";
                else if( comments == 3 )
                    s += "#\n##, \n";
            };
            s += head == 0 ? "" : head == 1 ? "# idx_agent, opinion, activity\n" : "#0, 1, 2\n#5\n";
            vector<vector<double>> want( n );
            for( size_t i = 0; i < n; i++ )
            {
                comment( i );
                s += pad( before ) + fmt::format( "{}", i ) + pad( after );
                for( size_t k = 0; k < cols; k++ )
                {
                    double d = ( k + 1 ) * 0.3 - 1.7 * i;
                    want[i].push_back( d );
                    s += "," + pad( before ) + ( numbers ? fmt::format( "{:.17e}", d ) : fmt::format( "{}", d ) ) + pad( after );
                }
                if( cols < width )
                    want[i].push_back( 1.0 );
                if( i + 1 < n || newline )
                    s += "\n";
            }
            if( newline )
                comment( 1 );
            std::ofstream( file() ) << s;
            same( want, agents_from_file<A>( file() ), "file " + s.substr( 0, 300 ) );
            mc::step();
            mc::Hash h;
            h( s );
            mc::outcome( h.h );
        } );
    } );
}

int main( int argc, char ** argv )
{
    return mc::main( "C17", argc, argv, [] {
        mc::bounds( "Every agent type: all combinations of 12 values for every attribute of one agent (three agents for the scalar type); every binary exponent x 9 mantissas x sign and powers of ten in every "
                    "attribute; 0..75 and up to 2738 agents, 100 200 agents; all formattings (padding, comments, header, final newline, number style, optional reluctance); binary and general integer vectors of "
                    "dimension 1..6 exhaustively over 2-3 agents, up to dimension 100, some up to 70 000." );
        scenarios_for<SimpleAgent>( "simple", 1 );
        scenarios_for<ActivityAgent>( "activity", 3 );
        scenarios_for<InertialAgent>( "inertial", 4 );
        using D = DiscreteVectorAgent;
        for( size_t dim = 1; dim <= 6; dim++ )
            mc::scenario( fmt::format( "vector dim {}", dim ), [=] {
                mc::explore( {}, [&] {
                    vector<vector<double>> v( dim <= 3 ? 3 : dim == 4 ? 2 : 1 );
                    for( auto & a : v )
                        for( size_t k = 0; k < dim; k++ )
                            a.push_back( mc::choose( 2 ) );
                    round_trip<D>( v );
                } );
                mc::explore( {}, [&] {
                    vector<vector<double>> v( 2 );
                    for( auto & a : v )
                        for( size_t k = 0; k < dim; k++ )
                            a.push_back( 0 );
                    v[mc::choose( 2 )][mc::choose( int( dim ) )] = mc::pick( { -1.0, 2.0, 10.0, 2147483647.0, -2147483648.0 } );
                    v[mc::choose( 2 )][mc::choose( int( dim ) )] = mc::pick( { 1.0, -7.0, 99999.0 } );
                    round_trip<D>( v );
                } );
            } );
        mc::scenario( "vector sizes", [=] {
            mc::explore( {}, [&] {
                size_t n = mc::choose( 30 ), dim = 1 + mc::choose( 100 );
                vector<vector<double>> v( n );
                for( size_t i = 0; i < n; i++ )
                    for( size_t k = 0; k < dim; k++ )
                        v[i].push_back( ( i * 7 + k * k ) % 3 == 0 );
                round_trip<D>( v );
            } );
        } );
        mc::scenario( "vector long", [=] {
            mc::explore( {}, [&] {
                size_t n = mc::pick( { 1, 3 } ), dim = mc::pick( { 127, 255, 257, 1000, 4097, 70000 } );
                vector<vector<double>> v( n );
                for( size_t i = 0; i < n; i++ )
                    for( size_t k = 0; k < dim; k++ )
                        v[i].push_back( ( i * 7 + k + k * k ) % 3 == 0 || k + 1 == dim );
                round_trip<D>( v );
            } );
        } );
        mc::scenario( "vector formatting", [=] {
            mc::explore( {}, [&] {
                int before = mc::choose( 4 ), after = mc::choose( 3 ), comments = mc::choose( 3 ), newline = mc::choose( 2 ), head = mc::choose( 2 );
                size_t n = mc::pick( { 1, 2, 5 } ), dim = mc::pick( { 1, 2, 9 } );
                auto pad = [&]( int k ) { return std::string( k == 3 ? 25 : k, ' ' ); };
                std::string s = head ? "# idx_agent, opinion[...]\n" : "";
                vector<vector<double>> want( n );
                for( size_t i = 0; i < n; i++ )
                {
                    if( comments == 1 || ( comments == 2 && i % 2 ) )
                        s += "# comment, 1, 2, 3\n";
                    s += pad( before ) + fmt::format( "{}", i ) + pad( after );
                    for( size_t k = 0; k < dim; k++ )
                    {
                        want[i].push_back( ( i + k * k ) % 2 );
                        s += "," + pad( before ) + fmt::format( "{}", ( i + k * k ) % 2 ) + pad( after );
                    }
                    if( i + 1 < n || newline )
                        s += "\n";
                }
                std::ofstream( file() ) << s;
                same( want, agents_from_file<D>( file() ), "file " + s.substr( 0, 300 ) );
                mc::step();
            } );
        } );
        mc::scenario( "missing file", [] {
            mc::once( [] { MC_CHECK( throws( [] { agents_from_file<SimpleAgent>( mc::scratch() + "/none.txt" ); } ), "no error for a missing agent file" ); } );
        } );
    } );
}
