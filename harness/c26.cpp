// MC: nolib
// C26: splitting of all short strings (and structured long ones), Hamming distance of all short vectors.
#include "common.hpp"
#include "util/math.hpp"
#include "util/misc.hpp"

static vector<std::string> reference( const std::string & s )
{
    vector<std::string> r{ "" };
    for( char c : s )
        if( c == ',' )
            r.push_back( "" );
        else
            r.back() += c;
    return r;
}
static std::string show( const std::string & s )
{
    std::string r;
    for( char c : s )
        r += c == '\n' ? std::string( "\\n" ) : c == '\0' ? std::string( "\\0" ) : std::string( 1, c );
    return "'" + r + "'";
}
static std::string brief( std::string s )
{
    return s.size() > 80 ? show( s.substr( 0, 80 ) ) + "..." : show( s );
}
static void split( const std::string & s, bool scribble )
{
    auto want = reference( s );
    size_t n  = 0;
    auto cb   = [&]( auto idx, auto && entry_ ) {
        std::string entry( entry_ );
        MC_CHECK( n < want.size(), "{}: an entry {} number {} after the last one", brief( s ), brief( entry ), idx );
        MC_CHECK( size_t( idx ) == n, "{}: entry number {} instead of {}", brief( s ), idx, n );
        MC_CHECK( entry == want[n], "{}: entry {} is {} instead of {}", brief( s ), n, brief( entry ), brief( want[n] ) );
        if constexpr( std::is_assignable_v<decltype( entry_ ), const char *> )
            if( scribble ) // entries belong to the callback
                entry_ = "x,y,z";
        n++;
    };
    parse_comma_separated_list( s, cb );
    MC_CHECK( n == want.size(), "{}: {} entries instead of {}", brief( s ), n, want.size() );
    mc::step( n );
    mc::outcome( mc::Hash()( want.size() ).h );
}

template<typename T>
static void hamming( vector<T> a, vector<T> b )
{
    if( a.size() != b.size() )
    {
        MC_CHECK( throws( [&] { (void)hamming_distance( std::span( a ), std::span( b ) ); } ), "vectors of {} and {} elements are not refused", a.size(), b.size() );
        mc::step();
        return;
    }
    int want = 0;
    for( size_t i = 0; i < a.size(); i++ )
        want += !( a[i] == b[i] );
    auto a0 = a, b0 = b;
    int got = hamming_distance( std::span( a ), std::span( b ) );
    MC_CHECK( got == want, "distance of {} and {} is {} instead of {}", a, b, got, want );
    MC_CHECK( a == a0 && b == b0, "the vectors were changed" );
    mc::step();
    mc::outcome( mc::Hash()( -want ).h );
}

int main( int argc, char ** argv )
{
    return mc::main( "C26", argc, argv, [] {
        const int L = mc::thorough() ? 9 : 7, H = mc::thorough() ? 7 : 6;
        mc::bounds( fmt::format( "All strings of up to {} characters over ',', 'a', '1', ' ', newline and NUL, with callbacks that read or overwrite their entry; long strings with up to {} entries of up to {} characters. "
                                 "All pairs of vectors with up to {} elements of 3 values (equal and unequal lengths); every single difference, and every prefix and stride of differences for lengths up to {}; int, double, size_t, char, const elements, spans into larger vectors.",
            L, 100000, 1000000, H, mc::thorough() ? 600 : 150 ) );
        static const std::string alphabet{ ",a1 \n\0", 6 };
        for( int first = 0; first < 36; first++ )
            mc::scenario( fmt::format( "strings {}", first ), [=] {
                mc::explore( {}, [&] {
                    std::string s{ alphabet[first / 6], alphabet[first % 6] };
                    int len = mc::choose( L - 1 );
                    for( int i = 0; i < len; i++ )
                        s += alphabet[mc::choose( 6 )];
                    split( s, len % 2 );
                    if( s.size() < 7 )
                        mc::state( mc::Hash()( s ).h );
                    if( len == 4 && mc::want_sample() )
                        mc::sample( fmt::format( "{} has the entries {}", show( s ), reference( s ) ) );
                } );
            } );
        mc::scenario( "short strings", [] {
            mc::explore( {}, [&] {
                std::string s;
                int len = mc::choose( 5 );
                for( int i = 0; i < len; i++ )
                    s += alphabet[mc::choose( 6 )];
                split( s, false );
                split( s, true );
            } );
        } );
        mc::scenario( "long strings", [] {
            mc::explore( {}, [&] {
                int entries = mc::pick( { 1, 2, 3, 10, 100, 255, 256, 257, 1000, 32767, 32768, 65536, 100000 } );
                int width   = mc::pick( { 0, 1, 2, 15, 16, 31, 255, 256, 4096, 65536, 1000000 } );
                if( double( entries ) * width > 4e6 )
                    return;
                std::string s;
                for( int i = 0; i < entries; i++ )
                    s += ( i ? "," : "" ) + std::string( std::max( 0, width - i % 3 ), char( 'a' + i % 26 ) );
                if( mc::choose( 2 ) )
                    s += ",";
                split( s, mc::choose( 2 ) );
            } );
        } );
        for( int n = 0; n <= H; n++ )
            for( int m = 0; m <= H; m++ )
                mc::scenario( fmt::format( "vectors of {} and {} elements", n, m ), [=] {
                    mc::explore( {}, [&] {
                        static const int val[] = { 0, 1, 7 };
                        vector<int> a, b;
                        int vals = n == m || n + m < 8 ? 3 : 2;
                        for( int i = 0; i < n; i++ )
                            a.push_back( val[mc::choose( vals )] );
                        for( int i = 0; i < m; i++ )
                            b.push_back( val[mc::choose( vals )] );
                        hamming( a, b );
                        if( n == m )
                            mc::state( mc::Hash()( a )( b ).h );
                    } );
                } );
        mc::scenario( "long vectors", [] {
            mc::once( [&] {
                for( int n = 0; n <= ( mc::thorough() ? 600 : 150 ); n++ )
                {
                    vector<int> a( n );
                    for( int i = 0; i < n; i++ )
                        a[i] = i * 7 % 5;
                    hamming( a, a );
                    for( int i = 0; i < n; i++ )
                    {
                        auto b = a;
                        b[i] += 1;
                        hamming( a, b );
                        for( int j = 0; j <= i; j++ )
                            b[j] += 1 << 20;
                        hamming( a, b );
                        auto c = a;
                        for( int j = 0; j < n; j += i + 1 )
                            c[j] = -1;
                        hamming( c, a );
                        vector<size_t> d( a.begin(), a.end() ), e( c.begin(), c.end() );
                        hamming( d, e );
                        vector<double> f( a.begin(), a.end() ), g( c.begin(), c.end() );
                        hamming( f, g );
                        vector<char> k( a.begin(), a.end() ), l( c.begin(), c.end() );
                        hamming( k, l );
                    }
                    hamming( a, vector<int>( n + 1 ) );
                    hamming( vector<int>( 2 * n + 1 ), a );
                    hamming( a, vector<int>{} );
                }
                hamming( vector<double>{ 0.0, 1.0, 1e-300 }, vector<double>{ -0.0, 1.0 + 1e-15, 0.0 } );
                hamming( vector<size_t>{ size_t( 1 ) << 40, 5 }, vector<size_t>{ 0, 5 + ( size_t( 1 ) << 33 ) } );
                hamming( vector<int>( 100000, 1 ), vector<int>( 100000, 2 ) );
            } );
        } );
        mc::scenario( "spans", [] {
            mc::explore( {}, [&] {
                vector<int> v( 12 );
                for( int i = 0; i < 12; i++ )
                    v[i] = i * i % 5;
                size_t o1 = mc::choose( 13 ), o2 = mc::choose( 13 ), n1 = mc::choose( 13 ), n2 = mc::choose( 13 );
                if( o1 + n1 > 12 || o2 + n2 > 12 )
                    return;
                std::span<const int> a( v.data() + o1, n1 ), b( v.data() + o2, n2 );
                if( n1 != n2 )
                {
                    MC_CHECK( throws( [&] { (void)hamming_distance( a, b ); } ), "spans of {} and {} elements are not refused", n1, n2 );
                    return;
                }
                int want = 0;
                for( size_t i = 0; i < n1; i++ )
                    want += a[i] != b[i];
                MC_CHECK( hamming_distance( a, b ) == want, "distance {} instead of {}", hamming_distance( a, b ), want );
                mc::step();
            } );
        } );
    } );
}
