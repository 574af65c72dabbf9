// MC: nosan O2 nolib
// C25: erfinv on all floats (thorough: every one of them) and on a structured grid of doubles.
#include "common.hpp"
#include "util/erfinv.hpp"

static float ord( std::uint32_t bits )
{
    float f;
    std::memcpy( &f, &bits, 4 );
    return f;
}

// |erf(y) - x| in terms of what rounding allows: y is off by about eps*|y| relative, x itself by half an ulp,
// and 1-|x| is compared through erfc where x is near one.
template<typename T>
static void check_one( T x, T y )
{
    using L        = long double;
    const L ulp    = std::numeric_limits<T>::epsilon();
    L Y            = std::abs( (L)y ), X = std::abs( (L)x );
    L deriv        = 2 / std::sqrt( M_PIl ) * std::exp( -Y * Y );
    L err          = X < 0.5L ? std::abs( std::erf( Y ) - X ) : std::abs( std::erfc( Y ) - ( 1 - X ) );
    L slack        = 16 * ulp * ( Y * deriv ) + 4 * ulp * X * 0 + 1e-18L * X + std::numeric_limits<T>::denorm_min();
    MC_CHECK( std::isfinite( y ) && err <= slack, "erfinv({:a} = {}) = {}, off by {} (allowed {})", x, x, y, double( err ), double( slack ) );
    MC_CHECK( std::signbit( x ) == std::signbit( y ) || y == 0, "erfinv({}) = {} has the wrong sign", x, y );
}
template<typename T>
static void neighbours( T x, vector<T> & v, int n )
{
    T a = x, b = x;
    v.push_back( x );
    for( int i = 0; i < n; i++ )
    {
        a = std::nextafter( a, T( 2 ) );
        b = std::nextafter( b, T( -2 ) );
        v.push_back( a );
        v.push_back( b );
    }
}
template<typename T>
static void check_list( vector<T> v )
{
    vector<T> in;
    for( T x : v )
        if( x >= 0 && x < 1 )
            in.push_back( x );
    std::sort( in.begin(), in.end() );
    in.erase( std::unique( in.begin(), in.end() ), in.end() );
    T prev = 0;
    const T eps = std::numeric_limits<T>::epsilon();
    for( T x : in )
    {
        T y = Math::erfinv<T>( x );
        check_one( x, y );
        T m = Math::erfinv<T>( -x );
        MC_CHECK( std::abs( m + y ) <= 4 * eps * std::abs( y ), "erfinv({}) = {} but erfinv({}) = {}", x, y, -x, m );
        MC_CHECK( y >= prev - 16 * eps * prev, "erfinv decreases at {:a}: {} after {}", x, y, prev );
        prev = std::max( prev, y );
        mc::step( 2 );
        if( in.size() < 2000000 )
            mc::state( mc::Hash()( y ).h );
    }
}

int main( int argc, char ** argv )
{
    return mc::main( "C25", argc, argv, [] {
        int step = mc::thorough() ? 1 : 13; // below 2^-17; all others are taken
        mc::bounds( fmt::format( "Single precision: every {} float in [0,1) and its negative; double precision: all k/2^{}, 1-k/2^53 for k up to {}, a geometric grid of {} values towards 0 and towards 1, and the {} neighbours of every power of two and of "
                                 "the boundaries between approximations; special values.",
            step == 1 ? "single" : "13th (above 2^-17: every single)", mc::thorough() ? 28 : 21, mc::thorough() ? 1 << 24 : 1 << 19, mc::thorough() ? 10000000 : 500000, mc::thorough() ? 200000 : 4000 ) );
        // floats in blocks of equal exponent
        for( int e = 0; e < 127; e++ )
            mc::scenario( fmt::format( "floats with exponent {}", e ), [=] {
                mc::once( [&] {
                    float prev    = 0;
                    const float eps = std::numeric_limits<float>::epsilon();
                    int st        = e < 110 ? step : 1;
                    for( std::uint32_t m = 0; m < ( 1u << 23 ); m += st )
                    {
                        float x = ord( std::uint32_t( e ) << 23 | m ), y = Math::erfinv<float>( x );
                        // single precision, checked in double precision
                        double X = x, Y = y, d = 2 / std::sqrt( M_PI ) * std::exp( -Y * Y );
                        double err = X < 0.5 ? std::abs( std::erf( Y ) - X ) : std::abs( std::erfc( Y ) - ( 1 - X ) );
                        MC_CHECK( err <= 16 * eps * Y * d + 3e-45, "erfinv<float>({:a} = {}) = {}, off by {} (allowed {})", x, x, y, err, 16 * eps * Y * d );
                        float n = Math::erfinv<float>( -x );
                        MC_CHECK( std::abs( n + y ) <= 4 * eps * y, "erfinv<float>({}) = {} but {} at {}", x, y, n, -x );
                        MC_CHECK( y >= prev - 16 * eps * prev, "erfinv<float> decreases at {:a}: {} after {}", x, y, prev );
                        prev = std::max( prev, y );
                        mc::step( 2 );
                        if( m % ( 1 << 12 ) == 0 )
                            mc::state( mc::Hash()( y ).h );
                    }
                } );
            } );
        for( int part = 0; part < 64; part++ )
            mc::scenario( fmt::format( "doubles, grid part {}", part ), [=] {
                mc::once( [&] {
                    int b = mc::thorough() ? 28 : 21;
                    vector<double> v;
                    for( int k = ( 1 << b ) / 64 * part; k < ( 1 << b ) / 64 * ( part + 1 ); k++ )
                        v.push_back( double( k ) / ( 1 << b ) );
                    check_list( v );
                } );
            } );
        mc::scenario( "doubles next to one", [] {
            mc::once( [&] {
                vector<double> v;
                for( int k = 1; k <= ( mc::thorough() ? 1 << 24 : 1 << 19 ); k++ )
                    v.push_back( 1 - double( k ) / 9007199254740992.0 );
                check_list( v );
            } );
        } );
        mc::scenario( "doubles, geometric grid", [] {
            mc::once( [&] {
                vector<double> v;
                int n = mc::thorough() ? 10000000 : 500000;
                for( int i = 0; i < n; i++ )
                {
                    v.push_back( 1 - std::exp( -36.7 * i / n ) );
                    v.push_back( std::exp( -700.0 * i / n ) );
                }
                check_list( v );
            } );
        } );
        mc::scenario( "doubles, neighbourhoods", [] {
            mc::once( [&] {
                vector<double> v;
                int n = mc::thorough() ? 100000 : 2000;
                for( int e = 1; e <= 1074; e++ )
                    neighbours( std::ldexp( 1.0, -e ), v, e < 60 ? n : 5 );
                for( int e = 1; e <= 52; e++ )
                    neighbours( 1 - std::ldexp( 1.0, -e ), v, n );
                for( double b : { 0.85, 0.5, 0.425, 1 - 2 * std::exp( -25.0 ), 1 - std::exp( -25.0 ), 1 - 2 * std::exp( -2.56 ), 0.7, 0.9, 0.95, 0.99 } )
                    neighbours( b, v, n );
                check_list( v );
            } );
        } );
        mc::scenario( "floats, neighbourhoods", [] {
            mc::once( [&] {
                vector<float> v;
                for( int e = 1; e <= 149; e++ )
                    neighbours( std::ldexp( 1.0f, -e ), v, 500 );
                for( int e = 1; e <= 24; e++ )
                    neighbours( 1 - std::ldexp( 1.0f, -e ), v, 500 );
                neighbours( 0.85f, v, 500 );
                check_list( v );
            } );
        } );
        mc::scenario( "special values", [] {
            mc::once( [&] {
                auto all = [&]<typename T>( T ) {
                    const T inf = std::numeric_limits<T>::infinity();
                    MC_CHECK( Math::erfinv<T>( 1 ) == inf, "erfinv(1) = {}", Math::erfinv<T>( 1 ) );
                    MC_CHECK( Math::erfinv<T>( -1 ) == -inf, "erfinv(-1) = {}", Math::erfinv<T>( -1 ) );
                    MC_CHECK( Math::erfinv<T>( 0 ) == 0 && Math::erfinv<T>( T( -0.0 ) ) == 0, "erfinv(0) = {}", Math::erfinv<T>( 0 ) );
                    vector<T> out{ std::nextafter( T( 1 ), T( 2 ) ), T( 1.5 ), T( 2 ), T( 1e30 ), std::numeric_limits<T>::max(), inf };
                    for( T x : out )
                        for( T s : { T( 1 ), T( -1 ) } )
                        {
                            MC_CHECK( std::isnan( Math::erfinv<T>( s * x ) ), "erfinv({}) = {}", s * x, Math::erfinv<T>( s * x ) );
                            mc::step();
                        }
                    MC_CHECK( std::isnan( Math::erfinv<T>( std::numeric_limits<T>::quiet_NaN() ) ), "erfinv(nan) is a number" );
                    for( T x : { T( 0.1 ), T( 0.5 ), T( 0.9 ), T( 0.9999 ) } )
                        mc::sample( fmt::format( "erfinv({}) = {}", x, Math::erfinv<T>( x ) ) );
                };
                all( 1.0 );
                all( 1.0f );
            } );
        } );
    } );
}
