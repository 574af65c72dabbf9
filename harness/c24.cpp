// MC: rng nosan O2 nolib
// C24: the distributions of util/math.hpp.
#include "common.hpp"
#include "util/math.hpp"
#include <functional>

using std::function;
static constexpr double INF = std::numeric_limits<double>::infinity();

// ---- quadrature: composite 8-point Gauss-Legendre
static double integrate( const function<double( double )> & f, double a, double b, int panels )
{
    static const double x[] = { 0.1834346424956498, 0.5255324099163290, 0.7966664774136267, 0.9602898564975363 };
    static const double w[] = { 0.3626837833783620, 0.3137066458778873, 0.2223810344533745, 0.1012285362903763 };
    long double s           = 0;
    for( int p = 0; p < panels; p++ )
    {
        double l = a + ( b - a ) * p / panels, r = a + ( b - a ) * ( p + 1 ) / panels, c = 0.5 * ( l + r ), h = 0.5 * ( r - l );
        for( int i = 0; i < 4; i++ )
            s += (long double)w[i] * h * ( f( c - h * x[i] ) + f( c + h * x[i] ) );
    }
    return double( s );
}
static vector<double> quantiles()
{
    vector<double> q{ 0, 5e-324, 1e-300, 1e-100, 1e-30, 1e-18, 1e-12, 1e-9, 1e-6, 1 - 1e-6, 1 - 1e-9, 1 - 1e-12, 1 - 1e-15, std::nextafter( 1.0, 0.0 ), 1 };
    int n = mc::thorough() ? 1 << 16 : 1 << 11;
    for( int i = 1; i < n; i++ )
        q.push_back( double( i ) / n );
    std::sort( q.begin(), q.end() );
    q.erase( std::unique( q.begin(), q.end() ), q.end() );
    return q;
}
// The probabilities of the draws must be those of the distribution: over n equally likely words, the share of
// draws up to x is cdf(x).
template<typename D>
static void draws( D make, const function<double( double )> & cdf, double lo, double hi, const std::string & what )
{
    // the words that matter
    auto rel = mc::relevant_words( 3, [&] {
        auto d = make();
        mc::Hash h;
        h( d( *std::make_unique<std::mt19937>() ) );
        return h.h;
    } );
    if( rel.empty() )
        return;
    int used;
    auto counts = mc::relevant_counts( rel, mc::thorough() ? 1 << 18 : 1 << 12, 1 << 18, used );
    vector<double> v;
    mc::Policy p;
    p.counts = counts;
    if( !mc::explore( p, [&] {
            std::mt19937 gen;
            auto d   = make();
            double x = d( gen );
            mc::step();
            MC_CHECK( x >= lo - 1e-12 * std::abs( lo ) && x <= hi * ( 1 + 1e-12 ), "{}: drew {}", what, x );
            v.push_back( x );
        } ) )
        return;
    std::sort( v.begin(), v.end() );
    int n = v.size();
    for( int i = 0; i < n; i++ )
        MC_CHECK( std::abs( cdf( v[i] ) - ( i + 0.5 ) / n ) < 1.5 / used + 1e-9, "{}: {} of {} equally likely draws are up to {}, where the distribution function is {}", what, i + 1, n, v[i], cdf( v[i] ) );
    mc::sample( fmt::format( "{}: {} equally likely draws, median {}", what, n, v[n / 2] ) );
}

// ---- power law
static void power_law( double eps, double gamma )
{
    auto name = fmt::format( "power law eps {} gamma {}", eps, gamma );
    mc::scenario( name, [=] {
        long double A = std::pow( (long double)eps, 1.0L - gamma ); // eps^(1-gamma)
        auto cdf = [=]( double x ) -> double { return eps == 1 ? x >= 1 : double( ( A - std::pow( (long double)x, 1.0L - gamma ) ) / ( A - 1 ) ); };
        mc::once( [&] {
            power_law_distribution<double> d( eps, gamma );
            auto qs   = quantiles();
            double prev = -INF;
            // density against the closed form
            if( eps < 1 )
                for( int i = 0; i <= 200; i++ )
                {
                    double x    = std::pow( eps, 1 - i / 200.0 );
                    double want = double( ( gamma - 1.0L ) / ( A - 1 ) * std::pow( (long double)x, (long double)-gamma ) );
                    MC_CHECK( close( d.pdf( x ), want, 1e-10, 0 ), "{}: density {} instead of {} at {}", name, d.pdf( x ), want, x );
                }
            for( double q : qs )
            {
                double x = d.inverse_cdf( q );
                mc::step();
                MC_CHECK( x >= eps * ( 1 - 1e-12 ) && x <= 1 + 1e-12, "{}: inverse_cdf({}) = {}", name, q, x );
                MC_CHECK( x >= prev * ( 1 - 1e-13 ), "{}: inverse_cdf decreases to {} at {}", name, x, q );
                prev = x;
                if( eps == 1 )
                    continue;
                double F = cdf( x );
                MC_CHECK( std::abs( F - q ) < 1e-10, "{}: inverse_cdf({}) = {}, where the distribution function is {}", name, q, x, F );
                mc::Hash h;
                h( eps )( gamma )( x );
                mc::state( h.h );
            }
            // the integral of the density up to the quantile, by quadrature in log x
            if( eps < 1 )
                for( double q : { 0.0, 1e-3, 0.03, 0.2, 0.4, 0.5, 0.7, 0.9, 0.99, 0.9999, 1.0 } )
                {
                    double x = d.inverse_cdf( q );
                    double I = integrate( [&]( double t ) { return d.pdf( std::exp( t ) ) * std::exp( t ); }, std::log( eps ), std::log( x ), 64 );
                    MC_CHECK( std::abs( I - q ) < 1e-9, "{}: the density integrates to {} up to inverse_cdf({}) = {}", name, I, q, x );
                }
            MC_CHECK( close( d.inverse_cdf( 0 ), eps, 1e-12 ) && close( d.inverse_cdf( 1 ), 1, 1e-12 ), "{}: [0,1] is mapped to [{},{}]", name, d.inverse_cdf( 0 ), d.inverse_cdf( 1 ) );
            // mean
            double want = eps == 1 ? 1.0 : integrate( [&]( double t ) { double x = std::exp( t ); return x * double( ( gamma - 1.0L ) / ( A - 1 ) * std::pow( (long double)x, (long double)-gamma ) ) * x; }, std::log( eps ), 0, 256 );
            double got  = d.mean();
            if( !close( got, want, 1e-8 ) )
            {
                double listed = -( 1.0 - gamma ) / ( 2.0 - gamma ) * std::pow( eps, 2.0 - gamma ) / ( 1.0 - std::pow( eps, 1.0 - gamma ) );
                MC_CHECK( close( got, listed, 1e-9 ), "{}: mean {} instead of {}", name, got, want );
                mc::known( "c24-power-law-mean", fmt::format( "{}: mean() = {} instead of {}", name, got, want ) );
            }
        } );
        draws( [=] { return power_law_distribution<double>( eps, gamma ); }, [=]( double x ) { return eps == 1 ? 0.5 : cdf( x ); }, eps, 1, name );
    } );
}

// ---- truncated normal
static double upper( double z ) // P( Z > z )
{
    return 0.5 * std::erfc( z / std::sqrt( 2.0 ) );
}
static void truncated( double mean, double sigma, double eps )
{
    auto name = fmt::format( "truncated normal mean {} sigma {} bound {}", mean, sigma, eps );
    mc::scenario( name, [=] {
        double z0 = ( eps - mean ) / sigma, S = upper( z0 );
        auto cdf = [=]( double x ) { return x == INF ? 1.0 : 1 - upper( ( x - mean ) / sigma ) / S; };
        double tol = 1e-9 + 1e-15 / S;
        bool far   = z0 > 8;
        mc::once( [&] {
            truncated_normal_distribution<double> d( mean, sigma, eps );
            if( far )
            {
                double x = d.inverse_cdf( 0.5 ), p = d.pdf( eps + 0.1 * sigma );
                bool good = std::abs( cdf( x ) - 0.5 ) < 1e-3 && p > 0 && p < INF;
                if( good )
                    return;
                MC_CHECK( !std::isfinite( x ) || x > 1e10 * sigma || x < eps || x >= mean + 8 * sigma, "{}: median {}", name, x );
                mc::known( "c24-far-bound", fmt::format( "{}: inverse_cdf(0.5) = {}, pdf({}) = {}", name, x, eps + 0.1 * sigma, p ) );
                return;
            }
            double prev = -INF;
            for( int i = 0; i <= 300; i++ )
            {
                double x    = eps + ( i / 300.0 ) * ( i / 300.0 ) * 8 * std::max( sigma, std::abs( mean - eps ) );
                double want = std::exp( -0.5 * ( ( x - mean ) / sigma ) * ( ( x - mean ) / sigma ) ) / ( sigma * std::sqrt( 2 * M_PI ) ) / S;
                MC_CHECK( close( d.pdf( x ), want, tol * 10, 1e-300 ), "{}: density {} instead of {} at {}", name, d.pdf( x ), want, x );
                double below = eps - ( i + 1 ) * 0.02 * sigma;
                MC_CHECK( d.pdf( below ) == 0, "{}: density {} at {}, below the bound", name, d.pdf( below ), below );
            }
            for( double q : quantiles() )
            {
                double x = d.inverse_cdf( q );
                mc::step();
                MC_CHECK( !std::isnan( x ), "{}: inverse_cdf({}) is not a number", name, q );
                MC_CHECK( x >= eps - sigma * 1e-12 - std::abs( eps ) * 1e-12 - sigma * 1e-14 / S, "{}: inverse_cdf({}) = {}", name, q, x );
                MC_CHECK( x >= prev - 1e-13 * sigma - 1e-13 * std::abs( prev ) || x == prev, "{}: inverse_cdf decreases to {} at {}", name, x, q );
                prev     = x;
                double F = cdf( x );
                MC_CHECK( std::abs( F - q ) < tol, "{}: inverse_cdf({}) = {}, where the distribution function is {}", name, q, x, F );
                mc::Hash h;
                h( mean )( sigma )( eps )( x );
                mc::state( h.h );
            }
            for( double q : { 0.0, 1e-3, 0.03, 0.2, 0.4, 0.5, 0.7, 0.9, 0.99, 0.9999 } )
            {
                double x = d.inverse_cdf( q );
                double I = integrate( [&]( double t ) { return d.pdf( t ); }, eps, x, 256 );
                if( ( x - eps ) / sigma < 100 ) // else the panels are too wide
                    MC_CHECK( std::abs( I - q ) < 1e-8 + tol, "{}: the density integrates to {} up to inverse_cdf({}) = {}", name, I, q, x );
            }
        } );
        if( !far )
            draws( [=] { return truncated_normal_distribution<double>( mean, sigma, eps ); }, [=]( double x ) { return cdf( x ); }, eps - sigma * 1e-14 / S, INF, name );
    } );
}

// ---- joint laws: a set of weighted points against the bivariate normal
static double phi( double z )
{
    return 1 - upper( z );
}
struct Joint
{
    vector<std::array<double, 2>> z;
    void check( double cov, double tol, const std::string & what ) const
    {
        size_t n = z.size();
        MC_CHECK( n > 100, "{}: only {} points", what, n );
        double m1 = 0, m2 = 0, v1 = 0, v2 = 0, c = 0;
        for( auto & p : z )
        {
            m1 += p[0] / n, m2 += p[1] / n;
            v1 += p[0] * p[0] / n, v2 += p[1] * p[1] / n, c += p[0] * p[1] / n;
        }
        MC_CHECK( std::abs( m1 ) < tol && std::abs( m2 ) < tol, "{}: means {} {}", what, m1, m2 );
        MC_CHECK( std::abs( v1 - 1 ) < 3 * tol && std::abs( v2 - 1 ) < 3 * tol, "{}: variances {} {} instead of 1", what, v1, v2 );
        MC_CHECK( std::abs( c - cov ) < 3 * tol, "{}: covariance {} instead of {}", what, c, cov );
        // the law of linear combinations determines the joint law
        for( auto [a, b] : { std::pair{ 1.0, 0.0 }, { 0.0, 1.0 }, { 1.0, 1.0 }, { 1.0, -1.0 }, { 2.0, 1.0 }, { -1.0, 2.0 }, { 1.0, 3.0 } } )
        {
            double sd = std::sqrt( std::max( 0.0, a * a + b * b + 2 * a * b * cov ) );
            for( double t : { -2.0, -1.0, -0.4, 0.3, 1.2, 1.9 } )
            {
                double F = 0;
                for( auto & p : z )
                    F += a * p[0] + b * p[1] <= t * ( sd > 1e-6 ? sd : 1 );
                F /= n;
                double want = sd > 1e-6 ? phi( t ) : ( t > 0 );
                MC_CHECK( std::abs( F - want ) < tol, "{}: {} z1 + {} z2 is up to {} with probability {} instead of {}", what, a, b, t * sd, F, want );
            }
        }
    }
};
// Enumerates one draw: every word that a draw without rejections consumes takes equally likely values.
template<typename Make, typename Get>
static bool enumerate( Make make, Get get, int before, Joint & j, double & tol, const std::string & what )
{
    auto draw = [&]( mc::u64 & words ) {
        std::mt19937 gen;
        auto d = make();
        for( int i = 0; i < before; i++ )
        {
            mc::Quiet q( i );
            (void)get( d, gen );
        }
        auto a = mc::rng_pos();
        auto r = get( d, gen );
        words  = mc::rng_pos() - a;
        return r;
    };
    mc::u64 least = 1000;
    for( int b = 0; b < 6; b++ )
    {
        mc::Policy p;
        p.background = b;
        p.max_dev    = 0;
        if( !mc::explore( p, [&] {
                mc::u64 w;
                draw( w );
                least = std::min( least, w );
            } ) )
            return false;
    }
    if( least == 0 || least > 6 )
        mc::fail( fmt::format( "{}: a draw takes {} random words", what, least ) );
    double budget = mc::thorough() ? 4e6 : 360000;
    int cells     = std::max( 4, int( std::pow( budget, 1.0 / least ) ) );
    tol           = std::max( 0.004, 4.0 / cells );
    mc::Policy p;
    p.counts  = { cells };
    p.horizon = int( least );
    return mc::explore( p, [&] {
        mc::u64 w;
        auto r = draw( w );
        mc::step();
        if( w == least ) // otherwise values were rejected and drawn again, which does not change the law
            j.z.push_back( r );
    } );
}
// Both components reach both tails: over all draws from words close to 0, 1 / 2 and 1, the smallest and the
// largest value of either marginal distribution function.
template<typename Make, typename Get>
static void tails( Make make, Get get, const std::string & what )
{
    mc::Policy p;
    p.menu.clear();
    for( double w : { 1e-9, 0.1, 0.5 - 1e-4, 0.5 + 1e-4, 0.9, 1 - 1e-9 } )
        p.menu.push_back( mc::frac( w ) );
    p.horizon = 4;
    double lo[2] = { 1, 1 }, hi[2] = { 0, 0 };
    if( !mc::explore( p, [&] {
            std::mt19937 gen;
            auto d = make();
            auto r = get( d, gen );
            mc::step();
            for( int k = 0; k < 2; k++ )
            {
                MC_CHECK( r[k] >= 0 && r[k] <= 1, "{}: marginal distribution function {}", what, r[k] );
                lo[k] = std::min( lo[k], r[k] );
                hi[k] = std::max( hi[k], r[k] );
            }
        } ) )
        return;
    for( int k = 0; k < 2; k++ )
        if( lo[k] > 2e-4 || hi[k] < 1 - 2e-4 )
            mc::fail( fmt::format( "{}: component {} stays between its quantiles {} and {}", what, k + 1, lo[k], hi[k] ) );
}
static void bivariate( double cov, int before )
{
    auto name = fmt::format( "bivariate normal cov {} draw {}", cov, before + 1 );
    mc::scenario( name, [=] {
        Joint j;
        double tol;
        if( !enumerate( [=] { return bivariate_normal_distribution<double>( cov ); }, []( auto & d, auto & g ) { return d( g ); }, before, j, tol, name ) )
            return;
        j.check( cov, tol, name );
        if( before == 0 )
            tails( [=] { return bivariate_normal_distribution<double>( cov ); },
                []( auto & d, auto & g ) {
                    auto r = d( g );
                    return std::array<double, 2>{ phi( r[0] ), phi( r[1] ) };
                },
                name );
        if( std::abs( cov ) == 1 ) // the components determine each other
            for( auto & z : j.z )
                MC_CHECK( std::abs( z[1] - cov * z[0] ) <= 1e-7 * ( 1 + std::abs( z[0] ) ), "{}: components {} and {}", name, z[0], z[1] );
        mc::sample( fmt::format( "{}: {} equally likely draws checked", name, j.z.size() ) );
        mc::state( mc::Hash()( cov )( before )( j.z.size() ).h );
    } );
}
struct Uniform
{
    double inverse_cdf( double x )
    {
        return x;
    }
};
struct Shifted // uniform on [3,5]
{
    double inverse_cdf( double x )
    {
        return 3 + 2 * x;
    }
};
static double clamp01( double u )
{
    return std::min( 1 - 1e-15, std::max( 1e-15, u ) );
}
static double quantile( double u ) // standard normal, by bisection on erfc
{
    u         = clamp01( u );
    double lo = -9, hi = 9;
    for( int i = 0; i < 60; i++ )
    {
        double m = 0.5 * ( lo + hi );
        ( phi( m ) < u ? lo : hi ) = m;
    }
    return 0.5 * ( lo + hi );
}
template<typename D1, typename D2>
static void copula( const std::string & tag, double cov, D1 d1, D2 d2, function<double( double )> cdf1, function<double( double )> cdf2, int before )
{
    auto name = fmt::format( "copula {} cov {} draw {}", tag, cov, before + 1 );
    mc::scenario( name, [=] {
        Joint j;
        double tol;
        if( !enumerate( [=] { return bivariate_gaussian_copula<double, D1, D2>( cov, d1, d2 ); },
                [&]( auto & d, auto & g ) {
                    auto r = d( g );
                    return std::array<double, 2>{ quantile( cdf1( r[0] ) ), quantile( cdf2( r[1] ) ) };
                },
                before, j, tol, name ) )
            return;
        j.check( cov, tol, name );
        tails( [=] { return bivariate_gaussian_copula<double, D1, D2>( cov, d1, d2 ); },
            [&]( auto & d, auto & g ) {
                auto r = d( g );
                return std::array<double, 2>{ cdf1( r[0] ), cdf2( r[1] ) };
            },
            name );
        mc::state( mc::Hash()( tag )( cov )( before ).h );
    } );
}

int main( int argc, char ** argv )
{
    return mc::main( "C24", argc, argv, [] {
        mc::bounds( fmt::format(
            "{} quantiles (grid and extreme values) for every parameter pair of a grid (power law: eps from 1e-9 to 1, gamma from 2.001 to 6; truncated normal: bounds from 40 standard deviations below to 7 above the mean), densities by "
            "closed form and quadrature, draws for {} equally likely words; bivariate normal and copula: up to {} equally likely draws for each of 9 covariances, first and later draws, and the tails of both components.",
            quantiles().size(), mc::thorough() ? 1 << 18 : 1 << 12, mc::thorough() ? 4000000 : 360000 ) );
        for( double eps : { 1e-9, 1e-6, 1e-4, 0.001, 0.01, 0.05, 0.1, 0.3, 0.5, 0.9, 0.999, 1.0 } )
            for( double gamma : { 2.001, 2.1, 2.5, 3.0, 3.7, 4.5, 6.0 } )
                if( eps < 0.95 || gamma > 2.05 )
                    power_law( eps, gamma );
        for( double sigma : { 0.01, 0.25, 1.0, 5.0 } )
            for( double mean : { 0.1, 1.0, 4.0, 0.0, -2.0 } )
                for( double z : { -99.0, -40.0, -9.0, -5.0, -3.0, -1.0, -0.2, 0.0, 0.2, 1.0, 2.0, 3.0, 5.0, 7.0, 10.0, 40.0 } )
                    truncated( mean, sigma, mean + z * sigma );
        truncated( 1.0, 0.25, 0.01 );
        truncated( 1.5, 0.1, 0.05 );
        vector<double> covs{ -1, -0.9, -0.5, -0.1, 0, 0.3, 0.5, 0.95, 1 };
        for( double cov : covs )
            for( int before : { 0, 1, 2 } )
                bivariate( cov, before );
        for( double cov : covs )
        {
            auto id = []( double x ) { return x; };
            copula( "uniform", cov, Uniform{}, Uniform{}, id, id, 0 );
            copula( "uniform", cov, Uniform{}, Shifted{}, id, []( double x ) { return ( x - 3 ) / 2; }, 1 );
            double eps = 0.1, gamma = 2.5, mean = 1, sigma = 0.25, bound = 0.5;
            double A = std::pow( eps, 1 - gamma ), S = upper( ( bound - mean ) / sigma );
            auto pl = [=]( double x ) { return ( A - std::pow( x, 1 - gamma ) ) / ( A - 1 ); };
            auto tn = [=]( double x ) { return 1 - upper( ( x - mean ) / sigma ) / S; };
            power_law_distribution<double> d1( eps, gamma );
            truncated_normal_distribution<double> d2( mean, sigma, bound );
            copula( "power law, truncated normal", cov, d1, d2, pl, tn, 0 );
            copula( "truncated normal, power law", cov, d2, d1, tn, pl, 2 );
        }
    } );
}
