// MC: rng
// C15: the agents a simulation starts with, every random word of their creation enumerated over cells.
#include "activity.hpp"
#include <bit>
#include <set>

using S = AS;

static double power_cdf( double x, double eps, double gamma )
{
    if( x <= eps )
        return 0;
    return x >= 1 ? 1 : ( std::pow( eps, 1 - gamma ) - std::pow( x, 1 - gamma ) ) / ( std::pow( eps, 1 - gamma ) - 1 );
}
static double phi( double z )
{
    return 0.5 * std::erfc( -z / std::sqrt( 2.0 ) );
}
static double trunc_cdf( double x, double mean, double sigma, double eps )
{
    if( x <= eps )
        return 0;
    double a = phi( ( eps - mean ) / sigma );
    return ( phi( ( x - mean ) / sigma ) - a ) / ( 1 - a );
}

template<typename A>
static auto create( size_t n, const S & s )
{
    auto o                           = Sim<A>::options( n, s );
    o.network_settings.n_connections = 0;
    return make_sim<A>( o );
}

template<typename A>
static void check_agents( const Simulation<A> & sim, size_t n, const S & s )
{
    MC_CHECK( sim.network.agents.size() == n, "{} agents instead of {}", sim.network.agents.size(), n );
    power_law_distribution<> pl( s.eps, s.gamma );
    for( size_t i = 0; i < n; i++ )
    {
        auto & d = sim.network.agents[i].data;
        if( i < s.n_bots )
        {
            MC_CHECK( d.opinion == s.bot_opinion[i], "bot {} starts with opinion {} instead of {}", i, d.opinion, s.bot_opinion[i] );
            MC_CHECK( d.activity == s.bot_activity[i], "bot {} has activity {} instead of {}", i, d.activity, s.bot_activity[i] );
        }
        else
        {
            MC_CHECK( d.opinion >= -1 && d.opinion <= 1, "agent {} starts with opinion {}", i, d.opinion );
            if( s.mean_activities )
                MC_CHECK( close( d.activity, pl.mean() ), "mean-activity mode: agent {} has activity {} instead of {}", i, d.activity, pl.mean() );
            else
                MC_CHECK( d.activity >= s.eps * ( 1 - 1e-9 ) && d.activity <= 1 + 1e-9, "agent {} has activity {} outside [{}, 1]", i, d.activity, s.eps );
        }
        if( !s.use_reluctances )
            MC_CHECK( d.reluctance == 1.0, "agent {} has reluctance {} although reluctances are off", i, d.reluctance );
        else
            MC_CHECK( d.reluctance >= s.reluctance_eps - 1e-7 * std::max( s.reluctance_sigma, s.reluctance_mean ) && std::isfinite( d.reluctance ), "agent {} has reluctance {} below {}", i, d.reluctance, s.reluctance_eps );
        if constexpr( std::is_same_v<A, InertialAgent> )
            MC_CHECK( d.velocity == 0.0, "agent {} starts with velocity {}", i, d.velocity );
    }
    mc::Hash h;
    h( opinions( sim ) )( activities( sim ) )( reluctances( sim ) );
    mc::state( h.h );
    mc::outcome( h.h );
    if( mc::want_sample() )
        mc::sample( fmt::format( "eps {} gamma {} bots {}: opinions {} activities {} reluctances {}", s.eps, s.gamma, s.n_bots, opinions( sim ), activities( sim ), reluctances( sim ) ) );
}

// Joint distribution of two values of the created agents, against F1, F2 (and independence or the given joint).
template<typename A, typename G>
static void joint( size_t n, const S & s, G && get, const std::function<double( double, double )> & want, const vector<double> & q1, const vector<double> & q2, const std::string & what )
{
    // executions that take more words than the shortest one are rejections of the normal distribution
    mc::u64 shortest = 1000;
    mc::Policy p0;
    p0.background = 0;
    p0.menu       = mc::cells( 8 );
    p0.max_dev    = 1;
    p0.horizon    = 40;
    if( !mc::explore( p0, [&] {
            create<A>( n, s );
            shortest = std::min( shortest, mc::rng_pos() );
        } ) )
        return;
    auto rel = mc::relevant_words( int( shortest ), [&] {
        auto sim = create<A>( n, s );
        auto v   = get( sim );
        if( mc::rng_pos() > shortest )
            return ~0ull;
        mc::Hash h;
        h( v.first )( v.second );
        return (unsigned long long)( h.h & ~0ull >> 1 );
    } );
    if( rel.empty() )
        return;
    int used = 1;
    mc::Policy p;
    p.counts  = mc::relevant_counts( rel, mc::thorough() ? 2000000 : 60000, 400, used );
    p.horizon = int( shortest );
    vector<double> mass( q1.size() * q2.size(), 0.0 );
    double total = 0;
    bool all     = mc::explore( p, [&] {
        auto sim = create<A>( n, s );
        mc::step();
        check_agents( sim, n, s );
        if( mc::rng_pos() > shortest )
            return;
        auto [a, b] = get( sim );
        double w    = mc::weight();
        total += w;
        for( size_t i = 0; i < q1.size(); i++ )
            for( size_t j = 0; j < q2.size(); j++ )
                if( a <= q1[i] && b <= q2[j] )
                    mass[i * q2.size() + j] += w;
    } );
    if( !all )
        return;
    MC_CHECK( total > 0.3, "{}: only {} of the executions are without rejection", what, total );
    for( size_t i = 0; i < q1.size(); i++ )
        for( size_t j = 0; j < q2.size(); j++ )
        {
            double got = mass[i * q2.size() + j] / total, e = want( q1[i], q2[j] );
            MC_CHECK( std::abs( got - e ) < 0.004 + 1.0 / used, "{}: P(<= {}, <= {}) is {} instead of {} ({} cells per word)", what, q1[i], q2[j], got, e, used );
            if( getenv( "MC_TIMES" ) )
                fprintf( stderr, "ERR %8.5f used %d %s\n", got - e, used, what.c_str() );
        }
}

template<typename A>
static void scenarios_for()
{
    std::string nm = Sim<A>::name;
    const double inf = 1e300;
    struct P
    {
        double eps, gamma, mean, sigma, reps, cov;
    };
    vector<P> ps = { { 0.01, 2.1, 1.0, 0.25, 0.01, 0.0 }, { 0.1, 2.5, 1.0, 0.5, 0.9, 0.6 }, { 0.3, 3.0, 0.5, 1.0, 0.2, -0.8 }, { 0.05, 2.2, 2.0, 0.1, 0.01, 0.95 } };
    // far from the usual magnitudes: checked on many agents only
    const vector<P> far = { { 1e-6, 2.1, 100.0, 30.0, 40.0, 0.3 }, { 0.9, 12.0, 1e4, 1e3, 1.0, -0.9 }, { 0.01, 1.5, 1e-4, 1e-3, 1e-6, 0.5 }, { 0.5, 3.0, 300.0, 1e-2, 299.0, 0.0 } };
    auto make     = [=]( const P & c, bool reluct ) {
        S s;
        s.eps               = c.eps;
        s.gamma             = c.gamma;
        s.use_reluctances   = reluct;
        s.reluctance_mean   = c.mean;
        s.reluctance_sigma  = c.sigma;
        s.reluctance_eps    = c.reps;
        s.covariance_factor = c.cov;
        return s;
    };
    for( size_t k = 0; k < ps.size(); k++ )
    {
        auto c      = ps[k];
        auto quant1 = [=]( double q ) { return std::pow( std::pow( c.eps, 1 - c.gamma ) - q * ( std::pow( c.eps, 1 - c.gamma ) - 1 ), 1 / ( 1 - c.gamma ) ); };
        mc::scenario( fmt::format( "{} opinion law {}", nm, k ), [=] {
            for( size_t i = 0; i < 2; i++ )
                joint<A>(
                    2, make( c, k % 2 ), [=]( auto & sim ) { return std::pair( sim.network.agents[i].data.opinion, 0.0 ); }, [=]( double x, double ) { return ( x + 1 ) / 2; },
                    { -0.8, -0.5, 0, 0.5, 0.8 }, { inf }, "opinion" );
            joint<A>(
                2, make( c, k % 2 ), [=]( auto & sim ) { return std::pair( sim.network.agents[0].data.opinion, sim.network.agents[1].data.opinion ); },
                [=]( double x, double y ) { return ( x + 1 ) / 2 * ( y + 1 ) / 2; }, { -0.5, 0, 0.5 }, { -0.5, 0, 0.5 }, "opinions of two agents" );
        } );
        for( size_t i = 0; i < 2; i++ )
            mc::scenario( fmt::format( "{} activity law {} agent {}", nm, k, i ), [=] {
                joint<A>(
                    i + 1, make( c, k % 2 ), [=]( auto & sim ) { return std::pair( sim.network.agents[i].data.activity, 0.0 ); }, [=]( double x, double ) { return power_cdf( x, c.eps, c.gamma ); },
                    { quant1( 0.1 ), quant1( 0.25 ), quant1( 0.5 ), quant1( 0.75 ), quant1( 0.9 ) }, { inf }, "activity" );
            } );
        auto quant2 = [=]( double q ) {
            double lo = c.reps, hi = c.mean + 20 * c.sigma;
            for( int it = 0; it < 200; it++ )
            {
                double m = ( lo + hi ) / 2;
                ( trunc_cdf( m, c.mean, c.sigma, c.reps ) < q ? lo : hi ) = m;
            }
            return hi;
        };
        // the same laws in the other modes: mean activities, mean weights, a bot before the agent
        for( int mode = 1; mode < 4; mode++ )
            if( mc::thorough() || size_t( mode ) == 1 + k % 3 )
                for( int what = 0; what < 3; what++ )
                    mc::scenario( fmt::format( "{} law {} mode {} of attribute {}", nm, k, mode, what ), [=] {
                        auto s            = make( c, what == 2 || k % 2 );
                        s.mean_activities = mode == 1;
                        s.mean_weights    = mode == 2;
                        if( mode == 3 )
                            s = with_bots( s, { { 1 }, { 0.5 }, { 2.5 }, { 0.5 } } );
                        if( what == 1 && mode == 1 )
                            return;
                        joint<A>(
                            2, s,
                            [=]( auto & sim ) {
                                auto & d = sim.network.agents[1].data;
                                return std::pair( what == 0 ? d.opinion : what == 1 ? d.activity : d.reluctance, 0.0 );
                            },
                            [=]( double x, double ) { return what == 0 ? ( x + 1 ) / 2 : what == 1 ? power_cdf( x, c.eps, c.gamma ) : trunc_cdf( x, c.mean, c.sigma, c.reps ); },
                            what == 0   ? vector<double>{ -0.5, 0, 0.5 }
                            : what == 1 ? vector<double>{ quant1( 0.25 ), quant1( 0.5 ), quant1( 0.75 ) }
                                        : vector<double>{ quant2( 0.25 ), quant2( 0.5 ), quant2( 0.75 ) },
                            { inf }, "attribute in another mode" );
                    } );
        for( size_t i = 0; i < 2; i++ )
            mc::scenario( fmt::format( "{} reluctance law {} agent {}", nm, k, i ), [=] {
                joint<A>(
                    i + 1, make( c, true ), [=]( auto & sim ) { return std::pair( sim.network.agents[i].data.reluctance, 0.0 ); },
                    [=]( double x, double ) { return trunc_cdf( x, c.mean, c.sigma, c.reps ); }, { quant2( 0.1 ), quant2( 0.25 ), quant2( 0.5 ), quant2( 0.75 ), quant2( 0.9 ) }, { inf }, "reluctance" );
            } );
        mc::scenario( fmt::format( "{} coupling {}", nm, k ), [=] {
            double quadrant = 0.25 + std::asin( c.cov ) / ( 2 * 3.14159265358979323846 );
            joint<A>(
                1, make( c, true ), [=]( auto & sim ) { return std::pair( sim.network.agents[0].data.activity, sim.network.agents[0].data.reluctance ); }, [=]( double, double ) { return quadrant; },
                { quant1( 0.5 ) }, { quant2( 0.5 ) }, "activity and reluctance" );
        } );
        mc::scenario( fmt::format( "{} opinion and activity {}", nm, k ), [=] {
            joint<A>(
                1, make( c, true ), [=]( auto & sim ) { return std::pair( sim.network.agents[0].data.activity, sim.network.agents[0].data.opinion ); },
                [=]( double x, double y ) { return power_cdf( x, c.eps, c.gamma ) * ( y + 1 ) / 2; }, { quant1( 0.5 ) }, { 0.0 }, "activity and opinion" );
        } );
        // bounds and overrides over extreme words
        for( int reluct = 0; reluct < 2; reluct++ )
            for( int mean = 0; mean < 2; mean++ )
                for( size_t nb = 0; nb < 4; nb++ )
                    mc::scenario( fmt::format( "{} ranges {} reluctances {} mean {} bots {}", nm, k, reluct, mean, nb ), [=] {
                        for( size_t n : { 1, 2, 3, 7 } )
                        {
                            if( nb > n )
                                continue;
                            auto s            = make( c, reluct );
                            s.mean_activities = mean;
                            for( int mw = 0; mw < 2; mw++ )
                            {
                                s.mean_weights = mw;
                                Bots b;
                                for( size_t i = 0; i < nb; i++ )
                                {
                                    b.m.push_back( 1 );
                                    b.activity.push_back( i == 1 ? 0.0 : 0.75 );
                                    b.opinion.push_back( 3.5 - 2 * i );
                                    b.homophily.push_back( 0.5 );
                                }
                                auto t = with_bots( s, b );
                                for( int bg = 0; bg < 3; bg++ )
                                {
                                    mc::Policy p;
                                    p.menu       = { 0, 1, mc::frac( 1e-6 ), mc::frac( 0.5 ), mc::frac( 0.999999 ), ~0ull - 5000, ~0ull };
                                    p.background = bg;
                                    p.max_dev    = n <= 2 ? 2 : 1;
                                    p.horizon    = n <= 2 ? 10 : 40;
                                    vector<std::set<double>> seen( n );
                                    bool all = mc::explore( p, [&] {
                                        auto sim = create<A>( n, t );
                                        mc::step();
                                        check_agents( sim, n, t );
                                        for( size_t i = 0; i < n; i++ )
                                            seen[i].insert( sim.network.agents[i].data.reluctance );
                                    } );
                                    if( all && reluct )
                                        for( size_t i = 0; i < n; i++ )
                                            MC_CHECK( seen[i].size() > 1, "agent {} has the reluctance {} whatever is drawn", i, *seen[i].begin() );
                                }
                            }
                        }
                    } );
    }
    // many agents: all within their bounds, and no two drawn values alike
    for( size_t n : { 40, 130, 300 } )
        for( size_t nb : { size_t( 0 ), size_t( 5 ), n - 1 } )
            mc::scenario( fmt::format( "{} scale n={} bots={}", nm, n, nb ), [=] {
                for( int mode = 0; mode < 16; mode++ )
                {
                    auto c            = mode < 8 ? ps[mode % 4] : far[mode % 4];
                    auto s            = make( c, mode & 1 || mode >= 12 );
                    s.mean_activities = mode & 2;
                    s.mean_weights    = mode & 4;
                    Bots b;
                    for( size_t i = 0; i < nb; i++ )
                    {
                        b.m.push_back( 1 );
                        b.activity.push_back( 0.125 * ( i % 9 ) );
                        b.opinion.push_back( 3.5 - 0.01 * i );
                        b.homophily.push_back( 0.5 );
                    }
                    auto t = with_bots( s, b );
                    mc::Policy p;
                    p.menu       = { mc::frac( 0.5 ) };
                    p.background = mode % 3;
                    p.max_dev    = 0;
                    mc::explore( p, [&] {
                        auto sim = create<A>( n, t );
                        mc::step();
                        check_agents( sim, n, t );
                        std::set<double> x, a, r;
                        for( size_t i = 0; i < n; i++ )
                        {
                            auto & d = sim.network.agents[i].data;
                            x.insert( d.opinion );
                            r.insert( d.reluctance );
                            if( i >= nb )
                                a.insert( d.activity );
                        }
                        MC_CHECK( x.size() == n, "only {} different opinions of {} agents", x.size(), n );
                        MC_CHECK( t.mean_activities || a.size() == n - nb, "only {} different activities of {} agents", a.size(), n - nb );
                        MC_CHECK( !t.use_reluctances || t.reluctance_eps > t.reluctance_mean - t.reluctance_sigma || r.size() == n, "only {} different reluctances of {} agents", r.size(), n );
                        auto lopsided = [&]( const std::set<double> & v, auto && cdf, const char * name ) {
                            size_t below = 0;
                            for( auto y : v )
                                below += cdf( y ) < 0.5;
                            // eight standard deviations
                            MC_CHECK( std::abs( double( below ) - v.size() / 2. ) <= 4 * std::sqrt( double( v.size() ) ) + 1, "{} of {} {} lie in the lower half of the law", below, v.size(), name );
                        };
                        if( !t.mean_activities )
                            lopsided( a, [&]( double y ) { return power_cdf( y, c.eps, c.gamma ); }, "activities" );
                        std::set<double> free;
                        for( size_t i = nb; i < n; i++ )
                            free.insert( sim.network.agents[i].data.opinion );
                        lopsided( free, [&]( double y ) { return ( y + 1 ) / 2; }, "opinions" );
                        // half of the agents cannot all lie in an extreme twentieth: probability < 1e-10 even for n = 40
                        if( t.use_reluctances )
                        {
                            size_t low = 0, high = 0;
                            for( auto v : r )
                            {
                                low += trunc_cdf( v, c.mean, c.sigma, c.reps ) < 0.05;
                                high += trunc_cdf( v, c.mean, c.sigma, c.reps ) > 0.95;
                            }
                            MC_CHECK( low * 2 < r.size() && high * 2 < r.size(), "{} of {} reluctances lie in the lowest twentieth of the law and {} in the highest", low, r.size(), high );
                        }
                    } );
                }
            } );
}

int main( int argc, char ** argv )
{
    return mc::main( "C15", argc, argv, [] {
        mc::bounds( "Both activity-driven models: marginal laws of opinion, activity and reluctance of the first and second agent, pairwise laws of two agents' opinions, opinion and activity, and the "
                    "activity-reluctance coupling, 4 parameter sets, from all combinations of up to 400 cells (budget 60 000, thorough 2 000 000 combinations) of every word that influences the value, normal draws without "
                    "rejection, tolerance 0.004 + 1 / cells; with mean activities, mean weights and bots likewise; up to 300 agents with fixed words; ranges and bot overrides for n = 1..7 with extreme words (0, 1, 2^64-1); DeGroot and bounded-confidence agents for n = 1..64 and to 5041; vector agents exact "
                    "for up to 6 bits." );
        scenarios_for<ActivityAgent>();
        scenarios_for<InertialAgent>();
        mc::scenario( "fixed starts", [] {
            for( int bg = 0; bg < 3; bg++ )
                for( size_t n : [] {
                         vector<size_t> v{ 100, 256, 1000, 1024, 5041 };
                         for( size_t k = 1; k <= 64; k++ )
                             v.push_back( k );
                         return v;
                     }() )
                    for( int kind = 0; kind < 3; kind++ )
                    {
                        if( n > 2000 && bg )
                            continue;
                        size_t L = size_t( std::lround( std::sqrt( n ) ) );
                        if( kind == 2 && L * L != n )
                            continue;
                        mc::Policy p;
                        p.background = bg;
                        p.menu       = { 0, mc::frac( 0.9 ) };
                        p.max_dev    = n > 64 ? 0 : 1;
                        p.horizon    = 3;
                        mc::explore( p, [&] {
                            Config::DeffuantSettings d;
                            d.use_network = kind == 2;
                            auto o        = kind == 0 ? options_degroot( n, std::min<size_t>( 2, n - 1 ), {} ) : options_deffuant( n, d );
                            auto sim      = make_sim<SimpleAgent>( o );
                            mc::step();
                            MC_CHECK( sim.network.agents.size() == n, "{} agents instead of {}", sim.network.agents.size(), n );
                            for( size_t i = 0; i < n; i++ )
                                MC_CHECK( close( sim.network.agents[i].data.opinion, double( i ) / n ), "{} agent {} of {} starts at {}", kind == 0 ? "DeGroot" : "Deffuant", i, n, sim.network.agents[i].data.opinion );
                            mc::Hash h;
                            h( kind )( n );
                            mc::state( h.h );
                        } );
                    }
        } );
        // long vectors: every component is fair and independent of every other one over 256 word sequences
        for( size_t dim : { 33, 70, 130, 600, 3000 } )
            mc::scenario( fmt::format( "long vectors dim={}", dim ), [=] {
                size_t n = dim > 200 ? 1 : 4;
                Config::DeffuantSettings s;
                s.use_binary_vector              = true;
                s.dim                            = dim;
                auto o                           = options_deffuant( n, s );
                o.network_settings.n_connections = 0;
                vector<std::array<mc::u64, 4>> seen( n * dim, { 0, 0, 0, 0 } );
                for( int b = 0; b < 256; b++ )
                {
                    mc::Policy p;
                    p.background = b;
                    p.max_dev    = 0;
                    mc::explore( p, [&] {
                        auto sim = make_sim<DiscreteVectorAgent>( o );
                        mc::step();
                        for( size_t i = 0; i < n; i++ )
                        {
                            auto & v = sim.network.agents[i].data.opinion;
                            MC_CHECK( v.size() == dim, "initial vector of dimension {} instead of {}", v.size(), dim );
                            for( size_t k = 0; k < dim; k++ )
                            {
                                MC_CHECK( v[k] == 0 || v[k] == 1, "initial vector {}", v );
                                seen[i * dim + k][b / 64] |= mc::u64( v[k] ) << ( b % 64 );
                            }
                        }
                        mc::Hash h;
                        h( sim.network.agents[0].data.opinion );
                        mc::state( h.h );
                    } );
                }
                std::map<std::array<mc::u64, 4>, size_t> of;
                for( size_t c = 0; c < n * dim; c++ )
                {
                    int ones = 0;
                    auto t   = seen[c];
                    for( auto & x : t )
                        ones += std::popcount( x );
                    MC_CHECK( ones > 64 && ones < 192, "component {} of agent {} is 1 for {} of 256 word sequences", c % dim, c / dim, ones );
                    if( t[0] & 1 ) // equal or opposite
                        for( auto & x : t )
                            x = ~x;
                    auto [it, fresh] = of.insert( { t, c } );
                    MC_CHECK( fresh, "components {} of agent {} and {} of agent {} are equal or opposite for all of 256 word sequences", c % dim, c / dim, it->second % dim, it->second / dim );
                }
            } );
        for( size_t n = 1; n <= 4; n++ )
            for( size_t dim = 1; dim <= 6; dim++ )
                for( int lat = 0; lat < 2; lat++ )
                    if( n * dim <= 6 && ( !lat || n != 2 && n != 3 ) )
                        mc::scenario( fmt::format( "vectors n={} dim={} lattice {}", n, dim, lat ), [=] {
                            std::map<vector<vector<int>>, double> prob;
                            Config::DeffuantSettings s;
                            s.use_binary_vector              = true;
                            s.use_network                    = lat;
                            s.dim                            = dim;
                            auto o                           = options_deffuant( n, s );
                            o.network_settings.n_connections = 0;
                            bool all                         = mc::explore( {}, [&] {
                                auto sim = make_sim<DiscreteVectorAgent>( o );
                                mc::step();
                                vector<vector<int>> x;
                                for( auto & a : sim.network.agents )
                                    x.push_back( a.data.opinion );
                                prob[x] += mc::weight();
                            } );
                            if( all )
                            {
                                for( auto & [x, w] : prob )
                                {
                                    MC_CHECK( x.size() == n, "{} agents", x.size() );
                                    for( auto & v : x )
                                    {
                                        MC_CHECK( v.size() == dim, "initial vector {} of dimension {}", v, dim );
                                        for( int b : v )
                                            MC_CHECK( b == 0 || b == 1, "initial vector {}", v );
                                    }
                                    MC_CHECK( close( w, std::pow( 0.5, n * dim ) ), "initial vectors {} have probability {}", x, w );
                                    mc::Hash h;
                                    h( x );
                                    mc::state( h.h );
                                }
                                MC_CHECK( prob.size() == 1u << n * dim, "only {} different initial states", prob.size() );
                            }
                        } );
    } );
}
