// MC: rng
// C13: mean-field weights against the recurrence for the contact rounds.
#include "activity.hpp"

struct MF
{
    vector<double> x, act;
    int m;
    double h, rc;
    Bots bots;
};

static vector<vector<double>> expected( const MF & c, const vector<double> & x, const vector<double> & act )
{
    size_t n = x.size();
    vector<vector<double>> p( n, vector<double>( n, 0.0 ) ), w = p;
    for( size_t i = 0; i < n; i++ )
    {
        double h = i < c.bots.size() ? c.bots.homophily[i] : c.h;
        int m    = i < c.bots.size() ? c.bots.m[i] : c.m;
        vector<double> om( n, 0.0 );
        double sum = 0;
        for( size_t j = 0; j < n; j++ )
            if( j != i )
                sum += om[j] = std::pow( std::max( 1e-10, std::abs( x[i] - x[j] ) ), -h );
        for( size_t j = 0; j < n; j++ )
        {
            if( j == i )
                continue;
            double o = om[j] / sum, q = 0;
            for( int r = 1; r <= m; r++ )
            {
                q = o * ( 1 - q ); // picked in this round: not in the round before
                p[i][j] += q;
            }
            p[i][j] *= act[i];
        }
    }
    for( size_t i = 0; i < n; i++ )
        for( size_t j = 0; j < n; j++ )
            if( i != j )
                w[i][j] = p[j][i] + ( 1 - p[j][i] ) * c.rc * p[i][j];
    return w;
}

template<typename A>
static void run( Simulation<A> & sim, const MF & c, int iterations )
{
    size_t n = c.x.size();
    set_agents( sim, c.x, c.act );
    for( int it = 0; it < iterations; it++ )
    {
        auto x = opinions( sim ), act = activities( sim );
        sim.model->iteration();
        mc::step();
        auto e = edges_of( sim.network );
        MC_CHECK( e.size() == n && sim.network.direction() == Network<A>::EdgeDirection::Incoming, "{} agents", e.size() );
        auto want = expected( c, x, act );
        auto amax = act;
        for( auto & a : amax )
            a = std::max( 1.0, a );
        auto bug   = expected( c, x, amax );
        bool known = false;
        for( size_t i = 0; i < n; i++ )
        {
            MC_CHECK( e[i].size() == n, "iteration {}: agent {} has {} neighbours in a mean field of {}", it + 1, i, e[i].size(), n );
            vector<char> seen( n, 0 );
            for( auto & [j, w] : e[i] )
            {
                MC_CHECK( j < n && !seen[j], "iteration {}: agent {} has neighbour {} twice", it + 1, i, j );
                seen[j] = 1;
                if( !close( w, want[i][j], 1e-9, 1e-13 ) )
                {
                    MC_CHECK( close( w, bug[i][j], 1e-9, 1e-13 ), "iteration {}: weight of {} for {} is {} instead of {} (opinions {}, activities {}, m {}, homophily {}, reciprocity {}, {} bots)", it + 1, j, i, w,
                        want[i][j], x, act, c.m, c.h, c.rc, c.bots.size() );
                    if( !known )
                        mc::known( "c13-max-activity", fmt::format( "opinions {} activities {} m {}: weight of {} for {} is {} instead of {}, as if every activity below 1 were 1", x, act, c.m, j, i, w, want[i][j] ) );
                    known = true;
                }
            }
        }
        mc::Hash h;
        h( x )( act )( c.m )( c.h )( c.rc );
        mc::state( h.h );
        hash( h, e );
        mc::outcome( h.h );
        if( mc::want_sample() )
            mc::sample( fmt::format( "opinions {} activities {} m {} homophily {} reciprocity {}: {}", x, act, c.m, c.h, c.rc, str( e ) ) );
    }
}

template<typename A>
static void scenarios_for()
{
    std::string nm = Sim<A>::name;
    auto make      = [&]( const MF & c, int quiet = 0 ) {
        AS s;
        s.m            = c.m;
        s.homophily    = c.h;
        s.reciprocity  = c.rc;
        s.mean_weights = true;
        s.dt           = 0.1;
        return make_activity<A>( c.x.size(), with_bots( s, c.bots ), 1.0, quiet );
    };
    const vector<double> X = { 0.0, 1.0, -0.5, 0.25 };
    for( int acts = 0; acts < 2; acts++ ) // 0: activities 1 only; 1: others too
        for( int m : { 0, 1, 2, 3, 10 } )
            for( double h : { -1.0, 0.0, 0.5, 2.0 } )
                for( double rc : { 0.0, 0.5, 1.0 } )
                    mc::scenario( fmt::format( "{} acts {} m={} h={} r={}", nm, acts, m, h, rc ), [=] {
                        for( size_t n = 1; n <= ( mc::thorough() ? 4 : 3 ); n++ )
                        {
                            MF c{ vector<double>( n, 0 ), vector<double>( n, 1 ), m, h, rc, {} };
                            auto sim = make( c );
                            mc::explore( {}, [&] {
                                auto d = c;
                                for( auto & x : d.x )
                                    x = mc::pick( X );
                                if( acts )
                                    for( auto & a : d.act )
                                        a = mc::pick( { 1.0, 0.3, 0.0 } );
                                run( sim, d, 2 );
                            } );
                        }
                    } );
    // bots with their own contact count, homophily and activity; larger networks
    for( size_t n : { 2, 3, 4, 6, 10, 25 } )
        for( size_t nb = 0; nb <= std::min<size_t>( n, 3 ); nb++ )
            mc::scenario( fmt::format( "{} n={} bots={}", nm, n, nb ), [=] {
                mc::explore( {}, [&] {
                    MF c;
                    int one = mc::choose( 2 ), xs = mc::choose( 4 );
                    c.m     = mc::pick( { 1, 2, 7, 50 } );
                    c.h     = mc::pick( { 0.5, 1.5, -0.5, 8.0, -6.0 } );
                    c.rc    = mc::pick( { 0.25, 1.0 } );
                    for( size_t i = 0; i < n; i++ )
                    {
                        c.x.push_back( xs == 0 ? ( ( i * 5 + 2 ) % 7 ) / 4.0 - 0.8 : xs == 1 ? ( i % 3 ) * 0.4 : xs == 2 ? double( i ) : 0.5 + 1e-4 * ( ( i * 5 ) % 7 ) + 1e-8 * ( i % 2 ) );
                        c.act.push_back( one ? 1.0 : 0.05 + 0.9 * ( ( i * 3 ) % 5 ) / 4.0 );
                    }
                    for( size_t b = 0; b < nb; b++ )
                    {
                        c.bots.m.push_back( b == 0 ? 4 : b == 1 ? 0 : 1 );
                        c.bots.homophily.push_back( b == 0 ? 0.0 : b == 1 ? ( one ? 3.0 : 7.5 ) : -1.0 );
                        c.bots.opinion.push_back( c.x[b] );
                        c.bots.activity.push_back( c.act[b] );
                    }
                    auto sim = make( c, mc::choose( 2 ) );
                    run( sim, c, 4 );
                } );
            } );
    // more bots, larger networks, long histories
    for( size_t n : { 5, 12, 60, 150, 320 } )
        mc::scenario( fmt::format( "{} scale n={}", nm, n ), [=] {
            mc::explore( {}, [&] {
                MF c;
                int xs = mc::choose( 2 );
                c.m    = mc::pick( { 3, n > 200 ? 70 : n == 5 ? 300 : 10 } );
                c.h    = mc::pick( { 0.5, 1.25 } );
                c.rc   = 0.5;
                for( size_t i = 0; i < n; i++ )
                {
                    c.x.push_back( xs == 0 ? ( ( i * 5 + 2 ) % 17 ) / 9.0 - 0.8 : ( i * 37 % 101 ) / 50.0 - 1 );
                    c.act.push_back( 0.01 + 0.99 * ( ( i * 3 ) % 11 ) / 10.0 );
                }
                for( size_t b = 0; b < std::min<size_t>( n, 9 ); b++ )
                {
                    c.bots.m.push_back( int( b * 3 % 7 ) );
                    c.bots.homophily.push_back( b * 0.4 - 1 );
                    c.bots.opinion.push_back( c.x[b] );
                    c.bots.activity.push_back( c.act[b] );
                }
                auto sim = make( c );
                run( sim, c, n < 20 ? 300 : n > 200 ? 2 : 8 );
            } );
        } );
}

int main( int argc, char ** argv )
{
    return mc::main( "C13", argc, argv, [] {
        mc::bounds( "Both activity-driven models in mean-field mode: n = 1..3 (thorough 4), all opinion assignments from 4 values (also equal ones), activities from {1} or {0, 0.3, 1}, contact counts 0..10, 4 "
                    "homophilies, 3 reciprocities, 2 iterations; n = 2..25 with 0-3 bots, 4 iterations; n = 5..320 with up to 9 bots, contact counts to 300, 2-300 iterations. The weights are compared with the recurrence of the contact rounds at the opinions before the iteration." );
        scenarios_for<ActivityAgent>();
        scenarios_for<InertialAgent>();
    } );
}
