// MC: rng
// C14: every iteration of the inertial model against a velocity-Verlet reference on the iteration's network.
#include "activity.hpp"

static vector<double> velocities( const Simulation<InertialAgent> & s )
{
    vector<double> v;
    for( auto & a : s.network.agents )
        v.push_back( a.data.velocity );
    return v;
}

static void run( Simulation<InertialAgent> & sim, const Dyn & d, int iterations, bool set )
{
    size_t nb = d.bots.size();
    if( set )
        set_agents( sim, d.x0, d.act );
    for( size_t i = 0; set && i < d.n; i++ )
    {
        sim.network.agents[i].data.velocity = d.v0[i];
        sim.network.agents[i].data.reluctance = d.rel[i];
    }
    auto act = activities( sim ), rel = reluctances( sim );
    if( !set && !d.s.use_reluctances )
        for( double r : rel )
            MC_CHECK( r == 1.0, "reluctance {} although reluctances are off", r );
    for( size_t b = 0; b < nb; b++ )
        MC_CHECK( sim.network.agents[b].data.opinion == d.bots.opinion[b], "bot {} has opinion {} instead of {} before the first iteration", b, sim.network.agents[b].data.opinion, d.bots.opinion[b] );
    auto x0   = opinions( sim );
    double dt = d.s.dt, mu = d.friction;
    for( int it = 0; it < iterations; it++ )
    {
        if( set && it > 0 ) // somebody else changes the agents
        {
            std::rotate( rel.begin(), rel.begin() + 1, rel.end() );
            for( size_t i = 0; i < d.n; i++ )
                sim.network.agents[i].data.reluctance = rel[i];
        }
        auto x = opinions( sim ), v = velocities( sim );
        sim.model->iteration();
        mc::step();
        auto y = opinions( sim ), u = velocities( sim );
        MC_CHECK( y.size() == d.n, "{} agents", y.size() );
        auto e  = edges_of( sim.network );
        auto F0 = force( e, x, rel, d.s.K, d.s.alpha );
        vector<double> z( d.n ), w( d.n );
        double scale = force_scale( e, x, rel, d.s.K, d.s.alpha );
        for( size_t i = 0; i < d.n; i++ )
            z[i] = x[i] + v[i] * dt + ( F0[i] - mu * v[i] ) * dt * dt / 2;
        auto F1 = force( e, z, rel, d.s.K, d.s.alpha );
        for( size_t i = 0; i < d.n; i++ )
        {
            w[i]  = ( v[i] + dt * ( F0[i] - mu * v[i] + F1[i] ) / 2 ) / ( 1 + mu * dt / 2 );
            scale = std::max( { scale, std::abs( x[i] ), std::abs( v[i] ), std::abs( F0[i] ), std::abs( F1[i] ) } );
        }
        for( size_t i = 0; i < d.n; i++ )
        {
            double want = i < nb ? d.bots.opinion[i] : z[i];
            MC_CHECK( i < nb ? y[i] == want : std::abs( y[i] - want ) <= 1e-11 * scale, "iteration {}: opinion of {} {} goes from {} (velocity {}) to {} instead of {} (network {}, dt {} friction {} K {} alpha {})",
                it + 1, i < nb ? "bot" : "agent", i, x[i], v[i], y[i], want, str( e ), dt, mu, d.s.K, d.s.alpha );
            MC_CHECK( std::abs( u[i] - w[i] ) <= 1e-11 * scale, "iteration {}: velocity of {} {} goes from {} (opinion {}) to {} instead of {} (network {}, dt {} friction {} K {} alpha {})", it + 1,
                i < nb ? "bot" : "agent", i, v[i], x[i], u[i], w[i], str( e ), dt, mu, d.s.K, d.s.alpha );
        }
        MC_CHECK( activities( sim ) == act && reluctances( sim ) == rel, "activities or reluctances changed" );
        mc::Hash h;
        h( x )( v );
        hash( h, e );
        mc::state( h.h );
        h( y )( u );
        mc::outcome( h.h );
    }
    if( mc::want_sample() )
        mc::sample( fmt::format( "dt {} friction {} K {} bots {}: {} -> {} after {} iterations, last network {}", dt, mu, d.s.K, nb, x0, opinions( sim ), iterations, str( edges_of( sim.network ) ) ) );
}

int main( int argc, char ** argv )
{
    return mc::main( "C14", argc, argv, [] {
        mc::bounds( "129 parameter sets (n = 1..5000, dt 0.01..1, friction 0..2.25, K, alpha, reciprocity, reluctances, 0-15 bots, drawn and mean-field networks): all draws over 2 cells of the first "
                    "words and up to 1-2 deviating draws from several base sequences, 2-4 iterations each (16 large cases or histories of 150-1100 iterations over 1-4 base sequences), every iteration compared with the reference; freshly created agents as well as set ones." );
        auto cases = dynamics_cases();
        for( size_t c = 0; c < cases.size(); c++ )
            mc::scenario( fmt::format( "case {} n={}", c, cases[c].n ), [d0 = cases[c], c] {
                auto d = d0;
                if( c % 7 == 3 )
                    d.friction = 0;
                auto sim = make_activity<InertialAgent>( d.n, d.s, d.friction );
                if( d.iterations > 0 )
                {
                    for( int bg = 0; bg < backgrounds( d ); bg++ )
                        mc::explore( long_policy( bg, d ), [&] { run( sim, d, d.iterations * ( mc::thorough() ? 4 : 1 ), true ); } );
                    return;
                }
                if( !d.s.mean_weights )
                {
                    mc::Policy p;
                    p.horizon = mc::thorough() ? 14 : 10;
                    mc::explore( p, [&] { run( sim, d, 2, true ); } );
                }
                for( int bg = 0; bg < ( mc::thorough() ? 6 : 2 ); bg++ )
                {
                    mc::Policy p;
                    p.menu       = mc::cells( 3 );
                    p.background = bg;
                    p.max_dev    = mc::thorough() && d.n <= 4 ? 2 : 1;
                    p.horizon    = 60;
                    mc::explore( p, [&] { run( sim, d, 4, true ); } );
                }
                for( int bg = 0; bg < 4; bg++ )
                {
                    mc::Policy p;
                    p.background = bg;
                    p.menu       = mc::cells( 3 );
                    p.max_dev    = 1;
                    p.horizon    = 20;
                    if( d.n >= d.bots.size() )
                        mc::explore( p, [&] {
                            auto fresh = make_sim<InertialAgent>( Sim<InertialAgent>::options( d.n, d.s, d.friction ) );
                            run( fresh, d, 3, false );
                        } );
                }
            } );
    } );
}
