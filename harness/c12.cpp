// MC: rng
// C12: every iteration of the activity-driven model against a Runge-Kutta reference on the iteration's network.
#include "activity.hpp"

// A model used without a simulation around it
struct Direct
{
    Network<ActivityAgent> network;
    std::unique_ptr<ActivityDrivenModel> model;
    Direct( const Dyn & d, std::mt19937 & gen ) : network( d.n ), model( std::make_unique<ActivityDrivenModel>( d.s, network, gen ) ) {}
};
static void iterate( Simulation<ActivityAgent> & s )
{
    s.model->iteration();
}
static void iterate( Direct & s )
{
    s.model->ActivityDrivenModel::iteration(); // the call that a compiler may make of model.iteration()
}
template<typename S>
static void set_direct( S & s, const Dyn & d )
{
    for( size_t i = 0; i < d.n; i++ )
    {
        s.network.agents[i].data.opinion  = d.x0[i];
        s.network.agents[i].data.activity = d.act[i];
    }
}

template<typename S>
static void run( S & sim, const Dyn & d, int iterations, bool set )
{
    size_t nb = d.bots.size();
    if( set )
        set_direct( sim, d );
    if( set )
        for( size_t i = 0; i < d.n; i++ )
            sim.network.agents[i].data.reluctance = d.rel[i];
    vector<double> act, rel;
    for( auto & a : sim.network.agents )
        act.push_back( a.data.activity ), rel.push_back( a.data.reluctance );
    auto opinions = []( auto & s ) {
        vector<double> x;
        for( auto & a : s.network.agents )
            x.push_back( a.data.opinion );
        return x;
    };
    if( !set && !d.s.use_reluctances )
        for( double r : rel )
            MC_CHECK( r == 1.0, "reluctance {} although reluctances are off", r );
    for( size_t b = 0; b < nb; b++ )
        MC_CHECK( sim.network.agents[b].data.opinion == d.bots.opinion[b], "bot {} has opinion {} instead of {} before the first iteration", b, sim.network.agents[b].data.opinion, d.bots.opinion[b] );
    auto x0 = opinions( sim );
    for( int it = 0; it < iterations; it++ )
    {
        if( set && it > 0 ) // somebody else changes the agents
        {
            std::rotate( rel.begin(), rel.begin() + 1, rel.end() );
            for( size_t i = 0; i < d.n; i++ )
                sim.network.agents[i].data.reluctance = rel[i];
        }
        auto x = opinions( sim );
        iterate( sim );
        mc::step();
        auto y = opinions( sim );
        MC_CHECK( y.size() == d.n, "{} agents", y.size() );
        auto e = edges_of( sim.network );
        auto f = [&]( const vector<double> & z ) { return force( e, z, rel, d.s.K, d.s.alpha ); };
        auto k1 = f( x ), k2 = f( axpy( x, d.s.dt / 2, k1 ) ), k3 = f( axpy( x, d.s.dt / 2, k2 ) ), k4 = f( axpy( x, d.s.dt, k3 ) );
        double scale = force_scale( e, x, rel, d.s.K, d.s.alpha );
        for( size_t i = 0; i < d.n; i++ )
            scale = std::max( { scale, std::abs( x[i] ), std::abs( k1[i] ), std::abs( k2[i] ), std::abs( k3[i] ), std::abs( k4[i] ) } );
        for( size_t i = 0; i < d.n; i++ )
        {
            double want = i < nb ? d.bots.opinion[i] : x[i] + d.s.dt / 6 * ( k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i] );
            MC_CHECK( i < nb ? y[i] == want : std::abs( y[i] - want ) <= 1e-11 * scale * std::max( 1.0, d.s.dt ),
                "iteration {}: opinion of {} {} goes from {} to {} instead of {} (opinions {}, network {}, dt {} K {} alpha {} reluctances {})", it + 1, i < nb ? "bot" : "agent", i, x[i], y[i], want, x,
                str( e ), d.s.dt, d.s.K, d.s.alpha, rel );
        }
        for( size_t i = 0; i < d.n; i++ )
            MC_CHECK( sim.network.agents[i].data.activity == act[i] && sim.network.agents[i].data.reluctance == rel[i], "activities or reluctances changed" );
        mc::Hash h;
        h( x );
        hash( h, e );
        mc::state( h.h );
        h( y );
        mc::outcome( h.h );
    }
    if( mc::want_sample() )
        mc::sample( fmt::format( "dt {} K {} alpha {} bots {}: {} -> {} after {} iterations, last network {}", d.s.dt, d.s.K, d.s.alpha, nb, x0, opinions( sim ), iterations, str( edges_of( sim.network ) ) ) );
}

int main( int argc, char ** argv )
{
    return mc::main( "C12", argc, argv, [] {
        mc::bounds( "129 parameter sets (n = 1..5000, dt 0.01..1, K, alpha, reciprocity, reluctances, 0-15 bots, drawn and mean-field networks): all draws over 2 cells of the first 9-12 words and "
                    "up to 1-2 deviating draws from several base sequences, 2-4 iterations each (16 large cases or histories of 150-1100 iterations over 1-4 base sequences), every iteration compared with the reference; freshly created agents as well as set ones; simulations and models on their own." );
        auto cases = dynamics_cases();
        for( size_t c = 0; c < cases.size(); c++ )
            mc::scenario( fmt::format( "case {} n={}", c, cases[c].n ), [d = cases[c]] {
                auto sim = make_activity<ActivityAgent>( d.n, d.s );
                if( d.iterations > 0 )
                {
                    for( int bg = 0; bg < backgrounds( d ); bg++ )
                        mc::explore( long_policy( bg, d ), [&] { run( sim, d, d.iterations * ( mc::thorough() ? 4 : 1 ), true ); } );
                    return;
                }
                if( !d.s.mean_weights )
                {
                    mc::Policy p;
                    p.horizon = mc::thorough() ? 14 : 10;
                    mc::explore( p, [&] { run( sim, d, 2, true ); } );
                }
                for( int bg = 0; bg < ( mc::thorough() ? 6 : 2 ); bg++ )
                {
                    mc::Policy p;
                    p.menu       = mc::cells( 3 );
                    p.background = bg;
                    p.max_dev    = mc::thorough() && d.n <= 4 ? 2 : 1;
                    p.horizon    = 60;
                    mc::explore( p, [&] { run( sim, d, 4, true ); } );
                }
                // the model on its own
                {
                    mc::Policy p;
                    p.menu    = mc::cells( 3 );
                    p.max_dev = 1;
                    p.horizon = 20;
                    mc::Quiet q;
                    std::mt19937 gen( 1 );
                    Direct direct( d, gen );
                    mc::explore( p, [&] { run( direct, d, 3, true ); } );
                }
                // as created, without setting any agent
                for( int bg = 0; bg < 4; bg++ )
                {
                    mc::Policy p;
                    p.background = bg;
                    p.menu       = mc::cells( 3 );
                    p.max_dev    = 1;
                    p.horizon    = 20;
                    if( d.n >= d.bots.size() )
                        mc::explore( p, [&] {
                            auto fresh = make_sim<ActivityAgent>( Sim<ActivityAgent>::options( d.n, d.s ) );
                            run( fresh, d, 3, false );
                        } );
                }
            } );
    } );
}
