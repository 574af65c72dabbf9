// MC: rng
// C28: every accepted configuration is refused at construction or runs cleanly (address and undefined-behaviour
// sanitizers, _GLIBCXX_ASSERTIONS), over a matrix of degenerate counts and all models.
#include "activity.hpp"

using Opt = Config::SimulationOptions;

template<typename A>
static bool finite( const A & a )
{
    if constexpr( std::is_same_v<A, DiscreteVectorAgent> )
        return true;
    else
        return std::isfinite( a.data.opinion );
}
template<typename A>
static std::string opinion( const A & a )
{
    return fmt::format( "{}", a.data.opinion );
}
template<typename A>
static void examine( const Simulation<A> & s, const std::string & what, int step, bool deep )
{
    auto & net = s.network;
    size_t n   = net.n_agents();
    MC_CHECK( net.agents.size() == n, "{}: {} agents, but {} lists after step {}", what, net.agents.size(), n, step );
    mc::Hash h;
    size_t edges = 0;
    for( size_t i = 0; i < n; i++ )
    {
        auto nb = net.get_neighbours( i );
        auto w  = net.get_weights( i );
        MC_CHECK( nb.size() == w.size(), "{}: agent {} has {} neighbours and {} weights after step {}", what, i, nb.size(), w.size(), step );
        for( auto j : nb )
            MC_CHECK( j < n, "{}: agent {} has neighbour {} of {} after step {}", what, i, j, n, step );
        edges += nb.size();
        if( deep )
            h( nb )( w );
        MC_CHECK( finite( net.agents[i] ), "{}: opinion {} of agent {} after step {}", what, opinion( net.agents[i] ), i, step );
        if constexpr( std::is_same_v<A, DiscreteVectorAgent> )
            h( net.agents[i].data.opinion );
        else
            h( net.agents[i].data.opinion );
    }
    MC_CHECK( net.n_edges() == edges, "{}: {} edges reported, {} stored after step {}", what, net.n_edges(), edges, step );
    mc::state( h.h );
}

static vector<std::string> & descriptions()
{
    static vector<std::string> d;
    return d;
}
template<typename A>
static void attempt( const Opt & o, std::optional<std::string> nf, std::optional<std::string> af, int steps, const std::string & what, bool by_run = false )
{
    try
    {
        Config::validate_settings( o );
    }
    catch( const std::exception & )
    {
        return; // not accepted
    }
    std::unique_ptr<Simulation<A>> s;
    try
    {
        s = std::make_unique<Simulation<A>>( o, nf, af );
    }
    catch( const std::exception & e )
    {
        mc::outcome( mc::Hash()( std::string( e.what() ) ).h );
        return; // refused
    }
    examine( *s, what, 0, true );
    if( by_run )
    {
        s->run( mc::scratch() );
        mc::step( steps );
        examine( *s, what, steps, true );
    }
    else
    {
        s->model->initialize_iterations();
        for( int k = 1; k <= steps; k++ )
        {
            s->model->iteration();
            (void)s->model->finished();
            mc::step();
            examine( *s, what, k, true );
        }
    }
    // what a user may do with the result
    (void)s->network.strongly_connected_components();
    if( mc::want_sample() && steps > 1 )
        mc::sample( fmt::format( "{}: ran {} steps with {} agents and {} edges", what, steps, s->network.n_agents(), s->network.n_edges() ) );
}
template<typename A>
static void attempt_any( const Opt & o, std::optional<std::string> nf, std::optional<std::string> af, int steps, const std::string & what, bool by_run = false )
{
    auto opt = o;
    std::visit( [&]( auto & m ) { m.max_iterations = steps; }, opt.model_settings );
    if( by_run )
    {
        opt.output_settings.n_output_agents  = 1;
        opt.output_settings.n_output_network = 1;
    }
    attempt<A>( opt, nf, af, steps, what, by_run );
}

// ---- files: n rows of agents or of a network; some malformed
static std::string network_file( int n, int form )
{
    auto p = mc::scratch() + "/network.txt";
    std::ofstream f( p );
    f << "# idx, n, neighbours, weights\n";
    for( int i = 0; i < n; i++ )
    {
        vector<int> nb;
        for( int j = 0; j < n; j++ )
            if( form == 0 ? j == ( i + 1 ) % n : form == 1 ? j != i : form == 2 ? i == 0 : ( i + j ) % 3 == 0 )
                nb.push_back( j );
        if( form == 4 && i == n - 1 )
            nb.push_back( n ); // one past the end
        if( form == 5 && i == 0 )
            nb.push_back( -1 );
        if( form == 6 && i == 0 )
            nb.push_back( 100000 );
        f << i << ", " << nb.size();
        for( int j : nb )
            f << ", " << j;
        size_t weights = nb.size();
        if( form == 7 && i == n - 1 && weights ) // a weight is missing
            weights--;
        if( form == 8 && i == 0 ) // one too many
            weights++;
        for( size_t k = 0; k < weights; k++ )
            f << ", " << 1.0 / nb.size();
        f << "\n";
    }
    return p;
}
template<typename A>
static std::string agent_file( int n )
{
    auto p = mc::scratch() + "/agents.txt";
    std::ofstream f( p );
    f << "# idx, data\n";
    for( int i = 0; i < n; i++ )
    {
        f << i;
        if constexpr( std::is_same_v<A, DiscreteVectorAgent> )
            f << ", " << i % 2 << ", 1, 0";
        else
            f << ", " << 0.25 * i - 0.5;
        if constexpr( std::is_same_v<A, InertialAgent> )
            f << ", 0.5";
        if constexpr( std::is_same_v<A, InertialAgent> || std::is_same_v<A, ActivityAgent> )
            f << ", " << ( i % 2 ? 1.0 : 0.25 ) << ", 1.5";
        f << "\n";
    }
    return p;
}

static mc::Policy fixed( int bg )
{
    mc::Policy p;
    p.background = bg;
    p.max_dev    = 0;
    return p;
}
// one extreme word anywhere (thorough: two)
static mc::Policy extreme( int bg, int devs = 1 )
{
    mc::Policy p;
    p.background = bg;
    p.menu       = mc::fracs( { 1e-15, 0.999999 } );
    p.menu.push_back( ~0ull );
    p.max_dev = devs;
    return p;
}

template<typename A>
static void degroot_and_files()
{
}

static Bots pick_bots( int n )
{
    Bots b;
    int k = mc::pick( { 0, 1, n, n + 1, 2 * n + 3 } );
    for( int i = 0; i < k; i++ )
    {
        b.m.push_back( i % 3 == 0 ? n + 4 : i % 3 == 1 ? 0 : 1 );
        b.activity.push_back( i % 2 ? 1.0 : 0.5 );
        b.opinion.push_back( i % 2 ? -3.0 : 1e3 );
        b.homophily.push_back( i % 3 - 1.0 );
    }
    return b;
}
static std::string show( const AS & s )
{
    return fmt::format( "m {} dt {} eps {} gamma {} alpha {} homophily {} reciprocity {} K {} mean activities {} mean weights {} bots {} reluctances {} ({}, {}, {}) covariance {}", s.m, s.dt, s.eps, s.gamma, s.alpha, s.homophily,
        s.reciprocity, s.K, s.mean_activities, s.mean_weights, s.n_bots, s.use_reluctances, s.reluctance_mean, s.reluctance_sigma, s.reluctance_eps, s.covariance_factor );
}

template<typename A>
static void activity_model()
{
    const int steps = 3;
    for( int n : { 0, 1, 2, 3, 5 } )
    {
        // counts against each other
        for( int mean = 0; mean < 2; mean++ )
            mc::scenario( fmt::format( "{} counts n={} mean weights {}", Sim<A>::name, n, mean ), [=] {
                for( int bg = 0; bg < ( mc::thorough() ? 4 : 2 ); bg++ )
                    mc::explore( fixed( bg ), [&] {
                        AS s;
                        s.mean_weights    = mean;
                        s.m               = mc::pick( { 0, 1, std::max( 0, n - 1 ), n, n + 1, 10, 1000 } );
                        s.mean_activities = mc::choose( 2 );
                        s.use_reluctances = mc::choose( 2 );
                        s.reciprocity     = mc::pick( { 0.0, 0.5, 1.0, 3.0 } );
                        s.eps             = mc::pick( { 0.01, 1.0 } );
                        s.homophily       = mc::pick( { 0.0, 0.5, 5.0, -2.0 } );
                        s                 = with_bots( s, pick_bots( n ) );
                        auto o            = Sim<A>::options( n, s );
                        o.network_settings.n_connections = mc::pick( { 0, 1, n, n + 7 } );
                        attempt_any<A>( o, std::nullopt, std::nullopt, steps, fmt::format( "{} n {} connections {} {}", Sim<A>::name, n, o.network_settings.n_connections, show( s ) ) );
                    } );
            } );
        // parameter values
        mc::scenario( fmt::format( "{} parameters n={}", Sim<A>::name, n ), [=] {
            for( int bg = 0; bg < ( mc::thorough() ? 4 : 1 ); bg++ )
                mc::explore( fixed( bg ), [&] {
                    AS s;
                    s.m                 = 2;
                    s.mean_weights      = mc::choose( 2 );
                    s.dt                = mc::pick( { 1e-4, 0.1, 1.0 } );
                    s.gamma             = mc::pick( { 2.0001, 2.1, 5.0 } );
                    s.alpha             = mc::pick( { 0.0, 3.0, 100.0 } );
                    s.K                 = mc::pick( { -3.0, 0.0, 3.0, 20.0 } );
                    s.eps               = mc::pick( { 1e-6, 0.5 } );
                    s.use_reluctances   = true;
                    s.reluctance_mean   = mc::pick( { 0.5, 2.0 } );
                    s.reluctance_sigma  = mc::pick( { 0.05, 1.0 } );
                    s.reluctance_eps    = mc::pick( { 1e-3, 0.4 } );
                    s.covariance_factor = mc::pick( { -1.0, 0.0, 0.5, 1.0 } );
                    auto o              = Sim<A>::options( n, s, mc::pick( { 0.0, 2.0 } ) );
                    attempt_any<A>( o, std::nullopt, std::nullopt, steps, fmt::format( "{} n {} {}", Sim<A>::name, n, show( s ) ) );
                } );
        } );
        // extreme random words
        for( int mean = 0; mean < 2; mean++ )
            for( int m : { 1, 2, 10 } )
                mc::scenario( fmt::format( "{} extreme words n={} mean weights {} m={}", Sim<A>::name, n, mean, m ), [=] {
                    for( int bg = 0; bg < ( mc::thorough() ? 3 : 2 ); bg++ )
                        mc::explore( extreme( bg, mc::thorough() && n < 4 ? 2 : 1 ), [&] {
                            AS s;
                            s.mean_weights    = mean;
                            s.m               = m;
                            s.use_reluctances = mc::choose( 2 );
                            s.homophily       = mc::pick( { 0.5, 5.0 } );
                            s.covariance_factor = s.use_reluctances ? 0.5 : 0;
                            if( mc::choose( 2 ) )
                                s = with_bots( s, { { 3 }, { 0.7 }, { 5.0 }, { 0.0 } } );
                            auto o = Sim<A>::options( n, s );
                            attempt_any<A>( o, std::nullopt, std::nullopt, 2, fmt::format( "{} n {} {}", Sim<A>::name, n, show( s ) ) );
                        } );
                } );
    }
}

template<typename A>
static void files( const std::string & name, const std::function<Opt( size_t n )> & make )
{
    mc::scenario( "files " + name, [=] {
        for( int bg = 0; bg < ( mc::thorough() ? 4 : 1 ); bg++ )
            mc::explore( fixed( bg ), [&] {
                int n_conf = mc::pick( { 0, 1, 3, 4 } ), n_net = mc::pick( { -1, 0, 1, 2, 3, 4, 9 } ), n_agents = mc::pick( { -1, 0, 1, 2, 3, 4, 5, 9 } );
                int form   = n_net > 0 ? mc::choose( 9 ) : 0;
                int via    = n_net >= 0 ? mc::choose( 2 ) : 0;
                auto o     = make( n_conf );
                std::optional<std::string> nf, af;
                if( n_net >= 0 )
                    ( via ? o.network_settings.file : nf ) = network_file( n_net, form );
                if( n_agents >= 0 )
                    af = agent_file<A>( n_agents );
                attempt_any<A>( o, nf, af, 3, fmt::format( "{} with {} agents configured, {} in the network file (form {}), {} in the agent file", name, n_conf, n_net, form, n_agents ), mc::choose( 2 ) );
            } );
    } );
}

int main( int argc, char ** argv )
{
    return mc::main( "C28", argc, argv, [] {
        mc::bounds( "All combinations of agent counts 0-9, connections, contacts and bots below, at and above the number of agents, and the settings that change the course of a simulation, for all models, 3 steps each, from fixed word sequences; "
                    "one (thorough: up to two) extreme random words at any position; network and agent files of every length from 0 to 9 against every configured count, with neighbours outside the network and missing weights; chains of 150000 agents. "
                    "Everything under address and undefined-behaviour sanitizers." );
        // DeGroot
        mc::scenario( "DeGroot counts", [] {
            for( int bg = 0; bg < 4; bg++ )
                mc::explore( fixed( bg ), [&] {
                    int n = mc::pick( { 0, 1, 2, 3, 4, 9, 30 } ), k = mc::pick( { 0, 1, 2, 3, 4, 9, 10, 31, 1000 } );
                    Config::DeGrootSettings s;
                    s.convergence_tol = mc::pick( { 0.0, 1e-6, 10.0 } );
                    attempt_any<SimpleAgent>( options_degroot( n, k, s ), std::nullopt, std::nullopt, 4, fmt::format( "DeGroot n {} connections {} tolerance {}", n, k, s.convergence_tol ), mc::choose( 2 ) );
                } );
        } );
        mc::scenario( "DeGroot extreme words", [] {
            for( int bg = 0; bg < 2; bg++ )
                mc::explore( extreme( bg, 2 ), [&] {
                    int n = mc::pick( { 1, 2, 3, 4 } ), k = mc::pick( { 0, 1, 2, 5 } );
                    attempt_any<SimpleAgent>( options_degroot( n, k, {} ), std::nullopt, std::nullopt, 2, fmt::format( "DeGroot n {} connections {}", n, k ) );
                } );
        } );
        mc::scenario( "DeGroot chain", [] {
            mc::explore( fixed( 0 ), [&] {
                bool ring = mc::choose( 2 );
                int n     = 150000;
                auto p    = mc::scratch() + "/chain.txt";
                {
                    std::ofstream f( p );
                    for( int i = 0; i < n; i++ )
                        if( i == n - 1 && !ring )
                            f << i << ", 0\n";
                        else
                            f << i << ", 1, " << ( i + 1 ) % n << ", 1\n";
                }
                attempt_any<SimpleAgent>( options_degroot( 3, 1, {} ), p, std::nullopt, 2, fmt::format( "DeGroot on a {} of {} agents", ring ? "ring" : "chain", n ) );
            } );
        } );
        // Deffuant
        for( int vec = 0; vec < 2; vec++ )
            for( int net = 0; net < 2; net++ )
            {
                auto make = [=]( size_t n, double thr, double mu, size_t dim ) {
                    Config::DeffuantSettings s;
                    s.homophily_threshold = thr;
                    s.mu                  = mu;
                    s.use_network         = net;
                    s.use_binary_vector   = vec;
                    s.dim                 = dim;
                    return options_deffuant( n, s );
                };
                auto run = [=]( const Opt & o, const std::string & what, bool by_run, int steps ) {
                    if( vec )
                        attempt_any<DiscreteVectorAgent>( o, std::nullopt, std::nullopt, steps, what, by_run );
                    else
                        attempt_any<SimpleAgent>( o, std::nullopt, std::nullopt, steps, what, by_run );
                };
                auto name = fmt::format( "Deffuant{}{}", vec ? " vector" : "", net ? " lattice" : "" );
                mc::scenario( name + " counts", [=] {
                    for( int bg = 0; bg < 4; bg++ )
                        mc::explore( fixed( bg ), [&] {
                            int n = mc::pick( { 0, 1, 2, 3, 4, 5, 9, 15, 16, 17 } );
                            auto o = make( n, mc::pick( { 1e-9, 0.2, 5.0 } ), mc::pick( { 0.0, 0.5, 1.0 } ), mc::pick( { 0, 1, 2, 7, 70 } ) );
                            o.network_settings.n_connections = mc::pick( { 0, 1, 10, 100 } );
                            run( o, fmt::format( "{} n {}", name, n ), mc::choose( 2 ), 3 );
                        } );
                } );
                mc::scenario( name + " extreme words", [=] {
                    for( int bg = 0; bg < 2; bg++ )
                        mc::explore( extreme( bg, mc::thorough() ? 2 : 1 ), [&] {
                            int n = mc::pick( { 1, 2, 4, 5 } );
                            run( make( n, 5.0, mc::pick( { 0.5, 1.0 } ), vec ? 3 : 1 ), fmt::format( "{} n {}", name, n ), false, 2 );
                        } );
                } );
                auto mk = [=]( size_t n ) { return make( n, 0.5 + 2 * vec, 0.5, vec ? 3 : 1 ); };
                if( vec )
                    files<DiscreteVectorAgent>( name, mk );
                else
                    files<SimpleAgent>( name, mk );
            }
        files<SimpleAgent>( "DeGroot", []( size_t n ) { return options_degroot( n, 2, {} ); } );
        for( int mean = 0; mean < 2; mean++ )
            for( int bots = 0; bots < 2; bots++ )
            {
                AS s;
                s.m            = 2;
                s.mean_weights = mean;
                if( bots )
                    s = with_bots( s, { { 3, 1 }, { 1.0, 0.7 }, { 5.0, -1 }, { 0.0, 1 } } );
                files<ActivityAgent>( fmt::format( "activity mean weights {} bots {}", mean, bots ), [=]( size_t n ) { return Sim<ActivityAgent>::options( n, s ); } );
                files<InertialAgent>( fmt::format( "inertial mean weights {} bots {}", mean, bots ), [=]( size_t n ) { return Sim<InertialAgent>::options( n, s ); } );
            }
        activity_model<ActivityAgent>();
        activity_model<InertialAgent>();
    } );
}
