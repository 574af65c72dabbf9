// MC: rng
// C23: a run is cut at any set of steps and continued from the files written there, with the same random words.
#include "activity.hpp"
#include <map>

namespace stdfs = std::filesystem;

static vector<double> data( const SimpleAgent & a )
{
    return { a.data.opinion };
}
static vector<double> data( const DiscreteVectorAgent & a )
{
    return { a.data.opinion.begin(), a.data.opinion.end() };
}
static vector<double> data( const ActivityAgent & a )
{
    return { a.data.opinion, a.data.activity, a.data.reluctance };
}
static vector<double> data( const InertialAgent & a )
{
    return { a.data.opinion, a.data.activity, a.data.reluctance, a.data.velocity };
}
struct State
{
    vector<vector<double>> agents;
    Edges edges;
    bool incoming;
};
template<typename A>
static State state_of( const Simulation<A> & s )
{
    State r;
    for( auto & a : s.network.agents )
        r.agents.push_back( data( a ) );
    r.edges    = edges_of( s.network );
    r.incoming = s.network.direction() == Network<A>::EdgeDirection::Incoming;
    return r;
}
static bool same( const vector<double> & a, const vector<double> & b )
{
    if( a.size() != b.size() )
        return false;
    for( size_t i = 0; i < a.size(); i++ )
        if( a[i] != b[i] && !( std::isnan( a[i] ) && std::isnan( b[i] ) ) )
            return false;
    return true;
}
static void compare( const State & got, const State & want, const std::string & what )
{
    MC_CHECK( got.agents.size() == want.agents.size(), "{}: {} agents instead of {}", what, got.agents.size(), want.agents.size() );
    for( size_t i = 0; i < got.agents.size(); i++ )
        MC_CHECK( same( got.agents[i], want.agents[i] ), "{}: agent {} is {} instead of {}", what, i, got.agents[i], want.agents[i] );
    MC_CHECK( got.edges == want.edges, "{}: network {} instead of {}", what, str( got.edges ), str( want.edges ) );
    MC_CHECK( got.incoming == want.incoming, "{}: stored in the other direction", what );
}
static mc::u64 hash_of( const State & s )
{
    mc::Hash h;
    for( auto & a : s.agents )
        h( a );
    hash( h, s.edges );
    return h.h;
}

struct Case
{
    std::string name;
    Config::SimulationOptions opt;
    bool redraws_network = false; // the network of a step does not depend on the one before
};

template<typename A>
static std::unique_ptr<Simulation<A>> from_files( const Config::SimulationOptions & o, const std::string & agents, std::optional<std::string> net, bool by_config )
{
    mc::Quiet q( 5 ); // construction may draw words; the run continues where the interrupted one was
    auto opt = o;
    if( by_config )
    {
        opt.network_settings.file = net;
        net.reset();
    }
    return std::make_unique<Simulation<A>>( opt, net, agents );
}

// Everything a step depends on is in the files: cut at every subset of the steps.
template<typename A>
static void cuts( const Case & c, int steps, mc::Policy p, const std::string & tag )
{
    mc::scenario( fmt::format( "cuts {} {}", c.name, tag ), [=] {
        mc::explore( p, [&] {
            // with deviating words: single cuts and a cut at every step (thorough: all subsets)
            int all        = ( 1 << ( steps + 1 ) ) - 1;
            bool fixed     = p.max_dev == 0;
            int cut        = fixed || mc::thorough() ? -1 : mc::choose( steps + 1 );
            int cut_set    = cut < 0 ? 1 + mc::choose( all ) : cut == steps ? all : 1 << cut;
            int source     = fixed ? mc::choose( c.redraws_network ? 3 : 2 ) : 0;
            bool by_config = source == 1, no_net = source == 2;
            mc::Tape tape;
            auto fa = mc::scratch() + "/agents.txt", fn = mc::scratch() + "/network.txt";
            Simulation<A> s( c.opt, std::nullopt, std::nullopt );
            s.model->initialize_iterations();
            std::unique_ptr<Simulation<A>> t;
            for( int k = 0; k <= steps; k++ )
            {
                auto what = [&] { return fmt::format( "{}, cut at {:b} (bit per step)", c.name, cut_set ); };
                if( k > 0 )
                {
                    auto pos = mc::rng_pos();
                    if( t )
                    {
                        t->model->iteration();
                        mc::set_rng_pos( pos );
                    }
                    s.model->iteration();
                    mc::step( 1 + !!t );
                    if( t )
                    {
                        compare( state_of( *t ), state_of( s ), fmt::format( "{}, step {} of the continued run", what(), k ) );
                    }
                }
                auto st = state_of( s );
                mc::state( hash_of( st ) );
                if( cut_set >> k & 1 )
                {
                    agents_to_file( t ? t->network : s.network, fa );
                    network_to_file( t ? t->network : s.network, fn );
                    mc::Quiet q( 5 ); // construction may draw words of its own
                    auto opt = c.opt;
                    std::optional<std::string> net = fn;
                    if( by_config )
                        opt.network_settings.file = fn;
                    t = std::make_unique<Simulation<A>>( opt, by_config || no_net ? std::nullopt : net, fa );
                    t->model->initialize_iterations();
                    auto got = state_of( *t );
                    if( c.redraws_network ) // only the networks of later steps count
                        got.edges = st.edges, got.incoming = st.incoming;
                    compare( got, st, fmt::format( "{}, simulation created from the files of step {}", what(), k ) );
                }
            }
            if( mc::want_sample() )
                mc::sample( fmt::format( "{} cut at {:b}: final agents {}", c.name, cut_set, [&] { vector<vector<double>> v; for( auto & a : s.network.agents ) v.push_back( data( a ) ); return v; }() ) );
        } );
    } );
}

// Whole runs: continue with start_numbering_from = k from the files a run wrote; the files must be the same.
static std::map<std::string, std::string> list( const std::string & d )
{
    std::map<std::string, std::string> f;
    for( auto & e : stdfs::directory_iterator( d ) )
    {
        std::ifstream in( e.path(), std::ios::binary );
        f[e.path().filename().string()] = { std::istreambuf_iterator<char>( in ), {} };
    }
    return f;
}
static std::string fresh( const std::string & n )
{
    auto d = mc::scratch() + "/" + n;
    stdfs::remove_all( d );
    stdfs::create_directory( d );
    return d;
}
static void set_max( Config::SimulationOptions & o, std::optional<int> m )
{
    std::visit( [&]( auto & s ) { s.max_iterations = m; }, o.model_settings );
}
template<typename A>
static void runs( const Case & c, int steps, bool until_converged = false, vector<int> at = {} )
{
    for( int bg = 0; bg < ( mc::thorough() ? 6 : at.empty() ? 3 : 1 ); bg++ )
        mc::scenario( fmt::format( "run {} {} steps, background {}", c.name, steps, bg ), [=] {
            mc::Policy p;
            p.background = bg;
            p.max_dev    = 0;
            mc::explore( p, [&] {
                mc::Tape tape;
                auto opt = c.opt;
                set_max( opt, until_converged ? std::nullopt : std::optional<int>( steps ) );
                opt.output_settings.output_initial   = true;
                opt.output_settings.n_output_agents  = 1;
                opt.output_settings.n_output_network = 1;
                // positions in the word sequence, from a twin stepped by hand
                vector<mc::u64> pos;
                {
                    Simulation<A> s( opt, std::nullopt, std::nullopt );
                    s.model->initialize_iterations();
                    pos.push_back( mc::rng_pos() );
                    while( !s.model->finished() )
                    {
                        s.model->iteration();
                        pos.push_back( mc::rng_pos() );
                        MC_CHECK( pos.size() < 3000, "no end" );
                    }
                }
                int total = int( pos.size() ) - 1;
                mc::set_rng_pos( 0 );
                auto dir = fresh( "all" );
                Simulation<A>( opt, std::nullopt, std::nullopt ).run( dir );
                auto all = list( dir );
                int k    = at.empty() ? mc::choose( until_converged ? total : total + 1 ) : mc::pick( at );
                mc::set_rng_pos( pos[k] );
                auto opt2 = opt;
                if( !until_converged )
                    set_max( opt2, total - k );
                opt2.output_settings.start_numbering_from = k;
                auto dir2                                 = fresh( "rest" );
                std::unique_ptr<Simulation<A>> t;
                {
                    mc::Quiet q( 4 );
                    t = std::make_unique<Simulation<A>>( opt2, fmt::format( "{}/network_{}.txt", dir, k ), fmt::format( "{}/opinions_{}.txt", dir, k ) );
                }
                t->run( dir2 );
                mc::step( 3 * total - k );
                auto rest = list( dir2 );
                size_t want = 0;
                for( int i = k; i <= total; i++ )
                    for( auto * kind : { "opinions", "network" } )
                    {
                        auto n = fmt::format( "{}_{}.txt", kind, i );
                        if( i == k && c.redraws_network && n[0] == 'n' )
                        {
                            want++; // the network in the initial file was not drawn in a step
                            continue;
                        }
                        MC_CHECK( all.count( n ), "{}: the uninterrupted run did not write {}", c.name, n );
                        MC_CHECK( rest.count( n ), "{} continued from step {} of {}: no file {}", c.name, k, total, n );
                        MC_CHECK( rest[n] == all[n], "{} continued from step {}: file {} is\n{}\ninstead of\n{}", c.name, k, n, rest[n], all[n] );
                        want++;
                    }
                MC_CHECK( rest.size() == want, "{} continued from step {} of {}: {} files instead of {}", c.name, k, total, rest.size(), want );
                mc::Hash h;
                h( c.name )( bg )( k );
                mc::state( h.h );
            } );
        } );
}

// An agent file replaces everything the model put into its agents.
template<typename A>
static A agent( int kind, size_t i )
{
    static const double odd[] = { 0.0, -7.25, 123.5, 1e-3, 0.3 };
    A a;
    if( kind >= 5 ) // the values that agents have by default, and only some of them
    {
        if constexpr( std::is_same_v<A, DiscreteVectorAgent> )
            a.data.opinion.assign( 3, kind & 1 );
        else if( kind == 6 )
            a.data.opinion = -0.75;
        if constexpr( std::is_same_v<A, ActivityAgent> || std::is_same_v<A, InertialAgent> )
        {
            if( kind == 7 )
                a.data.activity = 0.625;
            if( kind == 8 )
                a.data.reluctance = 2.5;
        }
        if( kind >= 9 ) // values that no model would draw
        {
            if constexpr( !std::is_same_v<A, DiscreteVectorAgent> )
                a.data.opinion = kind == 9 ? 1e-7 * ( double( i ) - 1 ) : i % 2 ? -4e6 : 3e5;
            if constexpr( std::is_same_v<A, ActivityAgent> || std::is_same_v<A, InertialAgent> )
            {
                a.data.activity   = kind == 9 ? 1e-6 * i : 0.5 + i;
                a.data.reluctance = kind == 9 ? 1e-3 * ( i + 1 ) : 1e5 * ( i + 1 );
            }
            if constexpr( std::is_same_v<A, InertialAgent> )
                a.data.velocity = kind == 9 ? -1e-8 * i : 1e3 - 4e5 * i;
        }
        return a;
    }
    if constexpr( std::is_same_v<A, DiscreteVectorAgent> )
    {
        a.data.opinion.assign( 3, 0 );
        for( size_t d = 0; d < 3; d++ )
            a.data.opinion[d] = ( i + d + kind ) % 2;
    }
    else
        a.data.opinion = odd[( i + kind ) % 5];
    if constexpr( std::is_same_v<A, ActivityAgent> || std::is_same_v<A, InertialAgent> )
    {
        a.data.activity   = odd[( i + kind + 1 ) % 5] / 200 + 0.25;
        a.data.reluctance = 1.5 + odd[( i + kind + 2 ) % 5] / 100;
    }
    if constexpr( std::is_same_v<A, InertialAgent> )
        a.data.velocity = odd[( i + kind + 3 ) % 5];
    return a;
}
template<typename A>
static void replaced( const Case & c )
{
    mc::scenario( "replaced " + c.name, [=] {
        mc::Policy p;
        p.background = 1;
        p.max_dev    = 0;
        mc::explore( p, [&] {
            int kind    = mc::choose( 11 );
            int netf    = mc::choose( 4 ); // none, argument, settings, both: the argument wins
            size_t n    = c.opt.network_settings.n_agents;
            auto fa = mc::scratch() + "/agents.txt", fn = mc::scratch() + "/network.txt";
            Network<A> net( n );
            vector<vector<double>> want;
            Edges e( n );
            for( size_t i = 0; i < n; i++ )
            {
                net.agents[i] = agent<A>( kind, i );
                want.push_back( data( net.agents[i] ) );
                if( i )
                    e[i] = { { 0, 0.5 }, { i - 1, 0.25 } };
                net.set_neighbours_and_weights( i, i ? vector<size_t>{ 0, i - 1 } : vector<size_t>{}, i ? vector<double>{ 0.5, 0.25 } : vector<double>{} );
            }
            agents_to_file( net, fa );
            network_to_file( net, fn );
            auto opt = c.opt;
            auto f2  = mc::scratch() + "/other_network.txt";
            {
                Network<A> other( n );
                for( size_t i = 0; i < n; i++ )
                    other.set_neighbours_and_weights( i, vector<size_t>{ n - 1 }, vector<double>{ 0.75 } );
                network_to_file( other, f2 );
            }
            if( netf >= 2 )
                opt.network_settings.file = netf == 2 ? fn : f2;
            Simulation<A> s( opt, netf & 1 ? std::optional( fn ) : std::nullopt, fa );
            auto got = state_of( s );
            for( size_t i = 0; i < n; i++ )
                MC_CHECK( same( got.agents[i], want[i] ), "{}: agent {} is {} instead of {} from the file", c.name, i, got.agents[i], want[i] );
            if( netf && c.opt.model == Config::Model::DeGroot )
                MC_CHECK( got.edges == e, "{}: network {} instead of {} from the file", c.name, str( got.edges ), str( e ) );
            mc::step();
            mc::state( hash_of( got ) );
        } );
    } );
}

template<typename F>
static void with_type( const Case & c, F && f )
{
    switch( c.opt.model )
    {
    case Config::Model::ActivityDrivenModel: f( std::type_identity<ActivityAgent>{} ); break;
    case Config::Model::ActivityDrivenInertial: f( std::type_identity<InertialAgent>{} ); break;
    case Config::Model::DeGroot: f( std::type_identity<SimpleAgent>{} ); break;
    default:
        if( std::get<Config::DeffuantSettings>( c.opt.model_settings ).use_binary_vector )
            f( std::type_identity<DiscreteVectorAgent>{} );
        else
            f( std::type_identity<SimpleAgent>{} );
    }
}

int main( int argc, char ** argv )
{
    return mc::main( "C23", argc, argv, [] {
        vector<Case> cases;
        Config::DeGrootSettings dg;
        dg.convergence_tol = 1e-3;
        cases.push_back( { "DeGroot", options_degroot( 4, 2, dg ) } );
        cases.push_back( { "DeGroot single", options_degroot( 1, 2, dg ) } );
        for( int lattice = 0; lattice < 2; lattice++ )
            for( int vec = 0; vec < 2; vec++ )
            {
                Config::DeffuantSettings df;
                df.homophily_threshold = vec ? 3 : 0.8;
                df.mu                  = vec ? 0.5 : 0.3;
                df.use_network         = lattice;
                df.use_binary_vector   = vec;
                df.dim                 = vec ? 3 : 1;
                cases.push_back( { fmt::format( "Deffuant{}{}", lattice ? " lattice" : "", vec ? " vector" : "" ), options_deffuant( 4, df ), lattice == 1 } );
                if( !lattice )
                    cases.back().redraws_network = false;
            }
        for( int inertial = 0; inertial < 2; inertial++ )
            for( int mean = 0; mean < 2; mean++ )
                for( int rel = 0; rel < 2; rel++ )
                    for( int bots = 0; bots < 3; bots += 2 )
                        for( int mean_act = 0; mean_act < 2; mean_act++ )
                        {
                            if( mean_act && ( rel || bots ) )
                                continue;
                            AS s;
                            s.m                 = 2;
                            s.dt                = 0.1;
                            s.eps               = 0.3;
                            s.mean_weights      = mean;
                            s.mean_activities   = mean_act;
                            s.use_reluctances   = rel;
                            s.covariance_factor = rel ? 0.5 : 0;
                            if( bots )
                                s = with_bots( s, { { 1, 3 }, { 0.9, 0.5 }, { 2.0, -1.0 }, { 0.0, 1.0 } } );
                            auto o = inertial ? Sim<InertialAgent>::options( 4, s, 0.7 ) : Sim<ActivityAgent>::options( 4, s );
                            cases.push_back( { fmt::format( "{}{}{}{}{}", inertial ? "inertial" : "activity", mean ? " mean field" : "", rel ? " reluctances" : "", bots ? " bots" : "", mean_act ? " mean activities" : "" ), o, true } );
                        }
        mc::bounds( fmt::format(
            "{} configurations of all models: every non-empty subset of the steps 0..{} as cut points (with one deviating word: {}) (files written, new simulation created from them, continued), network file given by command line or configuration, or not at all where "
            "the model draws its own; {} word sequences; whole runs continued at every step by file numbering, also runs of 60 steps and of 36-121 agents; agent files with foreign values.",
            cases.size(), mc::thorough() ? 5 : 4, mc::thorough() ? "also every subset" : "each single step, and all of them", mc::thorough() ? 3 : 2 ) );
        for( auto & c : cases )
            with_type( c, [&]<typename A>( std::type_identity<A> ) {
                int steps = mc::thorough() ? 5 : 4;
                for( int bg = 0; bg < ( mc::thorough() ? 3 : 2 ); bg++ )
                {
                    mc::Policy p;
                    p.background = bg;
                    p.menu       = mc::thorough() ? mc::fracs( { 1e-9, 0.2, 0.55, 0.9 } ) : mc::fracs( { 0.02, 0.9 } );
                    p.max_dev    = 1;
                    cuts<A>( c, steps, p, fmt::format( "background {}", bg ) );
                    p.max_dev = 0;
                    cuts<A>( c, steps, p, fmt::format( "all subsets, background {}", bg ) );
                }
                runs<A>( c, 5 );
                if( c.opt.model == Config::Model::DeGroot )
                {
                    auto d = c;
                    d.name += " until converged";
                    runs<A>( d, 0, true );
                }
                replaced<A>( c );
                if( c.opt.model != Config::Model::DeGroot )
                {
                    auto d = c;
                    runs<A>( d, 60, false, { 1, 10, 11, 37, 59 } );
                    bool lattice                   = c.name.find( "lattice" ) != std::string::npos;
                    d.opt.network_settings.n_agents = lattice ? 36 : 40;
                    d.name += lattice ? " n=36" : " n=40";
                    runs<A>( d, 12, false, { 1, 5, 10 } );
                    d.opt.network_settings.n_agents = 121;
                    d.name                          = c.name + " n=121";
                    runs<A>( d, 3, false, { 1, 2 } );
                }
                else
                {
                    auto d                              = c;
                    auto & s                            = std::get<Config::DeGrootSettings>( d.opt.model_settings );
                    s.convergence_tol                   = 1e-14;
                    d.opt.network_settings.n_agents      = 120;
                    d.opt.network_settings.n_connections = 10;
                    d.name += " n=120";
                    runs<A>( d, 12, false, { 1, 5, 10 } );
                }
            } );
    } );
}
