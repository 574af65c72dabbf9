// MC: nosan O2
// C22: the same configuration and seed give the same simulation, whatever happened in the process before or
// happens in between, with the real random engine.  References come from fresh processes.
#include "sim.hpp"
#include "util/math.hpp"
#include "util/erfinv.hpp"
#include <map>
#include <new>

namespace stdfs = std::filesystem;

// ---- memory that held something before: every new block is filled with a chosen byte, and so is the stack.
static int fill_byte = -1;
void * operator new( std::size_t n )
{
    void * p = std::malloc( n ? n : 1 );
    if( !p )
        throw std::bad_alloc();
    if( fill_byte >= 0 )
        std::memset( p, fill_byte, n );
    return p;
}
void * operator new[]( std::size_t n )
{
    return operator new( n );
}
void operator delete( void * p ) noexcept
{
    std::free( p );
}
void operator delete( void * p, std::size_t ) noexcept
{
    std::free( p );
}
void operator delete[]( void * p ) noexcept
{
    std::free( p );
}
void operator delete[]( void * p, std::size_t ) noexcept
{
    std::free( p );
}
__attribute__( ( noinline ) ) static void paint_stack()
{
    volatile char buf[1 << 15];
    for( size_t i = 0; i < sizeof buf; i++ )
        buf[i] = char( fill_byte );
}

// ---- simulations of any type
struct Any
{
    virtual ~Any()                                = default;
    virtual void step()                           = 0;
    virtual mc::u64 state()                       = 0;
    virtual void run( const std::string & dir )   = 0;
};
static void hash_data( mc::Hash & h, const SimpleAgent & a )
{
    h( a.data.opinion );
}
static void hash_data( mc::Hash & h, const DiscreteVectorAgent & a )
{
    h( a.data.opinion );
}
static void hash_data( mc::Hash & h, const ActivityAgent & a )
{
    h( a.data.opinion )( a.data.activity )( a.data.reluctance );
}
static void hash_data( mc::Hash & h, const InertialAgent & a )
{
    h( a.data.opinion )( a.data.activity )( a.data.reluctance )( a.data.velocity );
}
template<typename A>
struct Box : Any
{
    Simulation<A> sim;
    Box( const Config::SimulationOptions & o, std::optional<std::string> nf, std::optional<std::string> af ) : sim( o, nf, af )
    {
        sim.model->initialize_iterations();
    }
    void step() override
    {
        sim.model->iteration();
    }
    mc::u64 state() override
    {
        mc::Hash h;
        h( sim.network.n_agents() )( sim.network.direction() == Network<A>::EdgeDirection::Incoming );
        for( size_t i = 0; i < sim.network.n_agents(); i++ )
            h( sim.network.get_neighbours( i ) )( sim.network.get_weights( i ) );
        h( sim.network.agents.size() );
        for( auto & a : sim.network.agents )
            hash_data( h, a );
        return h.h;
    }
    void run( const std::string & dir ) override
    {
        sim.run( dir );
    }
};

static constexpr int STEPS = 4;
struct Case
{
    std::string name;
    std::function<Config::SimulationOptions( int seed )> options;
    int type; // 0 simple, 1 vector, 2 activity, 3 inertial
    std::optional<std::string> net_text, agent_text;
    bool random = true;
};
static std::string case_file( const std::string & tag, const std::string & text )
{
    auto p = mc::scratch() + "/" + tag;
    std::ofstream( p ) << text;
    return p;
}
static std::unique_ptr<Any> create( const Case & c, int seed )
{
    auto o = c.options( seed );
    std::optional<std::string> nf, af;
    if( c.net_text )
        nf = case_file( "net.txt", *c.net_text );
    if( c.agent_text )
        af = case_file( "agents.txt", *c.agent_text );
    switch( c.type )
    {
    case 0: return std::make_unique<Box<SimpleAgent>>( o, nf, af );
    case 1: return std::make_unique<Box<DiscreteVectorAgent>>( o, nf, af );
    case 2: return std::make_unique<Box<ActivityAgent>>( o, nf, af );
    default: return std::make_unique<Box<InertialAgent>>( o, nf, af );
    }
}
static mc::u64 run_files( const Case & c, int seed )
{
    auto d = mc::scratch() + "/out";
    stdfs::remove_all( d );
    stdfs::create_directory( d );
    create( c, seed )->run( d );
    std::map<std::string, std::string> f;
    for( auto & e : stdfs::directory_iterator( d ) )
    {
        std::ifstream in( e.path(), std::ios::binary );
        f[e.path().filename().string()] = { std::istreambuf_iterator<char>( in ), {} };
    }
    mc::Hash h;
    for( auto & [n, t] : f )
        h( n )( t );
    return h.h;
}
using Trace = vector<mc::u64>; // state after creation and after each step, then the files of a run
static Trace steps_of( const Case & c, int seed, int steps = STEPS )
{
    Trace t;
    auto s = create( c, seed );
    t.push_back( s->state() );
    for( int i = 0; i < steps; i++ )
    {
        s->step();
        t.push_back( s->state() );
    }
    return t;
}
static Trace full_trace( const Case & c, int seed )
{
    auto t = steps_of( c, seed );
    t.push_back( run_files( c, seed ) );
    return t;
}

static vector<Case> cases( bool large = false )
{
    vector<Case> v;
    auto outputs = []( Config::SimulationOptions o, int seed ) {
        o.rng_seed                         = seed;
        o.output_settings.n_output_agents  = 1;
        o.output_settings.n_output_network = 2;
        return o;
    };
    auto degroot = [&]( size_t n, size_t k ) {
        return [=]( int seed ) {
            Config::DeGrootSettings s;
            s.max_iterations  = STEPS;
            s.convergence_tol = 0;
            return outputs( options_degroot( n, k, s ), seed );
        };
    };
    auto deffuant = [&]( size_t n, bool net, bool vec, size_t dim, double mu, double thr ) {
        return [=]( int seed ) {
            Config::DeffuantSettings s;
            s.max_iterations      = STEPS;
            s.homophily_threshold = thr;
            s.mu                  = mu;
            s.use_network         = net;
            s.use_binary_vector   = vec;
            s.dim                 = dim;
            return outputs( options_deffuant( n, s ), seed );
        };
    };
    struct Act
    {
        size_t n;
        int m;
        bool mean_act = false, mean_w = false, rel = false;
        double cov = 0;
        size_t bots = 0;
    };
    auto settings = []( Act a ) {
        Config::ActivityDrivenSettings s;
        s.max_iterations  = STEPS;
        s.dt              = 0.1;
        s.m               = a.m;
        s.eps             = 0.2;
        s.mean_activities = a.mean_act;
        s.mean_weights    = a.mean_w;
        s.use_reluctances = a.rel;
        s.covariance_factor = a.cov;
        s.n_bots          = a.bots;
        s.bot_m           = vector<int>( a.bots, 2 );
        s.bot_activity    = vector<double>( a.bots, 0.75 );
        s.bot_opinion     = vector<double>( a.bots, 1.5 );
        s.bot_homophily   = vector<double>( a.bots, 0.25 );
        return s;
    };
    auto activity = [&]( Act a ) { return [=]( int seed ) { return outputs( options_activity( a.n, settings( a ) ), seed ); }; };
    auto inertial = [&]( Act a ) {
        return [=]( int seed ) {
            Config::ActivityDrivenInertialSettings t;
            static_cast<Config::ActivityDrivenSettings &>( t ) = settings( a );
            t.friction_coefficient                            = 0.5;
            return outputs( options_inertial( a.n, t ), seed );
        };
    };
    v.push_back( { "degroot", degroot( 6, 2 ), 0 } );
    v.push_back( { "degroot dense", degroot( 3, 9 ), 0 } );
    v.push_back( { "deffuant", deffuant( 16, false, false, 1, 0.5, 2.0 ), 0 } );
    v.push_back( { "deffuant lattice", deffuant( 16, true, false, 1, 0.4, 2.0 ), 0 } );
    v.push_back( { "deffuant vector", deffuant( 5, false, true, 24, 0.5, 30 ), 1 } );
    v.push_back( { "deffuant vector lattice", deffuant( 9, true, true, 16, 0.5, 30 ), 1 } );
    v.push_back( { "activity", activity( { 6, 2 } ), 2 } );
    v.push_back( { "activity odd", activity( { 5, 1, false, false, false, 0.5, 1 } ), 2 } );
    v.push_back( { "activity reluctances", activity( { 6, 3, false, false, true, 0.5, 0 } ), 2 } );
    v.push_back( { "activity bots", activity( { 6, 2, false, false, true, -0.5, 2 } ), 2 } );
    v.push_back( { "mean activities", activity( { 6, 3, true } ), 2 } );
    v.push_back( { "mean field", activity( { 6, 3, false, true } ), 2 } );
    v.push_back( { "mean field bots", activity( { 5, 3, false, true, true, 0, 2 } ), 2 } );
    v.push_back( { "inertial", inertial( { 6, 2 } ), 3 } );
    v.push_back( { "inertial bots", inertial( { 5, 3, false, false, true, 0.3, 1 } ), 3 } );
    v.push_back( { "inertial mean field", inertial( { 5, 3, false, true, false, 0, 1 } ), 3 } );
    std::string net5 = "# comment\n0, 2, 1, 2, 0.25, 0.75\n1, 1, 0, 1\n2, 0\n3, 3, 0, 1, 4, 0.5, 0.25, 0.25\n4, 2, 4, 3, 0.5, 0.5\n";
    v.push_back( { "degroot from files", degroot( 5, 2 ), 0, net5, "# c\n0, 0.5\n1, -1\n2, 0.25\n3, 2\n4, -0.125\n", false } );
    v.push_back( { "activity from files", activity( { 5, 2 } ), 2, net5, "# c\n0, 0.5, 0.9\n1, -1, 0.8\n2, 0.25, 1, 2\n3, 2, 0.5\n4, -0.125, 0.75, 0.5\n" } );
    v.push_back( { "inertial from a network file", inertial( { 5, 2 } ), 3, net5, std::nullopt } );
    if( large )
    {
        v.clear();
        v.push_back( { "degroot n=150", degroot( 150, 10 ), 0 } );
        v.push_back( { "deffuant n=100", deffuant( 100, false, false, 1, 0.5, 2.0 ), 0 } );
        v.push_back( { "deffuant lattice n=121", deffuant( 121, true, false, 1, 0.4, 2.0 ), 0 } );
        v.push_back( { "deffuant vector n=64", deffuant( 64, false, true, 40, 0.5, 30 ), 1 } );
        v.push_back( { "activity n=120", activity( { 120, 10 } ), 2 } );
        v.push_back( { "activity bots n=65", activity( { 65, 7, false, false, true, -0.5, 9 } ), 2 } );
        v.push_back( { "mean field n=40", activity( { 40, 3, false, true, true, 0.5, 5 } ), 2 } );
        v.push_back( { "inertial n=101", inertial( { 101, 12, false, false, true, 0.3, 1 } ), 3 } );
    }
    return v;
}

// ---- what can run before: simulations in several ways, and other users of the library
static const vector<std::string> & polluters()
{
    static vector<std::string> p = { "create", "two steps", "kept alive", "run with files", "library" };
    return p;
}
static void pollute( int how, const Case & c, int seed, vector<std::unique_ptr<Any>> & alive )
{
    switch( how )
    {
    case 0: create( c, seed ); break;
    case 1:
    {
        auto s = create( c, seed );
        s->step();
        s->step();
        break;
    }
    case 2:
        alive.push_back( create( c, seed ) );
        alive.back()->step();
        break;
    case 3: run_files( c, seed ); break;
    }
}
static void library()
{
    std::mt19937 gen( 99 );
    vector<size_t> buf{ 5, 6 };
    draw_unique_k_from_n( 1, 2, 7, buf, gen );
    reservoir_sampling_A_ExpJ( 2, 5, []( size_t i ) { return 1.0 + i; }, buf, gen );
    power_law_distribution<double> pl( 0.1, 2.2 );
    truncated_normal_distribution<double> tn( 1, 0.5, 0.1 );
    bivariate_normal_distribution<double> bn( 0.5 );
    pl( gen );
    tn( gen );
    bn( gen );
    bivariate_gaussian_copula<double, decltype( pl ), decltype( tn )> cop( 0.25, pl, tn );
    cop( gen );
    NetworkGeneration::generate_n_connections<SimpleAgent>( 4, 2, false, gen );
    NetworkGeneration::generate_fully_connected<SimpleAgent>( 3, gen );
    NetworkGeneration::generate_square_lattice<SimpleAgent>( 3, 0.5 );
    std::srand( 7 );
    std::rand();
}

static void compare( const Trace & got, const Trace & want, const std::string & what )
{
    MC_CHECK( !want.empty(), "{}: the reference run in a fresh process failed", what );
    for( size_t i = 0; i < got.size() && i < want.size(); i++ )
        MC_CHECK( got[i] == want[i], "{}: {} differ(s) from a fresh process", what, i == 0 ? "the initial state" : i <= size_t( STEPS ) ? fmt::format( "the state after step {}", i ) : "the output files" );
    for( auto x : got )
        mc::state( x );
}

static Trace fresh_process( const std::function<Trace()> & trace, bool own_files = true )
{
    int fd[2];
    if( pipe( fd ) )
        mc::internal( "pipe" );
    fflush( nullptr );
    pid_t p = fork();
    if( p == 0 )
    {
        int null = open( "/dev/null", O_WRONLY );
        dup2( null, 1 );
        alarm( 60 );
        Trace t;
        try
        {
            t = trace();
        }
        catch( const std::exception & )
        {
            t.clear();
        }
        mc::u64 n = t.size();
        bool ok   = write( fd[1], &n, 8 ) == 8 && write( fd[1], t.data(), 8 * n ) == ssize_t( 8 * n );
        if( own_files )
            stdfs::remove_all( mc::scratch() );
        _exit( ok ? 0 : 1 );
    }
    close( fd[1] );
    Trace t;
    mc::u64 n = 0;
    if( read( fd[0], &n, 8 ) == 8 && n < 10000 )
    {
        t.resize( n );
        if( read( fd[0], t.data(), 8 * n ) != ssize_t( 8 * n ) )
            t.clear();
    }
    close( fd[0] );
    int st;
    waitpid( p, &st, 0 );
    if( st != 0 )
        t.clear();
    return t;
}

int main( int argc, char ** argv )
{
    return mc::main( "C22", argc, argv, [] {
        static auto all = cases();
        static const vector<int> seeds{ 1, -5 };
        static std::map<std::pair<size_t, int>, Trace> ref;
        for( size_t c = 0; c < all.size(); c++ )
            for( int s : seeds )
                ref[{ c, s }] = fresh_process( [&] { return full_trace( all[c], s ); } );
        mc::bounds( fmt::format(
            "{} configurations of all models with the real engine, {} steps and a run with files each, against a fresh process: 6 memory contents x 3 heap layouts; every ordered sequence of up to {} earlier simulations "
            "(created, stepped, kept alive, run, other library calls); all interleavings of creating and stepping two simulations (every ordered pair of configurations{}); 8 larger simulations (40-150 agents, 25 steps) with another one in between; seeds differing in one bit and close seeds all differ.",
            all.size(), STEPS, mc::thorough() ? 3 : 2, mc::thorough() ? "; three simulations of chosen configurations" : "" ) );
        for( size_t c = 0; c < all.size(); c++ )
        {
            auto & cs = all[c];
            mc::scenario( "memory " + cs.name, [=] {
                mc::explore( {}, [&] {
                    int seed  = mc::pick( seeds );
                    int fill  = mc::pick( { -1, 0, 0xFF, 0x7F, 0xBE, 0x3F } );
                    int shift = mc::choose( 3 );
                    vector<std::unique_ptr<char[]>> pad;
                    for( int i = 0; i < shift * 50; i++ )
                        pad.push_back( std::make_unique<char[]>( 8 + 40 * i ) );
                    fill_byte = fill;
                    if( fill >= 0 )
                        paint_stack();
                    auto t    = full_trace( cs, seed );
                    fill_byte = -1;
                    mc::step( 2 * STEPS );
                    compare( t, ref[{ c, seed }], fmt::format( "{}, seed {}, memory filled with {}", cs.name, seed, fill ) );
                    if( mc::want_sample() )
                        mc::sample( fmt::format( "{} seed {} fill {}: {} identical states, files identical", cs.name, seed, fill, t.size() - 1 ) );
                } );
            } );
            mc::scenario( "seeds " + cs.name, [=] {
                mc::once( [&] {
                    vector<int> ss;
                    for( int b = 0; b < 32; b++ )
                        ss.push_back( int( 1u ^ ( 1u << b ) ) );
                    for( int s = 1; s <= ( mc::thorough() ? 2000 : 60 ); s++ )
                        if( std::find( ss.begin(), ss.end(), s ) == ss.end() )
                            ss.push_back( s );
                    for( int s : { -2, -3, 65536, 65537, 1000003, 16777216, 16777217, 16777218, 33554433, 999999999, 1000000000, 2147483647, 2147483646, 2147483645, -2147483647, -2147483647 - 1, -16777217, -16777216, -65536 } )
                        if( std::find( ss.begin(), ss.end(), s ) == ss.end() )
                            ss.push_back( s );
                    std::map<Trace, int> seen;
                    for( int s : ss )
                    {
                        auto t = steps_of( cs, s );
                        mc::step( STEPS );
                        auto [it, fresh] = seen.insert( { t, s } );
                        if( cs.random )
                            MC_CHECK( fresh, "{}: seeds {} and {} give the same simulation", cs.name, it->second, s );
                        mc::outcome( t.back() );
                    }
                    if( cs.random )
                        mc::sample( fmt::format( "{}: {} seeds, {} different simulations", cs.name, ss.size(), seen.size() ) );
                } );
            } );
            mc::scenario( "history before " + cs.name, [=] {
                mc::explore( {}, [&] {
                    int len = 1 + mc::choose( mc::thorough() ? 3 : 2 );
                    vector<std::unique_ptr<Any>> alive;
                    std::string what;
                    for( int i = 0; i < len; i++ )
                    {
                        int how = mc::choose( int( polluters().size() ) );
                        what += polluters()[how];
                        if( how == 4 )
                            library();
                        else
                        {
                            // the full set of configurations for the last event, a chosen one of each type before
                            static const vector<size_t> some{ 0, 3, 4, 7, 9, 14 };
                            static const vector<size_t> few{ 0, 4, 7 };
                            size_t d = i == len - 1 ? size_t( mc::choose( int( all.size() ) ) ) : len == 3 ? mc::pick( few ) : mc::pick( some );
                            what += " " + all[d].name;
                            pollute( how, all[d], 1 + int( d ) % 2 * 76, alive );
                        }
                        what += "; ";
                    }
                    auto t = steps_of( cs, 1 );
                    mc::step( STEPS );
                    compare( t, ref[{ c, 1 }], fmt::format( "{} after {}", cs.name, what ) );
                } );
            } );
            for( size_t d = 0; d < all.size(); d++ )
                mc::scenario( fmt::format( "interleaving {} | {}", cs.name, all[d].name ), [=] {
                    mc::explore( {}, [&] {
                        const size_t who[2] = { c, d };
                        int seed[2]         = { 1, c == d ? seeds[mc::choose( 2 )] : 1 };
                        std::unique_ptr<Any> s[2];
                        Trace t[2];
                        int left[2] = { STEPS + 1, STEPS + 1 };
                        std::string order;
                        while( left[0] || left[1] )
                        {
                            int w = !left[0] ? 1 : !left[1] ? 0 : mc::choose( 2 );
                            order += char( '0' + w );
                            left[w]--;
                            if( !s[w] )
                                s[w] = create( all[who[w]], seed[w] );
                            else
                                s[w]->step();
                            t[w].push_back( s[w]->state() );
                            if( !left[w] && mc::choose( 2 ) )
                                s[w].reset();
                        }
                        mc::step( 2 * STEPS );
                        for( int w = 0; w < 2; w++ )
                            compare( t[w], ref[{ who[w], seed[w] }], fmt::format( "{} and {} interleaved as {}, simulation {}", all[c].name, all[d].name, order, w ) );
                    } );
                } );
        }
        if( mc::thorough() )
        {
            static const vector<size_t> chosen{ 0, 2, 3, 5, 7, 9, 12, 14 };
            for( size_t a : chosen )
                for( size_t b : chosen )
                    for( size_t e : chosen )
                        mc::scenario( fmt::format( "three interleaved {} {} {}", a, b, e ), [=] {
                            mc::explore( {}, [&] {
                                size_t who[3] = { a, b, e };
                                std::unique_ptr<Any> s[3];
                                Trace t[3];
                                int left[3] = { 3, 3, 3 };
                                std::string order;
                                while( left[0] + left[1] + left[2] )
                                {
                                    vector<int> can;
                                    for( int w = 0; w < 3; w++ )
                                        if( left[w] )
                                            can.push_back( w );
                                    int w = mc::pick( can );
                                    order += char( '0' + w );
                                    left[w]--;
                                    if( !s[w] )
                                        s[w] = create( all[who[w]], 1 );
                                    else
                                        s[w]->step();
                                    t[w].push_back( s[w]->state() );
                                }
                                mc::step( 6 );
                                for( int w = 0; w < 3; w++ )
                                    compare( t[w], ref[{ who[w], 1 }], fmt::format( "{}, {} and {} interleaved as {}", all[a].name, all[b].name, all[e].name, order ) );
                            } );
                        } );
        }
        // large simulations and many steps, alone and with another one stepped in between
        static auto big     = cases( true );
        const int long_run  = mc::thorough() ? 100 : 25;
        auto long_trace     = [=]( const Case & c, const Case * other, int every ) {
            auto s = create( c, 7 );
            std::unique_ptr<Any> o;
            Trace t{ s->state() };
            for( int k = 0; k < long_run; k++ )
            {
                s->step();
                t.push_back( s->state() );
                if( !other )
                    continue;
                if( k % every == 0 )
                    o = create( *other, 7 + k );
                o->step();
            }
            return t;
        };
        for( size_t c = 0; c < big.size(); c++ )
            mc::scenario( "large " + big[c].name, [=] {
                auto want = fresh_process( [&] { return long_trace( big[c], nullptr, 1 ); }, false );
                mc::explore( {}, [&] {
                    auto & o  = mc::pick( big );
                    int every = mc::pick( { 1, 5, 1000 } );
                    auto got  = long_trace( big[c], &o, every );
                    mc::step( 2 * long_run );
                    MC_CHECK( want.size() == got.size(), "{}: the reference run in a fresh process failed", big[c].name );
                    for( size_t i = 0; i < got.size(); i++ )
                        MC_CHECK( got[i] == want[i], "{}: the state after step {} differs from a fresh process if {} is created every {} steps and stepped in between", big[c].name, i, o.name, every );
                    for( auto x : got )
                        mc::state( x );
                } );
            } );
        // the same TOML file parsed twice
        static const vector<std::pair<std::string, int>> toml{
            { "[simulation]\nmodel = \"DeGroot\"\nrng_seed = 12\n[network]\nnumber_of_agents = 7\nconnections_per_agent = 3\n", 0 },
            { "[simulation]\nmodel = \"Deffuant\"\nrng_seed = 0\n[Deffuant]\nhomophily_threshold = 2.0\n[network]\nnumber_of_agents = 12\n", 0 },
            { "[simulation]\nmodel = \"ActivityDriven\"\nrng_seed = 120\n[ActivityDriven]\neps = 0.5\nm = 2\nreluctances = true\n[network]\nnumber_of_agents = 7\nconnections_per_agent = 3\n", 2 },
            { "[simulation]\nmodel = \"ActivityDrivenInertial\"\nrng_seed = -1\n[ActivityDrivenInertial]\neps = 0.5\nm = 2\n[network]\nnumber_of_agents = 7\nconnections_per_agent = 3\n", 3 },
        };
        for( size_t i = 0; i < toml.size(); i++ )
            mc::scenario( fmt::format( "configuration file {}", i ), [=] {
                mc::once( [&] {
                    Case c{ "toml", [=]( int ) { return Config::parse_config_file( case_file( "conf.toml", toml[i].first ) ); }, toml[i].second };
                    auto a = steps_of( c, 0 );
                    library();
                    auto b = steps_of( c, 0 );
                    MC_CHECK( a == b, "configuration {} with a seed gives different simulations:\n{}", i, toml[i].first );
                } );
            } );
    } );
}
