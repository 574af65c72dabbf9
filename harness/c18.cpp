// MC: rng
// C18: the files a run writes, for every combination of the output settings.
#include "activity.hpp"
#include <map>

namespace stdfs = std::filesystem;
using Files     = std::map<std::string, std::string>;

static std::string slurp( const std::string & p )
{
    std::ifstream f( p, std::ios::binary );
    return { std::istreambuf_iterator<char>( f ), {} };
}
static std::string fresh_dir()
{
    auto d = mc::scratch() + "/out";
    stdfs::remove_all( d );
    stdfs::create_directory( d );
    return d;
}
static Files list( const std::string & d )
{
    Files f;
    for( auto & e : stdfs::recursive_directory_iterator( d ) )
        f[stdfs::relative( e.path(), d ).string()] = e.is_regular_file() ? slurp( e.path().string() ) : "<directory>";
    return f;
}
// Files of an earlier run under the given names, longer or shorter than the new ones.
static void make_stale( const std::string & d, const Files & names )
{
    size_t i = 0;
    for( auto & [n, t] : names )
        std::ofstream( d + "/" + n ) << std::string( i++ % 2 ? 10 : 3000, '7' ) << "\n";
}
// The numbers of the rows that are no comments, read independently of the code under test.
static vector<vector<double>> numbers( const std::string & t )
{
    vector<vector<double>> rows;
    for( size_t p = 0; p < t.size(); )
    {
        size_t e       = std::min( t.find( '\n', p ), t.size() );
        std::string ln = t.substr( p, e - p );
        p              = e + 1;
        if( ln.empty() || ln[0] == '#' )
            continue;
        rows.push_back( {} );
        for( const char * c = ln.c_str(); *c; )
        {
            char * end;
            double v = std::strtod( c, &end );
            MC_CHECK( end != c, "no number in column {} of: {}", rows.back().size(), ln );
            rows.back().push_back( v );
            c = end + std::strspn( end, " " );
            MC_CHECK( *c == ',' || *c == 0, "columns are not separated by commas: {}", ln );
            c += *c == ',';
        }
    }
    return rows;
}
static vector<double> attributes( const SimpleAgent & a )
{
    return { a.data.opinion };
}
static vector<double> attributes( const ActivityAgent & a )
{
    return { a.data.opinion, a.data.activity, a.data.reluctance };
}
static vector<double> attributes( const InertialAgent & a )
{
    return { a.data.opinion, a.data.velocity, a.data.activity, a.data.reluctance };
}
static vector<double> attributes( const DiscreteVectorAgent & a )
{
    return { a.data.opinion.begin(), a.data.opinion.end() };
}
template<typename A>
static void check_agents_text( const Network<A> & n, const std::string & t )
{
    auto rows = numbers( t );
    MC_CHECK( rows.size() == n.n_agents(), "{} rows for {} agents:\n{}", rows.size(), n.n_agents(), t );
    for( size_t i = 0; i < rows.size(); i++ )
    {
        auto want = attributes( n.agents[i] );
        want.insert( want.begin(), double( i ) );
        MC_CHECK( rows[i] == want, "the row of agent {} is {} instead of {}", i, rows[i], want );
    }
}
template<typename A>
static void check_network_text( const Network<A> & n, const std::string & t )
{
    auto rows = numbers( t );
    auto e    = edges_of( n );
    MC_CHECK( rows.size() == n.n_agents(), "{} rows for {} agents:\n{}", rows.size(), n.n_agents(), t );
    for( size_t i = 0; i < rows.size(); i++ )
    {
        vector<double> want = { double( i ), double( e[i].size() ) };
        for( auto & [j, w] : e[i] )
            want.push_back( double( j ) );
        for( auto & [j, w] : e[i] )
            want.push_back( w );
        MC_CHECK( rows[i] == want, "the network row of agent {} is {} instead of {}", i, rows[i], want );
    }
}

template<typename A>
static std::string agents_text( const Network<A> & n )
{
    auto p = mc::scratch() + "/ref.txt";
    agents_to_file( n, p );
    auto t = slurp( p );
    check_agents_text( n, t );
    return t;
}
template<typename A>
static std::string network_text( const Network<A> & n )
{
    auto p = mc::scratch() + "/ref.txt";
    network_to_file( n, p );
    auto t = slurp( p );
    check_network_text( n, t );
    return t;
}

// A model whose every iteration changes agents and network in a known way, and which records the states.
struct Probe : Model<SimpleAgent>
{
    Network<SimpleAgent> & net;
    vector<std::pair<std::string, std::string>> states; // agents, network after each iteration
    size_t calls = 0;
    vector<size_t> every; // if set, only states of these multiples are recorded
    Probe( Network<SimpleAgent> & n, std::optional<size_t> max ) : Model<SimpleAgent>( max ), net( n ) {}
    void iteration() override
    {
        Model<SimpleAgent>::iteration();
        calls++;
        for( size_t i = 0; i < net.n_agents(); i++ )
        {
            net.agents[i].data.opinion = double( calls ) + 0.125 * i;
            net.set_neighbours_and_weights( i, vector<size_t>{ ( i + calls ) % net.n_agents() }, vector<double>{ 0.5 + calls } );
        }
        bool skip = !every.empty();
        for( auto k : every )
            skip &= k == 0 || calls % k;
        if( skip )
            states.emplace_back();
        else
            states.push_back( { agents_text( net ), network_text( net ) } );
    }
};

static std::string show( const Files & f )
{
    std::string s;
    for( auto & [n, t] : f )
        s += n + " ";
    return s;
}

static void compare( const Files & got, const Files & want, const std::string & what )
{
    for( auto & [n, t] : want )
    {
        MC_CHECK( got.count( n ), "{}: file {} is missing; files: {}", what, n, show( got ) );
        MC_CHECK( got.at( n ) == t, "{}: file {} is\n{}\ninstead of\n{}", what, n, got.at( n ).substr( 0, 400 ), t.substr( 0, 400 ) );
    }
    for( auto & [n, t] : got )
        MC_CHECK( want.count( n ), "{}: unexpected file {}; expected: {}", what, n, show( want ) );
}

static Config::OutputSettings pick_output()
{
    Config::OutputSettings s;
    s.n_output_agents      = mc::pick<std::optional<size_t>>( { std::nullopt, 1, 2, 3, 5 } );
    s.n_output_network     = mc::pick<std::optional<size_t>>( { std::nullopt, 1, 2, 4 } );
    s.start_output         = mc::pick<size_t>( { 1, 2, 3, 4, 10 } );
    s.start_numbering_from = mc::pick<size_t>( { 0, 1, 7 } );
    s.output_initial       = mc::choose( 2 );
    s.print_progress       = mc::choose( 2 );
    return s;
}
static std::string show( const Config::OutputSettings & s )
{
    return fmt::format( "n_output_agents {} n_output_network {} start_output {} start_numbering_from {} output_initial {} print_progress {}", s.n_output_agents, s.n_output_network, s.start_output, s.start_numbering_from,
        s.output_initial, s.print_progress );
}
static Files expected( const Config::OutputSettings & s, const std::pair<std::string, std::string> & initial, const vector<std::pair<std::string, std::string>> & states, size_t first = 0 )
{
    Files f;
    if( s.output_initial )
    {
        f[fmt::format( "opinions_{}.txt", s.start_numbering_from )] = initial.first;
        f[fmt::format( "network_{}.txt", s.start_numbering_from )]  = initial.second;
    }
    for( size_t i = 1; first + i <= states.size(); i++ )
    {
        if( s.n_output_agents && i >= s.start_output && i % *s.n_output_agents == 0 )
            f[fmt::format( "opinions_{}.txt", s.start_numbering_from + i )] = states[first + i - 1].first;
        if( s.n_output_network && i >= s.start_output && i % *s.n_output_network == 0 )
            f[fmt::format( "network_{}.txt", s.start_numbering_from + i )] = states[first + i - 1].second;
    }
    return f;
}

template<typename A>
static void real_model( const std::string & name, const std::function<Simulation<A>()> & make, size_t iterations )
{
    for( int bg = 0; bg < 3; bg++ )
        mc::scenario( fmt::format( "{} background {}", name, bg ), [=] {
            mc::Policy p;
            p.background = bg;
            p.menu       = mc::cells( 2 );
            p.max_dev    = 0;
            mc::explore( p, [&] {
                auto o = pick_output();
                if( o.start_numbering_from == 1 || o.start_output == 4 )
                    return; // thinned: the combinations are covered by the probe model
                // a twin without any output, stepped by hand with the same random words
                vector<std::pair<std::string, std::string>> states;
                mc::set_rng_pos( 0 );
                auto twin    = make();
                auto initial = std::pair( agents_text( twin.network ), network_text( twin.network ) );
                twin.model->initialize_iterations();
                while( !twin.model->finished() )
                {
                    twin.model->iteration();
                    states.push_back( { agents_text( twin.network ), network_text( twin.network ) } );
                }
                MC_CHECK( states.size() == iterations, "{} iterations", states.size() );
                mc::set_rng_pos( 0 );
                auto sim            = make();
                sim.output_settings = o;
                auto d              = fresh_dir();
                auto want           = expected( o, initial, states );
                if( bg == 1 )
                    make_stale( d, want );
                sim.run( d );
                mc::step( 2 * iterations );
                compare( list( d ), want, name + ": " + show( o ) );
                MC_CHECK( agents_text( sim.network ) == agents_text( twin.network ) && network_text( sim.network ) == network_text( twin.network ), "{}: {} changed the simulation", name, show( o ) );
                mc::Hash h;
                h( name )( show( o ) )( bg );
                mc::state( h.h );
            } );
        } );
}

int main( int argc, char ** argv )
{
    return mc::main( "C18", argc, argv, [] {
        mc::bounds( "All combinations of 5 agent and 4 network intervals, 5 start values, 3 numberings, initial output, progress printing, and iteration limits 0, 1, 2, 5, 6, 12 with a recording model, each run "
                    "twice in a row (the second time over existing files), and 2016 combinations of 130 iterations; contents read by an independent reader; the five models with 192 combinations from 3 sequences of random draws against a twin without output." );
        for( size_t limit : { 0, 1, 2, 5, 6, 12 } )
            mc::scenario( fmt::format( "probe limit {}", limit ), [=] {
                mc::explore( {}, [&] {
                    auto o   = pick_output();
                    size_t n = 2;
                    mc::Quiet q;
                    auto opt            = options_degroot( n, 1, {} );
                    opt.output_settings = o;
                    auto sim            = make_sim<SimpleAgent>( opt );
                    auto probe          = std::make_unique<Probe>( sim.network, limit );
                    auto & pr           = *probe;
                    sim.model           = std::move( probe );
                    for( int round = 0; round < 2; round++ )
                    {
                        auto initial = std::pair( agents_text( sim.network ), network_text( sim.network ) );
                        auto d       = round ? mc::scratch() + "/out" : fresh_dir();
                        if( round ) // over the files of the first run, made longer
                            make_stale( d, list( d ) );
                        sim.run( d );
                        mc::step( limit );
                        auto what = fmt::format( "{}, {} iterations, run {}", show( o ), limit, round + 1 );
                        MC_CHECK( pr.calls == ( round + 1 ) * limit, "{}: {} iterations in all", what, pr.calls );
                        compare( list( d ), expected( o, initial, pr.states, round * limit ), what );
                    }
                    mc::Hash h;
                    h( show( o ) )( limit );
                    mc::state( h.h );
                    if( mc::want_sample() && limit )
                        mc::sample( show( o ) + ": " + show( expected( o, { "", "" }, pr.states, limit ) ) );
                } );
            } );
        // long runs and large numbers
        mc::scenario( "probe long", [=] {
            mc::explore( {}, [&] {
                Config::OutputSettings o;
                o.n_output_agents      = mc::pick<std::optional<size_t>>( { std::nullopt, 1, 7, 10, 64, 100, 1000 } );
                o.n_output_network     = mc::pick<std::optional<size_t>>( { std::nullopt, 9, 101 } );
                o.start_output         = mc::pick<size_t>( { 1, 50, 64, 99, 128, 200 } );
                o.start_numbering_from = mc::pick<size_t>( { 0, 93, 995, 99990 } );
                o.output_initial       = mc::choose( 2 );
                o.print_progress       = mc::choose( 2 );
                mc::Quiet q;
                size_t limit        = 130;
                auto opt            = options_degroot( 2, 1, {} );
                opt.output_settings = o;
                auto sim            = make_sim<SimpleAgent>( opt );
                auto probe          = std::make_unique<Probe>( sim.network, limit );
                auto & pr           = *probe;
                sim.model           = std::move( probe );
                auto initial        = std::pair( agents_text( sim.network ), network_text( sim.network ) );
                auto d              = fresh_dir();
                sim.run( d );
                mc::step( limit );
                compare( list( d ), expected( o, initial, pr.states ), fmt::format( "{}, {} iterations", show( o ), limit ) );
                mc::Hash h;
                h( show( o ) )( limit );
                mc::state( h.h );
            } );
        } );
        mc::scenario( "probe thousands", [=] {
            mc::explore( {}, [&] {
                Config::OutputSettings o;
                o.n_output_agents      = mc::pick<std::optional<size_t>>( { 999, 1500, 2048 } );
                o.n_output_network     = mc::pick<std::optional<size_t>>( { std::nullopt, 1500, 1024 } );
                o.start_output         = mc::pick<size_t>( { 1, 1500, 2049 } );
                o.start_numbering_from = mc::pick<size_t>( { 0, 4000000 } );
                o.print_progress       = o.start_numbering_from > 0;
                mc::Quiet q;
                size_t limit        = 3100;
                auto opt            = options_degroot( 2, 1, {} );
                opt.output_settings = o;
                auto sim            = make_sim<SimpleAgent>( opt );
                auto probe          = std::make_unique<Probe>( sim.network, limit );
                auto & pr           = *probe;
                pr.every            = { *o.n_output_agents, o.n_output_network.value_or( 0 ) };
                sim.model           = std::move( probe );
                auto initial        = std::pair( agents_text( sim.network ), network_text( sim.network ) );
                auto d              = fresh_dir();
                sim.run( d );
                mc::step( limit );
                MC_CHECK( pr.calls == limit, "{} iterations instead of {}", pr.calls, limit );
                compare( list( d ), expected( o, initial, pr.states ), fmt::format( "{}, {} iterations", show( o ), limit ) );
                mc::Hash h;
                h( show( o ) )( limit );
                mc::state( h.h );
            } );
        } );
        size_t L = 4;
        Config::DeGrootSettings dg;
        dg.max_iterations  = int( L );
        dg.convergence_tol = 0;
        real_model<SimpleAgent>( "DeGroot", [=] { return make_sim<SimpleAgent>( options_degroot( 4, 2, dg ) ); }, L );
        Config::DeffuantSettings df;
        df.max_iterations = int( L );
        df.homophily_threshold = 0.6;
        real_model<SimpleAgent>( "Deffuant", [=] { return make_sim<SimpleAgent>( options_deffuant( 4, df ) ); }, L );
        auto dv              = df;
        dv.use_binary_vector = true;
        dv.dim               = 3;
        dv.use_network       = true;
        real_model<DiscreteVectorAgent>( "Deffuant vector", [=] { return make_sim<DiscreteVectorAgent>( options_deffuant( 4, dv ) ); }, L );
        AS as;
        as.max_iterations = int( L );
        as.m              = 2;
        as.eps            = 0.3;
        real_model<ActivityAgent>( "activity", [=] { return make_sim<ActivityAgent>( options_activity( 4, as ) ); }, L );
        auto am         = as;
        am.mean_weights = true;
        real_model<ActivityAgent>( "mean field", [=] { return make_sim<ActivityAgent>( options_activity( 4, am ) ); }, L );
        real_model<InertialAgent>( "inertial", [=] { return make_sim<InertialAgent>( Sim<InertialAgent>::options( 4, as ) ); }, L );
    } );
}
