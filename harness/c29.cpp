// MC: exe
// C29: the real executable, every combination of model, network source, agent source, output folder and
// spelling of the command line, compared with a library run of options built in code; and every way to fail.
#include "sim.hpp"
#include <fcntl.h>
#include <map>
#include <sys/wait.h>
#include <unistd.h>

namespace stdfs = std::filesystem;
using Files = std::map<std::string, std::string>;

struct Exit
{
    bool signalled;
    int code;
    std::string err;
};
static std::string slurp( const std::string & p )
{
    std::ifstream in( p, std::ios::binary );
    return { std::istreambuf_iterator<char>( in ), {} };
}
static std::string spell( const vector<std::string> & args )
{
    std::string s = "seldon";
    for( auto & a : args )
        s += " '" + a + "'";
    return s;
}
// Runs the executable in the folder `cwd`.
static Exit seldon( const vector<std::string> & args, const std::string & cwd )
{
    const char * exe = getenv( "MC_SELDON" );
    if( !exe )
        mc::internal( "MC_SELDON is not set" );
    auto errfile = mc::scratch() + "/stderr";
    fflush( nullptr );
    pid_t p = fork();
    if( p < 0 )
        mc::internal( "fork" );
    if( p == 0 )
    {
        if( chdir( cwd.c_str() ) )
            _exit( 98 );
        int null = open( "/dev/null", O_RDWR );
        int err  = open( errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644 );
        dup2( null, 0 );
        dup2( null, 1 );
        dup2( err, 2 );
        setenv( "ASAN_OPTIONS", "detect_leaks=0:exitcode=97:handle_abort=0:symbolize=0", 1 );
        setenv( "UBSAN_OPTIONS", "halt_on_error=1:exitcode=97", 1 );
        struct itimerval none{};
        setitimer( ITIMER_REAL, &none, nullptr );
        alarm( 60 );
        vector<char *> argv;
        argv.push_back( const_cast<char *>( exe ) );
        for( auto & a : args )
            argv.push_back( const_cast<char *>( a.c_str() ) );
        argv.push_back( nullptr );
        execv( exe, argv.data() );
        _exit( 98 );
    }
    int status = 0;
    while( waitpid( p, &status, 0 ) < 0 )
        ;
    mc::step();
    Exit e{ bool( WIFSIGNALED( status ) ), WIFSIGNALED( status ) ? WTERMSIG( status ) : WEXITSTATUS( status ), slurp( errfile ) };
    if( !e.signalled && e.code == 98 )
        mc::internal( "cannot execute seldon" );
    MC_CHECK( e.signalled || e.code != 97, "{}: sanitizer report: {}", spell( args ), e.err.substr( 0, 1500 ) );
    MC_CHECK( !e.signalled || e.code == SIGABRT, "{}: killed by signal {}", spell( args ), e.code );
    MC_CHECK( e.err.find( "Assertion '" ) == std::string::npos, "{}: {}", spell( args ), e.err.substr( 0, 1500 ) );
    return e;
}
static Files files_in( const std::string & dir )
{
    Files f;
    for( auto & e : stdfs::recursive_directory_iterator( dir ) )
        if( e.is_regular_file() )
            f[stdfs::relative( e.path(), dir ).string()] = slurp( e.path().string() );
    return f;
}
static std::string names( const Files & f )
{
    std::string s;
    for( auto & [n, t] : f )
        s += n + " ";
    return s;
}

// ---- configurations: the TOML text and the same options built in code
struct Conf
{
    std::string name, toml;
    Config::SimulationOptions options;
    int type; // 0 simple, 1 vector, 2 activity, 3 inertial
};
static std::string common_toml( const std::string & model, const Config::SimulationOptions & o, int iterations )
{
    std::string s = fmt::format( "[simulation]\nmodel = \"{}\"\nrng_seed = {}\n", model, o.rng_seed );
    s += "[io]\n";
    if( o.output_settings.n_output_agents )
        s += fmt::format( "n_output_agents = {}\n", *o.output_settings.n_output_agents );
    if( o.output_settings.n_output_network )
        s += fmt::format( "n_output_network = {}\n", *o.output_settings.n_output_network );
    s += fmt::format( "print_progress = {}\noutput_initial = {}\nstart_output = {}\nstart_numbering_from = {}\n", o.output_settings.print_progress, o.output_settings.output_initial, o.output_settings.start_output, o.output_settings.start_numbering_from );
    s += fmt::format( "[model]\nmax_iterations = {}\n", iterations );
    s += fmt::format( "[network]\nnumber_of_agents = {}\nconnections_per_agent = {}\n", o.network_settings.n_agents, o.network_settings.n_connections );
    return s;
}
static void outputs( Config::SimulationOptions & o, int seed )
{
    o.rng_seed                             = seed;
    o.output_settings.n_output_agents      = 2;
    o.output_settings.n_output_network     = 3;
    o.output_settings.print_progress       = seed % 2;
    o.output_settings.output_initial       = true;
    o.output_settings.start_output         = 2;
    o.output_settings.start_numbering_from = 10;
    // less output
    if( seed == 3 || seed == 6 )
        o.output_settings.n_output_network.reset();
    if( seed == 4 || seed == 5 )
        o.output_settings.n_output_agents.reset();
    if( seed == 5 )
        o.output_settings.n_output_network.reset();
    if( seed == 4 || seed == 6 )
        o.output_settings.output_initial = false;
    if( seed == 6 )
    {
        o.rng_seed                             = 123456789;
        o.output_settings.n_output_agents      = 1;
        o.output_settings.start_output         = 1;
        o.output_settings.start_numbering_from = 0;
    }
}
static Conf degroot( int seed, size_t n )
{
    Config::DeGrootSettings s;
    s.max_iterations  = 6;
    s.convergence_tol = 1e-12;
    auto o            = options_degroot( n, 3, s );
    outputs( o, seed );
    return { "DeGroot", common_toml( "DeGroot", o, 6 ) + "[DeGroot]\nconvergence = 1e-12\n", o, 0 };
}
static Conf deffuant( int seed, size_t n, bool net, bool vec )
{
    Config::DeffuantSettings s;
    s.max_iterations      = 6;
    s.homophily_threshold = vec ? 3 : 0.4;
    s.mu                  = 0.3;
    s.use_network         = net;
    s.use_binary_vector   = vec;
    s.dim                 = vec ? 4 : 1;
    auto o                = options_deffuant( n, s );
    o.network_settings.n_connections = 2;
    outputs( o, seed );
    return { fmt::format( "Deffuant{}{}", net ? " lattice" : "", vec ? " vector" : "" ),
             common_toml( "Deffuant", o, 6 ) + fmt::format( "[Deffuant]\nhomophily_threshold = {}\nmu = 0.3\nuse_network = {}\nbinary_vector = {}\ndim = {}\n", s.homophily_threshold, net, vec, s.dim ), o, vec ? 1 : 0 };
}
static Conf activity( int seed, size_t n, bool inertial, bool mean_w, size_t bots, bool rel, bool mean_a )
{
    Config::ActivityDrivenInertialSettings s;
    s.max_iterations      = 6;
    s.dt                  = 0.05;
    s.m                   = 2;
    s.eps                 = 0.3;
    s.gamma               = 2.5;
    s.homophily           = 0.75;
    s.reciprocity         = 0.5;
    s.alpha               = 1.5;
    s.K                   = 2;
    s.mean_activities     = mean_a;
    s.mean_weights        = mean_w;
    s.use_reluctances     = rel;
    s.covariance_factor   = rel ? 0.5 : 0.0;
    s.reluctance_mean     = 1.5;
    s.reluctance_sigma    = 0.5;
    s.reluctance_eps      = 0.125;
    s.n_bots              = bots;
    s.bot_m               = vector<int>( bots, 1 );
    s.bot_activity        = vector<double>( bots, 0.75 );
    s.bot_opinion         = vector<double>( bots, -1.5 );
    s.bot_homophily       = vector<double>( bots, 0.25 );
    s.friction_coefficient = 0.5;
    std::string model      = inertial ? "ActivityDrivenInertial" : "ActivityDriven";
    auto o = inertial ? options_inertial( n, s ) : options_activity( n, s );
    o.network_settings.n_connections = 2;
    outputs( o, seed );
    auto t = common_toml( model, o, 6 ) + fmt::format( "[{}]\ndt = 0.05\nm = 2\neps = 0.3\ngamma = 2.5\nhomophily = 0.75\nreciprocity = 0.5\nalpha = 1.5\nK = 2.0\nmean_activities = {}\nmean_weights = {}\nreluctances = {}\ncovariance_factor = {}\nreluctance_mean = 1.5\nreluctance_sigma = 0.5\nreluctance_eps = 0.125\nn_bots = {}\n", model, mean_a, mean_w, rel, rel ? "0.5" : "0.0", bots );
    if( bots == 1 )
        t += "bot_m = [1]\nbot_activity = [0.75]\nbot_opinion = [-1.5]\nbot_homophily = [0.25]\n";
    if( inertial )
        t += "friction_coefficient = 0.5\n";
    return { model + ( mean_w ? " mean field" : "" ) + ( bots ? " bot" : "" ) + ( rel ? " reluctances" : "" ) + ( mean_a ? " mean activities" : "" ), t, o, inertial ? 3 : 2 };
}
static vector<Conf> confs( int seed )
{
    vector<Conf> v{ degroot( seed, 9 ), deffuant( seed, 9, false, false ), deffuant( seed, 9, true, false ), deffuant( seed, 9, false, true ), deffuant( seed, 9, true, true ),
                    activity( seed, 9, false, false, 0, false, false ), activity( seed, 9, false, true, 1, false, true ), activity( seed, 9, false, false, 1, true, false ),
                    activity( seed, 9, true, false, 0, false, false ), activity( seed, 9, true, true, 1, true, false ) };
    return v;
}

static std::string network_text( size_t n )
{
    std::string s = "# written by hand\n";
    for( size_t i = 0; i < n; i++ )
        s += i == 1 ? fmt::format( "{}, 1, 0, 1.0\n", i ) : fmt::format( "{}, 2, {}, {}, 0.25, 0.75\n", i, i, ( i + n - 1 ) % n );
    return s;
}
static std::string agent_text( int type, size_t n )
{
    std::string s = "# written by hand\n";
    for( size_t i = 0; i < n; i++ )
        switch( type )
        {
        case 0: s += fmt::format( "{}, {}\n", i, 0.0625 * i + 0.03125 ); break;
        case 1: s += fmt::format( "{}, {}, {}, {}, {}\n", i, i % 2, i / 2 % 2, 1, i / 4 % 2 ); break;
        case 2: s += fmt::format( "{}, {}, {}, {}\n", i, 0.5 * i - 0.75, 0.5 + 0.03125 * ( i % 16 ), 1.25 + i ); break;
        default: s += fmt::format( "{}, {}, {}, {}, {}\n", i, 0.5 * i - 0.75, 0.125 * i - 0.25, 0.5 + 0.03125 * ( i % 16 ), 1.25 + i ); break;
        }
    return s;
}
template<typename A>
static void library_run( const Config::SimulationOptions & o, std::optional<std::string> nf, std::optional<std::string> af, const std::string & dir )
{
    Simulation<A>( o, nf, af ).run( dir );
}
static std::string put( const std::string & path, const std::string & text )
{
    std::ofstream( path ) << text;
    return path;
}

static void success( int seed, size_t which )
{
    auto c = confs( seed )[which];
    mc::explore( {}, [&] {
        bool net     = mc::choose( 2 );
        bool agents  = mc::choose( 2 );
        bool less    = seed >= 3 && seed <= 6;
        int out      = less ? mc::pick( { 0, 3 } ) : mc::choose( 5 ); // existing folder, new nested folder, relative, existing files inside, "." inside the path
        int spelling = less ? seed % 4 : mc::choose( 4 );
        auto base    = mc::scratch();
        for( auto d : { "in", "ref", "cwd", "far" } )
        {
            stdfs::remove_all( base + "/" + d );
            stdfs::create_directory( base + "/" + d );
        }
        size_t n = 9;
        std::optional<std::string> nf, af;
        auto toml = c.toml;
        auto o    = c.options;
        if( net )
        {
            n  = 16;
            nf = put( base + ( spelling == 1 ? "/in/cli network=1.x" : "/in/cli_network" ), network_text( 16 ) );
        }
        if( agents )
            af = put( base + "/in/agents", agent_text( c.type, n ) );
        auto conf = put( base + ( spelling == 1 ? "/cwd/conf.toml" : "/in/conf.toml" ), toml );
        std::string dir, outarg;
        switch( out )
        {
        case 0: dir = outarg = base + "/far/a"; stdfs::create_directory( dir ); break;
        case 1: dir = outarg = base + "/far/new/nested/folder"; break;
        case 2: outarg = "rel/out"; dir = base + "/cwd/rel/out"; break;
        case 3:
            dir = outarg = base + "/far/used";
            stdfs::create_directory( dir );
            break;
        default: outarg = base + "/far/../far/./b/"; dir = base + "/far/b"; break;
        }
        std::string confarg = spelling == 1 ? "conf.toml" : spelling == 3 ? "../in/conf.toml" : conf;
        // paths are relative to the folder in which the command runs, wherever the configuration is
        auto cn = nf, ca = af;
        auto relative = [&]( std::optional<std::string> & file, std::optional<std::string> & arg, const std::string & other ) {
            if( !file || spelling < 2 )
                return;
            auto name = stdfs::path( *file ).filename().string();
            arg       = "../in/" + name;
            if( spelling == 2 ) // in the current folder; a different file of that name lies beside the configuration
            {
                auto here = base + "/cwd/" + name;
                stdfs::rename( *file, here );
                put( *file, other );
                file = here;
                arg  = out % 2 ? "./" + name : name;
            }
        };
        relative( nf, cn, "0, 1, 0, 1.0\n" );
        relative( af, ca, agent_text( c.type, n + 1 ) );
        vector<std::string> opts, args;
        bool longf = spelling >= 2;
        auto add   = [&]( const char * s, const char * l, const std::string & v ) {
            opts.push_back( longf ? l : s );
            opts.push_back( v );
        };
        if( spelling == 3 && cn )
            add( "-n", "--network", *cn );
        if( spelling == 3 && ca )
            add( "-a", "--agents", *ca );
        add( "-o", "--output", outarg );
        if( spelling != 3 && ca )
            add( "-a", "--agents", *ca );
        if( spelling != 3 && cn )
            add( "-n", "--network", *cn );
        args = opts;
        if( spelling == 0 || spelling == 3 )
            args.insert( args.begin(), confarg );
        else if( spelling == 1 )
            args.push_back( confarg );
        else
            args.insert( args.begin() + 2, confarg );
        auto cwd_before = files_in( base + "/cwd" ), in_before = files_in( base + "/in" );

        auto ref = base + "/ref";
        switch( c.type )
        {
        case 0: library_run<SimpleAgent>( o, nf, af, ref ); break;
        case 1: library_run<DiscreteVectorAgent>( o, nf, af, ref ); break;
        case 2: library_run<ActivityAgent>( o, nf, af, ref ); break;
        default: library_run<InertialAgent>( o, nf, af, ref ); break;
        }
        auto want = files_in( ref );
        MC_CHECK( want.size() >= ( less ? 2 : 4 ), "{}: the library run wrote only {}", c.name, names( want ) );
        if( out == 3 ) // files of an earlier run, longer than what replaces them
            for( auto & [name, text] : want )
                put( dir + "/" + name, std::string( 5000, 'x' ) );

        auto e    = seldon( args, base + "/cwd" );
        auto what = c.name + ": " + spell( args );
        MC_CHECK( !e.signalled && e.code == 0, "{} failed: {}", what, e.err );
        auto got = files_in( dir );
        for( auto & [name, text] : want )
        {
            MC_CHECK( got.count( name ), "{}: no file {} (only {})", what, name, names( got ) );
            MC_CHECK( got[name] == text, "{}: {} is\n{}instead of\n{}", what, name, got[name], text );
        }
        MC_CHECK( got.size() == want.size(), "{}: files {} instead of {}", what, names( got ), names( want ) );
        // Given agents are the initial agents.
        if( agents && o.output_settings.output_initial )
        {
            auto ops = got["opinions_10.txt"];
            auto given = agent_text( c.type, n );
            std::istringstream a( ops ), b( given );
            std::string la, lb;
            size_t rows = 0;
            bool first  = true;
            while( std::getline( b, lb ) )
            {
                if( lb[0] == '#' )
                    continue;
                do
                    MC_CHECK( bool( std::getline( a, la ) ), "{}: the initial opinion file has {} rows", what, rows );
                while( la.empty() || la[0] == '#' );
                std::replace( la.begin(), la.end(), ',', ' ' );
                std::replace( lb.begin(), lb.end(), ',', ' ' );
                std::istringstream xa( la ), xb( lb );
                double va, vb;
                bool bot = rows == 0 && c.name.find( "bot" ) != std::string::npos; // a bot may keep its own opinion
                while( xb >> vb )
                {
                    MC_CHECK( bool( xa >> va ), "{}: row '{}' instead of '{}'", what, la, lb );
                    MC_CHECK( va == vb || bot, "{}: row '{}' instead of '{}'", what, la, lb );
                }
                rows++;
                first = false;
            }
            MC_CHECK( rows == n, "{}: {} rows", what, rows );
        }
        // Nothing else was written anywhere.
        auto cwd = files_in( base + "/cwd" );
        for( auto & [name, text] : got )
            if( out == 2 )
                cwd.erase( "rel/out/" + name );
        MC_CHECK( cwd == cwd_before, "{}: wrote {} into the current folder", what, names( cwd ) );
        MC_CHECK( files_in( base + "/in" ) == in_before, "{}: changed its input files", what );
        mc::Hash h;
        for( auto & [name, text] : got )
            h( name )( text );
        mc::state( h.h );
        if( mc::want_sample() )
            mc::sample( what + " -> " + names( got ) );
    } );
}

// Without -o the run must succeed, too.
static void no_output_option()
{
    auto all = confs( 1 );
    mc::explore( {}, [&] {
        auto c    = mc::pick( all );
        auto base = mc::scratch();
        stdfs::remove_all( base + "/cwd" );
        stdfs::create_directory( base + "/cwd" );
        auto conf = put( base + "/cwd/conf.toml", c.toml );
        bool rel  = mc::choose( 2 );
        vector<std::string> args{ rel ? "conf.toml" : conf };
        auto e = seldon( args, base + "/cwd" );
        MC_CHECK( !e.signalled && e.code == 0, "{}: {} failed: {}", c.name, spell( args ), e.err );
    } );
}

struct Fail
{
    std::string name;
    std::function<vector<std::string>( const std::string & base )> args; // creates the files, returns the command line
};
static std::string change( std::string toml, const std::string & key, const std::string & value )
{
    auto p = toml.find( "\n" + key + " = " );
    if( p == std::string::npos )
        mc::internal( "no key " + key + " in\n" + toml );
    auto e = toml.find( '\n', p + 1 );
    return toml.replace( p, e - p, "\n" + key + " = " + value );
}
static void failures()
{
    vector<Fail> f;
    auto good = confs( 1 );
    auto ok   = [=]( const std::string & base, size_t i = 0 ) { return put( base + "/in/conf.toml", good[i].toml ); };
    auto out  = []( const std::string & base ) { return base + "/out"; };
    // arguments
    f.push_back( { "no arguments", []( const std::string & ) { return vector<std::string>{}; } } );
    f.push_back( { "only -o", [=]( const std::string & b ) { return vector<std::string>{ "-o", out( b ) }; } } );
    f.push_back( { "only --output and --agents", [=]( const std::string & b ) { return vector<std::string>{ "--output", out( b ), "--agents", put( b + "/in/a", agent_text( 0, 9 ) ) }; } } );
    for( auto opt : { "-o", "-a", "-n", "--output", "--agents", "--network" } )
        f.push_back( { std::string( opt ) + " without value", [=]( const std::string & b ) { return vector<std::string>{ ok( b ), opt }; } } );
    f.push_back( { "unknown option", [=]( const std::string & b ) { return vector<std::string>{ ok( b ), "-o", out( b ), "--frobnicate" }; } } );
    // unreadable files
    f.push_back( { "no such configuration", [=]( const std::string & b ) { return vector<std::string>{ b + "/in/none.toml", "-o", out( b ) }; } } );
    f.push_back( { "configuration is a folder", [=]( const std::string & b ) { return vector<std::string>{ b + "/in", "-o", out( b ) }; } } );
    f.push_back( { "configuration is not TOML", [=]( const std::string & b ) { return vector<std::string>{ put( b + "/in/c", "model: DeGroot\n" ), "-o", out( b ) }; } } );
    f.push_back( { "empty configuration", [=]( const std::string & b ) { return vector<std::string>{ put( b + "/in/c", "" ), "-o", out( b ) }; } } );
    for( std::string m : { "degroot", "Voter", "" } )
        f.push_back( { "model '" + m + "'", [=]( const std::string & b ) { return vector<std::string>{ put( b + "/in/c", change( good[0].toml, "model", "\"" + m + "\"" ) ), "-o", out( b ) }; } } );
    for( size_t i = 0; i < good.size(); i++ )
    {
        auto t = good[i].name;
        for( auto opt : { "-n", "--network", "-a", "--agents" } )
        {
            f.push_back( { t + ": " + opt + " no such file", [=]( const std::string & b ) { return vector<std::string>{ ok( b, i ), "-o", out( b ), opt, b + "/in/none" }; } } );
            f.push_back( { t + ": " + opt + " a folder", [=]( const std::string & b ) { return vector<std::string>{ ok( b, i ), "-o", out( b ), opt, b + "/in" }; } } );
        }
        f.push_back( { t + ": one of two files is missing", [=]( const std::string & b ) { return vector<std::string>{ ok( b, i ), "-o", out( b ), "-n", put( b + "/in/n", network_text( 4 ) ), "-a", b + "/in/none" }; } } );
        f.push_back( { t + ": the other file is missing", [=]( const std::string & b ) { return vector<std::string>{ ok( b, i ), "-o", out( b ), "-a", put( b + "/in/a", agent_text( good[i].type, 9 ) ), "-n", b + "/in/none" }; } } );
        // failed validation, one setting at a time
        vector<std::pair<std::string, std::string>> bad{ { "n_output_agents", "0" }, { "n_output_network", "0" }, { "start_output", "0" } };
        if( t.starts_with( "DeGroot" ) )
            bad.push_back( { "convergence", "-1.0" } );
        else if( t.starts_with( "Deffuant" ) )
        {
            for( auto p : { std::pair( "homophily_threshold", "0.0" ), std::pair( "homophily_threshold", "-0.5" ), std::pair( "mu", "1.5" ), std::pair( "mu", "-0.1" ), std::pair( "dim", "0" ) } )
                bad.push_back( p );
            if( t.find( "vector" ) == std::string::npos )
                bad.push_back( { "dim", "2" } );
        }
        else
        {
            for( auto p : { std::pair( "dt", "0.0" ), std::pair( "dt", "-0.1" ), std::pair( "m", "-1" ), std::pair( "eps", "0.0" ), std::pair( "gamma", "2.0" ), std::pair( "alpha", "-1.0" ), std::pair( "reciprocity", "-0.5" ), std::pair( "covariance_factor", "1.5" ),
                            std::pair( "covariance_factor", "-1.5" ), std::pair( "reluctance_mean", "0.0" ), std::pair( "reluctance_sigma", "0.0" ), std::pair( "reluctance_eps", "0.0" ) } )
                bad.push_back( p );
            if( t.find( "Inertial" ) != std::string::npos )
                bad.push_back( { "friction_coefficient", "-0.5" } );
            if( t.find( "bot" ) != std::string::npos )
                for( auto p : { std::pair( "bot_m", "[]" ), std::pair( "bot_activity", "[]" ), std::pair( "bot_opinion", "[]" ), std::pair( "bot_homophily", "[]" ) } )
                    bad.push_back( p );
        }
        for( auto & [k, v] : bad )
            for( int with = 0; with < 8 + 3; with++ ) // a network file, an agent file, long options; less output
            {
                auto toml = with < 8 ? good[i].toml : confs( with - 5 )[i].toml;
                if( toml.find( "\n" + k + " = " ) == std::string::npos )
                    continue;
                f.push_back( { t + ": " + k + " = " + v + fmt::format( " ({})", with ), [=, k = k, v = v]( const std::string & b ) {
                                  vector<std::string> a{ put( b + "/in/conf.toml", change( toml, k, v ) ), with < 8 && with & 4 ? "--output" : "-o", out( b ) };
                                  if( with < 8 && with & 1 )
                                      a.insert( a.end(), { with < 8 && with & 4 ? "--network" : "-n", put( b + "/in/n", network_text( 9 ) ) } );
                                  if( with < 8 && with & 2 )
                                      a.insert( a.end(), { with < 8 && with & 4 ? "--agents" : "-a", put( b + "/in/a", agent_text( good[i].type, 9 ) ) } );
                                  return a;
                              } } );
            }
    }
    mc::explore( {}, [&] {
        auto c    = mc::pick( f );
        auto base = mc::scratch();
        for( auto d : { "in", "cwd", "out" } )
            stdfs::remove_all( base + "/" + d );
        for( auto d : { "in", "cwd" } )
            stdfs::create_directory( base + "/" + d );
        auto args   = c.args( base );
        if( mc::choose( 2 ) ) // an output folder that exists already
        {
            stdfs::create_directory( base + "/out" );
            put( base + "/out/opinions_10.txt", "old\n" );
        }
        auto before = files_in( base );
        auto e      = seldon( args, base + "/cwd" );
        MC_CHECK( e.signalled || e.code != 0, "{}: {} succeeded", c.name, spell( args ) );
        auto after = files_in( base );
        after.erase( "stderr" );
        before.erase( "stderr" );
        MC_CHECK( after == before, "{}: {} failed but left the files {}", c.name, spell( args ), names( after ) );
        mc::outcome( e.signalled ? 1000 + e.code : e.code );
        mc::state( mc::Hash()( c.name ).h );
        if( mc::want_sample() )
            mc::sample( c.name + ": " + spell( args ) + " -> " + ( e.signalled ? "signal " : "status " ) + std::to_string( e.code ) );
    } );
}

int main( int c, char ** v )
{
    return mc::main( "C29", c, v, [] {
        mc::bounds( "10 configurations covering every model and mode, 9 agents (16 from a network file), 6 iterations x network {generated, -n} x agents {generated, -a} x 5 kinds of output folder x 4 spellings of the command line; also with agents, networks or only the initial state as output; every setting out of range with and without network and agent files, every missing argument and unreadable file per configuration" );
        for( int seed = 1; seed <= ( mc::thorough() ? 16 : 6 ); seed++ )
            for( size_t i = 0; i < confs( seed ).size(); i++ )
                mc::scenario( fmt::format( "{} with seed {}", confs( seed )[i].name, seed ), [=] { success( seed, i ); } );
        mc::scenario( "no output option", no_output_option );
        mc::scenario( "failures", failures );
    } );
}
