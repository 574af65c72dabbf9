// MC:
// C20: configuration files with chosen subsets of keys, parsed and compared field by field.
#include "common.hpp"
#include "config_parser.hpp"
#include <map>

using namespace Seldon::Config;
using Values = std::map<std::string, std::string>; // section.key -> TOML value

struct Key
{
    std::string section, key;
    vector<std::string> values; // TOML values different from the default
};

static const vector<Key> common_keys = {
    { "simulation", "rng_seed", { "42", "-7", "0" } },
    { "io", "n_output_network", { "3", "1" } },
    { "io", "n_output_agents", { "2", "7" } },
    { "io", "print_progress", { "true", "false" } },
    { "io", "output_initial", { "false", "true" } },
    { "io", "start_output", { "4", "100" } },
    { "io", "start_numbering_from", { "5", "1000" } },
    { "model", "max_iterations", { "20", "0" } },
    { "network", "number_of_agents", { "17", "1" } },
    { "network", "connections_per_agent", { "4", "0" } },
};
static const vector<Key> activity_keys = {
    { "", "dt", { "0.125", "1" } },
    { "", "m", { "3", "0" } },
    { "", "eps", { "0.25", "1" } },
    { "", "gamma", { "2.75", "3" } },
    { "", "homophily", { "1.5", "0", "-2" } },
    { "", "reciprocity", { "0.75", "1" } },
    { "", "alpha", { "0.05", "7" } },
    { "", "K", { "2.25", "-1" } },
    { "", "mean_activities", { "true", "false" } },
    { "", "mean_weights", { "true", "false" } },
    { "", "covariance_factor", { "0.5", "-1" } },
    { "", "reluctances", { "true", "false" } },
    { "", "reluctance_mean", { "1.75", "2" } },
    { "", "reluctance_sigma", { "0.375", "3" } },
    { "", "reluctance_eps", { "0.0625", "1" } },
    { "", "n_bots", { "2", "1", "3" } },
    { "", "bot_m", { "[4, 5]", "[6]", "[]", "[1, 2, 3, 4]" } },
    { "", "bot_activity", { "[0.5, 1]", "[1.0]", "[]", "[0.1, 0.2, 0.3]" } },
    { "", "bot_opinion", { "[-1, 2.5]", "[3]", "[]", "[1, 2, 3.5]" } },
    { "", "bot_homophily", { "[0.75, 2]", "[-1.5]", "[]", "[1.0, 2.0, 3]" } },
};
static const vector<Key> degroot_keys  = { { "", "convergence", { "0.001", "1", "0" } } };
static const vector<Key> deffuant_keys = {
    { "", "homophily_threshold", { "0.625", "2" } },
    { "", "mu", { "0.25", "1" } },
    { "", "use_network", { "true", "false" } },
    { "", "binary_vector", { "true", "false" } },
    { "", "dim", { "5", "2" } },
};
static const vector<std::string> models = { "DeGroot", "ActivityDriven", "ActivityDrivenInertial", "Deffuant" };

static vector<Key> keys_of( const std::string & model )
{
    auto k = common_keys;
    auto own = model == "DeGroot" ? degroot_keys : model == "Deffuant" ? deffuant_keys : activity_keys;
    if( model == "ActivityDrivenInertial" )
        own.push_back( { "", "friction_coefficient", { "0.5", "2" } } );
    for( auto & x : own )
        k.push_back( { model, x.key, x.values } );
    return k;
}

// More values of one key, by its kind: the ends of the permitted ranges, the defaults, other notations.
static vector<std::string> wide_values( const Key & k )
{
    auto & v0 = k.values[0];
    if( v0 == "true" || v0 == "false" )
        return { "true", "false" };
    if( v0[0] == '[' )
        return k.key == "bot_m" ? vector<std::string>{ "[0, 0, 0, 0, 0]", "[10, 10]", "[2.0, 3]", "[2147483647]", "[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]" } :
                                  vector<std::string>{ "[0, 0, 0, 0, 0]", "[0.0, -0.0]", "[1e-300, 1e300, -1e300]", "[0.1, 1, 0.30000000000000004]", "[-5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9]", "[0.5]", "[1]" };
    static const vector<std::string> counts = { "n_output_network", "n_output_agents", "start_output", "start_numbering_from", "max_iterations", "number_of_agents", "connections_per_agent", "n_bots", "dim", "m", "rng_seed" };
    if( std::find( counts.begin(), counts.end(), k.key ) == counts.end() )
        return { "0", "0.0", "1", "0.01", "0.5", "3.0", "2.1", "1e-6", "0.2", "0.1", "0.30000000000000004", "1e-12", "1e-300", "123456789", "1e300", "-0.25", "-1", "+2.5", "1_000.25", "9007199254740993.0", "2" };
    vector<std::string> v = { "0", "1", "2", "10", "16", "200", "255", "256", "65535", "65536", "1000000", "2147483647", "1_000", "0x10" };
    if( k.key == "n_bots" )
        v.resize( 9 ); // the parser makes one entry per bot
    else if( k.key != "m" && k.key != "rng_seed" && k.key != "max_iterations" )
        v.insert( v.end(), { "4294967296", "1000000000000" } );
    return v;
}

static std::string toml_text( const std::string & model, const Values & v, bool foreign, int order )
{
    std::map<std::string, vector<std::string>> sec;
    sec["simulation"].push_back( "model = \"" + model + "\"" );
    for( auto & [k, x] : v )
    {
        auto dot = k.find( '.' );
        auto & l = sec[k.substr( 0, dot )];
        l.insert( order % 2 ? l.begin() : l.end(), k.substr( dot + 1 ) + " = " + x );
    }
    if( foreign ) // sections of the other models, and unknown keys
    {
        for( auto & m : models )
            if( m != model )
                for( auto & k : keys_of( m ) )
                    if( k.section == m )
                        sec[m].push_back( k.key + " = " + k.values[0] );
        sec["simulation"].push_back( "unknown_key = 99" );
        sec["io"].push_back( "n_output = 99" );
        sec["other"].push_back( "dt = 99.0" );
    }
    vector<std::string> parts;
    for( auto & [s, l] : sec )
    {
        std::string t = "[" + s + "]\n";
        for( auto & x : l )
            t += x + ( order % 3 == 1 ? "   # comment\n" : "\n" );
        parts.insert( order % 2 ? parts.begin() : parts.end(), t );
    }
    std::string r;
    for( auto & p : parts )
        r += p + ( order % 3 == 2 ? "\n" : "" );
    return r;
}

static double num( const std::string & s )
{
    std::string t;
    for( char c : s )
        if( c != '_' )
            t += c;
    return t.starts_with( "0x" ) ? double( std::strtoul( t.c_str(), nullptr, 16 ) ) : std::strtod( t.c_str(), nullptr );
}
static vector<double> list( const std::string & s )
{
    vector<double> v;
    std::string t;
    for( char c : s )
        if( c == ',' || c == ']' )
        {
            if( t.find_first_not_of( ' ' ) != std::string::npos )
                v.push_back( num( t ) );
            t.clear();
        }
        else if( c != '[' )
            t += c;
    return v;
}

struct Check
{
    const Values & v;
    std::string model, text;
    bool has( const std::string & k ) const
    {
        return v.count( k );
    }
    void number( const std::string & k, double got, double def ) const
    {
        double want = has( k ) ? num( v.at( k ) ) : def;
        MC_CHECK( got == want, "{} is {} instead of {} for\n{}", k, got, want, text );
    }
    void boolean( const std::string & k, bool got, bool def ) const
    {
        bool want = has( k ) ? v.at( k ) == "true" : def;
        MC_CHECK( got == want, "{} is {} instead of {} for\n{}", k, got, want, text );
    }
    template<typename T>
    void optional( const std::string & k, const std::optional<T> & got ) const
    {
        MC_CHECK( got.has_value() == has( k ), "{} is {} for\n{}", k, got.has_value() ? "set" : "unset", text );
        if( got )
            number( k, double( *got ), 0 );
    }
    template<typename T>
    void bots( const std::string & k, const vector<T> & got, size_t n, std::optional<double> def ) const
    {
        if( has( k ) )
        {
            auto want = list( v.at( k ) );
            MC_CHECK( got.size() == want.size(), "{} has {} entries instead of {} for\n{}", k, got.size(), want.size(), text );
            for( size_t i = 0; i < want.size(); i++ )
                MC_CHECK( double( got[i] ) == want[i], "{}[{}] is {} instead of {} for\n{}", k, i, got[i], want[i], text );
        }
        else
        {
            MC_CHECK( got.size() == n, "{} has {} default entries for {} bots for\n{}", k, got.size(), n, text );
            if( def )
                for( auto x : got )
                    MC_CHECK( double( x ) == *def, "{}: default entry {} instead of {} for\n{}", k, x, *def, text );
        }
    }
};

static void parse( const std::string & model, const Values & v, bool foreign, int order )
{
    auto text = toml_text( model, v, foreign, order );
    auto path = mc::scratch() + "/conf.toml";
    std::ofstream( path ) << text;
    SimulationOptions o;
    try
    {
        o = parse_config_file( path );
    }
    catch( const std::exception & e )
    {
        mc::fail( fmt::format( "error '{}' for\n{}", e.what(), text ) );
    }
    mc::step();
    Check c{ v, model, text };
    MC_CHECK( o.model_string == model, "model '{}' for\n{}", o.model_string, text );
    MC_CHECK( o.model == ( model == "DeGroot" ? Config::Model::DeGroot : model == "Deffuant" ? Config::Model::DeffuantModel : model == "ActivityDriven" ? Config::Model::ActivityDrivenModel : Config::Model::ActivityDrivenInertial ), "wrong model for\n{}", text );
    if( c.has( "simulation.rng_seed" ) )
        c.number( "simulation.rng_seed", o.rng_seed, 0 );
    c.optional( "io.n_output_network", o.output_settings.n_output_network );
    c.optional( "io.n_output_agents", o.output_settings.n_output_agents );
    c.boolean( "io.print_progress", o.output_settings.print_progress, false );
    c.boolean( "io.output_initial", o.output_settings.output_initial, true );
    c.number( "io.start_output", double( o.output_settings.start_output ), 1 );
    c.number( "io.start_numbering_from", double( o.output_settings.start_numbering_from ), 0 );
    c.number( "network.number_of_agents", double( o.network_settings.n_agents ), 200 );
    c.number( "network.connections_per_agent", double( o.network_settings.n_connections ), 10 );
    auto activity = [&]( const ActivityDrivenSettings & s ) {
        auto m = model + ".";
        c.optional( "model.max_iterations", s.max_iterations );
        c.number( m + "dt", s.dt, 0.01 );
        c.number( m + "m", s.m, 10 );
        c.number( m + "eps", s.eps, 0.01 );
        c.number( m + "gamma", s.gamma, 2.1 );
        c.number( m + "homophily", s.homophily, 0.5 );
        c.number( m + "reciprocity", s.reciprocity, 0.5 );
        c.number( m + "alpha", s.alpha, 3.0 );
        c.number( m + "K", s.K, 3.0 );
        c.boolean( m + "mean_activities", s.mean_activities, false );
        c.boolean( m + "mean_weights", s.mean_weights, false );
        c.number( m + "covariance_factor", s.covariance_factor, 0 );
        c.boolean( m + "reluctances", s.use_reluctances, false );
        c.number( m + "reluctance_mean", s.reluctance_mean, 1.0 );
        c.number( m + "reluctance_sigma", s.reluctance_sigma, 0.25 );
        c.number( m + "reluctance_eps", s.reluctance_eps, 0.01 );
        c.number( m + "n_bots", double( s.n_bots ), 0 );
        c.bots( m + "bot_m", s.bot_m, s.n_bots, s.m );
        c.bots( m + "bot_activity", s.bot_activity, s.n_bots, std::nullopt );
        c.bots( m + "bot_opinion", s.bot_opinion, s.n_bots, 0.0 );
        c.bots( m + "bot_homophily", s.bot_homophily, s.n_bots, s.homophily );
    };
    if( model == "DeGroot" )
    {
        auto & s = std::get<DeGrootSettings>( o.model_settings );
        c.optional( "model.max_iterations", s.max_iterations );
        c.number( "DeGroot.convergence", s.convergence_tol, 1e-6 );
    }
    else if( model == "Deffuant" )
    {
        auto & s = std::get<DeffuantSettings>( o.model_settings );
        c.optional( "model.max_iterations", s.max_iterations );
        c.number( "Deffuant.homophily_threshold", s.homophily_threshold, 0.2 );
        c.number( "Deffuant.mu", s.mu, 0.5 );
        c.boolean( "Deffuant.use_network", s.use_network, false );
        c.boolean( "Deffuant.binary_vector", s.use_binary_vector, false );
        c.number( "Deffuant.dim", double( s.dim ), 1 );
    }
    else if( model == "ActivityDriven" )
        activity( std::get<ActivityDrivenSettings>( o.model_settings ) );
    else
    {
        auto & s = std::get<ActivityDrivenInertialSettings>( o.model_settings );
        activity( s );
        c.number( "ActivityDrivenInertial.friction_coefficient", s.friction_coefficient, 1.0 );
    }
    mc::Hash h;
    h( text );
    mc::state( h.h );
    if( v.size() > 1 && mc::want_sample() )
        mc::sample( text );
}

int main( int argc, char ** argv )
{
    return mc::main( "C20", argc, argv, [] {
        mc::bounds( "Every model: no key, every single key and every pair of keys with all their values (2-4 each), all keys, all keys but one; every key with 2-21 further values (ends of its range, other notations), alone and with all other keys, and pairs of keys with the same of these values or the next one, and all keys from one on with them; all subsets of the output, network and Deffuant keys and of the bot "
                    "keys; with and without sections of the other models and unknown keys, 6 layouts; invalid model names and broken files." );
        for( auto & model : models )
        {
            auto keys = keys_of( model );
            auto name = []( const Key & k ) { return k.section + "." + k.key; };
            mc::scenario( model + " all keys", [=] {
                mc::explore( {}, [&] {
                    Values v;
                    int set  = mc::choose( 3 );
                    size_t skip = mc::choose( int( keys.size() ) + 1 );
                    for( size_t i = 0; i < keys.size(); i++ )
                        if( i != skip )
                            v[name( keys[i] )] = keys[i].values[set % keys[i].values.size()];
                    parse( model, v, mc::choose( 2 ), mc::choose( 6 ) );
                } );
                mc::explore( {}, [&] { parse( model, {}, mc::choose( 2 ), mc::choose( 6 ) ); } );
            } );
            for( size_t i = 0; i < keys.size(); i++ )
                mc::scenario( model + " pairs with " + name( keys[i] ), [=] {
                    mc::explore( {}, [&] {
                        Values v;
                        size_t j           = i + mc::choose( int( keys.size() - i ) );
                        v[name( keys[i] )] = mc::pick( keys[i].values );
                        if( j != i )
                            v[name( keys[j] )] = mc::pick( keys[j].values );
                        parse( model, v, mc::choose( 2 ), mc::thorough() ? mc::choose( 6 ) : int( i + j ) % 6 );
                    } );
                } );
            mc::scenario( model + " wide", [=] {
                mc::explore( {}, [&] {
                    Values v;
                    auto & k = mc::pick( keys );
                    switch( mc::choose( 3 ) ) // alone, with the first, with the second value of all other keys
                    {
                        case 1:
                            for( auto & j : keys )
                                v[name( j )] = j.values[0];
                            break;
                        case 2:
                            for( auto & j : keys )
                                v[name( j )] = j.values[1 % j.values.size()];
                    }
                    v[name( k )] = mc::pick( wide_values( k ) );
                    parse( model, v, false, mc::choose( 2 ) );
                } );
            } );
            for( int shift = 0; shift < ( mc::thorough() ? 4 : 2 ); shift++ )
                mc::scenario( fmt::format( "{} wide pairs {}", model, shift ), [=] {
                    mc::explore( {}, [&] {
                        Values v;
                        size_t i = mc::choose( int( keys.size() ) ), j = mc::choose( int( keys.size() ) + 1 ), x = mc::choose( 21 );
                        if( j < i || ( j == keys.size() && shift ) )
                            return;
                        auto put = [&]( const Key & k, size_t x ) {
                            auto w       = wide_values( k );
                            v[name( k )] = w[std::min( x, w.size() - 1 )];
                        };
                        if( j == keys.size() ) // every key from i on
                            for( size_t k = i; k < keys.size(); k++ )
                                put( keys[k], x );
                        else
                        {
                            put( keys[i], x );
                            put( keys[j], ( x + shift * ( shift > 1 ? 5 : 1 ) ) % 21 );
                        }
                        parse( model, v, false, int( x % 6 ) );
                    } );
                } );
            // all subsets of groups of related keys
            vector<vector<std::string>> groups = { { "simulation", "model", "network", "io" }, { model } };
            for( int part = 0; part < 2; part++ )
            {
                vector<Key> group;
                for( auto & k : keys )
                    if( part == 0 ? k.section == "io" || k.section == "network" : k.section == model && ( model.find( "Activity" ) == std::string::npos || k.key.find( "bot" ) != std::string::npos || k.key == "m" || k.key == "homophily" ) )
                        group.push_back( k );
                if( group.size() < 2 )
                    continue;
                for( int first = 0; first < 2; first++ )
                    mc::scenario( fmt::format( "{} subsets {} {}", model, part, first ), [=] {
                        mc::explore( {}, [&] {
                            Values v;
                            for( size_t i = 0; i < group.size(); i++ )
                            {
                                int c = mc::choose( int( ( part == 1 && group.size() > 6 ? std::min<size_t>( 2, group[i].values.size() ) : mc::thorough() ? group[i].values.size() : 1 ) + 1 ) );
                                if( c > 0 )
                                    v[name( group[i] )] = group[i].values[( c - 1 + first ) % group[i].values.size()];
                            }
                            parse( model, v, false, int( v.size() % 6 ) );
                        } );
                    } );
            }
        }
        mc::scenario( "errors", [] {
            mc::explore( {}, [&] {
                auto path       = mc::scratch() + "/bad.toml";
                std::string t   = mc::pick<std::string>( {
                    "", "[simulation]\nrng_seed = 1\n", "[simulation]\nmodel = \"degroot\"\n", "[simulation]\nmodel = \"\"\n", "[simulation]\nmodel = \"ActivityDrivenModel\"\n", "[simulation]\nmodel = \"Deffuant \"\n",
                    "[simulation]\nmodel = \"DeGrootX\"\n", "[simulation]\nmodel = 3\n", "[Simulation]\nmodel = \"DeGroot\"\n", "model = \"DeGroot\"\n", "[simulation\nmodel = \"DeGroot\"\n", "[simulation]\nmodel = DeGroot\n",
                    "[simulation]\nmodel = \"DeGroot\"\nmodel = \"Deffuant\"\n", "[simulation]\nmodel = \"DeGroot\"\n[io]\nn_output_agents = \n", "[simulation]\nmodel = \"DeGroot\n", "just text\n", "[simulation]\nmodel = \"DeffuantVector\"\n",
                    "[simulation]\nmodel = \"Inertial\"\n",
                } );
                std::ofstream( path ) << t;
                mc::step();
                MC_CHECK( throws( [&] { parse_config_file( path ); } ), "no error for\n{}", t );
                mc::Hash h;
                h( t );
                mc::state( h.h );
            } );
            mc::once( [] { MC_CHECK( throws( [] { parse_config_file( mc::scratch() + "/missing.toml" ); } ), "no error for a missing file" ); } );
        } );
    } );
}
