// MC:
// C21: validation of settings on and around every bound, alone and in combination.
#include "common.hpp"
#include "config_parser.hpp"
#include <functional>

using namespace Seldon::Config;
using O = SimulationOptions;

// One value of one setting, and whether it is permitted.
struct Val
{
    std::string text;
    std::function<void( O & )> set;
    bool ok;
};
using Setting = vector<Val>;

template<typename S, typename T>
static Setting field( const std::string & name, T S::*f, const vector<std::pair<T, bool>> & vals )
{
    Setting r;
    for( auto [v, ok] : vals )
        r.push_back( { fmt::format( "{} = {}", name, v ), [f, v = v]( O & o ) {
                          std::visit( [&]( auto & s ) {
                              if constexpr( std::is_base_of_v<S, std::decay_t<decltype( s )>> )
                                  s.*f = v;
                          }, o.model_settings );
                      }, ok } );
    return r;
}
static const double tiny = 5e-324, inf = INFINITY, nan_ = NAN; // a value that is not a number is in no range

static vector<Setting> output_settings()
{
    vector<Setting> r( 3 );
    for( size_t v : { 0, 1, 2, 1000 } )
    {
        r[0].push_back( { fmt::format( "start_output = {}", v ), [=]( O & o ) { o.output_settings.start_output = v; }, v > 0 } );
        r[1].push_back( { fmt::format( "n_output_agents = {}", v ), [=]( O & o ) { o.output_settings.n_output_agents = v; }, v > 0 } );
        r[2].push_back( { fmt::format( "n_output_network = {}", v ), [=]( O & o ) { o.output_settings.n_output_network = v; }, v > 0 } );
    }
    r[1].push_back( { "n_output_agents unset", []( O & o ) { o.output_settings.n_output_agents.reset(); }, true } );
    r[2].push_back( { "n_output_network unset", []( O & o ) { o.output_settings.n_output_network.reset(); }, true } );
    Setting num;
    for( size_t v : { 0, 1, 77 } )
        num.push_back( { fmt::format( "start_numbering_from = {}", v ), [=]( O & o ) { o.output_settings.start_numbering_from = v; }, true } );
    r.push_back( num );
    Setting misc;
    for( int v = 0; v < 4; v++ )
        misc.push_back( { fmt::format( "print_progress, output_initial, counts {}", v ), [=]( O & o ) {
                             o.output_settings.print_progress = v & 1;
                             o.output_settings.output_initial = v & 2;
                             o.network_settings.n_agents      = v == 1 ? 0 : v;
                             o.network_settings.n_connections = 10 * v;
                             o.rng_seed                       = -v;
                         }, true } );
    r.push_back( misc );
    return r;
}
static vector<Setting> activity_settings( bool inertial )
{
    using S = ActivityDrivenSettings;
    vector<Setting> r;
    vector<std::pair<double, bool>> positive = { { -1.0, false }, { -tiny, false }, { 0.0, false }, { tiny, true }, { 0.5, true }, { 1e6, true }, { inf, true }, { -inf, false }, { nan_, false } };
    vector<std::pair<double, bool>> notneg   = { { -1.0, false }, { -tiny, false }, { 0.0, true }, { 0.5, true }, { 1e6, true }, { inf, true }, { -inf, false }, { nan_, false } };
    vector<std::pair<double, bool>> any      = { { -1e6, true }, { -1.0, true }, { 0.0, true }, { 1e6, true } };
    r.push_back( field( "dt", &S::dt, positive ) );
    r.push_back( field( "eps", &S::eps, positive ) );
    r.push_back( field( "reluctance_mean", &S::reluctance_mean, positive ) );
    r.push_back( field( "reluctance_sigma", &S::reluctance_sigma, positive ) );
    r.push_back( field( "reluctance_eps", &S::reluctance_eps, positive ) );
    r.push_back( field( "alpha", &S::alpha, notneg ) );
    r.push_back( field( "reciprocity", &S::reciprocity, notneg ) );
    r.push_back( field( "homophily", &S::homophily, any ) );
    r.push_back( field( "K", &S::K, any ) );
    r.push_back( field( "m", &S::m, { { -2147483647, false }, { -1, false }, { 0, true }, { 1, true }, { 100000, true } } ) );
    r.push_back( field<S, double>( "gamma", &S::gamma, { { -3.0, false }, { 0.0, false }, { 1.0, false }, { 2.0, false }, { std::nextafter( 2.0, 0 ), false }, { std::nextafter( 2.0, 3 ), true }, { 2.1, true }, { 50.0, true }, { -inf, false }, { nan_, false } } ) );
    r.push_back( field<S, double>( "covariance_factor", &S::covariance_factor, { { -2.0, false }, { std::nextafter( -1.0, -2 ), false }, { -1.0, true }, { 0.0, true }, { 1.0, true }, { std::nextafter( 1.0, 2 ), false }, { 3.0, false }, { inf, false }, { -inf, false }, { nan_, false } } ) );
    for( auto f : { &S::mean_activities, &S::mean_weights, &S::use_reluctances } )
        r.push_back( field<S, bool>( "flag", f, { { false, true }, { true, true } } ) );
    r.push_back( field<S, std::optional<int>>( "max_iterations", &S::max_iterations, { { std::nullopt, true }, { 0, true }, { 5, true } } ) );
    // the number of bots and the lengths of their lists
    Setting bots;
    for( size_t nb : { 0, 1, 3 } )
        for( int l = 0; l < 7; l++ )
        {
            vector<size_t> len( 4, nb + ( l == 1 ? 2 : 0 ) );
            if( l == 6 )
                len.assign( 4, 0 );
            else if( l >= 2 )
                len[l - 2] = nb == 0 ? 1 : nb - 1;
            bots.push_back( { fmt::format( "{} bots, lists {}", nb, len ), [=]( O & o ) {
                                 std::visit( [&]( auto & s ) {
                                     if constexpr( std::is_base_of_v<S, std::decay_t<decltype( s )>> )
                                     {
                                         s.n_bots        = nb;
                                         s.bot_m         = vector<int>( len[0], -1 );
                                         s.bot_activity  = vector<double>( len[1], -2 );
                                         s.bot_opinion   = vector<double>( len[2], 5 );
                                         s.bot_homophily = vector<double>( len[3], 0 );
                                     }
                                 }, o.model_settings );
                             }, nb == 0 || l < 2 } );
        }
    r.push_back( bots );
    if( inertial )
        r.push_back( field( "friction_coefficient", &ActivityDrivenInertialSettings::friction_coefficient, notneg ) );
    return r;
}
static vector<Setting> degroot_settings()
{
    using S = DeGrootSettings;
    return { field<S, double>( "convergence_tol", &S::convergence_tol, { { -1.0, false }, { -tiny, false }, { 0.0, true }, { tiny, true }, { 1e3, true }, { inf, true }, { nan_, false } } ),
             field<S, std::optional<int>>( "max_iterations", &S::max_iterations, { { std::nullopt, true }, { 0, true }, { 5, true } } ) };
}
static vector<Setting> deffuant_settings()
{
    using S = DeffuantSettings;
    Setting dims;
    for( size_t dim : { 0, 1, 2, 1000 } )
        for( bool binary : { false, true } )
            dims.push_back( { fmt::format( "dim {} binary {}", dim, binary ), [=]( O & o ) {
                                 auto & s            = std::get<S>( o.model_settings );
                                 s.dim               = dim;
                                 s.use_binary_vector = binary;
                             }, dim == 1 || ( dim > 0 && binary ) } );
    return { dims, field<S, double>( "homophily_threshold", &S::homophily_threshold, { { -1.0, false }, { -tiny, false }, { 0.0, false }, { tiny, true }, { 0.2, true }, { 7.0, true }, { inf, true }, { nan_, false } } ),
             field<S, double>( "mu", &S::mu, { { -1.0, false }, { -tiny, false }, { 0.0, true }, { tiny, true }, { 0.5, true }, { 1.0, true }, { std::nextafter( 1.0, 2 ), false }, { 2.0, false }, { inf, false }, { -inf, false }, { nan_, false } } ),
             field<S, bool>( "use_network", &S::use_network, { { false, true }, { true, true } } ),
             field<S, std::optional<int>>( "max_iterations", &S::max_iterations, { { std::nullopt, true }, { 0, true }, { 5, true } } ) };
}

static O valid( int model )
{
    O o;
    o.rng_seed        = 1;
    o.output_settings = {};
    switch( model )
    {
        case 0: o.model = Config::Model::DeGroot, o.model_string = "DeGroot", o.model_settings = DeGrootSettings{ std::nullopt, 1e-6 }; break;
        case 1: o.model = Config::Model::ActivityDrivenModel, o.model_string = "ActivityDriven", o.model_settings = ActivityDrivenSettings{}; break;
        case 2: o.model = Config::Model::ActivityDrivenInertial, o.model_string = "ActivityDrivenInertial", o.model_settings = ActivityDrivenInertialSettings{}; break;
        default: o.model = Config::Model::DeffuantModel, o.model_string = "Deffuant", o.model_settings = DeffuantSettings{};
    }
    return o;
}
static void judge( const O & o, bool ok, const std::string & what )
{
    bool error = throws( [&] { validate_settings( o ); } );
    mc::step();
    MC_CHECK( error == !ok, "{}: {} {}", o.model_string, what, error ? "is rejected" : "is accepted" );
    mc::Hash h;
    h( o.model_string )( what );
    mc::state( h.h );
    h( error );
    mc::outcome( h.h );
    if( !what.empty() && mc::want_sample() )
        mc::sample( fmt::format( "{}: {}: {}", o.model_string, what, error ? "rejected" : "accepted" ) );
}

int main( int argc, char ** argv )
{
    return mc::main( "C21", argc, argv, [] {
        mc::bounds( "Every setting of every model and of the output at, next to and far from its bounds: alone, in all pairs and (thorough) triples with all other settings; all bot list lengths 0-4 for 0-3 bots; "
                    "dimension 0-3, 1000 with and without binary vectors." );
        for( int model = 0; model < 4; model++ )
        {
            auto st = output_settings();
            for( auto & s : model == 0 ? degroot_settings() : model == 3 ? deffuant_settings() : activity_settings( model == 2 ) )
                st.push_back( s );
            for( size_t i = 0; i < st.size(); i++ )
                mc::scenario( fmt::format( "model {} setting {}", model, i ), [=] {
                    mc::explore( {}, [&] {
                        auto o   = valid( model );
                        auto & a = mc::pick( st[i] );
                        a.set( o );
                        judge( o, a.ok, a.text );
                    } );
                    mc::explore( {}, [&] {
                        auto o = valid( model );
                        size_t j = i + 1 + mc::choose( int( st.size() - i ) );
                        if( j >= st.size() )
                            return;
                        auto &a = mc::pick( st[i] ), &b = mc::pick( st[j] );
                        a.set( o );
                        b.set( o );
                        if( mc::thorough() && j + 1 < st.size() )
                        {
                            auto & c = mc::pick( st[j + 1 + mc::choose( int( st.size() - j - 1 ) )] );
                            c.set( o );
                            judge( o, a.ok && b.ok && c.ok, a.text + ", " + b.text + ", " + c.text );
                        }
                        else
                            judge( o, a.ok && b.ok, a.text + ", " + b.text );
                    } );
                } );
        }
        for( int model = 1; model < 3; model++ )
            mc::scenario( fmt::format( "model {} bots", model ), [=] {
                mc::explore( {}, [&] {
                    auto o       = valid( model );
                    size_t nb    = mc::choose( 4 ), l[4];
                    bool ok      = true;
                    for( auto & x : l )
                        ok &= ( x = mc::choose( 5 ) ) >= nb;
                    auto fill = [&]( ActivityDrivenSettings & s ) {
                        s.n_bots        = nb;
                        s.bot_m         = vector<int>( l[0], 1 );
                        s.bot_activity  = vector<double>( l[1], 1 );
                        s.bot_opinion   = vector<double>( l[2], 1 );
                        s.bot_homophily = vector<double>( l[3], 1 );
                    };
                    if( model == 1 )
                        fill( std::get<ActivityDrivenSettings>( o.model_settings ) );
                    else
                        fill( std::get<ActivityDrivenInertialSettings>( o.model_settings ) );
                    judge( o, ok, fmt::format( "{} bots, list lengths {} {} {} {}", nb, l[0], l[1], l[2], l[3] ) );
                } );
            } );
        mc::scenario( "dimensions", [=] {
            mc::explore( {}, [&] {
                auto o   = valid( 3 );
                auto & s = std::get<DeffuantSettings>( o.model_settings );
                s.dim    = mc::pick<size_t>( { 0, 1, 2, 3, 1000 } );
                s.use_binary_vector = mc::choose( 2 );
                s.use_network       = mc::choose( 2 );
                s.mu                = mc::pick( { 0.5, 1.5 } );
                bool ok = s.dim > 0 && ( s.dim == 1 || s.use_binary_vector ) && s.mu <= 1;
                judge( o, ok, fmt::format( "dim {} binary {} network {} mu {}", s.dim, s.use_binary_vector, s.use_network, s.mu ) );
            } );
        } );
    } );
}
