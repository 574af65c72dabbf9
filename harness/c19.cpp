// MC: rng
// C19: how many iterations a run performs.
#include "activity.hpp"

static std::string out()
{
    return mc::scratch();
}
static Config::OutputSettings silent()
{
    Config::OutputSettings o;
    o.output_initial = false;
    return o;
}

// ---- DeGroot
static double reference_step( const Edges & e, vector<double> & x )
{
    vector<double> y( x.size(), 0.0 );
    double d = 0;
    for( size_t i = 0; i < e.size(); i++ )
    {
        for( auto & [j, w] : e[i] )
            y[i] += w * x[j];
        d = std::max( d, std::abs( y[i] - x[i] ) );
    }
    x = y;
    return d;
}
// Iterations until convergence or the limit; -1: too close to the tolerance to tell, or no end within 400.
static int reference( const Edges & e, vector<double> & x, std::optional<int> limit, double tol, int most = 400 )
{
    for( int k = 0;; k++ )
    {
        if( limit && k >= *limit )
            return k;
        if( k > most )
            return -1;
        double d = reference_step( e, x );
        if( tol > 0 && std::abs( d - tol ) < 1e-9 * tol )
            return -1;
        if( d < 1e-14 && tol < 1e-13 && tol > 0 )
            return -1;
        if( d < tol )
            return k + 1;
    }
}
static void degroot( const Edges & e, const vector<double> & x0, std::optional<int> limit, double tol, int runs, bool by_hand, int most = 400 )
{
    size_t n = e.size();
    auto ref = x0;
    if( reference( e, ref, limit, tol, most ) < 0 )
        return;
    mc::Quiet q;
    Config::DeGrootSettings s;
    s.max_iterations    = limit;
    s.convergence_tol   = tol;
    auto opt            = options_degroot( n, 0, s );
    opt.output_settings = silent();
    auto sim            = make_sim<SimpleAgent>( opt );
    for( size_t i = 0; i < n; i++ )
    {
        vector<size_t> nb;
        vector<double> w;
        for( auto & [j, x] : e[i] )
        {
            nb.push_back( j );
            w.push_back( x );
        }
        sim.network.set_neighbours_and_weights( i, nb, w );
        sim.network.agents[i].data.opinion = x0[i];
    }
    ref = x0;
    for( int r = 0; r < runs; r++ )
    {
        auto before = ref;
        int want    = reference( e, ref, limit, tol, most );
        if( want < 0 )
            return;
        if( by_hand )
        {
            sim.model->initialize_iterations();
            for( int k = 0; !sim.model->finished() && k < most + 100; k++ )
                sim.model->iteration();
        }
        else
            sim.run( out() );
        mc::step( want );
        auto what = fmt::format( "run {} with limit {} tolerance {} on {} from {}", r + 1, limit, tol, str( e ), before );
        MC_CHECK( sim.model->n_iterations() == size_t( want ), "{}: {} iterations instead of {}", what, sim.model->n_iterations(), want );
        for( size_t i = 0; i < n; i++ )
            MC_CHECK( close( sim.network.agents[i].data.opinion, ref[i], 1e-9, 1e-11 ), "{}: opinion {} of agent {} is not that after {} iterations ({})", what, sim.network.agents[i].data.opinion, i, want, ref[i] );
        MC_CHECK( sim.model->finished(), "{}: not finished after the run", what );
        mc::Hash h;
        h( x0 )( limit.value_or( -1 ) )( tol )( r );
        hash( h, e );
        mc::state( h.h );
        h( want );
        mc::outcome( h.h );
        if( want > 1 && mc::want_sample() )
            mc::sample( fmt::format( "{}: {} iterations", what, want ) );
    }
}

// ---- the other models: a twin stepped by hand with the same random words
template<typename A>
static vector<double> flat( const Simulation<A> & s )
{
    vector<double> v;
    for( auto & a : s.network.agents )
    {
        if constexpr( std::is_same_v<A, DiscreteVectorAgent> )
            v.insert( v.end(), a.data.opinion.begin(), a.data.opinion.end() );
        else
            v.push_back( a.data.opinion );
        if constexpr( std::is_same_v<A, InertialAgent> )
            v.push_back( a.data.velocity );
    }
    return v;
}
template<typename A>
static void other( const std::string & name, std::function<Config::SimulationOptions( std::optional<int> )> options )
{
    for( int bg = 0; bg < 3; bg++ )
        mc::scenario( fmt::format( "{} {}", name, bg ), [=] {
            mc::Policy p;
            p.background = bg;
            p.max_dev    = 0;
            mc::explore( p, [&] {
                int limit = mc::pick( name.find( "rest" ) != std::string::npos ? vector<int>{ 0, 1, 3, 256, 1000, 32768, 65536, 70000, 300000 } : vector<int>{ 0, 1, 2, 3, 7, 20, 100, 257, 1000 } ), runs = 1 + mc::choose( 3 );
                mc::set_rng_pos( 0 );
                auto t    = options( std::nullopt );
                auto twin = make_sim<A>( t );
                auto pos0 = mc::rng_pos();
                mc::set_rng_pos( 0 );
                auto o            = options( limit );
                o.output_settings = silent();
                auto sim          = make_sim<A>( o );
                for( int r = 0; r < runs; r++ )
                {
                    mc::set_rng_pos( pos0 );
                    for( int k = 0; k < limit; k++ )
                        twin.model->iteration();
                    auto pos1 = mc::rng_pos();
                    mc::set_rng_pos( pos0 );
                    sim.run( out() );
                    mc::step( limit );
                    MC_CHECK( sim.model->n_iterations() == size_t( limit ), "{}: run {} with limit {} counts {} iterations", name, r + 1, limit, sim.model->n_iterations() );
                    MC_CHECK( flat( sim ) == flat( twin ), "{}: run {} with limit {} does not end in the state after {} iterations", name, r + 1, limit, limit );
                    MC_CHECK( mc::rng_pos() == pos1, "{}: run {} with limit {} draws differently", name, r + 1, limit );
                    pos0 = pos1;
                    mc::Hash h;
                    h( name )( limit )( r )( flat( sim ) );
                    mc::state( h.h );
                }
            } );
            // without a limit there is no end
            mc::explore( p, [&] {
                auto sim = make_sim<A>( options( std::nullopt ) );
                for( int round = 0; round < 2; round++ )
                {
                    sim.model->initialize_iterations();
                    MC_CHECK( sim.model->n_iterations() == 0, "{}: the count does not start from zero", name );
                    for( size_t k = 0; k < ( name.find( "rest" ) != std::string::npos ? 70000 : 1200 ); k++ )
                    {
                        MC_CHECK( !sim.model->finished(), "{}: finished after {} iterations without a limit", name, k );
                        sim.model->iteration();
                        mc::step();
                        MC_CHECK( sim.model->n_iterations() == k + 1, "{}: {} iterations counted after {}", name, sim.model->n_iterations(), k + 1 );
                    }
                }
            } );
        } );
}

int main( int argc, char ** argv )
{
    return mc::main( "C19", argc, argv, [] {
        mc::bounds( "DeGroot: all row-stochastic 2x2 matrices in quarters and 3x3 matrices from a menu of rows, opinion vectors, 8 limits (also none), 6 tolerances (also 0), up to 3 runs; other models: limits "
                    "0..1000 (300000 for one of them), also with settings that bring everything to rest, up to 3 runs, 3 sequences of draws, against a twin stepped by hand; 2400 (140000) iterations without a limit; DeGroot networks that converge in up to 100000 iterations." );
        const vector<std::optional<int>> limits = { std::nullopt, 0, 1, 2, 3, 5, 20, 200 };
        for( double tol : { 0.0, 1e-12, 1e-6, 1e-3, 0.1, 0.6 } )
            for( auto limit : limits )
            {
                mc::scenario( fmt::format( "DeGroot n=2 tolerance {} limit {}", tol, limit.value_or( -1 ) ), [=] {
                    mc::explore( {}, [&] {
                        Edges e( 2 );
                        for( int i = 0; i < 2; i++ )
                        {
                            int a = mc::choose( 5 );
                            for( int j = 0; j < 2; j++ )
                                if( ( j ? 4 - a : a ) > 0 )
                                    e[i].push_back( { size_t( j ), ( j ? 4 - a : a ) / 4.0 } );
                        }
                        vector<double> x = { mc::pick( { 0.0, 1.0, 0.3 } ), mc::pick( { 0.5, 1.0, -4.0 } ) };
                        degroot( e, x, limit, tol, 3, mc::choose( 2 ) );
                    } );
                } );
                mc::scenario( fmt::format( "DeGroot n=3 tolerance {} limit {}", tol, limit.value_or( -1 ) ), [=] {
                    mc::explore( {}, [&] {
                        const vector<vector<double>> rows = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 0.5, 0.5, 0 }, { 0, 0.25, 0.75 }, { 0.2, 0.3, 0.5 } };
                        Edges e( 3 );
                        for( int i = 0; i < 3; i++ )
                        {
                            auto & r = mc::pick( rows );
                            for( size_t j = 0; j < 3; j++ )
                                if( r[j] > 0 )
                                    e[i].push_back( { j, r[j] } );
                        }
                        vector<double> x = mc::choose( 2 ) ? vector<double>{ 0, 1.0 / 3, 2.0 / 3 } : vector<double>{ 1, 1, -1 };
                        degroot( e, x, limit, tol, 2, false );
                    } );
                } );
            }
        // slow convergence and large limits
        for( std::optional<int> limit : { std::optional<int>(), std::optional<int>( 255 ), std::optional<int>( 1000 ), std::optional<int>( 32768 ), std::optional<int>( 65537 ), std::optional<int>( 100000 ) } )
            mc::scenario( fmt::format( "DeGroot slow, limit {}", limit.value_or( -1 ) ), [=] {
                mc::explore( {}, [&] {
                    double q   = mc::pick( { 1e-4, 1e-3, 0.01 } );
                    double tol = mc::pick( { 3.1e-8, 3.1e-6, 3.1e-4, 0.0 } );
                    Edges e;
                    if( mc::choose( 2 ) )
                        e = { { { 0, 1 - q }, { 1, q } }, { { 1, 1.0 } } };
                    else
                        e = { { { 0, 1 - q }, { 1, q } }, { { 0, q }, { 1, 1 - q } } };
                    if( !limit && tol == 0.0 )
                        return;
                    degroot( e, { 0.0, 1.0 }, limit, tol, 2, mc::choose( 2 ), 200000 );
                } );
            } );
        // large opinions and tolerances
        for( double tol : { 0.7, 2.0, 50.0, 3e4 } )
            mc::scenario( fmt::format( "DeGroot tolerance {}", tol ), [=] {
                mc::explore( {}, [&] {
                    double q = mc::pick( { 0.25, 0.05 } ), scale = mc::pick( { 1.0, 3.0, 410.0, 3.3e6 } );
                    Edges e;
                    if( mc::choose( 2 ) )
                        e = { { { 0, 1 - q }, { 1, q } }, { { 1, 1.0 } } };
                    else
                        e = { { { 0, 1 - q }, { 1, q } }, { { 0, q }, { 1, 1 - q } } };
                    degroot( e, { -scale, scale }, mc::choose( 2 ) ? std::optional<int>() : std::optional<int>( 5 ), tol, 2, mc::choose( 2 ) );
                } );
            } );
        // many agents, of which few still move
        for( size_t n : { 300, 5000 } )
            mc::scenario( fmt::format( "DeGroot n={}", n ), [=] {
                mc::explore( {}, [&] {
                    size_t who = mc::pick( { size_t( 0 ), n / 3, n - 1 } );
                    Edges e( n );
                    for( size_t i = 0; i < n; i++ )
                        e[i] = { { i, 1.0 } };
                    e[who] = { { who, 0.5 }, { ( who + 1 ) % n, 0.5 } };
                    vector<double> x( n, 0.25 );
                    x[who] = 1.0;
                    degroot( e, x, mc::choose( 2 ) ? std::optional<int>() : std::optional<int>( 4 ), 0.02, 2, false );
                } );
            } );
        other<SimpleAgent>( "Deffuant", []( auto l ) {
            Config::DeffuantSettings s;
            s.max_iterations = l;
            return options_deffuant( 5, s );
        } );
        other<SimpleAgent>( "Deffuant at rest", []( auto l ) {
            Config::DeffuantSettings s;
            s.max_iterations      = l;
            s.homophily_threshold = 1e-9;
            return options_deffuant( 4, s );
        } );
        for( int v = 0; v < 4; v++ ) // extreme settings that make nothing happen, or everything at once
            other<SimpleAgent>( fmt::format( "Deffuant variant {}", v ), [=]( auto l ) {
                Config::DeffuantSettings s;
                s.max_iterations      = l;
                s.mu                  = v == 0 ? 0.0 : v == 1 ? 0.5 : v == 2 ? 1.0 : 0.25;
                s.homophily_threshold = 5;
                s.use_network         = v >= 2;
                return options_deffuant( v == 3 ? 1 : 4, s );
            } );
        for( int v = 0; v < 3; v++ )
            other<DiscreteVectorAgent>( fmt::format( "Deffuant vector variant {}", v ), [=]( auto l ) {
                Config::DeffuantSettings s;
                s.max_iterations      = l;
                s.use_binary_vector   = true;
                s.dim                 = v == 2 ? 1 : 3;
                s.mu                  = v == 0 ? 0.0 : 1.0;
                s.homophily_threshold = v == 1 ? 0.5 : 10;
                s.use_network         = v == 2;
                return options_deffuant( 4, s );
            } );
        other<DiscreteVectorAgent>( "Deffuant vector", []( auto l ) {
            Config::DeffuantSettings s;
            s.max_iterations    = l;
            s.use_binary_vector = true;
            s.dim               = 2;
            return options_deffuant( 4, s );
        } );
        auto act = []( auto l, bool mean ) {
            AS s;
            s.max_iterations = l;
            s.m              = 2;
            s.eps            = 0.2;
            s.mean_weights   = mean;
            return s;
        };
        auto extreme = [=]( auto l, int v ) {
            auto s = act( l, v == 3 );
            if( v == 0 )
                s.K = 0;
            if( v == 1 )
                s.m = 0;
            if( v == 2 )
                s = with_bots( s, { { 1, 1, 1, 1 }, { 1, 1, 1, 1 }, { 0, 0, 0, 0 }, { 0, 0, 0, 0 } } ); // nobody but bots, in consensus
            if( v == 3 )
                s.alpha = 0;
            return s;
        };
        for( int v = 0; v < 4; v++ )
        {
            other<ActivityAgent>( fmt::format( "activity variant {}", v ), [=]( auto l ) { return options_activity( 4, extreme( l, v ) ); } );
            other<InertialAgent>( fmt::format( "inertial variant {}", v ), [=]( auto l ) { return Sim<InertialAgent>::options( 4, extreme( l, v ), v == 0 ? 0.0 : 3.0 ); } );
        }
        other<ActivityAgent>( "activity", [=]( auto l ) { return options_activity( 4, act( l, false ) ); } );
        other<ActivityAgent>( "mean field", [=]( auto l ) { return options_activity( 4, act( l, true ) ); } );
        other<InertialAgent>( "inertial", [=]( auto l ) { return Sim<InertialAgent>::options( 4, act( l, false ) ); } );
    } );
}
