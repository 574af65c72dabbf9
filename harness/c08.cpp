// MC:
// C08: DeGroot iterations on every small network and opinion vector, against the weighted-sum reference.
#include "sim.hpp"

using A   = SimpleAgent;
using N   = Network<A>;
using Dir = N::EdgeDirection;

static void run( const Edges & e, const vector<double> & x0, int steps, bool stochastic, double tol = 1e-12 )
{
    size_t n = e.size();
    N net    = make_network<N>( e, Dir::Incoming );
    Config::DeGrootSettings s;
    s.max_iterations  = 1000;
    s.convergence_tol = 1e-9;
    for( size_t i = 0; i < n; i++ )
        net.agents[i].data.opinion = 7.5 - 2.0 * i; // what the agents held when the model was created must not matter
    DeGrootModel model( s, net );
    for( size_t i = 0; i < n; i++ )
        net.agents[i].data.opinion = x0[i];
    model.initialize_iterations();
    auto x = x0;
    for( int it = 0; it < steps; it++ )
    {
        auto old  = x;
        double lo = 1e300, hi = -1e300;
        for( double v : old )
            lo = std::min( lo, v ), hi = std::max( hi, v );
        model.iteration();
        mc::step();
        MC_CHECK( net.n_agents() == n && edges_of( net ) == e && net.direction() == Dir::Incoming, "the network changed" );
        double scale = 0;
        for( double v : old )
            scale = std::max( scale, std::abs( v ) );
        for( size_t i = 0; i < n; i++ )
        {
            double v = 0, ws = 0;
            for( auto & [j, w] : e[i] )
            {
                v += w * old[j];
                ws += std::abs( w * old[j] );
            }
            double got = net.agents[i].data.opinion;
            MC_CHECK( std::abs( got - v ) <= tol * ws, "iteration {}: agent {} of {} at {} has opinion {} instead of {}", it + 1, i, n <= 20 ? str( e ) : fmt::format( "{} agents", n ), n <= 20 ? old : vector<double>(), got, v );
            if( stochastic )
                MC_CHECK( got >= lo - 1e-12 * scale && got <= hi + 1e-12 * scale, "iteration {}: opinion {} outside [{}, {}]", it + 1, got, lo, hi );
            x[i] = got;
        }
    }
    mc::Hash h;
    hash( h, e );
    h( x0 );
    mc::state( h.h );
    h( x );
    mc::outcome( h.h );
    if( n <= 20 && mc::want_sample() )
        mc::sample( fmt::format( "{} x0={} -> {}", str( e ), x0, x ) );
}

int main( int argc, char ** argv )
{
    return mc::main( "C08", argc, argv, [] {
        mc::bounds( "n = 1, 2: every network with lists of up to 3 edges (parallel and self edges, weights of either sign) and opinions from a menu; n = 3: all row-stochastic "
                    "matrices with entries in quarters, in several list orders, and opinion triples; n = 4: every digraph with equal weights; structured networks of up "
                    "to 200 agents and sparse ones with two full rows of up to 70 000; 1-4 successive iterations each; histories of 1200 iterations for 48 networks." );
        const vector<double> W = { 1.0, 0.5, -0.75, 0.0, -40.0, 2.5e5, 3e-17 };
        const vector<double> X = { 0.0, 1.0, -2.5, 0.125, 3e9, -7e-8 };
        for( int a = 0; a < 3; a++ )
            for( int la = 0; la <= 3; la++ )
                for( int lb = 0; lb <= ( mc::thorough() ? 3 : 2 ); lb++ )
                    mc::scenario( fmt::format( "n=2 lists {} {} weights {}", la, lb, a ), [=] {
                        mc::explore( {}, [&] {
                            Edges e( 2 );
                            for( int k = 0; k < la; k++ )
                                e[0].push_back( { size_t( mc::choose( 2 ) ), mc::pick( W ) } );
                            for( int k = 0; k < lb; k++ )
                                e[1].push_back( { size_t( mc::choose( 2 ) ), W[( 2 * a + k + 6 * ( a == 2 && k == 1 ) ) % 7] } );
                            run( e, { mc::pick( X ), mc::pick( X ) }, 2, false );
                        } );
                    } );
        mc::scenario( "n=1", [=] {
            mc::explore( {}, [&] {
                Edges e( 1 );
                int l = mc::choose( 4 );
                for( int k = 0; k < l; k++ )
                    e[0].push_back( { 0, mc::pick( W ) } );
                run( e, { mc::pick( X ) }, 3, false );
            } );
        } );
        // n=3: rows from the 15 compositions of 4 quarters into 3
        vector<std::array<int, 3>> rows;
        for( int a = 0; a <= 4; a++ )
            for( int b = 0; a + b <= 4; b++ )
                rows.push_back( { a, b, 4 - a - b } );
        for( size_t r0 = 0; r0 < rows.size(); r0++ )
            mc::scenario( fmt::format( "n=3 row {}", r0 ), [=] {
                mc::explore( {}, [&] {
                    Edges e( 3 );
                    int order = mc::choose( mc::thorough() ? 6 : 3 );
                    for( int i = 0; i < 3; i++ )
                    {
                        auto & r = i == 0 ? rows[r0] : mc::pick( rows );
                        for( int k = 0; k < 3; k++ )
                        {
                            size_t j = order < 3 ? ( k + order ) % 3 : ( 5 - k - order % 3 ) % 3;
                            if( r[j] > 0 || ( order == 1 && i == 1 ) ) // also explicit zero weights
                                e[i].push_back( { j, r[j] / 4.0 } );
                        }
                    }
                    int xs = mc::choose( 7 );
                    vector<double> x = xs == 0 ? vector<double>{ 0, 0.5, 1 } : xs == 1 ? vector<double>{ -1, 3, 0.25 } : xs == 2 ? vector<double>{ 0.7, 0.7, 0.7 } : xs == 3 ? vector<double>{ 1, 0, 0 } : xs == 4 ? vector<double>{ 1e6, -1e-6, 2 } : xs == 5 ? vector<double>{ 1e250, -3e250, 2e249 } : vector<double>{ 1e-200, 3e-200, -4e-200 };
                    run( e, x, mc::thorough() ? 6 : 4, true );
                } );
            } );
        for( int hi = 0; hi < 16; hi++ )
            mc::scenario( fmt::format( "n=4 digraphs {}", hi ), [=] {
                mc::explore( {}, [&] {
                    unsigned bits = unsigned( hi ) << 12 | unsigned( mc::choose( 1 << 12 ) );
                    Edges e( 4 );
                    for( size_t i = 0; i < 4; i++ )
                    {
                        for( size_t j = 0; j < 4; j++ )
                            if( bits >> ( 4 * i + j ) & 1 )
                                e[i].push_back( { j, 0 } );
                        if( e[i].empty() )
                            e[i].push_back( { i, 0 } );
                        for( auto & [j, w] : e[i] )
                            w = 1.0 / e[i].size();
                    }
                    run( e, { 0, 0.3, 0.9, -0.4 }, 2, true );
                } );
            } );
        // long histories: the reference follows the implementation step by step
        for( size_t n : { 2, 5, 17 } )
            mc::scenario( fmt::format( "long n={}", n ), [=] {
                mc::explore( {}, [&] {
                    int shape = mc::choose( 4 ), xs = mc::choose( 4 );
                    Edges e( n );
                    vector<double> x;
                    for( size_t i = 0; i < n; i++ )
                    {
                        if( shape == 0 )
                            e[i] = { { ( i + 1 ) % n, 1.0 } };
                        else if( shape == 1 )
                            e[i] = { { i, 0.75 }, { ( i + 1 ) % n, 0.25 } };
                        else if( shape == 2 ) // converges within a few steps
                            for( size_t j = 0; j < n; j++ )
                                e[i].push_back( { j, 1.0 / n } );
                        else // a stubborn agent
                            e[i] = i == 0 ? vector<std::pair<size_t, double>>{ { 0, 1.0 } } : vector<std::pair<size_t, double>>{ { i - 1, 0.5 }, { i, 0.5 } };
                        x.push_back( xs == 0 ? double( i ) / n : xs == 1 ? 1e-9 * i : xs == 2 ? ( i % 2 ? -1.0 : 1.0 ) : i == n - 1 ? 1.0 : 0.0 );
                    }
                    run( e, x, mc::thorough() ? 5000 : 1200, true );
                } );
            } );
        for( size_t n : { 5, 8, 13, 16, 17, 32, 33, 64, 100, 200 } )
            mc::scenario( fmt::format( "structured n={}", n ), [=] {
                mc::explore( {}, [&] {
                    int shape = mc::choose( 5 );
                    size_t d  = mc::pick( { 1, 2, 7, 33 } );
                    Edges e( n );
                    for( size_t i = 0; i < n; i++ )
                    {
                        if( shape == 0 )
                            e[i].push_back( { ( i + d ) % n, 1.0 } );
                        else if( shape == 1 )
                            for( size_t k = 0; k <= d; k++ )
                                e[i].push_back( { ( i * k + 3 ) % n, 1.0 / ( d + 1 ) } );
                        else if( shape == 2 )
                            for( size_t j = 0; j < n; j++ )
                                e[i].push_back( { j, 1.0 / n } );
                        else if( shape == 3 )
                            e[i].push_back( { i == 0 ? n - 1 : 0, 1.0 } );
                        else
                        {
                            double sum = 0;
                            for( size_t k = 0; k < 1 + i % 9; k++ )
                            {
                                e[i].push_back( { ( i + k * k + d ) % n, 1.0 + k } );
                                sum += 1.0 + k;
                            }
                            for( auto & [j, w] : e[i] )
                                w /= sum;
                        }
                    }
                    vector<double> x;
                    int xs = mc::choose( 3 );
                    for( size_t i = 0; i < n; i++ )
                        x.push_back( xs == 0 ? double( i ) / n : xs == 1 ? 0.3 : ( i * 7919 % 101 ) - 50.0 );
                    run( e, x, 3, true );
                } );
            } );
        // many agents, and agents that hear very many
        for( size_t n : { 1000, 4100, 70000 } )
            mc::scenario( fmt::format( "many agents n={}", n ), [=] {
                mc::explore( {}, [&] {
                    int shape = mc::choose( 3 );
                    Edges e( n );
                    for( size_t i = 0; i < n; i++ )
                        if( shape == 0 )
                            e[i] = { { ( i + 1 ) % n, 0.5 }, { ( 2 * i + 5 ) % n, 0.5 } };
                        else if( shape == 1 )
                            e[i] = { { n - 1 - i, 1.0 } };
                        else
                            e[i] = { { i, 0.25 }, { n / 2, 0.75 } };
                    for( size_t hub : { size_t( 3 ), n - 2 } )
                    {
                        e[hub].clear();
                        for( size_t j = 0; j < n; j++ )
                            e[hub].push_back( { ( j + hub ) % n, 1.0 / n } );
                    }
                    vector<double> x;
                    for( size_t i = 0; i < n; i++ )
                        x.push_back( ( i * 7919 % 10007 ) / 500.0 - 9.0 );
                    run( e, x, 2, true );
                } );
            } );
    } );
}
