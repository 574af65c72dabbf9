// MC: rng
// C07: the lattice for every edge length, and which agent counts a lattice simulation accepts.
#include "sim.hpp"

static vector<size_t> grid_neighbours( size_t i, size_t L )
{
    size_t x = i % L, y = i / L;
    vector<size_t> v = { ( x + 1 ) % L + L * y, ( x + L - 1 ) % L + L * y, x + L * ( ( y + 1 ) % L ), x + L * ( ( y + L - 1 ) % L ) };
    std::sort( v.begin(), v.end() );
    return v;
}
template<typename N>
static void check_lattice( const N & net, size_t L, const double * weight )
{
    MC_CHECK( net.n_agents() == L * L, "{} agents for edge length {}", net.n_agents(), L );
    auto e = edges_of( net );
    MC_CHECK( net.n_edges() == 4 * L * L, "{} edges", net.n_edges() );
    for( size_t i = 0; i < L * L; i++ )
    {
        vector<size_t> nb;
        for( auto & [j, w] : e[i] )
        {
            nb.push_back( j );
            if( weight )
                MC_CHECK( w == *weight, "weight {} instead of {}", w, *weight );
        }
        std::sort( nb.begin(), nb.end() );
        auto x = grid_neighbours( i, L );
        MC_CHECK( nb == x, "L={}: agent {} has the neighbours {} instead of {}", L, i, nb, x );
        mc::step();
    }
    mc::Hash h;
    hash( h, e );
    mc::state( h.h );
    if( L <= 3 )
        mc::sample( str( e ) );
}
template<typename A>
static void accept( size_t n, bool vec )
{
    Config::DeffuantSettings s;
    s.use_network       = true;
    s.use_binary_vector = vec;
    s.dim               = vec ? 3 : 1;
    s.max_iterations    = 2;
    size_t L            = 0;
    while( L * L < n )
        L++;
    bool square = L * L == n, ok = true;
    for( int direct = 0; direct < 2; direct++ )
    {
        ok = true;
        Network<A> net( n );
        std::mt19937 gen( 1 );
        std::unique_ptr<Simulation<A>> sim;
        try
        {
            if( direct )
                DeffuantModelAbstract<A> model( s, net, gen );
            else
            {
                sim = std::make_unique<Simulation<A>>( options_deffuant( n, s ), std::nullopt, std::nullopt );
                net = sim->network;
            }
        }
        catch( const std::exception & )
        {
            ok = false;
        }
        MC_CHECK( ok == square, "{} agents were {} (vectors: {})", n, ok ? "accepted" : "refused", vec );
        if( !ok )
            continue;
        check_lattice( net, L, nullptr );
        if( sim )
        {
            sim->model->initialize_iterations();
            sim->model->iteration();
            sim->model->iteration();
            check_lattice( sim->network, L, nullptr );
        }
    }
}

int main( int argc, char ** argv )
{
    return mc::main( "C07", argc, argv, [] {
        size_t Lmax = mc::thorough() ? 300 : 60, nmax = mc::thorough() ? 2600 : 420;
        mc::bounds( fmt::format( "every edge length 0..{} and 8 up to 1000 with 4 weights; every agent count 0..{} and 6 up to 10 000 for the scalar and the vector model, created directly and by a simulation, two iterations each.", Lmax, nmax ) );
        vector<size_t> lengths, counts;
        for( size_t L = 0; L <= Lmax; L++ )
            lengths.push_back( L );
        for( size_t L : { 100, 128, 181, 182, 255, 256, 257, 1000 } ) // around the sizes of small integers
            if( L > Lmax )
                lengths.push_back( L );
        for( size_t n = 0; n <= nmax; n++ )
            counts.push_back( n );
        for( size_t n : { 1023, 1024, 4095, 4096, 4097, 10000 } )
            counts.push_back( n );
        for( size_t L : lengths )
            mc::scenario( fmt::format( "lattice {}", L ), [=] {
                mc::once( [&] {
                    for( double w : { 0.0, 1.0, -0.75, 1e-300 } )
                        check_lattice( NetworkGeneration::generate_square_lattice<SimpleAgent>( L, w ), L, &w );
                    double zero = 0;
                    check_lattice( NetworkGeneration::generate_square_lattice<DiscreteVectorAgent>( L ), L, &zero );
                } );
            } );
        for( size_t n : counts )
            mc::scenario( fmt::format( "accept {}", n ), [=] {
                mc::Policy p;
                p.background = 1;
                p.max_dev    = 0;
                mc::explore( p, [&] { accept<SimpleAgent>( n, false ); } );
                mc::explore( p, [&] { accept<DiscreteVectorAgent>( n, true ); } );
            } );
    } );
}
