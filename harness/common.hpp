#pragma once
#include "mc.hpp"

#include "agents/activity_agent.hpp"
#include "agents/discrete_vector_agent.hpp"
#include "agents/inertial_agent.hpp"
#include "agents/simple_agent.hpp"
#include "network.hpp"
#include <cmath>
#include <string>
#include <vector>

using namespace Seldon;
using std::size_t;
using std::vector;

using Edges = vector<vector<std::pair<size_t, double>>>; // per agent, in list order

template<typename N>
Edges edges_of( const N & net )
{
    Edges e( net.n_agents() );
    for( size_t i = 0; i < net.n_agents(); i++ )
    {
        auto nb = net.get_neighbours( i );
        auto w  = net.get_weights( i );
        MC_CHECK( nb.size() == w.size(), "agent {}: {} neighbours but {} weights", i, nb.size(), w.size() );
        for( size_t k = 0; k < nb.size(); k++ )
            e[i].push_back( { nb[k], w[k] } );
    }
    return e;
}
inline Edges sorted( Edges e )
{
    for( auto & l : e )
        std::sort( l.begin(), l.end() );
    return e;
}
inline std::string str( const Edges & e )
{
    std::string s;
    if( e.size() > 50 )
        return fmt::format( "({} agents)", e.size() );
    for( size_t i = 0; i < e.size(); i++ )
    {
        s += fmt::format( "{}:[", i );
        for( auto & [j, w] : e[i] )
            s += fmt::format( " {}({})", j, w );
        s += " ] ";
    }
    return s;
}
inline mc::Hash & hash( mc::Hash & h, const Edges & e )
{
    h( e.size() );
    for( auto & l : e )
    {
        h( l.size() );
        for( auto & [j, w] : l )
            h( j )( w );
    }
    return h;
}
// Builds a network whose lists are e.
template<typename N>
N make_network( const Edges & e, typename N::EdgeDirection dir )
{
    vector<vector<size_t>> nb( e.size() );
    vector<vector<typename N::WeightT>> w( e.size() );
    for( size_t i = 0; i < e.size(); i++ )
        for( auto & [j, x] : e[i] )
        {
            nb[i].push_back( j );
            w[i].push_back( x );
        }
    return N( std::move( nb ), std::move( w ), dir );
}

// Approximate equality up to reordering of floating-point operations.
inline bool close( double a, double b, double rel = 1e-9, double abs = 1e-12 )
{
    if( a == b )
        return true;
    return std::abs( a - b ) <= abs + rel * std::max( std::abs( a ), std::abs( b ) );
}
inline bool same_bits( double a, double b )
{
    return std::memcmp( &a, &b, sizeof a ) == 0;
}

template<typename F>
bool throws( F && f )
{
    try
    {
        f();
    }
    catch( const mc::Violation & )
    {
        throw;
    }
    catch( const std::exception & )
    {
        return true;
    }
    return false;
}
