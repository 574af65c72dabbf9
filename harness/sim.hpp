#pragma once
#include "common.hpp"
#include "config_parser.hpp"
#include "models/ActivityDrivenModel.hpp"
#include "models/DeGroot.hpp"
#include "models/DeffuantModel.hpp"
#include "models/InertialModel.hpp"
#include "network_generation.hpp"
#include "network_io.hpp"
#include "simulation.hpp"

// In-code options, so that the checks do not depend on the configuration parser.
inline Config::SimulationOptions base_options( size_t n, size_t k = 1 )
{
    Config::SimulationOptions o;
    o.rng_seed                       = 1;
    o.network_settings.n_agents      = n;
    o.network_settings.n_connections = k;
    return o;
}
inline Config::SimulationOptions options_degroot( size_t n, size_t k, Config::DeGrootSettings s )
{
    auto o           = base_options( n, k );
    o.model          = Config::Model::DeGroot;
    o.model_string   = "DeGroot";
    o.model_settings = s;
    return o;
}
inline Config::SimulationOptions options_deffuant( size_t n, Config::DeffuantSettings s )
{
    auto o           = base_options( n, std::min<size_t>( 1, n ? n - 1 : 0 ) );
    o.model          = Config::Model::DeffuantModel;
    o.model_string   = "Deffuant";
    o.model_settings = s;
    return o;
}
inline Config::SimulationOptions options_activity( size_t n, Config::ActivityDrivenSettings s )
{
    auto o           = base_options( n, std::min<size_t>( 1, n ? n - 1 : 0 ) );
    o.model          = Config::Model::ActivityDrivenModel;
    o.model_string   = "ActivityDriven";
    o.model_settings = s;
    return o;
}
inline Config::SimulationOptions options_inertial( size_t n, Config::ActivityDrivenInertialSettings s )
{
    auto o           = base_options( n, std::min<size_t>( 1, n ? n - 1 : 0 ) );
    o.model          = Config::Model::ActivityDrivenInertial;
    o.model_string   = "ActivityDrivenInertial";
    o.model_settings = s;
    return o;
}
template<typename A>
Simulation<A> make_sim( const Config::SimulationOptions & o )
{
    return Simulation<A>( o, std::nullopt, std::nullopt );
}
