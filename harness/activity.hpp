#pragma once
#include "sim.hpp"

using AS = Config::ActivityDrivenSettings;

// One simulation type per agent type, from the same settings.
template<typename A>
struct Sim;
template<>
struct Sim<ActivityAgent>
{
    static Config::SimulationOptions options( size_t n, const AS & s, double = 1.0 )
    {
        return options_activity( n, s );
    }
    static constexpr const char * name = "activity";
};
template<>
struct Sim<InertialAgent>
{
    static Config::SimulationOptions options( size_t n, const AS & s, double friction = 1.0 )
    {
        Config::ActivityDrivenInertialSettings t;
        static_cast<AS &>( t )  = s;
        t.friction_coefficient = friction;
        return options_inertial( n, t );
    }
    static constexpr const char * name = "inertial";
};
template<typename A>
Simulation<A> make_activity( size_t n, const AS & s, double friction = 1.0, int quiet = 0 )
{
    mc::Quiet q( quiet );
    return make_sim<A>( Sim<A>::options( n, s, friction ) );
}
struct Bots
{
    vector<int> m;
    vector<double> activity, opinion, homophily;
    size_t size() const
    {
        return m.size();
    }
};
inline AS with_bots( AS s, const Bots & b )
{
    s.n_bots        = b.size();
    s.bot_m         = b.m;
    s.bot_activity  = b.activity;
    s.bot_opinion   = b.opinion;
    s.bot_homophily = b.homophily;
    return s;
}
template<typename A>
vector<double> opinions( const Simulation<A> & s )
{
    vector<double> x;
    for( auto & a : s.network.agents )
        x.push_back( a.data.opinion );
    return x;
}
template<typename A>
vector<double> activities( const Simulation<A> & s )
{
    vector<double> x;
    for( auto & a : s.network.agents )
        x.push_back( a.data.activity );
    return x;
}
template<typename A>
vector<double> reluctances( const Simulation<A> & s )
{
    vector<double> x;
    for( auto & a : s.network.agents )
        x.push_back( a.data.reluctance );
    return x;
}
template<typename A>
void set_agents( Simulation<A> & s, const vector<double> & x, const vector<double> & a )
{
    MC_CHECK( s.network.agents.size() == x.size(), "{} agents instead of {}", s.network.agents.size(), x.size() );
    for( size_t i = 0; i < x.size(); i++ )
    {
        s.network.agents[i].data.opinion  = x[i];
        s.network.agents[i].data.activity = a[i];
        if constexpr( std::is_same_v<A, InertialAgent> )
            s.network.agents[i].data.velocity = 0;
    }
}

// the largest term of the force
inline double force_scale( const Edges & e, const vector<double> & x, const vector<double> & reluctance, double K, double alpha )
{
    double m = 1e-300;
    for( size_t i = 0; i < x.size(); i++ )
    {
        m = std::max( m, std::abs( x[i] ) );
        for( auto & [j, w] : e[i] )
            m = std::max( m, std::abs( K / reluctance[i] * w * std::tanh( alpha * x[j] ) ) );
    }
    return m;
}
// -x_i + K / reluctance_i * sum_j w_ij tanh(alpha x_j) over the incoming edges
inline vector<double> force( const Edges & e, const vector<double> & x, const vector<double> & reluctance, double K, double alpha )
{
    vector<double> f( x.size() );
    for( size_t i = 0; i < x.size(); i++ )
    {
        long double s = 0;
        for( auto & [j, w] : e[i] )
            s += (long double)w * std::tanh( alpha * x[j] );
        f[i] = double( -(long double)x[i] + (long double)K / reluctance[i] * s );
    }
    return f;
}
inline vector<double> axpy( const vector<double> & x, double h, const vector<double> & k )
{
    auto y = x;
    for( size_t i = 0; i < x.size(); i++ )
        y[i] += h * k[i];
    return y;
}

// Parameter sets shared by the dynamics checks (C12, C14).
struct Dyn
{
    size_t n;
    AS s;
    Bots bots;
    vector<double> x0, act, rel, v0;
    double friction = 1.0;
    int iterations  = 0; // > 0: a large case or a long history, explored less exhaustively
};
inline vector<Dyn> dynamics_cases()
{
    vector<Dyn> cases;
    auto add = [&]( size_t n, int m, double dt, double K, double alpha, double rc, bool mean, Bots bots, int xs, int rs, double h = 0.5 ) {
        Dyn d;
        d.n             = n;
        d.s.m           = m;
        d.s.dt          = dt;
        d.s.K           = K;
        d.s.alpha       = alpha;
        d.s.reciprocity = rc;
        d.s.homophily   = h;
        d.s.mean_weights = mean;
        d.s.use_reluctances = rs > 0;
        d.bots          = bots;
        d.s             = with_bots( d.s, bots );
        for( size_t i = 0; i < n; i++ )
        {
            d.x0.push_back( xs == 0 ? ( ( i * 5 + 2 ) % 7 ) / 4.0 - 0.8 : xs == 1 ? ( i % 2 ? 3.5 : -2.0 ) + 0.01 * i : xs == 2 ? 0.0 : xs == 3 ? 1e-3 * ( double( i ) - 1 ) : xs == 4 ? 1e-11 * ( 1 + i * i % 5 ) : 4e4 * ( i % 2 ? -1.0 : 1.0 ) + i );
            d.act.push_back( i % 3 == 2 ? 1.0 : i % 3 == 1 ? 0.5 : 0.75 );
            d.rel.push_back( rs == 0 ? 1.0 : rs == 1 || rs == -1 ? 0.25 + 0.5 * i : rs == 2 ? 4.0 / ( 1 + i ) : i % 3 == 0 ? 2e-3 : i % 3 == 1 ? 500.0 : 1.0 );
            d.v0.push_back( ( ( i * 3 + 1 ) % 5 ) * 0.4 - 0.7 );
        }
        for( size_t b = 0; b < bots.size() && b < n; b++ )
        {
            d.x0[b]  = bots.opinion[b];
            d.act[b] = bots.activity[b];
        }
        d.friction = 0.25 + double( cases.size() % 5 ) * 0.5;
        cases.push_back( d );
    };
    Bots none, one{ { 2 }, { 1.0 }, { 2.5 }, { 0.0 } }, two{ { 1, 3 }, { 1.0, 0.5 }, { -1.0, 0.3 }, { 0.5, 1.0 } }, three{ { 1, 3, 0 }, { 1.0, 0.5, 1.0 }, { -1.0, 0.3, 0.0 }, { 0.5, 1.0, 0.0 } };
    Bots idle{ { 2, 1 }, { 0.0, 0.0 }, { 1.5, -0.25 }, { 0.5, 0.0 } }, late{ { 1, 2, 2 }, { 0.0, 1.0, 0.0 }, { 2.0, 0.0, -3.0 }, { 0.5, 1.0, 0.0 } };
    for( double dt : { 0.01, 0.1, 0.5, 1.0 } )
        for( int xs = 0; xs < 4; xs++ )
        {
            add( 3, 1, dt, 3, 3, 0.5, false, none, xs, 0 );
            add( 4, 2, dt, 2, 1.5, 0.5, false, one, xs, 1 );
            add( 4, 2, dt, 0.5, 0.05, 1.0, false, two, xs, 2 );
            add( 3, 2, dt, 1, 10, 0.5, true, none, xs, 0 );
            add( 4, 3, dt, 3, 2, 0.5, true, two, xs, 1 );
        }
    add( 1, 1, 0.1, 3, 3, 0.5, false, none, 1, 0 );
    add( 1, 1, 0.1, 3, 3, 0.5, true, none, 1, 1 );
    add( 1, 1, 0.1, 3, 3, 0.5, false, one, 1, 0 );
    add( 2, 1, 0.1, -2, 3, 1, false, none, 1, 2 );
    add( 2, 1, 0.1, 0, 3, 1, false, none, 1, 2 );
    add( 2, 1, 0.1, 3, 0, 1, false, two, 1, 2 );
    add( 5, 2, 0.1, 3, 3, 0, false, three, 0, 1 );
    add( 6, 0, 0.1, 3, 3, 0.5, false, none, 0, 1 );
    add( 8, 3, 0.2, 3, 3, 0.5, false, three, 0, 2 );
    add( 8, 10, 0.2, 3, 3, 0.5, true, three, 0, 2, 1.5 );
    add( 12, 4, 0.05, 3, 3, 0.5, false, two, 0, 1, 1.0 );
    add( 20, 5, 0.05, 3, 3, 0.75, false, three, 0, 1, 1.0 );
    for( int mean = 0; mean < 2; mean++ ) // bots that are never active
    {
        add( 4, 2, 0.1, 3, 3, 0.5, mean, idle, 0, 0 );
        add( 4, 2, 0.25, 1, 2, 1.0, mean, late, 1, 1 );
        add( 3, 1, 0.1, 2, 2, 0.0, mean, late, 1, 2 );
    }
    for( int xs = 3; xs < 6; xs++ ) // very stubborn and very open agents; tiny and huge opinions
    {
        add( 3, 1, 0.1, 3, 3, 0.5, false, none, xs, 3 );
        add( 4, 2, 0.01, 0.25, 0.5, 0.5, false, one, xs, 3 );
        add( 4, 2, 0.1, 2, 2, 0.5, true, none, xs, 3 );
        add( 3, 1, 0.1, 1e-4, 1, 0.5, false, none, xs, 0 );
        add( 3, 2, 0.1, 5e3, 1, 0.5, false, none, xs, 1 );
    }
    for( int mean = 0; mean < 2; mean++ ) // reluctances that come from elsewhere, with the setting off
    {
        add( 3, 1, 0.1, 3, 3, 0.5, mean, none, 0, -1 );
        add( 4, 2, 0.25, 2, 1.5, 0.5, mean, one, 1, -1 );
    }
    // large cases and long histories
    auto more = [&]( int iterations, size_t n, int m, double dt, double K, double alpha, double rc, bool mean, Bots bots, int xs, int rs, double h = 0.5 ) {
        add( n, m, dt, K, alpha, rc, mean, bots, xs, rs, h );
        cases.back().iterations = iterations;
    };
    Bots nine, all;
    for( int b = 0; b < 15; b++ )
    {
        nine.m.push_back( b % 4 );
        nine.activity.push_back( 0.5 + b / 16.0 );
        nine.opinion.push_back( b * 0.75 - 3 );
        nine.homophily.push_back( b % 3 * 0.5 );
    }
    all = nine;
    for( auto * v : { &all.activity, &all.opinion, &all.homophily } )
        v->resize( 5 );
    all.m.resize( 5 );
    more( 6, 40, 5, 0.1, 3, 3, 0.5, false, nine, 0, 1, 1.0 );
    more( 6, 40, 5, 0.1, 2, 1, 0.5, true, nine, 0, 2, 1.0 );
    more( 4, 120, 20, 0.05, 3, 2, 0.75, false, three, 0, 1, 0.5 );
    more( 4, 120, 20, 0.05, 3, 2, 0.75, true, none, 0, 0, 0.5 );
    more( 4, 300, 10, 0.02, 1, 1, 0.25, false, nine, 1, 2, 1.0 );
    more( 4, 5, 3, 0.1, 3, 3, 0.5, false, all, 0, 0 ); // every agent is a bot
    more( 150, 3, 1, 0.1, 3, 3, 0.5, false, none, 0, 0 );
    more( 150, 4, 2, 0.3, 2, 1, 0.5, false, one, 1, 1 );
    more( 150, 5, 3, 0.05, 0.7, 5, 1.0, false, two, 3, 2 );
    more( 150, 4, 2, 0.1, 2, 2, 0.5, true, one, 0, 1 );
    more( 150, 10, 4, 0.01, 3, 3, 0.5, false, three, 0, 0, 1.5 );
    more( 1100, 3, 1, 0.02, 2, 2, 0.5, false, one, 0, 1 );
    more( 1100, 3, 1, 0.02, 2, 2, 0.5, true, none, 0, 0 );
    more( 2, 1500, 320, 0.05, 0.1, 1, 0.5, false, nine, 0, 0, 0.5 );
    more( 2, 700, 20, 0.05, 3, 1, 0.5, true, nine, 0, 1, 0.5 );
    more( 2, 5000, 0, 0.05, 3, 1, 0.5, false, none, 1, 1, 0.5 );
    return cases;
}
// How many base sequences a large case or a long history is explored with
inline int backgrounds( const Dyn & d )
{
    return ( d.n > 500 || d.iterations > 1000 ? 1 : 4 ) * ( mc::thorough() ? 3 : 1 );
}
// The policies of a large case or a long history.
inline mc::Policy long_policy( int bg, const Dyn & d )
{
    mc::Policy p;
    p.background = bg;
    p.menu       = mc::cells( 2 );
    p.max_dev    = d.n > 500 ? 0 : 1;
    p.horizon    = d.n > 30 || d.iterations > 1000 ? 4 : 10;
    return p;
}
