// MC: rng
// C11: networks drawn by the activity-driven models, every random word enumerated over cells.
#include "activity.hpp"
#include <map>

using Rel = vector<vector<char>>; // [from][to]

// The edges of the network as "from is heard by to"; checks what must hold for every drawn network.
template<typename A>
static Rel relation( const Simulation<A> & s )
{
    size_t n = s.network.n_agents();
    Rel r( n, vector<char>( n, 0 ) );
    MC_CHECK( s.network.direction() == Network<A>::EdgeDirection::Incoming, "the network does not store incoming edges" );
    auto e = edges_of( s.network );
    for( size_t i = 0; i < n; i++ )
        for( auto & [j, w] : e[i] )
        {
            MC_CHECK( j < n, "agent {} has neighbour {}", i, j );
            MC_CHECK( j != i, "agent {} has itself as neighbour: {}", i, str( e ) );
            MC_CHECK( w == 1.0, "edge {} -> {} has weight {}", j, i, w );
            MC_CHECK( !r[j][i], "edge {} -> {} is there twice: {}", j, i, str( e ) );
            r[j][i] = 1;
        }
    return r;
}
static std::string show( const Rel & r )
{
    std::string s;
    for( size_t i = 0; i < r.size(); i++ )
        for( size_t j = 0; j < r.size(); j++ )
            if( r[i][j] )
                s += fmt::format( "{}->{} ", i, j );
    return s;
}
// Is there a set of contacts (the agent's number each, or none) such that every other edge returns a contact?
static bool explainable( const Rel & r, const vector<size_t> & m, const vector<double> & act, double recip )
{
    size_t n = r.size();
    vector<size_t> forced( n, 0 );
    vector<std::pair<size_t, size_t>> mutual;
    for( size_t i = 0; i < n; i++ )
        for( size_t j = 0; j < n; j++ )
            if( r[i][j] && !r[j][i] )
            {
                forced[i]++;
                if( recip >= 1 )
                    return false;
            }
            else if( r[i][j] && i < j )
                mutual.push_back( { i, j } );
    vector<size_t> cnt = forced;
    auto final_ok      = [&]( size_t i ) { return ( cnt[i] == 0 && act[i] < 1 ) || ( cnt[i] == m[i] && act[i] > 0 ); };
    auto rec           = [&]( auto && self, size_t k ) -> bool {
        // the pairs are ordered by their first agent: everything before it is decided
        for( size_t i = k == 0 ? 0 : mutual[k - 1].first; i < ( k == mutual.size() ? n : mutual[k].first ); i++ )
            if( !final_ok( i ) )
                return false;
        if( k == mutual.size() )
            return true;
        auto [i, j] = mutual[k];
        for( int s = recip > 0 ? 0 : 2; s < 3; s++ ) // contact of i, of j, of both
        {
            cnt[i] += s != 1;
            cnt[j] += s != 0;
            bool ok = cnt[i] <= m[i] && cnt[j] <= m[j] && self( self, k + 1 );
            cnt[i] -= s != 1;
            cnt[j] -= s != 0;
            if( ok )
                return true;
        }
        return false;
    };
    return rec( rec, 0 );
}
static vector<size_t> contacts( size_t n, const AS & s )
{
    vector<size_t> m;
    for( size_t i = 0; i < n; i++ )
        m.push_back( std::min<size_t>( n - 1, i < s.n_bots ? s.bot_m[i] : s.m ) );
    return m;
}
static void note( const Rel & r, const vector<double> & a )
{
    mc::Hash h;
    for( auto & l : r )
        h( l );
    mc::outcome( h.h );
    h( a );
    mc::state( h.h );
    if( mc::want_sample() )
        mc::sample( fmt::format( "activities {}: {}", a, show( r ) ) );
}
static AS settings( int m, double homophily, double recip )
{
    AS s;
    s.m           = m;
    s.homophily   = homophily;
    s.reciprocity = recip;
    s.dt          = 0.01;
    return s;
}
// Probability of a relation when every agent contacts all others (so that nothing is selected).
static double prob_all( const Rel & r, const vector<double> & act, double recip )
{
    size_t n = r.size();
    double p = 0;
    for( unsigned on = 0; on < 1u << n; on++ )
    {
        double q = 1;
        for( size_t i = 0; i < n; i++ )
        {
            bool a = on >> i & 1;
            q *= a ? act[i] : 1 - act[i];
            for( size_t j = 0; j < n; j++ )
            {
                if( i == j )
                    continue;
                bool b = on >> j & 1;
                if( a )
                    q *= r[i][j] ? 1 : 0;
                else if( b )
                    q *= r[i][j] ? recip : 1 - recip;
                else
                    q *= r[i][j] ? 0 : 1;
            }
        }
        p += q;
    }
    return p;
}
static vector<Rel> all_relations( size_t n )
{
    vector<Rel> v;
    for( unsigned b = 0; b < 1u << n * ( n - 1 ); b++ )
    {
        Rel r( n, vector<char>( n, 0 ) );
        unsigned k = 0;
        for( size_t i = 0; i < n; i++ )
            for( size_t j = 0; j < n; j++ )
                if( i != j )
                    r[i][j] = b >> k++ & 1;
        v.push_back( r );
    }
    return v;
}

template<typename A>
static void scenarios_for()
{
    std::string nm = Sim<A>::name;
    // n = 2: exact probabilities of every network
    for( double a0 : { 0.0, 0.25, 0.5, 1.0 } )
        for( double a1 : { 0.25, 0.75, 1.0 } )
            for( double rc : { 0.0, 0.25, 0.5, 1.0 } )
                mc::scenario( fmt::format( "{} odds n=2 activities {} {} reciprocity {}", nm, a0, a1, rc ), [=] {
                    for( int m : { 1, 3 } )
                    {
                        auto s   = settings( m, 0.5, rc );
                        auto sim = make_activity<A>( 2, s );
                        std::map<Rel, double> prob;
                        mc::Policy p;
                        p.menu   = mc::cells( 4 );
                        bool all = mc::explore( p, [&] {
                            set_agents( sim, { 0.25, -0.5 }, { a0, a1 } );
                            sim.model->iteration();
                            mc::step();
                            auto r = relation( sim );
                            prob[r] += mc::weight();
                            note( r, { a0, a1 } );
                        } );
                        if( all )
                            for( auto & r : all_relations( 2 ) )
                            {
                                double e = prob_all( r, { a0, a1 }, rc );
                                MC_CHECK( close( prob[r], e, 1e-9, 1e-9 ), "activities {} {} reciprocity {}: network {} has probability {} instead of {}", a0, a1, rc, show( r ), prob[r], e );
                            }
                    }
                } );
    // two successive iterations are independent
    mc::scenario( nm + " odds n=2 two iterations", [=] {
        auto s = settings( 1, 0.5, 0.5 );
        vector<double> a = { 0.5, 0.5 };
        std::map<std::pair<Rel, Rel>, double> prob;
        auto sim = make_activity<A>( 2, s );
        bool all = mc::explore( {}, [&] {
            set_agents( sim, { 0.25, -0.5 }, a );
            sim.model->iteration();
            auto r0 = relation( sim );
            sim.model->iteration();
            mc::step( 2 );
            auto r1 = relation( sim );
            prob[{ r0, r1 }] += mc::weight();
        } );
        if( all )
            for( auto & r0 : all_relations( 2 ) )
                for( auto & r1 : all_relations( 2 ) )
                {
                    double e = prob_all( r0, a, 0.5 ) * prob_all( r1, a, 0.5 );
                    MC_CHECK( close( prob[{ r0, r1 }], e, 1e-9, 1e-9 ), "networks {} and {} in succession have probability {} instead of {}", show( r0 ), show( r1 ), prob[{ r0, r1 }], e );
                }
    } );
    // n = 3, everybody contacted
    for( int m : { 2, 5 } )
        mc::scenario( fmt::format( "{} odds n=3 m={}", nm, m ), [=] {
            auto s = settings( m, 1.0, 0.5 );
            vector<double> a = { 0.5, 0.5, 0.5 };
            std::map<Rel, double> prob;
            auto sim = make_activity<A>( 3, s );
            bool all = mc::explore( {}, [&] {
                set_agents( sim, { 0.25, -0.5, 0.5 }, a );
                sim.model->iteration();
                mc::step();
                auto r = relation( sim );
                prob[r] += mc::weight();
                note( r, a );
            } );
            if( all )
                for( auto & r : all_relations( 3 ) )
                {
                    double e = prob_all( r, a, 0.5 );
                    MC_CHECK( close( prob[r], e, 1e-9, 1e-9 ), "network {} has probability {} instead of {}", show( r ), prob[r], e );
                }
        } );
    // whom one active agent contacts among two, by homophily
    for( size_t i = 0; i < 3; i++ )
        for( double h : { -1.0, 0.0, 0.5, 2.0, 8.0, -7.0, 20.0 } )
            for( int bot = 0; bot < 2; bot++ )
                for( int geo = 0; geo < 8; geo++ )
                {
                    if( ( bot && ( i > 1 || ( geo >= 3 && geo < 7 ) ) ) || ( std::abs( h ) > 5 && geo < 7 && geo != 3 ) )
                        continue;
                    mc::scenario( fmt::format( "{} preference of {} homophily {} bot {} geometry {}", nm, i, h, bot, geo ), [=] {
                        // distances of agent i to its two candidates (in index order): 0.25 and 1
                        vector<double> x( 3 ), a( 3, 0.0 ), w;
                        static const double small[4][2] = { { 1e-3, -4e-3 }, { 1e-7, 1.5e-7 }, { 2.0, -5e-5 }, { 0.96875, -1.0 } };
                        double d0 = geo >= 4 ? small[geo - 4][0] : geo == 0 ? 0.25 : geo == 1 ? 1.0 : geo == 2 ? -0.25 : 0.0, d1 = geo >= 4 ? small[geo - 4][1] : geo == 0 ? -1.0 : geo == 1 ? 0.25 : geo == 2 ? 0.5 : 0.5;
                        x[i]       = 0.125;
                        size_t c0 = i == 0 ? 1 : 0, c1 = i == 2 ? 1 : 2;
                        x[c0] = x[i] + d0;
                        x[c1] = x[i] + d1;
                        a[i]  = 1;
                        auto s = settings( bot ? 2 : 1, bot ? -3 * h : h, 0.0 );
                        if( bot ) // the bots' own contact count and homophily apply
                            s = with_bots( s, { { i == 0 ? 1 : 2, i == 1 ? 1 : 2 }, { a[0], a[1] }, { x[0], x[1] }, { i == 0 ? h : -2 * h, i == 1 ? h : -2 * h } } );
                        auto sim = make_activity<A>( 3, s );
                        double p0 = 0, p1 = 0;
                        auto rel = mc::relevant_words( 10, [&] {
                            set_agents( sim, x, a );
                            sim.model->iteration();
                            return mc::u64( relation( sim )[i][c0] );
                        } );
                        if( rel.empty() )
                            return;
                        int used = 1;
                        mc::Policy p;
                        p.counts = mc::relevant_counts( rel, mc::thorough() ? 250000 : 20000, 240, used );
                        bool all = mc::explore( p, [&] {
                            set_agents( sim, x, a );
                            sim.model->iteration();
                            mc::step();
                            auto r = relation( sim );
                            note( r, a );
                            Rel e( 3, vector<char>( 3, 0 ) );
                            e[i][c0] = r[i][c0];
                            e[i][c1] = !r[i][c0];
                            MC_CHECK( r == e, "agent {} contacting one other: {}", i, show( r ) );
                            ( r[i][c0] ? p0 : p1 ) += mc::weight();
                        } );
                        double w0 = std::pow( std::max( 1e-10, std::abs( d0 ) ), -h ), w1 = std::pow( std::max( 1e-10, std::abs( d1 ) ), -h );
                        double e0 = w0 / ( w0 + w1 );
                        if( all )
                            MC_CHECK( std::abs( p0 - e0 ) < 0.003 + 0.75 / used, "agent {}, homophily {}, distances {} and {}: contacts {} with probability {} instead of {}", i, h, d0, d1, c0, p0, e0 );
                        if( getenv( "MC_TIMES" ) )
                            fprintf( stderr, "ERR %g %g %d %s %s\n", p0 - e0, e0, used, fmt::format( "{}", rel ).c_str(), mc::g.scen.c_str() );
                    } );
                }
    // small networks, several iterations, all bots / contact counts: every network is explained by the contacts
    struct Case
    {
        size_t n;
        int m;
        double h, rc;
        vector<double> act;
        Bots bots;
    };
    vector<Case> cases;
    for( double rc : { 0.0, 0.5, 1.0 } )
    {
        cases.push_back( { 3, 1, 0.5, rc, { 0.5, 0.5, 0.5 }, {} } );
        cases.push_back( { 3, 0, 0.5, rc, { 0.5, 0.5, 0.5 }, {} } );
        cases.push_back( { 4, 2, 0.0, rc, { 1, 0.5, 0.25, 0 }, {} } );
        cases.push_back( { 4, 1, 1.0, rc, { 0.5, 0.5, 0.5, 0.5 }, { { 2 }, { 1.0 }, { 0.4 }, { 0.0 } } } );
        cases.push_back( { 4, 2, 1.0, rc, { 0, 0, 0.5, 0.5 }, { { 0, 5 }, { 1.0, 0.5 }, { 0.4, -1 }, { -1.0, 2.0 } } } );
        cases.push_back( { 5, 3, 0.5, rc, { 0.5, 0.5, 0.5, 0.5, 0.5 }, {} } );
        cases.push_back( { 5, 4, 0.5, rc, { 0.5, 0.5, 1, 0.5, 0.5 }, {} } );
        cases.push_back( { 6, 2, 0.5, rc, { 0.5, 0.5, 1, 0.25, 0.5, 1 }, { { 1, 3 }, { 0.5, 1 }, { 1, -1 }, { 1, 1 } } } );
        cases.push_back( { 8, 2, 0.5, rc, vector<double>( 8, 0.5 ), {} } );
        cases.push_back( { 12, 3, 0.5, rc, vector<double>( 12, 0.3 ), { { 1, 3, 2 }, { 0.5, 1, 0.5 }, { 1, -1, 0 }, { 1, 1, 1 } } } );
        cases.push_back( { 1, 1, 0.5, rc, { 1.0 }, {} } );
        cases.push_back( { 2, 10, 0.5, rc, { 0.5, 1.0 }, { { 1 }, { 1 }, { 0.5 }, { 0.5 } } } );
    }
    for( size_t c = 0; c < cases.size(); c++ )
        for( int bg = 0; bg < ( mc::thorough() ? 8 : 3 ); bg++ )
            mc::scenario( fmt::format( "{} case {} background {}", nm, c, bg ), [=] {
                auto & cs = cases[c];
                auto s    = with_bots( settings( cs.m, cs.h, cs.rc ), cs.bots );
                s.dt      = 0.1;
                auto act  = cs.act;
                for( size_t b = 0; b < cs.bots.size(); b++ )
                    act[b] = cs.bots.activity[b];
                auto m = contacts( cs.n, s );
                vector<double> x0;
                for( size_t i = 0; i < cs.n; i++ )
                    x0.push_back( i < cs.bots.size() ? cs.bots.opinion[i] : ( ( i * 5 + 2 ) % 7 ) / 4.0 - 0.8 );
                mc::Policy p;
                p.menu       = mc::cells( 4 );
                p.background = bg;
                p.max_dev    = cs.n <= 4 ? ( mc::thorough() ? 3 : 2 ) : 1;
                p.horizon    = cs.n <= 4 ? 40 : 100;
                Rel seen( cs.n, vector<char>( cs.n, 0 ) );
                auto fresh = make_activity<A>( cs.n, s, 1.0, bg );
                mc::explore( p, [&] {
                    auto & sim = fresh;
                    set_agents( sim, x0, act );
                    for( int it = 0; it < 3; it++ )
                    {
                        sim.model->iteration();
                        mc::step();
                        auto r = relation( sim );
                        MC_CHECK( r.size() == cs.n, "{} agents", r.size() );
                        MC_CHECK( explainable( r, m, act, cs.rc ), "iteration {}: activities {} contact counts {} reciprocity {}: network {}cannot have been drawn", it + 1, act, m, cs.rc, show( r ) );
                        MC_CHECK( activities( sim ) == act, "activities changed" );
                        note( r, act );
                    }
                } );
            } );
    // large networks, drawn with fixed word sequences: contact counts and symmetry follow from activities of 0 and 1
    for( size_t n : { 20, 65, 140, 300, 2600 } )
        for( double rc : { 0.0, 0.5, 1.0 } )
            mc::scenario( fmt::format( "{} scale n={} reciprocity {}", nm, n, rc ), [=] {
                for( int bg = 0; bg < 3; bg++ )
                    for( size_t nb : { size_t( 0 ), size_t( 3 ), n / 2 } )
                        for( int m : { 1, 2, 7, int( n ) / 2, int( n ) - 1, int( n ) + 5 } )
                        {
                            if( n > 100 && ( bg || nb == n / 2 ) && m > 7 )
                                continue;
                            if( n > 1000 && ( bg || nb != 3 || m < 7 || m > int( n ) / 2 || rc > 0.5 ) )
                                continue;
                            Bots bots;
                            for( size_t b = 0; b < nb; b++ )
                            {
                                bots.m.push_back( int( b * 5 % 17 ) );
                                bots.activity.push_back( b % 3 != 1 );
                                bots.opinion.push_back( b * 0.01 - 1 );
                                bots.homophily.push_back( b % 5 * 0.5 - 0.5 );
                            }
                            auto s   = with_bots( settings( m, 0.75, rc ), bots );
                            s.dt     = 0.1;
                            auto cnt = contacts( n, s );
                            vector<double> x0, act;
                            for( size_t i = 0; i < n; i++ )
                            {
                                x0.push_back( i < nb ? bots.opinion[i] : ( i * 37 % n ) * 2.0 / n - 1 );
                                act.push_back( i < nb ? bots.activity[i] : i % 4 != 2 );
                            }
                            auto sim = make_activity<A>( n, s, 1.0, bg );
                            mc::Policy p;
                            p.menu       = { mc::frac( 0.5 ) };
                            p.background = bg;
                            p.max_dev    = 0;
                            mc::explore( p, [&] {
                                set_agents( sim, x0, act );
                                for( int it = 0; it < ( n == 20 ? 300 : n > 1000 ? 1 : 3 ); it++ )
                                {
                                    sim.model->iteration();
                                    mc::step();
                                    auto r       = relation( sim );
                                    size_t extra = 0;
                                    for( size_t i = 0; i < n; i++ )
                                    {
                                        size_t out = 0, need = act[i] > 0 ? cnt[i] : 0, may = need;
                                        for( size_t j = 0; j < n; j++ )
                                        {
                                            out += r[i][j];
                                            may += act[j] > 0 && r[j][i];
                                            MC_CHECK( rc < 1 || r[i][j] == r[j][i], "reciprocity 1, but {}->{} is not mutual", i, j );
                                        }
                                        MC_CHECK( out >= need && ( rc > 0 || out == need ) && out <= may, "agent {} of {} with {} contacts, reciprocity {}: {} agents hear it", i, n, need, rc, out );
                                        extra += out - need;
                                    }
                                    mc::Hash h;
                                    h( n )( m )( rc )( extra )( bg )( it );
                                    mc::state( h.h );
                                }
                            } );
                        }
            } );
    // strong homophily: agents in clusters of nearly equal opinions contact all others of their cluster and nobody else
    for( size_t n : { 12, 60, 120, 300, 1020, 2640 } )
        for( int m : { 1, 2, 5 } )
            for( double rc : { 0.0, 1.0 } )
                mc::scenario( fmt::format( "{} clusters n={} m={} reciprocity {}", nm, n, m, rc ), [=] {
                    for( int bg = 0; bg < ( n > 1000 ? 1 : 3 ); bg++ )
                        for( int arrange = 0; arrange < 2; arrange++ )
                            for( size_t nb : { 0, 4 } )
                            {
                                size_t nc = n / ( m + 1 );
                                vector<double> x0, act;
                                vector<size_t> cl;
                                for( size_t i = 0; i < n; i++ )
                                {
                                    cl.push_back( arrange ? i % nc : i / ( m + 1 ) );
                                    x0.push_back( double( cl[i] ) - nc / 2. + 1e-7 * ( arrange ? i / nc : i % ( m + 1 ) ) );
                                    act.push_back( i < nb ? i % 2 == 0 : i % 5 != 3 );
                                }
                                Bots bots;
                                for( size_t b = 0; b < nb; b++ )
                                {
                                    bots.m.push_back( m );
                                    bots.activity.push_back( act[b] );
                                    bots.opinion.push_back( x0[b] );
                                    bots.homophily.push_back( 4 );
                                }
                                auto sim = make_activity<A>( n, with_bots( settings( m, 4, rc ), bots ), 1.0, bg );
                                mc::Policy p;
                                p.menu       = { mc::frac( 0.5 ) };
                                p.background = bg;
                                p.max_dev    = 0;
                                mc::explore( p, [&] {
                                    for( int it = 0; it < ( n > 1000 ? 1 : 3 ); it++ )
                                    {
                                        set_agents( sim, x0, act );
                                        sim.model->iteration();
                                        mc::step();
                                        auto r = relation( sim );
                                        for( size_t i = 0; i < n; i++ )
                                            for( size_t j = 0; j < n; j++ )
                                            {
                                                bool want = i != j && cl[i] == cl[j] && ( act[i] > 0 || ( rc == 1 && act[j] > 0 ) );
                                                MC_CHECK( bool( r[i][j] ) == want, "n={} m={} homophily 4 reciprocity {}: agent {} of cluster {} (activity {}) {} agent {} of cluster {} (activity {})", n, m, rc, i, cl[i], act[i],
                                                          r[i][j] ? "contacts" : "does not contact", j, cl[j], act[j] );
                                            }
                                    }
                                    mc::Hash h;
                                    h( n )( m )( rc )( bg )( arrange )( nb );
                                    mc::state( h.h );
                                } );
                            }
                } );
    // every contact and every reciprocation can occur, and need not
    for( size_t n : { 3, 4, 5, 7 } )
        for( size_t i = 0; i < n; i++ )
            mc::scenario( fmt::format( "{} reachable n={} agent {}", nm, n, i ), [=] {
                auto s = settings( 1, 0.5, 0.5 );
                vector<double> x0, act( n, 0.0 );
                for( size_t k = 0; k < n; k++ )
                    x0.push_back( k * 0.1 - 0.3 );
                act[i]   = 0.5;
                auto sim = make_activity<A>( n, s );
                vector<int> alone( n, 0 ), both( n, 0 );
                bool all = true, idle = false;
                for( int bg = 0; bg < 6; bg++ )
                {
                    mc::Policy p;
                    p.menu       = mc::cells( 8 );
                    p.background = bg;
                    p.max_dev    = n <= 4 ? 3 : 2;
                    all &= mc::explore( p, [&] {
                        set_agents( sim, x0, act );
                        sim.model->iteration();
                        mc::step();
                        auto r = relation( sim );
                        MC_CHECK( explainable( r, vector<size_t>( n, 1 ), act, 0.5 ), "activities {}: network {} cannot have been drawn", act, show( r ) );
                        idle |= show( r ).empty();
                        for( size_t k = 0; k < n; k++ )
                            if( r[i][k] )
                                ( r[k][i] ? both : alone )[k] = 1;
                        note( r, act );
                    } );
                }
                if( !all )
                    return;
                MC_CHECK( idle, "agent {} with activity 0.5 always becomes active", i );
                for( size_t k = 0; k < n; k++ )
                    if( k != i )
                        MC_CHECK( alone[k] && both[k], "agent {} of {}: contact with {} only ever {}", i, n, k, alone[k] ? "one-sided" : both[k] ? "mutual" : "missing" );
            } );
}

int main( int argc, char ** argv )
{
    return mc::main( "C11", argc, argv, [] {
        mc::bounds( "Both activity-driven models. n = 2 (all draws over 4 cells) and n = 3 (2 cells): exact probability of every network, also of two successive ones; preference of one "
                    "active agent between two candidates over up to 240 cells per word that matters, tolerance 0.003 + 0.75 / cells; n <= 12 with bots, contact counts 0..10 and reciprocity 0, 0.5, 1: three iterations "
                    "with up to 1-3 deviating draws, each network must be explained by contacts and reciprocations; every contact and reciprocation reachable; fixed word sequences up to 2600 agents: contact counts, symmetry; up to 2640 agents in clusters of opinion with homophily 4: exactly the edges inside the clusters." );
        scenarios_for<ActivityAgent>();
        scenarios_for<InertialAgent>();
    } );
}
