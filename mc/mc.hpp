// A small stateless explorer (model checker) for sequential code whose nondeterminism is
// input choices (mc::choose) and the words of the random engine (mc::rng_word).
//
//   mc::scenario( "name", [] { mc::explore( policy, [&] { ...one execution... } ); ...checks over all executions... } );
//   int main( int c, char ** v ) { return mc::main( "C01", c, v, [] { ...register scenarios... } ); }
//
// explore() runs the body once for every sequence of answers allowed by the policy (depth-first, by
// re-execution of a prefix).  Scenarios are distributed over worker processes.
#pragma once
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <atomic>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <fmt/format.h>
#include <fmt/ranges.h>

#if defined( __SANITIZE_ADDRESS__ )
extern "C" void __sanitizer_set_death_callback( void ( * )( void ) );
#endif

namespace mc
{
using u64 = std::uint64_t;

inline u64 frac( double f )
{
    return u64( std::ldexp( f, 64 ) );
}

// N equally wide cells of the engine's range, each represented by one interior point.
inline std::vector<u64> cells( int n )
{
    std::vector<u64> r;
    for( int i = 0; i < n; i++ )
        r.push_back( u64( ( (long double)i + 0.4871L ) / n * 18446744073709551616.0L ) );
    return r;
}

inline std::vector<u64> fracs( std::initializer_list<double> l )
{
    std::vector<u64> r;
    for( double d : l )
        r.push_back( frac( d ) );
    return r;
}

struct Policy
{
    std::vector<u64> menu = cells( 2 ); // alternatives for every random word
    int horizon           = 1 << 30;    // number of random words that branch; later ones take the default
    int max_dev           = -1;         // bound on random words that deviate from the default (-1: none)
    int background        = -1;         // default word: -1: menu[0] while branching, 0.37 beyond the horizon;
                                        // >= 0: the word of a fixed equidistributed sequence; the menu adds alternatives
    u64 fallback = frac( 0.37 );
    std::vector<int> counts = {};       // if not empty: word i has cells( counts[min(i, last)] ) instead of the menu
    u64 max_execs = 30000000;           // safety net; explore() then reports an incomplete enumeration
};

struct Violation : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

struct Choice
{
    int val, arity;
    bool rng;
    int devs; // deviations before this choice
};

struct Shared
{
    std::atomic<int> next{ 0 };
    std::atomic<int> stop{ 0 };
    std::atomic<u64> execs{ 0 }, transitions{ 0 }, choices{ 0 }, words{ 0 }, max_depth{ 0 }, diverged{ 0 }, capped{ 0 };
    char scenario[64][160] = {}; // what each worker is exploring
};

struct Known
{
    u64 count = 0;
    std::string what;
};

struct Global
{
    std::string property;
    Shared * sh = nullptr;
    std::string tmp;
    // current execution
    const Policy * policy = nullptr;
    std::vector<Choice> prefix, trace;
    bool active    = false;
    double weight  = 1;
    u64 rng_pos    = 0; // words consumed in this execution (settable, see set_rng_pos)
    int rng_branch = 0;
    int devs       = 0;
    std::vector<u64> * tape = nullptr; // see Tape
    bool diverged  = false;
    // current scenario
    std::string scen;
    int explore_idx = 0;
    u64 execs = 0, transitions = 0, choices = 0, words = 0, max_depth = 0, ndiverged = 0;
    int samples_here = 0;
    // replay
    bool replay = false, replay_single = false;
    int replay_idx = 0;
    std::vector<int> replay_vals;
    // results of this worker
    std::unordered_set<u64> states, outcomes;
    std::vector<std::string> samples;
    std::map<std::string, Known> known;
    int viol_fd = -1;
    int worker  = 0;
    long limit_s = 60;
    std::string bounds;
};
inline Global g;

inline bool thorough()
{
    static bool t = [] {
        const char * e = getenv( "VERIF_TIER" );
        return e && std::string( e ) == "thorough";
    }();
    return t;
}

[[noreturn]] inline void fail( const std::string & msg )
{
    throw Violation( msg );
}

// Thrown when the harness itself must not go on.
[[noreturn]] inline void internal( const std::string & msg )
{
    fprintf( stderr, "MC-INTERNAL %s\n", msg.c_str() );
    _exit( 3 );
}

inline int choose_impl( int n, bool rng )
{
    if( n <= 0 )
        internal( "choose(0)" );
    if( n == 1 )
        return 0;
    auto i = g.trace.size();
    int v  = 0;
    if( g.replay_single ) // arities are not in the replay file: take the values as they are
        v = i < g.replay_vals.size() ? std::min( g.replay_vals[i], n - 1 ) : 0;
    else if( i < g.prefix.size() && !g.diverged )
    {
        if( g.prefix[i].arity != n || g.prefix[i].rng != rng )
        {
            g.diverged = true; // hard error at the end of the run, unless a violation is found
            v          = 0;
        }
        else
            v = g.prefix[i].val;
    }
    g.trace.push_back( { v, n, rng, g.devs } );
    if( rng )
    {
        g.weight /= n;
        if( v > 0 )
            g.devs++;
    }
    g.choices++;
    return v;
}

// An input choice: explored exhaustively.
inline int choose( int n )
{
    return choose_impl( n, false );
}
template<typename T>
const T & pick( const std::vector<T> & v )
{
    return v[choose( int( v.size() ) )];
}
template<typename T>
T pick( std::initializer_list<T> v )
{
    return *( v.begin() + choose( int( v.size() ) ) );
}

inline u64 background_word( int b, u64 pos )
{
    // splitmix64: a fixed, equidistributed sequence; part of the schedule, not of the exploration
    u64 z = ( pos + 1 ) * 0x9E3779B97F4A7C15ull + u64( b ) * 0xD1B54A32D192ED03ull;
    z     = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
    z     = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
    return z ^ ( z >> 31 );
}

inline u64 fresh_word( u64 pos )
{
    static const Policy none;
    const Policy & p = g.policy ? *g.policy : none;
    bool branch      = g.active && g.rng_branch < p.horizon && !p.menu.empty();
    if( branch && !p.counts.empty() )
    {
        int n = p.counts[std::min<size_t>( g.rng_branch++, p.counts.size() - 1 )];
        int c = choose_impl( n, true );
        return u64( ( (long double)c + 0.4871L ) / n * 18446744073709551616.0L );
    }
    if( p.background >= 0 )
    {
        if( !branch || p.max_dev == 0 )
            return background_word( p.background, pos );
        g.rng_branch++;
        int c = choose_impl( int( p.menu.size() ) + 1, true );
        return c == 0 ? background_word( p.background, pos ) : p.menu[c - 1];
    }
    if( !branch )
        return p.fallback;
    g.rng_branch++;
    return p.menu[choose_impl( int( p.menu.size() ), true )];
}

inline u64 rng_word()
{
    u64 pos = g.rng_pos++;
    g.words++;
    if( g.tape && pos < g.tape->size() )
        return ( *g.tape )[pos];
    u64 w = fresh_word( pos );
    if( g.tape && pos == g.tape->size() )
        g.tape->push_back( w );
    return w;
}
// Inside this scope the word at a position is chosen once; later reads of the position return it again.
struct Tape
{
    std::vector<u64> words, *outer = g.tape;
    Tape()
    {
        g.tape = &words;
    }
    ~Tape()
    {
        g.tape = outer;
    }
};

// The position in the word sequence (for restarted runs that must see the same remaining draws).
inline u64 rng_pos()
{
    return g.rng_pos;
}
inline void set_rng_pos( u64 p )
{
    g.rng_pos = p;
}
// Exact probability of this execution's random choices (equally wide cells).
inline double weight()
{
    return g.weight;
}

// Inside this scope (setting up a simulation) random words are not explored: they come from a fixed
// sequence and leave the position in the word sequence as it was.
struct Quiet
{
    bool active = g.active;
    u64 pos     = g.rng_pos;
    const Policy * policy    = g.policy;
    std::vector<u64> * tape = g.tape;
    explicit Quiet( int b = 0 )
    {
        static Policy fixed[8];
        fixed[b & 7].background = b & 7;
        g.active                = false;
        g.policy                = &fixed[b & 7];
        g.tape                  = nullptr;
    }
    ~Quiet()
    {
        g.active  = active;
        g.rng_pos = pos;
        g.policy  = policy;
        g.tape    = tape;
    }
};

inline void step( u64 n = 1 )
{
    g.transitions += n;
}

struct Hash
{
    u64 h = 1469598103934665603ull;
    void raw( u64 v )
    {
        h ^= v + 0x9E3779B97F4A7C15ull + ( h << 6 ) + ( h >> 2 );
        h *= 1099511628211ull;
        h ^= h >> 29;
    }
    template<typename T>
    Hash & operator()( const T & v )
    {
        if constexpr( std::is_floating_point_v<T> )
        {
            double d = v == 0 ? 0 : double( v );
            u64 b;
            memcpy( &b, &d, 8 );
            raw( b );
        }
        else if constexpr( std::is_arithmetic_v<T> || std::is_enum_v<T> )
            raw( u64( v ) );
        else
        {
            raw( std::size( v ) );
            for( const auto & e : v )
                ( *this )( e );
        }
        return *this;
    }
};
inline void state( u64 h )
{
    if( g.states.size() < 4000000 )
        g.states.insert( h );
}
inline void outcome( u64 h )
{
    if( g.outcomes.size() < 4000000 )
        g.outcomes.insert( h );
}
inline void sample( const std::string & s )
{
    if( g.samples_here < 2 && g.samples.size() < 6 )
    {
        g.samples_here++;
        g.samples.push_back( g.scen + ": " + s );
    }
}
inline bool want_sample()
{
    return g.samples_here < 2 && g.samples.size() < 6;
}

// A violation that matches a finding listed in known_findings.jsonl (the runner checks the list).
inline void known( const std::string & id, const std::string & what )
{
    auto & k = g.known[id];
    if( k.count++ == 0 )
        k.what = what;
}

inline const std::string & scratch()
{
    static std::string d = [] {
        std::string s = g.tmp + "/w" + std::to_string( getpid() );
        std::filesystem::create_directories( s );
        return s;
    }();
    return d;
}

inline void arm_timer()
{
    struct itimerval it = {};
    it.it_value.tv_sec  = g.limit_s;
    setitimer( ITIMER_PROF, &it, nullptr );
}

inline std::string json_escape( const std::string & s )
{
    std::string r;
    for( unsigned char c : s )
    {
        if( c == '"' || c == '\\' )
        {
            r += '\\';
            r += char( c );
        }
        else if( c == '\n' )
            r += "\\n";
        else if( c < 0x20 || c >= 0x7f )
            r += fmt::format( "\\u{:04x}", int( c ) );
        else
            r += char( c );
    }
    return r;
}

// Written by a worker for the first violation it meets; also from the death callback.
inline void record_violation( const char * kind, const std::string & msg )
{
    std::string tr;
    for( auto & c : g.trace )
    {
        if( !tr.empty() )
            tr += ',';
        tr += std::to_string( c.val );
    }
    std::string s = fmt::format(
        "{{\"kind\":\"{}\",\"property\":\"{}\",\"scenario\":\"{}\",\"explore\":{},\"trace\":[{}],\"message\":\"{}\"}}\n", kind,
        g.property, json_escape( g.scen ), g.explore_idx, tr, json_escape( msg ) );
    if( write( g.viol_fd, s.data(), s.size() ) < 0 )
        _exit( 4 );
    g.sh->stop = 1;
}

inline void death_callback()
{
    record_violation( "crash", "sanitizer report (memory error or undefined behaviour) in this execution" );
}
inline void signal_handler( int sig )
{
    if( sig == SIGPROF )
        record_violation( "timeout", fmt::format( "execution did not finish within {} s of CPU time", g.limit_s ) );
    else
        record_violation( "crash", fmt::format( "signal {} ({})", sig, strsignal( sig ) ) );
    _exit( 99 );
}

inline bool next_prefix( const Policy & p )
{
    auto & t = g.trace;
    size_t i = t.size();
    while( i > 0 )
    {
        --i;
        auto & c = t[i];
        if( c.val + 1 >= c.arity )
            continue;
        if( c.rng && p.max_dev >= 0 && c.val == 0 && c.devs + 1 > p.max_dev )
            continue;
        g.prefix.assign( t.begin(), t.begin() + i + 1 );
        g.prefix.back().val++;
        return true;
    }
    return false;
}

// Runs body once per sequence of choices.  Returns true if the whole space was enumerated (false in
// single-trace replay, where checks over all executions make no sense).
template<typename F>
bool explore( const Policy & p, F && body )
{
    int idx = g.explore_idx;
    g.policy = &p;
    g.prefix.clear();
    if( g.replay_single )
    {
        if( idx != g.replay_idx )
        {
            g.explore_idx++;
            g.policy = nullptr;
            return false;
        }
    }
    u64 n = 0;
    while( true )
    {
        if( n % 256 == 0 )
        {
            arm_timer();
            if( g.sh->stop )
                break;
        }
        n++;
        g.trace.clear();
        g.weight     = 1;
        g.rng_pos    = 0;
        g.rng_branch = 0;
        g.devs       = 0;
        g.tape       = nullptr;
        g.diverged   = false;
        g.active     = true;
        try
        {
            body();
        }
        catch( const Violation & )
        {
            g.execs += n;
            throw;
        }
        catch( const std::exception & e )
        {
            g.execs += n;
            throw Violation( std::string( "unexpected exception: " ) + e.what() );
        }
        g.active    = false;
        g.max_depth = std::max<u64>( g.max_depth, g.trace.size() );
        if( g.trace.size() < g.prefix.size() )
            g.diverged = true;
        if( g.diverged )
            g.ndiverged++;
        if( g.replay_single )
            break;
        if( !next_prefix( p ) )
            break;
        if( n >= p.max_execs )
        {
            if( getenv( "MC_TIMES" ) ) fprintf( stderr, "CAPPED %s\n", g.scen.c_str() );
            g.sh->capped++;
            g.execs += n;
            g.policy = nullptr;
            g.explore_idx++;
            return false;
        }
    }
    g.execs += n;
    g.policy = nullptr;
    g.explore_idx++;
    return !g.replay_single && !g.sh->stop;
}

// One execution without any random branching (plain evaluation inside a scenario).
template<typename F>
bool once( F && body )
{
    static const Policy p{ {}, 0, 0, -1 };
    return explore( p, std::forward<F>( body ) );
}

// Which of the first random words can influence the result of the body at all?  Up to two deviating words,
// from several base sequences, each compared with the execution that lacks that deviation.
// Empty if the enumeration was interrupted.
template<typename F>
std::vector<int> relevant_words( int words, F && result )
{
    std::vector<int> rel( words, 0 );
    for( int b = 0; b < 4; b++ )
    {
        Policy p;
        p.menu = cells( 8 );
        for( double f : { 1e-9, 0.003, 0.997 } )
            p.menu.push_back( frac( f ) );
        p.background = b;
        p.max_dev    = 2;
        p.horizon    = words;
        std::map<std::vector<std::pair<int, int>>, u64> res;
        if( !explore( p, [&] {
                u64 r = result();
                if( r == ~0ull ) // not comparable
                    return;
                std::vector<std::pair<int, int>> d;
                int w = 0;
                for( auto & c : g.trace )
                {
                    if( c.rng && c.val > 0 )
                        d.push_back( { w, c.val } );
                    w += c.rng;
                }
                for( size_t i = 0; i < d.size(); i++ )
                {
                    auto e = d;
                    e.erase( e.begin() + i );
                    auto it = res.find( e );
                    if( it != res.end() && it->second != r )
                        rel[d[i].first] = 1;
                }
                if( d.size() < 2 )
                    res[d] = r;
            } ) )
            return {};
    }
    return rel;
}
// Cells for every relevant word within the budget of executions, one cell for the others.
inline std::vector<int> relevant_counts( const std::vector<int> & rel, double budget, int cap, int & used )
{
    int n = std::count( rel.begin(), rel.end(), 1 );
    used  = n == 0 ? 1 : std::min<int>( cap, int( std::floor( std::pow( budget, 1.0 / n ) + 1e-9 ) ) );
    std::vector<int> c;
    for( int r : rel )
        c.push_back( r ? used : 1 );
    c.push_back( 1 );
    return c;
}

struct Scenario
{
    std::string name;
    std::function<void()> fn;
};
inline std::vector<Scenario> & scenarios()
{
    static std::vector<Scenario> s;
    return s;
}
inline void scenario( const std::string & name, std::function<void()> fn )
{
    scenarios().push_back( { name, std::move( fn ) } );
}
inline void bounds( const std::string & s )
{
    if( !g.bounds.empty() )
        g.bounds += " ";
    g.bounds += s;
}

inline bool run_scenario( const Scenario & s )
{
    g.scen         = s.name;
    if( g.worker >= 0 && g.worker < 64 )
        snprintf( g.sh->scenario[g.worker], sizeof( g.sh->scenario[0] ), "%s", s.name.c_str() );
    g.explore_idx  = 0;
    g.samples_here = 0;
    g.prefix.clear();
    g.trace.clear();
    arm_timer();
    bool ok = true;
    try
    {
        s.fn();
    }
    catch( const Violation & v )
    {
        record_violation( "violation", v.what() );
        ok = false;
    }
    catch( const std::exception & e )
    {
        record_violation( "violation", std::string( "unexpected exception: " ) + e.what() );
        ok = false;
    }
    g.active = false;
    g.policy = nullptr;
    g.sh->execs += g.execs;
    g.sh->transitions += g.transitions;
    g.sh->choices += g.choices;
    g.sh->words += g.words;
    g.sh->diverged += g.ndiverged;
    u64 m = g.sh->max_depth;
    while( g.max_depth > m && !g.sh->max_depth.compare_exchange_weak( m, g.max_depth ) ) {}
    g.execs = g.transitions = g.choices = g.words = g.ndiverged = 0;
    return ok;
}

inline void worker_setup( bool quiet )
{
#if defined( __SANITIZE_ADDRESS__ )
    __sanitizer_set_death_callback( death_callback );
#endif
    static std::vector<char> alt( 1 << 16 );
    stack_t ss{};
    ss.ss_sp   = alt.data();
    ss.ss_size = alt.size();
    sigaltstack( &ss, nullptr );
    struct sigaction sa = {};
    sa.sa_handler       = signal_handler;
    sa.sa_flags         = SA_ONSTACK;
    for( int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF } )
        sigaction( s, &sa, nullptr );
    int fd = open( "/dev/null", O_RDWR );
    if( quiet )
        dup2( fd, 1 );
    dup2( fd, 0 );
    close( fd );
    if( chdir( scratch().c_str() ) != 0 )
        internal( "chdir" );
}

inline void write_u64s( const std::string & path, const std::unordered_set<u64> & s )
{
    std::ofstream f( path, std::ios::binary );
    for( u64 v : s )
        f.write( (const char *)&v, 8 );
}
inline void read_u64s( const std::string & path, std::unordered_set<u64> & s )
{
    std::ifstream f( path, std::ios::binary );
    u64 v;
    while( f.read( (char *)&v, 8 ) )
        s.insert( v );
}

inline int main( const std::string & property, int argc, char ** argv, std::function<void()> reg )
{
    g.property            = property;
    const char * tmp      = getenv( "MC_TMP" );
    const char * out_path = getenv( "MC_OUT" );
    g.tmp                 = tmp ? tmp : "/tmp";
    if( const char * l = getenv( "MC_LIMIT" ) )
        g.limit_s = atol( l );
    prctl( PR_SET_PDEATHSIG, SIGKILL );
    g.sh = new( mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) ) Shared;
    reg();
    auto & sc = scenarios();
    std::set<std::string> names;
    for( auto & s : sc )
        if( !names.insert( s.name ).second )
            internal( "duplicate scenario " + s.name );

    std::string replay_file, only;
    for( int i = 1; i + 1 < argc; i += 2 )
    {
        if( std::string( argv[i] ) == "--replay" )
            replay_file = argv[i + 1];
        if( std::string( argv[i] ) == "--only" )
            only = argv[i + 1];
    }

    if( !replay_file.empty() )
    {
        // line 1: scenario, line 2: explore index, line 3: trace values (space separated)
        std::ifstream f( replay_file );
        std::string name, line;
        std::getline( f, name );
        f >> g.replay_idx;
        int v;
        while( f >> v )
            g.replay_vals.push_back( v );
        g.viol_fd = open( ( g.tmp + "/replay.viol" ).c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644 );
        bool full = getenv( "MC_REPLAY_FULL" ) != nullptr;
        for( auto & s : sc )
            if( s.name == name )
            {
                worker_setup( true );
                g.replay_single = !full;
                return run_scenario( s ) ? 0 : 1;
            }
        internal( "replay: no scenario " + name );
    }

    int jobs = 8;
    if( const char * j = getenv( "MC_JOBS" ) )
        jobs = atoi( j );
    fflush( nullptr );
    std::vector<pid_t> pids;
    for( int w = 0; w < jobs; w++ )
    {
        pid_t p = fork();
        if( p == 0 )
        {
            prctl( PR_SET_PDEATHSIG, SIGKILL );
            g.worker  = w;
            auto base = g.tmp + "/res" + std::to_string( w );
            g.viol_fd = open( ( base + ".viol" ).c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644 );
            worker_setup( true );
            while( !g.sh->stop )
            {
                int i = g.sh->next++;
                if( i >= int( sc.size() ) )
                    break;
                if( !only.empty() && sc[i].name.find( only ) == std::string::npos )
                    continue;
                auto t0 = std::chrono::steady_clock::now();
                run_scenario( sc[i] );
                double dt = std::chrono::duration<double>( std::chrono::steady_clock::now() - t0 ).count();
                if( getenv( "MC_TIMES" ) )
                    fprintf( stderr, "%8.2f s  %s\n", dt, sc[i].name.c_str() );
            }
            write_u64s( base + ".states", g.states );
            write_u64s( base + ".outcomes", g.outcomes );
            {
                std::ofstream f( base + ".samples" );
                for( auto & s : g.samples )
                    f << '"' << json_escape( s ) << "\"\n";
            }
            {
                std::ofstream f( base + ".known" );
                for( auto & [id, k] : g.known )
                    f << id << '\t' << k.count << '\t' << json_escape( k.what ) << '\n';
            }
            std::filesystem::current_path( "/" );
            std::filesystem::remove_all( scratch() );
            _exit( 42 );
        }
        pids.push_back( p );
    }
    bool bad = false;
    std::string ended; // the scenario of a worker that the code under test ended without a report (by exit(), say)
    for( size_t w = 0; w < pids.size(); w++ )
    {
        int st = 0;
        waitpid( pids[w], &st, 0 );
        if( WIFEXITED( st ) && WEXITSTATUS( st ) == 42 )
            continue;
        bad = true;
        bool own = ( WIFEXITED( st ) && ( WEXITSTATUS( st ) == 3 || WEXITSTATUS( st ) == 4 ) ) || ( WIFSIGNALED( st ) && ( WTERMSIG( st ) == SIGKILL || WTERMSIG( st ) == SIGTERM || WTERMSIG( st ) == SIGHUP ) );
        if( !own && ended.empty() && w < 64 )
            ended = g.sh->scenario[w];
    }
    std::unordered_set<u64> states, outcomes;
    std::vector<std::string> samples;
    std::map<std::string, std::pair<u64, std::string>> known;
    std::string viol;
    for( int w = 0; w < jobs; w++ )
    {
        auto base = g.tmp + "/res" + std::to_string( w );
        read_u64s( base + ".states", states );
        read_u64s( base + ".outcomes", outcomes );
        std::ifstream s( base + ".samples" );
        std::string line;
        while( std::getline( s, line ) )
            samples.push_back( line );
        std::ifstream k( base + ".known" );
        while( std::getline( k, line ) )
        {
            auto a = line.find( '\t' ), b = line.find( '\t', a + 1 );
            auto & e = known[line.substr( 0, a )];
            e.first += std::stoull( line.substr( a + 1, b - a - 1 ) );
            e.second = line.substr( b + 1 );
        }
        std::ifstream v( base + ".viol" );
        while( std::getline( v, line ) )
            viol += ( viol.empty() ? "" : "," ) + line;
    }
    if( bad && viol.empty() && !ended.empty() )
        viol = fmt::format( "{{\"kind\":\"crash\",\"property\":\"{}\",\"scenario\":\"{}\",\"explore\":0,\"trace\":[],\"message\":\"the process was ended\"}}", property, json_escape( ended ) );
    if( bad && viol.empty() )
    {
        fprintf( stderr, "MC-INTERNAL a worker died without a record\n" );
        return 3;
    }
    std::sort( samples.begin(), samples.end() );
    std::string js, jk;
    // spread the samples over the scenarios
    size_t stepw = std::max<size_t>( 1, samples.size() / 8 ), cnt = 0;
    for( size_t i = 0; i < samples.size() && cnt < 8; i += stepw, cnt++ )
        js += ( js.empty() ? "" : "," ) + samples[i];
    for( auto & [id, e] : known )
        jk += fmt::format( "{}{{\"id\":\"{}\",\"count\":{},\"what\":\"{}\"}}", jk.empty() ? "" : ",", id, e.first, e.second );
    std::string j = fmt::format(
        "{{\"states\":{},\"transitions\":{},\"executions\":{},\"distinct_outcomes\":{},\"choice_points\":{},\"random_words\":{},"
        "\"max_choices_in_one_execution\":{},\"scenarios\":{},\"diverged\":{},\"capped\":{},\"bounds\":\"{}\",\"samples\":[{}],\"known\":[{}],"
        "\"violations\":[{}]}}\n",
        states.size(), g.sh->transitions.load(), g.sh->execs.load(), outcomes.size(), g.sh->choices.load(), g.sh->words.load(),
        g.sh->max_depth.load(), sc.size(), g.sh->diverged.load(), g.sh->capped.load(), json_escape( g.bounds ), js, jk, viol );
    if( out_path )
        std::ofstream( out_path ) << j;
    else
        fputs( j.c_str(), stdout );
    if( !viol.empty() )
        return 1;
    if( g.sh->diverged )
    {
        fprintf( stderr, "MC-INTERNAL replayed prefixes diverged\n" );
        return 3;
    }
    return 0;
}

} // namespace mc

#define MC_CHECK( cond, ... )                                                                                          \
    do                                                                                                                 \
    {                                                                                                                  \
        if( !( cond ) )                                                                                                \
            mc::fail( fmt::format( __VA_ARGS__ ) );                                                                    \
    } while( 0 )
