From e87ba5fb5758af42fa1599297f411335330f2962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 01/19] fix: weighted reservoir sampling with k = 0, too few
 candidates or zero weights

With k == 0 the caller's buffer kept the previous result, with fewer than k
candidates the result was written past the end of the buffer, and indices with
zero weight (an agent itself) were selected.
---
 include/util/math.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/util/math.hpp b/include/util/math.hpp
index 493e6ab..0b6b876 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -65,12 +65,12 @@ template<typename WeightCallbackT>
 void reservoir_sampling_A_ExpJ(
     size_t k, size_t n, WeightCallbackT weight, std::vector<std::size_t> & buffer, std::mt19937 & mt )
 {
+    buffer.clear();
     if( k == 0 )
         return;
 
     std::uniform_real_distribution<double> distribution( 0.0, 1.0 );
 
-    std::vector<size_t> reservoir( k );
     using QueueItemT = std::pair<size_t, double>;
 
     auto compare = []( const QueueItemT & item1, const QueueItemT & item2 ) { return item1.second > item2.second; };
@@ -79,17 +79,24 @@ void reservoir_sampling_A_ExpJ(
     size_t idx = 0;
     while( ( idx < n ) && ( H.size() < k ) )
     {
-        double r = std::pow( distribution( mt ), 1.0 / weight( idx ) );
-        H.push( { idx, r } );
+        auto w = weight( idx );
+        if( w > 0 ) // Indices with zero weight can never be selected
+        {
+            double r = std::pow( distribution( mt ), 1.0 / w );
+            H.push( { idx, r } );
+        }
         idx++;
     }
 
+    if( H.empty() )
+        return;
+
     auto X = std::log( distribution( mt ) ) / std::log( H.top().second );
     while( idx < n )
     {
         auto w = weight( idx );
         X -= w;
-        if( X <= 0 )
+        if( X <= 0 && w > 0 )
         {
             auto t                     = std::pow( H.top().second, w );
             auto uniform_from_t_to_one = distribution( mt ) * ( 1.0 - t ) + t; // Random number in interval [t, 1.0]
@@ -103,7 +110,7 @@ void reservoir_sampling_A_ExpJ(
 
     buffer.resize( H.size() );
 
-    for( size_t i = 0; i < k; i++ )
+    for( size_t i = 0; i < buffer.size(); i++ )
     {
         buffer[i] = H.top().first;
         H.pop();
-- 
2.43.0


From 25e9d2d2a427515b3896467c76551ef8bb76bd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 02/19] fix: draw_unique_k_from_n returned made-up indices when
 k exceeds the choices

---
 include/models/DeffuantModel.hpp | 2 ++
 include/util/math.hpp            | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/models/DeffuantModel.hpp b/include/models/DeffuantModel.hpp
index 7f90baf..764646c 100644
--- a/include/models/DeffuantModel.hpp
+++ b/include/models/DeffuantModel.hpp
@@ -85,6 +85,8 @@ public:
         {
 
             auto interacting_agents = select_interacting_agent_pair();
+            if( interacting_agents.size() < 2 ) // A single agent has nobody to interact with
+                continue;
 
             auto & agent1 = network.agents[interacting_agents[0]];
             auto & agent2 = network.agents[interacting_agents[1]];
diff --git a/include/util/math.hpp b/include/util/math.hpp
index 0b6b876..76aa08e 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -58,7 +58,9 @@ inline void draw_unique_k_from_n(
     };
 
     buffer.resize( k );
-    std::sample( SequenceGenerator( 0, ignore_idx ), SequenceGenerator( n, ignore_idx ), buffer.begin(), k, gen );
+    auto end = std::sample(
+        SequenceGenerator( 0, ignore_idx ), SequenceGenerator( n, ignore_idx ), buffer.begin(), k, gen );
+    buffer.erase( end, buffer.end() ); // There may be fewer than k indices to choose from
 }
 
 template<typename WeightCallbackT>
-- 
2.43.0


From 0e4577a55a3313cd0df3c936da32cf7d4f24a284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 03/19] fix: parse_comma_separated_list passed on text beyond
 the entry

---
 include/util/misc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/util/misc.hpp b/include/util/misc.hpp
index d9bc5b6..2f09daa 100644
--- a/include/util/misc.hpp
+++ b/include/util/misc.hpp
@@ -47,7 +47,7 @@ void parse_comma_separated_list( const std::string & str, CallbackT & callback )
     while( true )
     {
         auto pos_next = str.find( ',', pos_cur + 1 );
-        auto substr   = str.substr( pos_cur + 1, pos_next );
+        auto substr   = str.substr( pos_cur + 1, pos_next - ( pos_cur + 1 ) );
         callback( idx_entry, substr );
 
         pos_cur = pos_next;
-- 
2.43.0


From a90b8e97162c7c23051b72c67c665789a8fd71d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 04/19] fix: network_to_dot_file crashed for agents without
 neighbours

---
 include/network_io.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/network_io.hpp b/include/network_io.hpp
index bb47a94..8d7e82c 100644
--- a/include/network_io.hpp
+++ b/include/network_io.hpp
@@ -23,11 +23,13 @@ void network_to_dot_file( const Network<AgentT> & network, const std::string & f
         auto buffer = network.get_neighbours( idx_agent );
 
         std::string row = fmt::format( "{} <- {{", idx_agent );
-        for( size_t i = 0; i < buffer.size() - 1; i++ )
+        for( size_t i = 0; i < buffer.size(); i++ )
         {
-            row += fmt::format( "{}, ", buffer[i] );
+            if( i > 0 )
+                row += ", ";
+            row += fmt::format( "{}", buffer[i] );
         }
-        row += fmt::format( "{}}}\n", buffer[buffer.size() - 1] );
+        row += "}\n";
 
         fs << row;
     }
-- 
2.43.0


From 87373c3e6cf1329ff5c8417b6d50476a33081a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 05/19] fix: misplaced parenthesis in
 power_law_distribution::pdf

---
 include/util/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/util/math.hpp b/include/util/math.hpp
index 76aa08e..9e8b62a 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -146,7 +146,7 @@ public:
 
     ScalarT pdf( ScalarT x )
     {
-        return ( 1.0 - gamma ) / ( 1.0 - std::pow( eps, ( 1 - gamma ) ) * std::pow( x, ( -gamma ) ) );
+        return ( 1.0 - gamma ) / ( 1.0 - std::pow( eps, ( 1 - gamma ) ) ) * std::pow( x, ( -gamma ) );
     }
 
     ScalarT inverse_cdf( ScalarT x )
-- 
2.43.0


From 6ee4141779cfc1d8d1ac0e958ebbdf0bab031c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 06/19] fix: an output interval of zero passed validation and
 divided by zero

---
 src/config_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/config_parser.cpp b/src/config_parser.cpp
index 57e384f..7dac5be 100644
--- a/src/config_parser.cpp
+++ b/src/config_parser.cpp
@@ -202,6 +202,10 @@ void validate_settings( const SimulationOptions & options )
     // @TODO: Check that start_output is less than the max_iterations?
     check( name_and_var( options.output_settings.start_output ), g_zero );
     check( name_and_var( options.output_settings.start_numbering_from ), geq_zero );
+    if( options.output_settings.n_output_agents.has_value() )
+        check( "options.output_settings.n_output_agents", options.output_settings.n_output_agents.value(), g_zero );
+    if( options.output_settings.n_output_network.has_value() )
+        check( "options.output_settings.n_output_network", options.output_settings.n_output_network.value(), g_zero );
 
     auto validate_activity = [&]( const auto & model_settings )
     {
-- 
2.43.0


From 01ae81ae6d3d7718659ab3c201b76b8eee4c5fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 07/19] fix: more bots than agents wrote past the end of the
 agents

---
 include/models/ActivityDrivenModel.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/models/ActivityDrivenModel.hpp b/include/models/ActivityDrivenModel.hpp
index 64a1223..6a3f062 100644
--- a/include/models/ActivityDrivenModel.hpp
+++ b/include/models/ActivityDrivenModel.hpp
@@ -9,6 +9,7 @@
 #include <cstddef>
 #include <random>
 #include <set>
+#include <stdexcept>
 #include <string>
 #include <utility>
 #include <vector>
@@ -139,6 +140,11 @@ private:
 
         if( bot_present() )
         {
+            if( n_bots > network.n_agents() )
+            {
+                throw std::runtime_error( "There are more bots than agents." );
+            }
+
             for( size_t bot_idx = 0; bot_idx < n_bots; bot_idx++ )
             {
                 network.agents[bot_idx].data.opinion  = bot_opinion[bot_idx];
-- 
2.43.0


From 878d0fa296bae2d8dfcadd6ae1861affcbfec594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 08/19] fix: an agent file of a different size than the network
 led to invalid accesses

---
 include/simulation.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/simulation.hpp b/include/simulation.hpp
index ecc9528..e614a04 100644
--- a/include/simulation.hpp
+++ b/include/simulation.hpp
@@ -14,6 +14,7 @@
 #include <network_generation.hpp>
 #include <network_io.hpp>
 #include <optional>
+#include <stdexcept>
 #include <string>
 namespace fs = std::filesystem;
 
@@ -89,7 +90,13 @@ public:
 
         if( cli_agent_file.has_value() )
         {
-            network.agents = agents_from_file<AgentType>( cli_agent_file.value() );
+            auto agents = agents_from_file<AgentType>( cli_agent_file.value() );
+            if( agents.size() != network.n_agents() )
+            {
+                throw std::runtime_error( fmt::format(
+                    "The agent file contains {} agents, but the network has {}!", agents.size(), network.n_agents() ) );
+            }
+            network.agents = agents;
         }
     }
 
-- 
2.43.0


From f7909c433bf23c9e33f19df50c7813c5882808b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 09/19] fix: mean-field weights of a single agent were NaN

---
 include/models/ActivityDrivenModel.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/models/ActivityDrivenModel.hpp b/include/models/ActivityDrivenModel.hpp
index 6a3f062..3f4b47d 100644
--- a/include/models/ActivityDrivenModel.hpp
+++ b/include/models/ActivityDrivenModel.hpp
@@ -281,7 +281,8 @@ private:
             double activity = std::max( 1.0, network.agents[idx_agent].data.activity );
             for( size_t j = 0; j < network.n_agents(); j++ )
             {
-                double omega = homophily_weight( idx_agent, j ) / normalization;
+                // If there is nobody to contact (a single agent), the normalization is zero
+                double omega = normalization > 0 ? homophily_weight( idx_agent, j ) / normalization : 0.0;
                 // We can calculate the probability of i contacting j ( i->j )
                 // Update contact prob_list (outgoing)
                 contact_prob_list[idx_agent][j] = activity * probability_helper( omega, m_temp );
-- 
2.43.0


From f6b93401f718929a6dad50180a9bb1b70ec02777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 10/19] fix: subnormal numbers in agent and network files could
 not be read back

---
 include/agents/activity_agent.hpp |  8 ++++----
 include/agents/inertial_agent.hpp |  8 ++++----
 include/agents/simple_agent.hpp   |  2 +-
 include/network_generation.hpp    |  2 +-
 include/util/misc.hpp             | 15 +++++++++++++++
 5 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/include/agents/activity_agent.hpp b/include/agents/activity_agent.hpp
index ec229f5..02a11b9 100644
--- a/include/agents/activity_agent.hpp
+++ b/include/agents/activity_agent.hpp
@@ -35,20 +35,20 @@ inline ActivityAgent agent_from_string<ActivityAgent>( const std::string & str )
     auto pos_comma      = str.find_first_of( ',' );
     auto pos_next_comma = str.find( ',', pos_comma + 1 );
 
-    res.data.opinion = std::stod( str.substr( 0, pos_comma ) );
+    res.data.opinion = string_to_double( str.substr( 0, pos_comma ) );
 
     if( pos_next_comma == std::string::npos )
     {
-        res.data.activity = std::stod( str.substr( pos_comma + 1, str.size() ) );
+        res.data.activity = string_to_double( str.substr( pos_comma + 1, str.size() ) );
     }
     else
     {
-        res.data.activity = std::stod( str.substr( pos_comma + 1, pos_next_comma ) );
+        res.data.activity = string_to_double( str.substr( pos_comma + 1, pos_next_comma ) );
     }
 
     if( pos_next_comma != std::string::npos )
     {
-        res.data.reluctance = std::stod( str.substr( pos_next_comma + 1, str.size() ) );
+        res.data.reluctance = string_to_double( str.substr( pos_next_comma + 1, str.size() ) );
     }
 
     return res;
diff --git a/include/agents/inertial_agent.hpp b/include/agents/inertial_agent.hpp
index 469376a..3eb16bc 100644
--- a/include/agents/inertial_agent.hpp
+++ b/include/agents/inertial_agent.hpp
@@ -39,19 +39,19 @@ inline InertialAgent agent_from_string<InertialAgent>( const std::string & str )
     {
         if( idx_list == 0 )
         {
-            res.data.opinion = std::stod( substr );
+            res.data.opinion = string_to_double( substr );
         }
         else if( idx_list == 1 )
         {
-            res.data.velocity = std::stod( substr );
+            res.data.velocity = string_to_double( substr );
         }
         else if( idx_list == 2 )
         {
-            res.data.activity = std::stod( substr );
+            res.data.activity = string_to_double( substr );
         }
         else if( idx_list == 3 )
         {
-            res.data.reluctance = std::stod( substr );
+            res.data.reluctance = string_to_double( substr );
         }
     };
 
diff --git a/include/agents/simple_agent.hpp b/include/agents/simple_agent.hpp
index c247e69..a264fd3 100644
--- a/include/agents/simple_agent.hpp
+++ b/include/agents/simple_agent.hpp
@@ -29,7 +29,7 @@ template<>
 inline SimpleAgent agent_from_string<SimpleAgent>( const std::string & str )
 {
     SimpleAgent res{};
-    res.data.opinion = std::stod( str );
+    res.data.opinion = string_to_double( str );
     return res;
 }
 
diff --git a/include/network_generation.hpp b/include/network_generation.hpp
index e71b50f..a140f59 100644
--- a/include/network_generation.hpp
+++ b/include/network_generation.hpp
@@ -228,7 +228,7 @@ Network<AgentType> generate_from_file( const std::string & file )
             }
             else if( idx_column >= 2 + n_neighbours )
             { // The rest of the columns are the weights
-                const auto weight = std::stod( column_substring );
+                const auto weight = string_to_double( column_substring );
                 weight_list.back().push_back( weight );
             }
             idx_column++;
diff --git a/include/util/misc.hpp b/include/util/misc.hpp
index 2f09daa..e4d8a60 100644
--- a/include/util/misc.hpp
+++ b/include/util/misc.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "fmt/format.h"
 #include <fmt/ostream.h>
+#include <cstdlib>
 #include <filesystem>
 #include <fstream>
 #include <stdexcept>
@@ -31,6 +32,20 @@ inline std::string get_file_contents( const std::string & filename )
     throw( std::runtime_error( "Cannot read file." ) );
 }
 
+/*
+Converts a string to a double. Other than std::stod, this accepts subnormal numbers.
+*/
+inline double string_to_double( const std::string & str )
+{
+    char * end       = nullptr;
+    const double res = std::strtod( str.c_str(), &end );
+    if( end == str.c_str() )
+    {
+        throw std::invalid_argument( fmt::format( "Cannot convert '{}' to a number", str ) );
+    }
+    return res;
+}
+
 /*
 Executes `callback` for each substring in a comma separated list.
 If the input is "a_d, b, 1", it would call the callback function like
-- 
2.43.0


From 2977672123d7eee367e1157b8424a6dc01cecedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 11/19] fix: the DeGroot convergence tolerance had no default
 value

---
 include/config_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/config_parser.hpp b/include/config_parser.hpp
index 86f63bb..1af7bd3 100644
--- a/include/config_parser.hpp
+++ b/include/config_parser.hpp
@@ -44,7 +44,7 @@ struct OutputSettings
 struct DeGrootSettings
 {
     std::optional<int> max_iterations = std::nullopt;
-    double convergence_tol;
+    double convergence_tol            = 1e-6;
 };
 
 struct DeffuantSettings
-- 
2.43.0


From ad835709adfb982016786d53c5902e61d62fbda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 12/19] fix: a second run of a converged DeGroot simulation
 performed no iterations

---
 include/models/DeGroot.hpp | 1 +
 src/models/DeGroot.cpp     | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/include/models/DeGroot.hpp b/include/models/DeGroot.hpp
index f6c49ce..5bed6b9 100644
--- a/include/models/DeGroot.hpp
+++ b/include/models/DeGroot.hpp
@@ -17,6 +17,7 @@ public:
 
     DeGrootModel( Config::DeGrootSettings settings, NetworkT & network );
 
+    void initialize_iterations() override;
     void iteration() override;
     bool finished() override;
 
diff --git a/src/models/DeGroot.cpp b/src/models/DeGroot.cpp
index 1373f42..1ace35c 100644
--- a/src/models/DeGroot.cpp
+++ b/src/models/DeGroot.cpp
@@ -27,6 +27,12 @@ DeGrootModel::DeGrootModel( Config::DeGrootSettings settings, NetworkT & network
     }
 }
 
+void DeGrootModel::initialize_iterations()
+{
+    Model<AgentT>::initialize_iterations();
+    max_opinion_diff = std::nullopt; // Forget the convergence of an earlier run
+}
+
 void DeGrootModel::iteration()
 {
     Model<AgentT>::iteration();
-- 
2.43.0


From 4a7fb8dc28e394f2bcd6e2ce42c2e3f58b4e8c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 13/19] fix: weighted reservoir sampling was not proportional
 to small or large weights

---
 include/util/math.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/util/math.hpp b/include/util/math.hpp
index 9e8b62a..f706600 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -75,6 +75,7 @@ void reservoir_sampling_A_ExpJ(
 
     using QueueItemT = std::pair<size_t, double>;
 
+    // The logarithms of the keys are stored, since the keys themselves under- or overflow for small or large weights
     auto compare = []( const QueueItemT & item1, const QueueItemT & item2 ) { return item1.second > item2.second; };
     std::priority_queue<QueueItemT, std::vector<QueueItemT>, decltype( compare )> H;
 
@@ -84,7 +85,7 @@ void reservoir_sampling_A_ExpJ(
         auto w = weight( idx );
         if( w > 0 ) // Indices with zero weight can never be selected
         {
-            double r = std::pow( distribution( mt ), 1.0 / w );
+            double r = std::log( distribution( mt ) ) / w;
             H.push( { idx, r } );
         }
         idx++;
@@ -93,19 +94,19 @@ void reservoir_sampling_A_ExpJ(
     if( H.empty() )
         return;
 
-    auto X = std::log( distribution( mt ) ) / std::log( H.top().second );
+    auto X = std::log( distribution( mt ) ) / H.top().second;
     while( idx < n )
     {
         auto w = weight( idx );
         X -= w;
         if( X <= 0 && w > 0 )
         {
-            auto t                     = std::pow( H.top().second, w );
+            auto t                     = std::exp( H.top().second * w );
             auto uniform_from_t_to_one = distribution( mt ) * ( 1.0 - t ) + t; // Random number in interval [t, 1.0]
-            auto r                     = std::pow( uniform_from_t_to_one, 1.0 / w );
+            auto r                     = std::log( uniform_from_t_to_one ) / w;
             H.pop();
             H.push( { idx, r } );
-            X = std::log( distribution( mt ) ) / std::log( H.top().second );
+            X = std::log( distribution( mt ) ) / H.top().second;
         }
         idx++;
     }
-- 
2.43.0


From 15f5d181b9a7e9b9609eec84b116b6c77d4d90b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:09 +0000
Subject: [PATCH 14/19] fix: Tarjan's algorithm split components reached
 through finished vertices

A vertex whose depth-first search has finished stays on the stack until its
component is complete; edges to it must still lower the low-link value.
---
 include/connectivity.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/connectivity.hpp b/include/connectivity.hpp
index a9d0159..c859878 100644
--- a/include/connectivity.hpp
+++ b/include/connectivity.hpp
@@ -32,7 +32,7 @@ private:
     std::vector<size_t> num;     // holding vertex numbers
     std::vector<size_t> lowest;  // lowest[v] : minimum number of a vertex reachable from v
     std::vector<bool> visited;   // visited so DFS has seen these vertices (not necessarily processed)
-    std::vector<bool> processed; // vertices which have been processed by DFS
+    std::vector<bool> processed; // vertices which have been processed by DFS and belong to a completed SCC
     std::vector<size_t>
         stack; // stack of vertices to keep a working set of vertices. Holds all vertices reachable from the starting vertex
     size_t index_counter; // depth-first search node number counter
@@ -78,9 +78,6 @@ private:
             } // u has been visited
         }
 
-        // Now v has been processed
-        processed[v] = true;
-
         // Handle SCC if found
         if( lowest[v] == num[v] )
         {
@@ -92,12 +89,14 @@ private:
             while( scc_vertex != v )
             {
                 scc.push_back( scc_vertex ); // Add to the SCC
+                processed[scc_vertex] = true;
                 // Pop the stack
                 scc_vertex = stack.back();
                 stack.pop_back();
             } // unravelling stack
             // Add the last vertex
             scc.push_back( scc_vertex );
+            processed[scc_vertex] = true;
             // Now that we have found the SCC, add it
             // to the SCC list
             scc_list.push_back( scc );
-- 
2.43.0


From fbce89c06a594e506b35d4835a24e323a92c3fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:21 +0000
Subject: [PATCH 15/19] fix: power_law_distribution::inverse_cdf left its
 support for small eps

(1 - eps^(1-gamma)) * x + eps^(1-gamma) cancels for x close to one: for
example inverse_cdf(1) was infinite for eps = 1e-6, gamma = 4.
---
 include/util/math.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/util/math.hpp b/include/util/math.hpp
index f706600..87e1df0 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -152,9 +152,8 @@ public:
 
     ScalarT inverse_cdf( ScalarT x )
     {
-        return std::pow(
-            ( 1.0 - std::pow( eps, ( 1.0 - gamma ) ) ) * x + std::pow( eps, ( 1.0 - gamma ) ),
-            ( 1.0 / ( 1.0 - gamma ) ) );
+        // Written such that 0 and 1 are mapped to eps and 1, even if eps^(1-gamma) is large
+        return std::pow( x + ( 1.0 - x ) * std::pow( eps, ( 1.0 - gamma ) ), ( 1.0 / ( 1.0 - gamma ) ) );
     }
 
     ScalarT mean()
-- 
2.43.0


From bde30e669c63335d65545fb3e42a8114de89ef6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:21 +0000
Subject: [PATCH 16/19] fix: truncated_normal_distribution::inverse_cdf could
 be below its bound

For a bound far below the mean and small quantiles the result was minus
infinity.
---
 include/util/math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/util/math.hpp b/include/util/math.hpp
index 87e1df0..edd923b 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -206,7 +206,8 @@ public:
 
     ScalarT inverse_cdf( ScalarT y )
     {
-        return inverse_cdf_gauss( y * ( 1.0 - cdf_gauss( eps ) ) + cdf_gauss( eps ) );
+        // Rounding must not lead below the bound (the inverse of the Gaussian is minus infinity at zero)
+        return std::max<ScalarT>( eps, inverse_cdf_gauss( y * ( 1.0 - cdf_gauss( eps ) ) + cdf_gauss( eps ) ) );
     }
 
     ScalarT pdf( ScalarT x )
-- 
2.43.0


From d28168418deac34369eb78b36b5e1b3f8d6b83f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:48 +0000
Subject: [PATCH 17/19] fix: the search for strongly connected components
 overflowed the call stack

The recursion is as deep as the longest search path. DeGroot simulations
of 100000 agents crashed at construction.
---
 include/connectivity.hpp | 127 ++++++++++++++++++++++++---------------
 1 file changed, 77 insertions(+), 50 deletions(-)

diff --git a/include/connectivity.hpp b/include/connectivity.hpp
index c859878..fe46829 100644
--- a/include/connectivity.hpp
+++ b/include/connectivity.hpp
@@ -1,6 +1,8 @@
 #pragma once
+#include <algorithm>
 #include <cstddef>
 #include <tuple>
+#include <utility>
 #include <vector>
 
 namespace Seldon
@@ -38,69 +40,94 @@ private:
     size_t index_counter; // depth-first search node number counter
 
     // Depth-first search
-    // v: Current vertex
-    void depth_first_search( std::size_t v )
+    // v_start: Vertex to start from
+    // The search keeps its path in a vector and not on the call stack, since paths can be as long as there are vertices
+    void depth_first_search( std::size_t v_start )
     {
         std::vector<size_t> scc;
 
-        // Set things for the current vertex v
-        num[v]    = index_counter;
-        lowest[v] = num[v];
-        index_counter += 1;
-        visited[v] = true;
-        stack.push_back( v );
+        // The vertices on the current path and, for each of them, the position of its next neighbour
+        std::vector<std::pair<size_t, size_t>> path;
 
-        // Loop through neighbours of v
-        // u is the neighbouring vertex
-        for( auto & u : adjacency_list[v] )
+        auto enter_vertex = [&]( size_t v )
         {
-            // Skip for the element itself
-            if( u == v )
-            {
-                continue;
-            }
+            // Set things for the current vertex v
+            num[v]    = index_counter;
+            lowest[v] = num[v];
+            index_counter += 1;
+            visited[v] = true;
+            stack.push_back( v );
+            path.push_back( { v, 0 } );
+        };
 
-            // If u hasn't been visited do a DFS
-            if( !visited[u] )
-            {
-                // recursive call to DFS
-                depth_first_search( u );
-                lowest[v] = std::min( lowest[v], lowest[u] );
-            } // u not visited
-            else
+        enter_vertex( v_start );
+
+        while( !path.empty() )
+        {
+            const auto v = path.back().first;
+
+            // Loop through neighbours of v
+            if( path.back().second < adjacency_list[v].size() )
             {
-                // If u has been processed, then it is a cross-edge and should be ignored.
-                // If u has been visited but not processed:
-                if( !processed[u] )
+                // u is the neighbouring vertex
+                const auto u = adjacency_list[v][path.back().second];
+                path.back().second += 1;
+
+                // Skip for the element itself
+                if( u == v )
                 {
-                    lowest[v] = std::min( lowest[v], num[u] );
-                } // u not processed
-            } // u has been visited
-        }
+                    continue;
+                }
 
-        // Handle SCC if found
-        if( lowest[v] == num[v] )
-        {
-            scc.resize( 0 );
-            size_t scc_vertex = 0;
-            // Pop the stack
-            scc_vertex = stack.back();
-            stack.pop_back();
-            while( scc_vertex != v )
+                // If u hasn't been visited do a DFS
+                if( !visited[u] )
+                {
+                    enter_vertex( u );
+                } // u not visited
+                else
+                {
+                    // If u has been processed, then it is a cross-edge and should be ignored.
+                    // If u has been visited but not processed:
+                    if( !processed[u] )
+                    {
+                        lowest[v] = std::min( lowest[v], num[u] );
+                    } // u not processed
+                } // u has been visited
+                continue;
+            }
+
+            // Handle SCC if found
+            if( lowest[v] == num[v] )
             {
-                scc.push_back( scc_vertex ); // Add to the SCC
-                processed[scc_vertex] = true;
+                scc.resize( 0 );
+                size_t scc_vertex = 0;
                 // Pop the stack
                 scc_vertex = stack.back();
                 stack.pop_back();
-            } // unravelling stack
-            // Add the last vertex
-            scc.push_back( scc_vertex );
-            processed[scc_vertex] = true;
-            // Now that we have found the SCC, add it
-            // to the SCC list
-            scc_list.push_back( scc );
-        } // SCC found
+                while( scc_vertex != v )
+                {
+                    scc.push_back( scc_vertex ); // Add to the SCC
+                    processed[scc_vertex] = true;
+                    // Pop the stack
+                    scc_vertex = stack.back();
+                    stack.pop_back();
+                } // unravelling stack
+                // Add the last vertex
+                scc.push_back( scc_vertex );
+                processed[scc_vertex] = true;
+                // Now that we have found the SCC, add it
+                // to the SCC list
+                scc_list.push_back( scc );
+            } // SCC found
+
+            // Return to the vertex from which v was visited
+            path.pop_back();
+            if( !path.empty() )
+            {
+                const auto parent = path.back().first;
+                lowest[parent]    = std::min( lowest[parent], lowest[v] );
+            }
+        }
     }
 
     // Actually run Tarjan's algorithm
-- 
2.43.0


From afea673ed4df2eaceb7cdc430328d9cfd429cbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:23 +0000
Subject: [PATCH 18/19] fix: a network file with neighbours outside the network
 led to invalid accesses

Rows with fewer weights than neighbours did as well. Both are refused now.
---
 include/network_generation.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/network_generation.hpp b/include/network_generation.hpp
index a140f59..9d3131f 100644
--- a/include/network_generation.hpp
+++ b/include/network_generation.hpp
@@ -2,6 +2,7 @@
 #include "network.hpp"
 #include <cstddef>
 #include <random>
+#include <stdexcept>
 #include <util/math.hpp>
 #include <util/misc.hpp>
 #include <vector>
@@ -235,6 +236,26 @@ Network<AgentType> generate_from_file( const std::string & file )
         }
     }
 
+    // The lists are used without further checks from here on
+    for( size_t idx_agent = 0; idx_agent < neighbour_list.size(); idx_agent++ )
+    {
+        if( neighbour_list[idx_agent].size() != weight_list[idx_agent].size() )
+        {
+            throw std::runtime_error( fmt::format(
+                "Agent {} in {} has {} neighbours, but {} weights!", idx_agent, file, neighbour_list[idx_agent].size(),
+                weight_list[idx_agent].size() ) );
+        }
+        for( const auto & idx_neighbour : neighbour_list[idx_agent] )
+        {
+            if( idx_neighbour >= neighbour_list.size() )
+            {
+                throw std::runtime_error( fmt::format(
+                    "Agent {} in {} has a neighbour that is not one of the {} agents!", idx_agent, file,
+                    neighbour_list.size() ) );
+            }
+        }
+    }
+
     return NetworkT( std::move( neighbour_list ), std::move( weight_list ), NetworkT::EdgeDirection::Incoming );
 }
 
-- 
2.43.0


From 997efd3e91c9e19498bf200c19d29fd8cacf3e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:16 +0000
Subject: [PATCH 19/19] fix: declare the specialisation of
 ActivityDrivenModel's iteration

It is defined in ActivityDrivenModel.cpp, but nothing declared it, so that any
other source file instantiated the empty iteration() of the primary template:
calling iteration() on an ActivityDrivenModel object did nothing wherever the
compiler resolved the call statically.
---
 include/models/ActivityDrivenModel.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/models/ActivityDrivenModel.hpp b/include/models/ActivityDrivenModel.hpp
index 3f4b47d..942bc45 100644
--- a/include/models/ActivityDrivenModel.hpp
+++ b/include/models/ActivityDrivenModel.hpp
@@ -358,4 +358,8 @@ protected:
 
 using ActivityDrivenModel = ActivityDrivenModelAbstract<ActivityAgent>;
 
+// Defined in ActivityDrivenModel.cpp
+template<>
+void ActivityDrivenModelAbstract<ActivityAgent>::iteration();
+
 } // namespace Seldon
\ No newline at end of file
-- 
2.43.0

