From 6614c3db1f0bda2b0583274440178187259d3214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:12 +0000
Subject: [PATCH 01/33] fix: dense output integrate_const interpolates only
 inside completed steps and never steps past the end

---
 .../integrate/detail/integrate_const.hpp      | 44 ++++++-------------
 1 file changed, 14 insertions(+), 30 deletions(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
index 7a86b32..bd4df39 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
@@ -120,44 +120,28 @@ size_t integrate_const(
     int obs_step( 1 );
     int real_step( 0 );
     
-    while( less_eq_with_sign( static_cast<Time>(time+dt) , end_time , dt ) )
+    while( less_eq_with_sign( time , end_time , dt ) )
     {
-        while( less_eq_with_sign( time , st.current_time() , dt ) )
-        {
-            st.calc_state( time , start_state );
-            obs( start_state , time );
-            ++obs_step;
-            // direct computation of the time avoids error propagation happening when using time += dt
-            // we need clumsy type analysis to get boost units working here
-            time = start_time + static_cast< typename unit_value_type<Time>::type >(obs_step) * dt;
-        }
-        // we have not reached the end, do another real step
-        if( less_with_sign( static_cast<Time>(st.current_time()+st.current_time_step()) ,
-                            end_time ,
-                            st.current_time_step() ) )
+        // do real steps until the next observation point is reached
+        while( less_with_sign( st.current_time() , time , dt ) )
         {
-            while( less_eq_with_sign( st.current_time() , time , dt ) )
-            {
-                st.do_step( system );
-                ++real_step;
-            }
-        }
-        else if( less_with_sign( st.current_time() , end_time , st.current_time_step() ) )
-        { // do the last step ending exactly on the end point
-            st.initialize( st.current_state() , st.current_time() , end_time - st.current_time() );
+            // never go beyond the end point
+            if( less_with_sign( end_time ,
+                                static_cast<Time>(st.current_time()+st.current_time_step()) ,
+                                st.current_time_step() ) )
+                st.initialize( st.current_state() , st.current_time() , static_cast<Time>(end_time - st.current_time()) );
             st.do_step( system );
             ++real_step;
         }
-        
-    }
-    // last observation, if we are still in observation interval
-    // might happen due to finite precision problems when computing the the time
-    if( less_eq_with_sign( time , end_time , dt ) )
-    {
+
         st.calc_state( time , start_state );
         obs( start_state , time );
+        ++obs_step;
+        // direct computation of the time avoids error propagation happening when using time += dt
+        // we need clumsy type analysis to get boost units working here
+        time = start_time + static_cast< typename unit_value_type<Time>::type >(obs_step) * dt;
     }
-    
+
     return real_step;
 }
 
-- 
2.43.0


From 38b6f44283d758336ab0635955f4eefa83785c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:12 +0000
Subject: [PATCH 02/33] fix: dense output integrate_n_steps leaves the final
 state and handles backward integration

---
 .../numeric/odeint/integrate/detail/integrate_n_steps.hpp    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
index 2ef490d..509aa03 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
@@ -137,7 +137,7 @@ Time integrate_n_steps(
     }
 
     // make sure we really end exactly where we should end
-    while( st.current_time() < end_time )
+    while( less_with_sign( st.current_time() , end_time , dt ) )
     {
         if( less_with_sign( end_time ,
                             static_cast<Time>(st.current_time()+st.current_time_step()) ,
@@ -149,6 +149,9 @@ Time integrate_n_steps(
     // observation at final point
     obs( st.current_state() , end_time );
 
+    // overwrite start_state with the final point
+    boost::numeric::odeint::copy( st.current_state() , start_state );
+
     return time;
 }
 
-- 
2.43.0


From 04d825df27e33db19e7f12a080ae1d983d8fae36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:30 +0000
Subject: [PATCH 03/33] fix: integrate_times with an empty sequence of times
 does not dereference its end

---
 .../numeric/odeint/integrate/detail/integrate_times.hpp     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
index 2e27990..d7fb09b 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
@@ -54,6 +54,9 @@ size_t integrate_times(
     typedef typename unit_value_type<Time>::type time_type;
 
     size_t steps = 0;
+    if( start_time == end_time )
+        return 0;
+
     Time current_dt = dt;
     while( true )
     {
@@ -86,6 +89,9 @@ size_t integrate_times(
     typename odeint::unwrap_reference< Stepper >::type &st = stepper;
     typedef typename unit_value_type<Time>::type time_type;
 
+    if( start_time == end_time )
+        return 0;
+
     failed_step_checker fail_checker;  // to throw a runtime_error if step size adjustment fails
     size_t steps = 0;
     while( true )
-- 
2.43.0


From 3bcd72cd9a0278e1527148598af5aa3d7b752922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:30 +0000
Subject: [PATCH 04/33] fix: dense output integrate_times with a repeated
 initial time does not interpolate before the first step

---
 .../boost/numeric/odeint/integrate/detail/integrate_times.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
index d7fb09b..a89866b 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
@@ -147,6 +147,10 @@ size_t integrate_times(
     st.initialize( start_state , *start_time , dt );
     obs( start_state , *start_time++ );
 
+    // further observation points at the initial time, no step has been done so far
+    while( ( start_time != end_time ) && less_eq_with_sign( static_cast<time_type>(*start_time) , st.current_time() , st.current_time_step() ) )
+        obs( start_state , *start_time++ );
+
     size_t count = 0;
     while( start_time != end_time )
     {
-- 
2.43.0


From ed9107f7e992cff9d90c5e58a45c266f3e818acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:43 +0000
Subject: [PATCH 05/33] fix: adjust_size of the dense output Runge-Kutta
 steppers sizes the stepper inside

---
 .../boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
index 83982dc..9254fd4 100644
--- a/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
@@ -169,7 +169,7 @@ public:
     void adjust_size( const StateType &x )
     {
         resize_impl( x );
-        m_stepper.stepper().resize( x );
+        m_stepper.adjust_size( x );
     }
 
     /**
@@ -379,7 +379,7 @@ public:
     void adjust_size( const StateType &x )
     {
         resize( x );
-        m_stepper.stepper().resize( x );
+        m_stepper.adjust_size( x );
     }
 
     const state_type& current_state( void ) const
-- 
2.43.0


From 10541db6a4e1319f0f8b51190f112748d1d753c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:15 +0000
Subject: [PATCH 06/33] fix: out-of-place try_step of the controlled FSAL
 stepper calls an existing overload

---
 .../numeric/odeint/stepper/controlled_runge_kutta.hpp     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index be00827..724ca2f 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -682,7 +682,13 @@ public:
         {
             initialize( system , in , t );
         }
-        return try_step( system , in , m_dxdt.m_v , t , out , dt );
+        m_dxdt_new_resizer.adjust_size( in , detail::bind( &controlled_runge_kutta::template resize_m_dxdt_new_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
+        controlled_step_result res = try_step( system , in , m_dxdt.m_v , t , out , m_dxdtnew.m_v , dt );
+        if( res == success )
+        {
+            boost::numeric::odeint::copy( m_dxdtnew.m_v , m_dxdt.m_v );
+        }
+        return res;
     }
 
 
-- 
2.43.0


From f1da016511e673150a2cc6000d1275f4ea539f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:15 +0000
Subject: [PATCH 07/33] fix: controlled FSAL stepper does not reuse its
 derivative after steps with a given derivative

---
 .../numeric/odeint/stepper/controlled_runge_kutta.hpp     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index 724ca2f..630f988 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -688,6 +688,7 @@ public:
         {
             boost::numeric::odeint::copy( m_dxdtnew.m_v , m_dxdt.m_v );
         }
+        m_first_call = false;
         return res;
     }
 
@@ -759,6 +760,9 @@ public:
     controlled_step_result try_step( System system , const StateIn &in , const DerivIn &dxdt_in , time_type &t ,
             StateOut &out , DerivOut &dxdt_out , time_type &dt )
     {
+        // the internally stored derivative does not belong to the step done here
+        m_first_call = true;
+
         unwrapped_step_adjuster &step_adjuster = m_step_adjuster;
         if( !step_adjuster.check_step_size_limit(dt) )
         {
@@ -905,7 +909,9 @@ private:
         {
             initialize( system , x , t );
         }
-        return try_step( system , x , m_dxdt.m_v , t , dt );
+        controlled_step_result res = try_step( system , x , m_dxdt.m_v , t , dt );
+        m_first_call = false;
+        return res;
     }
 
 
-- 
2.43.0


From 53b17962a2b16fd89336f0ad9dea3db521544f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:15 +0000
Subject: [PATCH 08/33] fix: adjust_size of FSAL steppers sizes everything and
 drops a derivative of another size

---
 .../stepper/base/explicit_error_stepper_fsal_base.hpp       | 5 ++++-
 .../boost/numeric/odeint/stepper/controlled_runge_kutta.hpp | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
index b1d751a..003369d 100644
--- a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
+++ b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
@@ -275,7 +275,10 @@ public:
     template< class StateIn >
     void adjust_size( const StateIn &x )
     {
-        resize_impl( x );
+        if( resize_impl( x ) )
+        {
+            m_first_call = true;
+        }
     }
 
     void reset( void )
diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index 630f988..6e1669f 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -848,9 +848,13 @@ public:
     void adjust_size( const StateType &x )
     {
         resize_m_xerr_impl( x );
-        resize_m_dxdt_impl( x );
+        if( resize_m_dxdt_impl( x ) )
+        {
+            m_first_call = true;
+        }
         resize_m_dxdt_new_impl( x );
         resize_m_xnew_impl( x );
+        m_stepper.adjust_size( x );
     }
 
 
-- 
2.43.0


From 1106e57bfeac30bf1afe4dcdf92ce6622fccd940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:15 +0000
Subject: [PATCH 09/33] fix: initialize of FSAL steppers sizes the derivative
 it stores

---
 .../odeint/stepper/base/explicit_error_stepper_fsal_base.hpp    | 2 ++
 include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
index 003369d..e5db297 100644
--- a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
+++ b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
@@ -289,6 +289,7 @@ public:
     template< class DerivIn >
     void initialize( const DerivIn &deriv )
     {
+        m_resizer.adjust_size( deriv , detail::bind( &internal_stepper_base_type::template resize_impl< DerivIn > , detail::ref( *this ) , detail::_1 ) );
         boost::numeric::odeint::copy( deriv , m_dxdt.m_v );
         m_first_call = false;
     }
@@ -296,6 +297,7 @@ public:
     template< class System , class StateIn >
     void initialize( System system , const StateIn &x , time_type t )
     {
+        m_resizer.adjust_size( x , detail::bind( &internal_stepper_base_type::template resize_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
         typename odeint::unwrap_reference< System >::type &sys = system;
         sys( x , m_dxdt.m_v , t );
         m_first_call = false;
diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index 6e1669f..b980823 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -809,6 +809,7 @@ public:
     template< class DerivIn >
     void initialize( const DerivIn &deriv )
     {
+        m_dxdt_resizer.adjust_size( deriv , detail::bind( &controlled_runge_kutta::template resize_m_dxdt_impl< DerivIn > , detail::ref( *this ) , detail::_1 ) );
         boost::numeric::odeint::copy( deriv , m_dxdt.m_v );
         m_first_call = false;
     }
@@ -824,6 +825,7 @@ public:
     template< class System , class StateIn >
     void initialize( System system , const StateIn &x , time_type t )
     {
+        m_dxdt_resizer.adjust_size( x , detail::bind( &controlled_runge_kutta::template resize_m_dxdt_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
         typename odeint::unwrap_reference< System >::type &sys = system;
         sys( x , m_dxdt.m_v , t );
         m_first_call = false;
-- 
2.43.0


From c430aabb9c17a5ba277310346c16aa8bffb54cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:49 +0000
Subject: [PATCH 10/33] fix: extrapolation_stepper reads its input state before
 writing the output and adjust_size sizes everything

---
 .../odeint/stepper/extrapolation_stepper.hpp  | 35 ++++++++-----------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
index 3b688e9..44aad75 100644
--- a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
+++ b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
@@ -175,28 +175,26 @@ class extrapolation_stepper : public explicit_error_stepper_base
         m_resizer.adjust_size(
             in, detail::bind( &stepper_type::template resize_impl< StateIn >,
                               detail::ref( *this ), detail::_1 ) );
+        // out might be the same object as in, hence it is written at last
         size_t k = 0;
         m_midpoint.set_steps( m_interval_sequence[k] );
-        m_midpoint.do_step( system, in, dxdt, t, out, dt );
-        for ( k = 1; k <= m_k_max; ++k )
+        m_midpoint.do_step( system, in, dxdt, t, m_xout.m_v, dt );
+        for ( k = 1; k < m_k_max; ++k )
         {
             m_midpoint.set_steps( m_interval_sequence[k] );
             m_midpoint.do_step( system, in, dxdt, t, m_table[k - 1].m_v, dt );
-            extrapolate( k, m_table, m_coeff, out );
+            extrapolate( k, m_table, m_coeff, m_xout.m_v, m_xout.m_v );
         }
+        m_midpoint.set_steps( m_interval_sequence[k] );
+        m_midpoint.do_step( system, in, dxdt, t, m_table[k - 1].m_v, dt );
+        extrapolate( k, m_table, m_coeff, m_xout.m_v, out );
     }
 
     template < class System, class StateInOut, class DerivIn >
     void do_step_impl_io( System system, StateInOut &inout, const DerivIn &dxdt,
                           time_type t, time_type dt )
     {
-        // special care for inout
-        m_xout_resizer.adjust_size(
-            inout,
-            detail::bind( &stepper_type::template resize_m_xout< StateInOut >,
-                          detail::ref( *this ), detail::_1 ) );
-        do_step_impl( system, inout, dxdt, t, m_xout.m_v, dt );
-        boost::numeric::odeint::copy( m_xout.m_v, inout );
+        do_step_impl( system, inout, dxdt, t, inout, dt );
     }
 
     template < class System, class StateInOut, class DerivIn >
@@ -217,6 +215,7 @@ class extrapolation_stepper : public explicit_error_stepper_base
 
     template < class StateIn > void adjust_size( const StateIn &x )
     {
+        stepper_base_type::adjust_size( x );
         resize_impl( x );
         m_midpoint.adjust_size( x );
     }
@@ -225,21 +224,18 @@ class extrapolation_stepper : public explicit_error_stepper_base
     template < class StateIn > bool resize_impl( const StateIn &x )
     {
         bool resized( false );
+        resized |= adjust_size_by_resizeability(
+            m_xout, x, typename is_resizeable< state_type >::type() );
         for ( size_t i = 0; i < m_k_max; ++i )
             resized |= adjust_size_by_resizeability(
                 m_table[i], x, typename is_resizeable< state_type >::type() );
         return resized;
     }
 
-    template < class StateIn > bool resize_m_xout( const StateIn &x )
-    {
-        return adjust_size_by_resizeability(
-            m_xout, x, typename is_resizeable< state_type >::type() );
-    }
-
-    template < class StateInOut >
+    template < class StateIn, class StateOut >
     void extrapolate( size_t k, state_table_type &table,
-                      const value_matrix &coeff, StateInOut &xest )
+                      const value_matrix &coeff, const StateIn &xest,
+                      StateOut &xout )
     /* polynomial extrapolation, see http://www.nr.com/webnotes/nr3web21.pdf
        uses the obtained intermediate results to extrapolate to dt->0
     */
@@ -255,7 +251,7 @@ class extrapolation_stepper : public explicit_error_stepper_base
                                               -coeff[k][j] ) );
         }
         stepper_base_type::m_algebra.for_each3(
-            xest, table[0].m_v, xest,
+            xout, table[0].m_v, xest,
             typename operations_type::template scale_sum2<
                 value_type, value_type >( val1 + coeff[k][0], -coeff[k][0] ) );
     }
@@ -264,7 +260,6 @@ class extrapolation_stepper : public explicit_error_stepper_base
     midpoint_stepper_type m_midpoint;
 
     resizer_type m_resizer;
-    resizer_type m_xout_resizer;
 
     int_vector m_interval_sequence; // stores the successive interval counts
     value_matrix m_coeff;
-- 
2.43.0


From 213ba03bf1d0b3012997e7054a5cc11721beac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:47 +0000
Subject: [PATCH 11/33] fix: adjust_size of adams_bashforth sizes its starting
 stepper and drops derivatives of another size

---
 include/boost/numeric/odeint/stepper/adams_bashforth.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/adams_bashforth.hpp b/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
index 5ff1e83..89d719a 100644
--- a/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
@@ -176,7 +176,9 @@ public :
     template< class StateType >
     void adjust_size( const StateType &x )
     {
-        resize_impl( x );
+        if( resize_impl( x ) )
+            m_steps_initialized = 0;
+        m_initializing_stepper.adjust_size( x );
     }
 
     const step_storage_type& step_storage( void ) const
-- 
2.43.0


From ac7c2b77fad77d07fc5154d6ee3063984c1b3a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:36 +0000
Subject: [PATCH 12/33] fix: adams_bashforth_moulton starts again after a
 change of the state size

---
 .../odeint/stepper/adams_bashforth_moulton.hpp       | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
index f3edce1..d773c26 100644
--- a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
@@ -139,6 +139,7 @@ public :
     template< class ExplicitStepper , class System , class StateIn >
     void initialize( ExplicitStepper explicit_stepper , System system , StateIn &x , time_type &t , time_type dt )
     {
+        m_resizer.adjust_size( x , detail::bind( &stepper_type::template resize_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
         m_adams_bashforth.initialize( explicit_stepper , system , x , t , dt );
     }
 
@@ -146,6 +147,7 @@ public :
     template< class System , class StateIn >
     void initialize( System system , StateIn &x , time_type &t , time_type dt )
     {
+        m_resizer.adjust_size( x , detail::bind( &stepper_type::template resize_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
         m_adams_bashforth.initialize( system , x , t , dt );
     }
 
@@ -162,9 +164,12 @@ private:
     template< typename System , typename StateInOut >
     void do_step_impl1( System system , StateInOut &x , time_type t , time_type dt )
     {
+        if( m_resizer.adjust_size( x , detail::bind( &stepper_type::template resize_impl< StateInOut > , detail::ref( *this ) , detail::_1 ) ) )
+        {
+            m_adams_bashforth.reset();
+        }
         if( m_adams_bashforth.is_initialized() )
         {
-            m_resizer.adjust_size( x , detail::bind( &stepper_type::template resize_impl< StateInOut > , detail::ref( *this ) , detail::_1 ) );
             m_adams_bashforth.do_step( system , x , t , m_x.m_v , dt );
             m_adams_moulton.do_step( system , x , m_x.m_v , t+dt , x , dt , m_adams_bashforth.step_storage() );
         }
@@ -177,9 +182,12 @@ private:
     template< typename System , typename StateIn , typename StateInOut >
     void do_step_impl2( System system , StateIn const &in , time_type t , StateInOut & out , time_type dt )
     {
+        if( m_resizer.adjust_size( in , detail::bind( &stepper_type::template resize_impl< StateIn > , detail::ref( *this ) , detail::_1 ) ) )
+        {
+            m_adams_bashforth.reset();
+        }
         if( m_adams_bashforth.is_initialized() )
         {
-            m_resizer.adjust_size( in , detail::bind( &stepper_type::template resize_impl< StateInOut > , detail::ref( *this ) , detail::_1 ) );        
             m_adams_bashforth.do_step( system , in , t , m_x.m_v , dt );
             m_adams_moulton.do_step( system , in , m_x.m_v , t+dt , out , dt , m_adams_bashforth.step_storage() );
         }
-- 
2.43.0


From 7246fdf1eaf739dd954309e50f4b9a5729d4cb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:39 +0000
Subject: [PATCH 13/33] fix: FSAL steppers used to start multistep steppers
 leave the given derivative alone

---
 .../stepper/base/explicit_error_stepper_fsal_base.hpp     | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
index e5db297..d55f6f5 100644
--- a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
+++ b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
@@ -157,11 +157,13 @@ public:
      * multistep stepper like adams-bashforth. Hence we provide an explicitely
      * named version that is not disabled. Meant for internal use only.
      */
-    template< class System , class StateInOut , class DerivInOut >
-    void do_step_dxdt_impl( System system , StateInOut &x , DerivInOut &dxdt , time_type t , time_type dt )
+    template< class System , class StateInOut , class DerivIn >
+    void do_step_dxdt_impl( System system , StateInOut &x , const DerivIn &dxdt , time_type t , time_type dt )
     {
+        // dxdt belongs to the history of the multistep stepper and is not changed
+        m_resizer.adjust_size( x , detail::bind( &internal_stepper_base_type::template resize_impl< StateInOut > , detail::ref( *this ) , detail::_1 ) );
         m_first_call = true;
-        this->stepper().do_step_impl( system , x , dxdt , t , x , dxdt , dt );
+        this->stepper().do_step_impl( system , x , dxdt , t , x , m_dxdt.m_v , dt );
     }
 
     /*
-- 
2.43.0


From 640a3674a85bd3eb9e79ade24a7a487d7e503fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:32 +0000
Subject: [PATCH 14/33] fix: copies of adams_moulton and
 adams_bashforth_moulton use their own algebra

---
 .../odeint/stepper/adams_bashforth_moulton.hpp     | 14 ++++++++++++++
 .../boost/numeric/odeint/stepper/adams_moulton.hpp | 10 ++++++++++
 2 files changed, 24 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
index d773c26..78de8ea 100644
--- a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
@@ -94,6 +94,20 @@ public :
     , m_x() , m_resizer()    
     { }
 
+    adams_bashforth_moulton( const adams_bashforth_moulton &stepper )
+    : m_adams_bashforth( stepper.m_adams_bashforth ) , m_adams_moulton( stepper.m_adams_moulton , m_adams_bashforth.algebra() )
+    , m_x( stepper.m_x ) , m_resizer( stepper.m_resizer )
+    { }
+
+    adams_bashforth_moulton& operator=( const adams_bashforth_moulton &stepper )
+    {
+        m_adams_bashforth = stepper.m_adams_bashforth;
+        m_adams_moulton = stepper.m_adams_moulton;
+        m_x = stepper.m_x;
+        m_resizer = stepper.m_resizer;
+        return *this;
+    }
+
     order_type order( void ) const { return order_value; }
 
     template< class System , class StateInOut >
diff --git a/include/boost/numeric/odeint/stepper/adams_moulton.hpp b/include/boost/numeric/odeint/stepper/adams_moulton.hpp
index 05b4277..1a64255 100644
--- a/include/boost/numeric/odeint/stepper/adams_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_moulton.hpp
@@ -97,6 +97,16 @@ public :
       m_algebra_instance() , m_algebra( algebra )
     { }
 
+    adams_moulton( const adams_moulton &stepper )
+    : m_coefficients() , m_dxdt( stepper.m_dxdt ) , m_resizer( stepper.m_resizer ) ,
+      m_algebra_instance( stepper.m_algebra ) , m_algebra( m_algebra_instance )
+    { }
+
+    adams_moulton( const adams_moulton &stepper , algebra_type &algebra )
+    : m_coefficients() , m_dxdt( stepper.m_dxdt ) , m_resizer( stepper.m_resizer ) ,
+      m_algebra_instance() , m_algebra( algebra )
+    { }
+
     adams_moulton& operator=( const adams_moulton &stepper )
     {
         m_dxdt = stepper.m_dxdt;
-- 
2.43.0


From 4c6a2c616ac16fc3b7b65abd50ec6466cd3b3591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:41 +0000
Subject: [PATCH 15/33] fix: adams_moulton advertises the order it has

---
 include/boost/numeric/odeint/stepper/adams_moulton.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/adams_moulton.hpp b/include/boost/numeric/odeint/stepper/adams_moulton.hpp
index 1a64255..1408fa6 100644
--- a/include/boost/numeric/odeint/stepper/adams_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_moulton.hpp
@@ -83,7 +83,7 @@ public :
     static const size_t steps = Steps;
 
     typedef unsigned short order_type;
-    static const order_type order_value = steps + 1;
+    static const order_type order_value = steps;
 
     typedef detail::rotating_buffer< wrapped_deriv_type , steps > step_storage_type;
 
-- 
2.43.0


From 4828896af8cbac699a12b65c9e9ae3d423e2d955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:08 +0000
Subject: [PATCH 16/33] fix: times iterators of an empty sequence of times do
 not read it

---
 .../numeric/odeint/iterator/impl/times_iterator_impl.hpp  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp b/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
index 7a2b48d..9b3cd3c 100644
--- a/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
+++ b/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
@@ -83,7 +83,7 @@ namespace odeint {
          */
         times_iterator_impl( stepper_type stepper , system_type sys , state_type &s ,
                              time_iterator_type t_start , time_iterator_type t_end , time_type dt )
-            : base_type( stepper , sys , *t_start , dt ) ,
+            : base_type( stepper , sys , t_start == t_end ? time_type() : static_cast<time_type>(*t_start) , dt ) ,
               m_t_start( t_start ) , m_t_end( t_end ) , m_state( &s )
         {
             if( t_start == t_end )
@@ -181,7 +181,7 @@ namespace odeint {
          */
         times_iterator_impl( stepper_type stepper , system_type sys , state_type &s ,
                              time_iterator_type t_start , time_iterator_type t_end , time_type dt )
-            : base_type( stepper , sys , *t_start , dt ) ,
+            : base_type( stepper , sys , t_start == t_end ? time_type() : static_cast<time_type>(*t_start) , dt ) ,
               m_t_start( t_start ) , m_t_end( t_end ) , m_state( &s )
         {
             if( t_start == t_end )
@@ -301,8 +301,8 @@ namespace odeint {
          */
         times_iterator_impl( stepper_type stepper , system_type sys , state_type &s ,
                              time_iterator_type t_start , time_iterator_type t_end , time_type dt )
-            : base_type( stepper , sys , *t_start , dt ) ,
-              m_t_start( t_start ) , m_t_end( t_end ) , m_final_time( *(t_end-1) ) ,
+            : base_type( stepper , sys , t_start == t_end ? time_type() : static_cast<time_type>(*t_start) , dt ) ,
+              m_t_start( t_start ) , m_t_end( t_end ) , m_final_time( t_start == t_end ? time_type() : static_cast<time_type>(*(t_end-1)) ) ,
               m_state( &s )
         {
             if( t_start != t_end )
-- 
2.43.0


From bb7767a3391a34ba47e0fb050dc527d0d954f8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:37 +0000
Subject: [PATCH 17/33] fix: dense output times iterator shows the initial
 state at repeated initial times

---
 .../odeint/iterator/impl/times_iterator_impl.hpp       | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp b/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
index 9b3cd3c..bf36003 100644
--- a/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
+++ b/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
@@ -303,7 +303,7 @@ namespace odeint {
                              time_iterator_type t_start , time_iterator_type t_end , time_type dt )
             : base_type( stepper , sys , t_start == t_end ? time_type() : static_cast<time_type>(*t_start) , dt ) ,
               m_t_start( t_start ) , m_t_end( t_end ) , m_final_time( t_start == t_end ? time_type() : static_cast<time_type>(*(t_end-1)) ) ,
-              m_state( &s )
+              m_state( &s ) , m_stepped( false )
         {
             if( t_start != t_end )
             {
@@ -322,7 +322,7 @@ namespace odeint {
          * \param s The initial state.
          */
         times_iterator_impl( stepper_type stepper , system_type sys , state_type &s )
-            : base_type( stepper , sys ) , m_state( &s ) { }
+            : base_type( stepper , sys ) , m_state( &s ) , m_stepped( false ) { }
 
     protected:
 
@@ -342,8 +342,11 @@ namespace odeint {
                         st.initialize( st.current_state() , st.current_time() , m_final_time-st.current_time() );
                     }
                     st.do_step( this->m_system );
+                    m_stepped = true;
                 }
-                st.calc_state( this->m_t , *( this->m_state ) );
+                // times equal to the initial one show the initial state, there is nothing to interpolate
+                if( m_stepped )
+                    st.calc_state( this->m_t , *( this->m_state ) );
             } else {
                 this->m_at_end = true;
             }
@@ -361,6 +364,7 @@ namespace odeint {
         time_iterator_type m_t_end;
         time_type m_final_time;
         state_type* m_state;
+        bool m_stepped;
     };
 
 } // namespace odeint
-- 
2.43.0


From 6ade64ab7f8aeeab21bc60422bfdebbabf50ae68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:11 +0000
Subject: [PATCH 18/33] fix: copying an openmp_state copies every part into its
 counterpart

---
 include/boost/numeric/odeint/external/openmp/openmp_state.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/external/openmp/openmp_state.hpp b/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
index 83bbc19..b8d697e 100644
--- a/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
+++ b/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
@@ -93,7 +93,7 @@ struct copy_impl< openmp_state< T >, openmp_state< T > >
     {
 #       pragma omp parallel for schedule(dynamic)
         for(size_t i = 0 ; i < from.size() ; i++)
-            std::copy( from[i].begin() , from[i].end() , to.begin() );
+            std::copy( from[i].begin() , from[i].end() , to[i].begin() );
     }
 };
 
-- 
2.43.0


From d876e5f2df64ec1134c3f49cfafd737ce1565cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:15 +0000
Subject: [PATCH 19/33] fix: pid_step_adjuster limits the step by magnitude,
 whatever the direction of time

---
 .../numeric/odeint/stepper/detail/pid_step_adjuster.hpp      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp b/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
index 7c0f258..d399c2b 100644
--- a/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
+++ b/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
@@ -157,9 +157,10 @@ public:
         value_type kappa = 1.0;
         ratio = 1.0 + kappa*atan((ratio - 1) / kappa);
 
-        if(ratio*dt >= m_dtmax)
+        if(abs(get_unit_value( ratio*dt )) >= abs(get_unit_value( m_dtmax )))
         {
-            ratio = m_dtmax / dt;
+            // limit the magnitude, whatever the direction of time
+            ratio = abs(get_unit_value( m_dtmax )) / abs(get_unit_value( dt ));
         }
 
         if(ratio >= threshold())
-- 
2.43.0


From 9507579a6e926ca56fb386967aaf4db5dc777b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:15 +0000
Subject: [PATCH 20/33] fix: rosenbrock4_controller::adjust_size also sizes its
 stepper

---
 include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp b/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp
index 5ad1600..b8a1256 100644
--- a/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp
+++ b/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp
@@ -183,6 +183,7 @@ public:
     {
         resize_m_xerr( x );
         resize_m_xnew( x );
+        m_stepper.adjust_size( x );
     }
 
 
-- 
2.43.0


From f3e1c964c64ff3504976891dcd0401587831c372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:15 +0000
Subject: [PATCH 21/33] fix: sign of the rosenbrock4 coefficient d4 (the method
 was of order one for non-autonomous systems)

---
 include/boost/numeric/odeint/stepper/rosenbrock4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/rosenbrock4.hpp b/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
index 8613698..7f475d0 100644
--- a/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
+++ b/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
@@ -63,7 +63,7 @@ struct default_rosenbrock_coefficients
       d1 ( static_cast< value_type >( 0.25 ) ) ,
       d2 ( static_cast< value_type >( -0.1043 ) ) ,
       d3 ( static_cast< value_type >( 0.1035 ) ) ,
-      d4 ( static_cast< value_type >( 0.3620000000000023e-01 ) ) ,
+      d4 ( static_cast< value_type >( -0.3620000000000023e-01 ) ) ,
       c2 ( static_cast< value_type >( 0.386 ) ) ,
       c3 ( static_cast< value_type >( 0.21 ) ) ,
       c4 ( static_cast< value_type >( 0.63 ) ) ,
-- 
2.43.0


From df6c8f8f88c651e6f38c0b399701cf31284715fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:53 +0000
Subject: [PATCH 22/33] fix: implicit_euler factorized its already factorized
 Jacobian again in every Newton iteration

---
 include/boost/numeric/odeint/stepper/implicit_euler.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/implicit_euler.hpp b/include/boost/numeric/odeint/stepper/implicit_euler.hpp
index f301988..1150e90 100644
--- a/include/boost/numeric/odeint/stepper/implicit_euler.hpp
+++ b/include/boost/numeric/odeint/stepper/implicit_euler.hpp
@@ -96,6 +96,7 @@ public:
         m_jacobi.m_v *= dt;
         m_jacobi.m_v -= boost::numeric::ublas::identity_matrix< value_type >( x.size() );
 
+        factorize( m_jacobi.m_v );
         solve( m_b.m_v , m_jacobi.m_v );
 
         m_x.m_v = x - m_b.m_v;
@@ -141,10 +142,15 @@ private:
     }
 
 
-    void solve( state_type &x , matrix_type &m )
+    void factorize( matrix_type &m )
     {
         int res = boost::numeric::ublas::lu_factorize( m , m_pm.m_v );
         if( res != 0 ) exit(0);
+    }
+
+    // m has been factorized before
+    void solve( state_type &x , const matrix_type &m )
+    {
         boost::numeric::ublas::lu_substitute( m , m_pm.m_v , x );
     }
 
-- 
2.43.0


From 97f3ea512d772e697ed49fceb92650cfa9e16cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:16 +0000
Subject: [PATCH 23/33] fix: work estimates of the Bulirsch-Stoer steppers were
 negative for steps backwards in time

---
 include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp        | 3 ++-
 .../boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp
index 02c3749..6ee3c78 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp
@@ -234,7 +234,8 @@ public:
                                      typename operations_type::template scale_sum2< value_type , value_type >( val1 , -val1 ) );
                 const value_type error = m_error_checker.error( m_algebra , in , dxdt , m_err.m_v , dt );
                 h_opt[k] = calc_h_opt( dt , error , k );
-                work[k] = static_cast<value_type>( m_cost[k] ) / h_opt[k];
+                // work per unit of time, whatever the direction of the step
+                work[k] = static_cast<value_type>( m_cost[k] ) / ( get_unit_value( dt ) < 0 ? -h_opt[k] : h_opt[k] );
 
                 if( (k == m_current_k_opt-1) || m_first )
                 { // convergence before k_opt ?
diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
index 22eb373..9786440 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
@@ -198,7 +198,8 @@ public:
                                      typename operations_type::template scale_sum2< value_type , value_type >( val1 , -val1 ) );
                 const value_type error = m_error_checker.error( m_algebra , in , dxdt , m_err.m_v , dt );
                 h_opt[k] = calc_h_opt( dt , error , k );
-                work[k] = static_cast<value_type>( m_cost[k] ) / h_opt[k];
+                // work per unit of time, whatever the direction of the step
+                work[k] = static_cast<value_type>( m_cost[k] ) / ( get_unit_value( dt ) < 0 ? -h_opt[k] : h_opt[k] );
 
                 m_k_final = k;
 
-- 
2.43.0


From 7c9d65adffdeb29700b3ad992828e9e76dba11a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:16 +0000
Subject: [PATCH 24/33] fix: bulirsch_stoer_dense_out did not reduce the step
 after repeated rejections backwards in time

---
 .../boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
index 9786440..6596d0f 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
@@ -292,7 +292,7 @@ public:
             }
         }
         //set next stepsize
-        if( !m_last_step_rejected || (new_h < dt) )
+        if( !m_last_step_rejected || detail::less_with_sign( new_h , dt , dt ) )
         {
             // limit step size
             if( m_max_dt != static_cast<time_type>(0) )
-- 
2.43.0


From 3f4f4df8bc3a97ab8e6226390b72507a50ae4317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:16 +0000
Subject: [PATCH 25/33] fix: bulirsch_stoer_dense_out::reset left the order of
 an earlier integration in place

---
 .../boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
index 6596d0f..72d2d6e 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
@@ -382,6 +382,8 @@ public:
     {
         m_first = true;
         m_last_step_rejected = false;
+        // crude estimate of optimal order, as in the constructor
+        m_current_k_opt = 4;
     }
 
     template< class StateIn >
-- 
2.43.0


From 72a9b8a03e14c89ece1d1521023a8908d98c89dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:26 +0000
Subject: [PATCH 26/33] fix: adaptive Adams-Bashforth-Moulton steppers could
 not take the system by boost::ref

---
 .../stepper/adaptive_adams_bashforth_moulton.hpp | 16 +++++++++++-----
 .../controlled_adams_bashforth_moulton.hpp       |  8 ++++++--
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
index 0d3d0c1..6b358aa 100644
--- a/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
@@ -110,9 +110,11 @@ public:
     template< class System >
     void do_step(System system, const state_type &in, time_type t, state_type &out, time_type dt , state_type &xerr)
     {
+        typename odeint::unwrap_reference< System >::type &sys = system;
+
         do_step_impl(system, in, t, out, dt, xerr);
         
-        system(out, m_dxdt.m_v, t+dt);
+        sys(out, m_dxdt.m_v, t+dt);
         m_coeff.do_step(m_dxdt.m_v);
         m_coeff.confirm();
 
@@ -125,17 +127,19 @@ public:
     template< class ExplicitStepper, class System >
     void initialize(ExplicitStepper stepper, System system, state_type &inOut, time_type &t, time_type dt)
     {
+        typename odeint::unwrap_reference< System >::type &sys = system;
+
         reset();
         dt = dt/static_cast< time_type >(order_value);
 
         m_dxdt_resizer.adjust_size( inOut , detail::bind( &stepper_type::template resize_dxdt_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
 
-        system( inOut , m_dxdt.m_v , t );
+        sys( inOut , m_dxdt.m_v , t );
         for( size_t i=0 ; i<order_value; ++i )
         {
             stepper.do_step_dxdt_impl( system, inOut, m_dxdt.m_v, t, dt );
             
-            system( inOut , m_dxdt.m_v , t + dt);
+            sys( inOut , m_dxdt.m_v , t + dt);
             
             m_coeff.predict(t, dt);
             m_coeff.do_step(m_dxdt.m_v);
@@ -166,6 +170,8 @@ public:
     template< class System >
     void do_step_impl(System system, const state_type & in, time_type t, state_type & out, time_type &dt, state_type &xerr)
     {
+        typename odeint::unwrap_reference< System >::type &sys = system;
+
         size_t eO = m_coeff.m_eo;
 
         m_xerr_resizer.adjust_size( in , detail::bind( &stepper_type::template resize_xerr_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
@@ -174,7 +180,7 @@ public:
         m_coeff.predict(t, dt);
         if (m_coeff.m_steps_init == 1)
         {
-            system(in, m_dxdt.m_v, t);
+            sys(in, m_dxdt.m_v, t);
             m_coeff.do_step(m_dxdt.m_v, 1);
         }
 
@@ -185,7 +191,7 @@ public:
                 typename Operations::template scale_sum2<double, double>(1.0, dt*m_coeff.g[i]*m_coeff.beta[0][i]));
         }
 
-        system(out, m_dxdt.m_v, t+dt);
+        sys(out, m_dxdt.m_v, t+dt);
         m_coeff.do_step(m_dxdt.m_v);
 
         this->m_algebra.for_each3(out, out, m_coeff.phi[0][eO].m_v,
diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index 85ee4d0..f23ba08 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -175,6 +175,8 @@ public:
     template< class ExplicitStepper, class System >
     void initialize_controlled(ExplicitStepper stepper, System system, state_type &inOut, time_type &t, time_type &dt)
     {
+        typename odeint::unwrap_reference< System >::type &sys = system;
+
         reset();
         coeff_type &coeff = m_stepper.coeff();
 
@@ -190,7 +192,7 @@ public:
             }
             while(res != success);
 
-            system( inOut , m_dxdt.m_v , t );
+            sys( inOut , m_dxdt.m_v , t );
             
             coeff.predict(t-dt, dt);
             coeff.do_step(m_dxdt.m_v);
@@ -221,6 +223,8 @@ public:
     template< class System >
     controlled_step_result try_step(System system, const state_type & in, time_type &t, state_type & out, time_type &dt)
     {
+        typename odeint::unwrap_reference< System >::type &sys = system;
+
         m_xerr_resizer.adjust_size( in , detail::bind( &controlled_stepper_type::template resize_xerr_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
         m_dxdt_resizer.adjust_size( in , detail::bind( &controlled_stepper_type::template resize_dxdt_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
 
@@ -233,7 +237,7 @@ public:
 
         if(dt / dtPrev >= step_adjuster_type::threshold())
         {
-            system(out, m_dxdt.m_v, t+dtPrev);
+            sys(out, m_dxdt.m_v, t+dtPrev);
 
             coeff.do_step(m_dxdt.m_v);
             coeff.confirm();
-- 
2.43.0


From c3bbcdc2696cf27b4e36cd5dbd08a4d3cac68b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:26 +0000
Subject: [PATCH 27/33] fix: initialize_controlled stored the history at times
 shifted by the proposed next step

---
 .../odeint/stepper/controlled_adams_bashforth_moulton.hpp      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index f23ba08..e578c3d 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -186,6 +186,7 @@ public:
 
         for( size_t i=0 ; i<order_value; ++i )
         {
+            const time_type t_start = t; // dt is changed by a successful attempt
             do
             {
                 res = stepper.try_step( system, inOut, t, dt );
@@ -194,7 +195,7 @@ public:
 
             sys( inOut , m_dxdt.m_v , t );
             
-            coeff.predict(t-dt, dt);
+            coeff.predict(t_start, t-t_start);
             coeff.do_step(m_dxdt.m_v);
             coeff.confirm();
 
-- 
2.43.0


From 674852bc438bad8d76d8b3e810d186f7cef2e25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:05 +0000
Subject: [PATCH 28/33] fix: make_controlled rounded the maximum step to the
 value type of the state

---
 .../stepper/generation/generation_controlled_runge_kutta.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp
index bad2bed..6c2c65c 100644
--- a/include/boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp
@@ -36,7 +36,7 @@ struct controller_factory< Stepper , controlled_runge_kutta< Stepper > >
     typedef typename controller_type::error_checker_type error_checker_type;
     typedef typename controller_type::step_adjuster_type step_adjuster_type;
     typedef typename stepper_type::value_type value_type;
-    typedef typename stepper_type::value_type time_type;
+    typedef typename stepper_type::time_type time_type;
 
     controller_type operator()( value_type abs_error , value_type rel_error , const stepper_type &stepper )
     {
-- 
2.43.0


From 6e05bc30e05b0cc9216b730f1b899d9fb4b81865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:13 +0000
Subject: [PATCH 29/33] fix: make_controlled dropped the given adaptive
 Adams-Bashforth-Moulton stepper

---
 .../odeint/stepper/controlled_adams_bashforth_moulton.hpp   | 5 +++--
 .../generation_controlled_adams_bashforth_moulton.hpp       | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index e578c3d..d92ae9d 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -154,8 +154,9 @@ public:
     typedef typename stepper_type::coeff_type coeff_type;
     typedef controlled_adams_bashforth_moulton< ErrorStepper , StepAdjuster , OrderAdjuster , Resizer > controlled_stepper_type;
 
-    controlled_adams_bashforth_moulton(step_adjuster_type step_adjuster = step_adjuster_type())
-    :m_stepper(),
+    controlled_adams_bashforth_moulton(step_adjuster_type step_adjuster = step_adjuster_type(),
+                                       const stepper_type &stepper = stepper_type())
+    :m_stepper(stepper),
     m_dxdt_resizer(), m_xerr_resizer(), m_xnew_resizer(),
     m_step_adjuster( step_adjuster ), m_order_adjuster()
     {};
diff --git a/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp
index ca95a1f..735428b 100644
--- a/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp
@@ -38,17 +38,17 @@ struct controller_factory< Stepper , controlled_adams_bashforth_moulton< Stepper
     typedef controlled_adams_bashforth_moulton< stepper_type > controller_type;
     typedef typename controller_type::step_adjuster_type step_adjuster_type;
     typedef typename stepper_type::value_type value_type;
-    typedef typename stepper_type::value_type time_type;
+    typedef typename stepper_type::time_type time_type;
 
     controller_type operator()( value_type abs_error , value_type rel_error , const stepper_type &stepper )
     {
-        return controller_type(step_adjuster_type(abs_error, rel_error));
+        return controller_type(step_adjuster_type(abs_error, rel_error), stepper);
     }
 
     controller_type operator()( value_type abs_error , value_type rel_error ,
                                 time_type max_dt, const stepper_type &stepper )
     {
-        return controller_type( step_adjuster_type(abs_error, rel_error, max_dt));
+        return controller_type( step_adjuster_type(abs_error, rel_error, max_dt), stepper);
     }
 };
 
-- 
2.43.0


From 94986a232ef2f95b317e47dc8d40edca2f05dad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:26 +0000
Subject: [PATCH 30/33] fix: steppers with a multi_array state could not be
 assigned

---
 .../odeint/util/multi_array_adaption.hpp      | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/util/multi_array_adaption.hpp b/include/boost/numeric/odeint/util/multi_array_adaption.hpp
index e2c0a48..b85b915 100644
--- a/include/boost/numeric/odeint/util/multi_array_adaption.hpp
+++ b/include/boost/numeric/odeint/util/multi_array_adaption.hpp
@@ -23,9 +23,11 @@
 #include <boost/numeric/odeint/util/is_resizeable.hpp>
 #include <boost/numeric/odeint/util/resize.hpp>
 #include <boost/numeric/odeint/util/same_size.hpp>
+#include <boost/numeric/odeint/util/state_wrapper.hpp>
 
 #include <boost/mpl/and.hpp>
 #include <boost/mpl/bool.hpp>
+#include <boost/utility/enable_if.hpp>
 #include <boost/multi_array.hpp>
 
 
@@ -119,7 +121,29 @@ struct resize_impl_sfinae< T1 , T2 ,
         x1.reindex( origins );
     }
 };
-                            
+
+
+// the assignment of multi_arrays requires arrays of equal shape
+template< class V >
+struct state_wrapper< V , typename boost::enable_if< typename is_resizeable_multi_array< V >::type >::type >
+{
+    typedef state_wrapper< V > state_wrapper_type;
+
+    V m_v;
+
+    state_wrapper( void ) : m_v() { }
+
+    state_wrapper( const state_wrapper &x ) : m_v( x.m_v ) { }
+
+    state_wrapper& operator=( const state_wrapper &x )
+    {
+        if( !boost::numeric::odeint::same_size( m_v , x.m_v ) )
+            boost::numeric::odeint::resize( m_v , x.m_v );
+        m_v = x.m_v;
+        return *this;
+    }
+};
+
 
 
 } // namespace odeint
-- 
2.43.0


From c853f4fcb02abedecc574e6e0fe8a7fd54231f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:41 +0000
Subject: [PATCH 31/33] fix: controlled_adams_bashforth_moulton chose its order
 from an uninitialised or old error estimate when there was none for the next
 order

---
 .../odeint/stepper/controlled_adams_bashforth_moulton.hpp   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index d92ae9d..465087e 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -270,6 +270,12 @@ public:
                 m_algebra.for_each2(m_xerr[3].m_v, coeff.phi[1][eo+1].m_v, 
                     typename operations_type::template scale_sum1<double>(factor*dt*(coeff.gs[eo+1])));
             }
+            else
+            {
+                // no estimate for the next order, do not decide on an old one
+                m_algebra.for_each2(m_xerr[3].m_v, coeff.phi[1][eo].m_v, 
+                    typename operations_type::template scale_sum1<double>(0.0));
+            }
 
             // adjust order
             coeff.m_eo = m_order_adjuster.adjust_order(coeff.m_eo, coeff.m_steps_init-1, m_xerr);
-- 
2.43.0


From 8fe6326de19db8ba2f4a13f0fc76bc6229d83357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:41 +0000
Subject: [PATCH 32/33] fix: the maximum norm of a ublas matrix state was its
 largest row sum

---
 include/boost/numeric/odeint/util/ublas_wrapper.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/util/ublas_wrapper.hpp b/include/boost/numeric/odeint/util/ublas_wrapper.hpp
index c8facfc..82fc6d9 100644
--- a/include/boost/numeric/odeint/util/ublas_wrapper.hpp
+++ b/include/boost/numeric/odeint/util/ublas_wrapper.hpp
@@ -27,6 +27,7 @@
 #include <boost/numeric/ublas/matrix_expression.hpp>
 
 #include <boost/numeric/odeint/algebra/vector_space_algebra.hpp>
+#include <boost/numeric/odeint/algebra/detail/norm_inf.hpp>
 #include <boost/numeric/odeint/algebra/default_operations.hpp>
 
 #include <boost/numeric/odeint/util/is_resizeable.hpp>
@@ -57,7 +58,8 @@ namespace boost { namespace numeric { namespace odeint {
 
         result_type operator()( const boost::numeric::ublas::matrix<T,L,A> &x ) const
         {
-            return boost::numeric::ublas::norm_inf( x );
+            // the largest element, not the largest row sum
+            return detail::norm_inf( x.data().begin() , x.data().end() , static_cast< result_type >( 0 ) );
         }
     };
 } } }
-- 
2.43.0


From 417f3216bfe432bf5f457cafda0a106a0bde5a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:41 +0000
Subject: [PATCH 33/33] fix: pid_step_adjuster assigned errors without resizing
 (assertion for multi_array states)

---
 .../odeint/stepper/detail/pid_step_adjuster.hpp    | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp b/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
index d399c2b..27ab7a6 100644
--- a/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
+++ b/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
@@ -21,6 +21,11 @@
 #include <boost/numeric/odeint/algebra/algebra_dispatcher.hpp>
 #include <boost/numeric/odeint/algebra/operations_dispatcher.hpp>
 
+#include <boost/numeric/odeint/util/state_wrapper.hpp>
+#include <boost/numeric/odeint/util/is_resizeable.hpp>
+#include <boost/numeric/odeint/util/resizer.hpp>
+#include <boost/numeric/odeint/util/copy.hpp>
+
 #include <math.h>
 
 namespace boost {
@@ -122,7 +127,7 @@ public:
     typedef Algebra algebra_type;
     typedef Operations operations_type;
 
-    typedef rotating_buffer<state_type, 3> error_storage_type;
+    typedef rotating_buffer<state_wrapper<state_type>, 3> error_storage_type;
     typedef rotating_buffer<time_type, 3> time_storage_type;
     typedef pid_step_adjuster_coefficients<Type> coeff_type;
 
@@ -137,18 +142,19 @@ public:
         m_algebra.for_each3( err , x , dxdt ,
                 typename operations_type::template rel_error< value_type >( m_abs_tol , m_rel_tol , 1.0 , 1.0 * abs(get_unit_value( dt )) ) );
 
-        m_error_storage[0] = err;
+        adjust_size_by_resizeability( m_error_storage[0] , err , typename is_resizeable< state_type >::type() );
+        boost::numeric::odeint::copy( err , m_error_storage[0].m_v );
         m_dt_storage[0] = dt;
 
         if(m_init >= 2)
         {
-            m_algebra.for_each4(err, m_error_storage[0], m_error_storage[1], m_error_storage[2],
+            m_algebra.for_each4(err, m_error_storage[0].m_v, m_error_storage[1].m_v, m_error_storage[2].m_v,
                 pid_op<>(steps, m_dt_storage[0], m_dt_storage[1], m_dt_storage[2],
                     m_coeff[0], m_coeff[1], m_coeff[2], m_coeff[3], m_coeff[4]));
         }
         else
         {
-            m_algebra.for_each2(err, m_error_storage[0],
+            m_algebra.for_each2(err, m_error_storage[0].m_v,
                 pid_op<>(steps, m_dt_storage[0], m_dt_storage[1], m_dt_storage[2], 0.7));
         }
 
-- 
2.43.0

