From 850241654d1684b2ea9ad7737a43747c1d712956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:12 +0000
Subject: [PATCH 01/67] fix: Jacobian of the Ward and Beckmann lobes with
 respect to the roughness

---
 sources/plugins/nonlinear_function_beckmann/function.cpp      | 2 +-
 sources/plugins/nonlinear_function_retrobeckmann/function.cpp | 2 +-
 sources/plugins/nonlinear_function_ward/function.cpp          | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/plugins/nonlinear_function_beckmann/function.cpp b/sources/plugins/nonlinear_function_beckmann/function.cpp
index 0851ea8..0fe264c 100644
--- a/sources/plugins/nonlinear_function_beckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_beckmann/function.cpp
@@ -163,7 +163,7 @@ vec beckmann_function::parametersJacobian(const vec& x) const
 				 jac[i*nbParameters() + j*2+0] = /*g[i] */ expo / fac;
 
 				 // df / da_x
-				 jac[i*nbParameters() + j*2+1] = -/* g[i] */ _ks[i] * (expo/(4.0/*x[2]*x[5]*/)) * ((2* a * h[2])/(M_PI*a2*a2*dh2)) * (1 + (dh2 - 1.0)*h[2]/(a2*dh2*h[2]));
+				 jac[i*nbParameters() + j*2+1] = -/* g[i] */ _ks[i] * (expo/(4.0/*x[2]*x[5]*/)) * ((2.0 * a)/(M_PI*a2*a2*dh2*dh2)) * (1.0 + (dh2 - 1.0)/(a2*dh2));
 			 }
 			 else
 			 {
diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index 3498d86..aeb1dab 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -152,7 +152,7 @@ vec beckmann_function::parametersJacobian(const vec& x) const
 				 jac[i*nbParameters() + j*2+0] = expo / fac;
 
 				 // df / da_x
-				 jac[i*nbParameters() + j*2+1] = - _ks[i] * (expo/(4.0/*x[2]*x[5]*/)) * ((2* a * dot)/(M_PI*a2*a2*dh2)) * (1 + (dh2 - 1.0)*dot/(a2*dh2*dot));
+				 jac[i*nbParameters() + j*2+1] = - _ks[i] * (expo/(4.0/*x[2]*x[5]*/)) * ((2.0 * a)/(M_PI*a2*a2*dh2*dh2)) * (1.0 + (dh2 - 1.0)/(a2*dh2));
 			 }
 			 else
 			 {
diff --git a/sources/plugins/nonlinear_function_ward/function.cpp b/sources/plugins/nonlinear_function_ward/function.cpp
index 7fe5e1c..5e0ad9b 100644
--- a/sources/plugins/nonlinear_function_ward/function.cpp
+++ b/sources/plugins/nonlinear_function_ward/function.cpp
@@ -143,10 +143,10 @@ vec ward_function::parametersJacobian(const vec& x) const
 				 jac[i*nbParameters() + j*3+0] = fact * gauss;
 
 				 // df / da_x
-                 jac[i*nbParameters() + j*3+1] = _ks[i] * fact * (1.0/ax) * (((2.0*h[0]*hx_ax) / h[2]) * gauss - 1);
+                 jac[i*nbParameters() + j*3+1] = _ks[i] * fact * gauss * (1.0/ax) * ((2.0*hx_ax*hx_ax) / (h[2]*h[2]) - 1.0);
 
 				 // df / da_y
-                 jac[i*nbParameters() + j*3+2] = _ks[i] * fact * (1.0/ay) * (((2.0*h[1]*hy_ay) / h[2]) * gauss - 1);
+                 jac[i*nbParameters() + j*3+2] = _ks[i] * fact * gauss * (1.0/ay) * ((2.0*hy_ay*hy_ay) / (h[2]*h[2]) - 1.0);
 			 }
 			 else
 			 {
-- 
2.43.0


From 3748fc482c4f2871872e5bc9727a6dee130df18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:09 +0000
Subject: [PATCH 02/67] fix: the Jacobian of the ABC lobe is zero where its
 value is

---
 sources/plugins/nonlinear_function_abc/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_abc/function.cpp b/sources/plugins/nonlinear_function_abc/function.cpp
index 62d4dce..81d5be4 100644
--- a/sources/plugins/nonlinear_function_abc/function.cpp
+++ b/sources/plugins/nonlinear_function_abc/function.cpp
@@ -107,9 +107,9 @@ vec abc_function::parametersJacobian(const vec& x) const
 	 {
 		 for(int j=0; j<_parameters.dimY(); ++j)
 		 {
-			 if(i == j)
+			 const double hn = 1.0 - x[0];
+			 if(i == j && hn >= 0.0 && hn <= 1.0)
 			 {
-				 const double hn = 1.0 - x[0];
 				 const double f  = 1.0 + _b[i]*hn;
 				 const double denom = pow(f, _c[i]);
 				 const double fact  = 1.0 / denom;
-- 
2.43.0


From d6dca43e9c491aa495e54df942f630ab4aa321f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:09 +0000
Subject: [PATCH 03/67] fix: the Jacobian of the retro-Blinn lobe is zero where
 its value is

---
 sources/plugins/nonlinear_function_retroblinn/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retroblinn/function.cpp b/sources/plugins/nonlinear_function_retroblinn/function.cpp
index b140bec..05d4d3e 100644
--- a/sources/plugins/nonlinear_function_retroblinn/function.cpp
+++ b/sources/plugins/nonlinear_function_retroblinn/function.cpp
@@ -138,7 +138,7 @@ vec retroblinn_function::parametersJacobian(const vec& x) const
 			if(i == j)
 			{
 				// df / dk_s
-				jac[i*nbParameters() + j*2+0] = std::pow(x[0], _N[j]);
+				jac[i*nbParameters() + j*2+0] = (x[0] >= 0.0) ? std::pow(x[0], _N[j]) : 0.0;
 
 				// df / dN
                 if(x[0] <= 0.0)
-- 
2.43.0


From 7ee23ce6c095c53df5c3b3c3e7354c902610f675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:09 +0000
Subject: [PATCH 04/67] fix: value, parameter vector and Jacobian of the
 retro-Yoo lobe

---
 .../plugins/nonlinear_function_retroyoo/function.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index 8236e32..624ad69 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -49,7 +49,7 @@ vec yoo_function::value(const vec& x) const
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
 		const double q = 2.0 * M_PI * x[0] / 633.0;
-		res[i] *= _kr[i] * factor * (2.4 + 1.0 / (1.0 + q*_lt[i]*_lt[i])) * (1.0 + (1.0 - exp(- 2.0 * q * 0.7 * _lt[i]) / (q*_lt[i])));
+		res[i] = _kr[i] * factor * (2.4 + 1.0 / (1.0 + q*_lt[i]*_lt[i])) * (1.0 + (1.0 - exp(- 2.0 * q * 0.7 * _lt[i]) / (q*_lt[i])));
 	}
 	return res;
 }
@@ -63,7 +63,7 @@ int yoo_function::nbParameters() const
 //! Get the vector of parameters for the function
 vec yoo_function::parameters() const 
 {
-	vec res(3*_parameters.dimY());
+	vec res(2*_parameters.dimY());
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
 		res[i*2 + 0] = _kr[i];
@@ -115,8 +115,12 @@ vec yoo_function::parametersJacobian(const vec& x) const
 				jac[i*nbParameters() + j*2+0] = base;
 
 				// df / dl_t
-				// \todo
-				jac[i*nbParameters() + j*2+1] = _kr[i] * base;
+				const double lt   = _lt[i];
+				const double den  = 1.0 + q*lt*lt;
+				const double expo = exp(- 2.0 * q * 0.7 * lt);
+				const double da   = - 2.0*q*lt / (den*den);
+				const double db   = expo * (2.0*0.7 + 1.0/(q*lt)) / lt;
+				jac[i*nbParameters() + j*2+1] = _kr[i] * factor * (da * (2.0 - expo/(q*lt)) + (2.4 + 1.0/den) * db);
 			}
 			else
 			{
-- 
2.43.0


From 779346284ba6e650f78e6ea9b7be6bffeba4a5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:09 +0000
Subject: [PATCH 05/67] fix: allocate the parameters of the normalized Schlick
 term and correct its Jacobian

---
 .../plugins/nonlinear_fresnel_normalized_schlick/function.cpp  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
index 1adffad..0ed36d5 100644
--- a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
@@ -29,6 +29,7 @@ ALTA_DLL_EXPORT function* provide_function(const parameters& params)
 schlick::schlick(const alta::parameters& params):
     nonlinear_function(params.set_input(6, params::CARTESIAN))
 {
+    R.resize(_parameters.dimY());
 }
 
 //! Load function specific files
@@ -190,7 +191,7 @@ vec schlick::parametersJacobian(const vec& x) const
         for(int j=0; j<nY; ++j)
         {
             if(i == j) {
-                jac[j*_parameters.dimY() + i] = - (1.0/R[i]) * pow(1.0 - clamp(dotVH, 0.0, 1.0), 5.0);
+                jac[j*_parameters.dimY() + i] = - (1.0/(R[i]*R[i])) * pow(1.0 - clamp(dotVH, 0.0, 1.0), 5.0);
             } else {
                 jac[j*_parameters.dimY() + i] = 0.0;
             }
-- 
2.43.0


From 72ae0fdbd5cf5269b352866f8097cb23b50470b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 06/67] fix: functions without free parameters return empty
 parameter vectors and Jacobians

---
 sources/core/function.h                                 | 4 ++--
 sources/plugins/nonlinear_function_diffuse/function.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/core/function.h b/sources/core/function.h
index 0cccc4c..f9c8291 100644
--- a/sources/core/function.h
+++ b/sources/core/function.h
@@ -427,7 +427,7 @@ class cosine_function : public nonlinear_function
 		//! Get the vector of parameters for the function
 		vec parameters() const 
 		{
-			vec res(1);
+			vec res(0);
 			return res;
 		}
 
@@ -440,7 +440,7 @@ class cosine_function : public nonlinear_function
 		//! parameters. 
 		vec parametersJacobian(const vec&) const 
 		{
-			vec jac(1);
+			vec jac(0);
 			return jac;
 		}
 };
diff --git a/sources/plugins/nonlinear_function_diffuse/function.cpp b/sources/plugins/nonlinear_function_diffuse/function.cpp
index 1431c44..930126e 100644
--- a/sources/plugins/nonlinear_function_diffuse/function.cpp
+++ b/sources/plugins/nonlinear_function_diffuse/function.cpp
@@ -135,7 +135,7 @@ vec diffuse_function::parameters() const
         res[i*3 + 0] = _kd[i];
     }
 #else
-    vec res(1);
+    vec res(0);
 #endif
     return res;
 }
@@ -172,7 +172,7 @@ vec diffuse_function::parametersJacobian(const vec& x) const
 			}
 		}
 #else
-	vec jac(1);
+	vec jac(0);
 #endif
 
     return jac;
-- 
2.43.0


From 1b8af64166b2c8ecec440df5ff1f95fa14fee210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 07/67] fix: initialise the Lafortune lobe and load the
 exponent of every lobe

---
 sources/plugins/nonlinear_function_lafortune/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index d5a8033..858a8a3 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -29,7 +29,7 @@ ALTA_DLL_EXPORT function* provide_function(const alta::parameters& params)
 }
 
 lafortune_function::lafortune_function(const alta::parameters& params) :
-    nonlinear_function(params)
+    nonlinear_function(params), _n(1), _isotropic(false)
 {
     auto nY = params.dimY();
 
@@ -416,7 +416,7 @@ bool lafortune_function::load(std::istream& in)
 			in >> token >> _C[(n*_nY + i)*3 + 0];
             in >> token >> _C[(n*_nY + i)*3 + 1];
 			in >> token >> _C[(n*_nY + i)*3 + 2];
-			in >> token >> _N[i];
+			in >> token >> _N[n*_nY + i];
 		}
 
 	}
-- 
2.43.0


From d0e796c48eb1d78e219ac6ecc5a165841e67aa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 08/67] fix: Jacobian of the Smith shadowing term

---
 sources/plugins/nonlinear_shadowing_smith/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_shadowing_smith/function.cpp b/sources/plugins/nonlinear_shadowing_smith/function.cpp
index 6877bb1..cb0c666 100644
--- a/sources/plugins/nonlinear_shadowing_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_smith/function.cpp
@@ -234,7 +234,7 @@ vec smith::parametersJacobian(const vec& x) const
 				  const double mu = x[5] / sqrt(x[3]*x[3] + x[4]*x[4]);
 				  const double r = mu / w[i];
 
-				  jac[j*_parameters.dimY() + i] = (-1.0 / pow(1.0 + v[i], 2)) * exp(-0.5 * r*r) * (r*r*r/w[i] - 2.0*r/w[i]) / sqrt(2.0 * M_PI) ;
+				  jac[j*_parameters.dimY() + i] = - v[i]*v[i] * exp(-0.5 * r*r) / (sqrt(2.0 * M_PI) * r * w[i]) ;
 			  }
 			  else 
 			  {
-- 
2.43.0


From d82ed1f4d8875edc01a1cf6b65287c43f44c5519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 09/67] fix: constant of the Walter-Smith shadowing term and
 its derivative where the term saturates

---
 .../function.cpp                              |  4 ++--
 .../function.hpp                              | 24 ++++++++++++-------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
index 6916c43..ba909e9 100644
--- a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
@@ -136,7 +136,7 @@ WalterSmith::save_body(std::ostream& out, const arguments& args) const
         << "\t } else { "  << std::endl
         << "\t\t " << std::endl
         << "\t\t float num   = (3.535 + 2.181*a)*a;"  << std::endl
-        << "\t\t float denom = (2.267 + 2.577*a)*a + 1.0;" << std::endl
+        << "\t\t float denom = (2.276 + 2.577*a)*a + 1.0;" << std::endl
         << "\t\t return num/denom;" << std::endl
         << "\t }"
         << "}" << std::endl << std::endl;
@@ -325,7 +325,7 @@ double  WalterSmith::shadowTerm( double a ) const
     else
     {
       double const num   = (3.535 + 2.181*a)*a;
-      double const denom = (2.267 + 2.577*a)*a + 1.0;
+      double const denom = (2.276 + 2.577*a)*a + 1.0;
 
       return num / denom;
     }
diff --git a/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp b/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp
index 600e043..067c6f4 100644
--- a/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp
+++ b/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp
@@ -127,7 +127,7 @@ class WalterSmith : public nonlinear_function
      * @param  tan_value The tangent value which either tan( theta_view) or tan(theta_light)
      * @return       the value of the partial derivate 
      */
-    float partialDerivative( float alpha, float tangent_value) const;
+    double partialDerivative( double alpha, double tangent_value) const;
 
   private: // parameters
   vec _alpha; /*!< The roughness parameter. One parameter per output dimension */
@@ -217,16 +217,22 @@ WalterSmith::partialShadowingTerm(vec const & x,
  
 
 inline 
-float
-WalterSmith::partialDerivative( float alpha, float tangent_value) const
+double
+WalterSmith::partialDerivative( double alpha, double tangent_value) const
 {
+  // The shadowing term is constant where its argument is 1.6 or more
+  if( 1.0 / (alpha * tangent_value) >= 1.6 )
+  {
+    return 0.0;
+  }
+
   //Exported from Maple 
-  float const t1 = tangent_value;
-  float const t2 = alpha * t1;
-  float const t4 = alpha * alpha;
-  float const t5 = t1 * t1;
-  float const t6 = t4 * t5;
-  float t13 = 0.1000e4 * t6 + 0.2276e4 * t2 + 0.2577e4;
+  double const t1 = tangent_value;
+  double const t2 = alpha * t1;
+  double const t4 = alpha * alpha;
+  double const t5 = t1 * t1;
+  double const t6 = t4 * t5;
+  double t13 = 0.1000e4 * t6 + 0.2276e4 * t2 + 0.2577e4;
   t13 *= t13;
   return  -0.1e1 * t1 * (0.4362000e7 * t2 - 0.4145739e7 + 0.3535000e7 * t6) / t13;
 }
-- 
2.43.0


From e63e43d562efdf31619d38b8bdf9ae10c6078799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 10/67] fix: derivative of the moment spherical Gaussian with
 respect to its anisotropy

---
 .../nonlinear_function_spherical_gaussian/function.cpp     | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index f486e3d..3e375ed 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -208,12 +208,13 @@ vec spherical_gaussian_function::parametersJacobian(const vec& x) const
 			 // df / da
 			 double spherical[4];
 			 params::convert(&x[0], params::CARTESIAN, params::SPHERICAL_TL_PL_TV_PV, &spherical[0]);
-			 spherical[1] += 0.5* M_PI;
+			 const double phi = spherical[1];
+			 spherical[1] = _a*phi + 1.5* M_PI;
 
 			 double cart[6];
 			 params::convert(&spherical[0], params::SPHERICAL_TL_PL_TV_PV, params::CARTESIAN, &cart[0]);
-			 double dot2 = cart[0]*cart[3] + cart[1]*cart[4] + cart[2]*cart[5];
-			 jac[i*nbParameters() + nbParameters()-1] = _ks[i] * _n[i] * exp(_n[i] * (dot - 1)) * _a * dot2;
+			 double dot2 = cart[0]*cart[3] + cart[1]*cart[4];
+			 jac[i*nbParameters() + nbParameters()-1] = _ks[i] * _n[i] * exp(_n[i] * (dot - 1)) * phi * dot2;
 
 		 }
 	 }
-- 
2.43.0


From 5d8d9cd4ba80207654f79565581857f111cdf8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 11/67] fix: dot product of the view and light vectors in the
 retro-Beckmann lobe

---
 sources/plugins/nonlinear_function_retrobeckmann/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index aeb1dab..bf0fe7b 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -53,7 +53,7 @@ vec beckmann_function::value(const vec& x) const
 	}
 	else
 	{
-		dot = std::max(x[0]*x[3] +  x[2]*x[4] +  x[2]*x[5], 0.0);
+		dot = std::max(x[0]*x[3] +  x[1]*x[4] +  x[2]*x[5], 0.0);
 	}
 
 	vec res = vec::Zero(_parameters.dimY());
@@ -132,7 +132,7 @@ vec beckmann_function::parametersJacobian(const vec& x) const
 	}
 	else
 	{
-		dot = std::max(x[0]*x[3] +  x[2]*x[4] +  x[2]*x[5], 0.0);
+		dot = std::max(x[0]*x[3] +  x[1]*x[4] +  x[2]*x[5], 0.0);
 	}
 
     vec jac(_parameters.dimY()*nbParameters());
-- 
2.43.0


From 4b37835b0b539055b83acf85db0877fd2047b845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 12/67] fix: load the retro-Beckmann lobe with the type it was
 saved with

---
 sources/plugins/nonlinear_function_retrobeckmann/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index bf0fe7b..fe19e61 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -227,11 +227,11 @@ bool beckmann_function::load(std::istream& in)
 	in >> token;
 	if(token.compare("RETRO") != 0) 
 	{ 
-		_use_back_param = false;
+		_use_back_param = true;
 	}
 	else
 	{
-		_use_back_param = true;
+		_use_back_param = false;
 	}
 
 
-- 
2.43.0


From 6a1d2ab5365ac9089911546eec8ee2286d0fb148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 13/67] fix: the retro-Yoo lobe can be loaded from the file it
 was saved to

---
 sources/plugins/nonlinear_function_retroyoo/function.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index 624ad69..4556531 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -191,7 +191,6 @@ void yoo_function::save_call(std::ostream& out, const arguments& args) const
 	if(is_alta)
 	{
 		out << "#FUNC nonlinear_function_retroyoo" << std::endl ;
-		out << "#TYPE ";
 
 		for(int i=0; i<_parameters.dimY(); ++i)
 		{
-- 
2.43.0


From 1424971dac0bac7a70f6d9acbef17d6755f4af39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 14/67] fix: the retro spherical Gaussian is centred on the
 retro direction

---
 .../nonlinear_function_spherical_gaussian/function.cpp        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index 3e375ed..963593a 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -65,6 +65,10 @@ double spherical_gaussian_function::compute_dot(const vec& x) const
 	{
 		params::convert(&x[0], params::CARTESIAN, params::COS_TK, &dot);
 	}
+	else if(_type == Retro)
+	{
+		dot = x[0]*x[3] + x[1]*x[4] + x[2]*x[5];
+	}
 	else if(_type == Moment)
 	{
 		double spherical[4];
-- 
2.43.0


From 0a6c112f383bbe6d3d3f7a5fd1a194035838803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:46 +0000
Subject: [PATCH 15/67] fix: conversion of back vectors to unit view and light
 vectors

---
 sources/core/params.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 138e1fc..487e210 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -104,10 +104,10 @@ void params::to_cartesian(const double* invec, params::input intype,
 			half_to_cartesian(acos(invec[0]), 0.0, 0.0, 0.0, outvec);
 			break;
 		case params::COS_TK:
-			outvec[0] = invec[0]*invec[0]-1.0;
+			outvec[0] = - sqrt(1.0 - invec[0]*invec[0]);
 			outvec[1] = 0.0;
 			outvec[2] = invec[0];
-			outvec[3] = 1.0-invec[0]*invec[0];
+			outvec[3] = sqrt(1.0 - invec[0]*invec[0]);
 			outvec[4] = 0.0;
 			outvec[5] = invec[0];
 			break;
@@ -206,13 +206,13 @@ void params::to_cartesian(const double* invec, params::input intype,
 		case params::RUSIN_VH:
             half_to_cartesian(acos(invec[2]), atan2(invec[1], invec[0]), 0.0, 0.0, outvec);
 			break;
-        // \todo I should handle the phi_k in the conversion to CARTESIAN
+      // The light is alongside the back vector, the view is its reflection
       case params::SCHLICK_VK:
-            outvec[0] = invec[2]*invec[2]-1.0;
-            outvec[1] = 0.0;
+            outvec[0] = -invec[0];
+            outvec[1] = -invec[1];
             outvec[2] = invec[2];
-            outvec[3] = 1.0-invec[2]*invec[2];
-            outvec[4] = 0.0;
+            outvec[3] = invec[0];
+            outvec[4] = invec[1];
             outvec[5] = invec[2];
             break;
 		case ISOTROPIC_TL_TV_PROJ_DPHI:
-- 
2.43.0


From 25cc94c3ae28a738e81f5906cca31cdf2ed09c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:46 +0000
Subject: [PATCH 16/67] fix: COS_TLR is the dot product of the light and
 reflected vectors

---
 sources/core/params.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 487e210..849aed4 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -476,7 +476,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			outvec[0] = invec[0]*invec[3] + invec[1]*invec[4] + invec[2]*invec[5];
 			break;
 		case params::COS_TLR:
-			outvec[0] = invec[0]*invec[3] - (invec[1]*invec[4] + invec[2]*invec[5]);
+			outvec[0] = invec[2]*invec[5] - (invec[0]*invec[3] + invec[1]*invec[4]);
 			break;
 
 			// 2D Parametrizations
-- 
2.43.0


From acc6e21b9f4a063b549a63eaf401cda98591bbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:46 +0000
Subject: [PATCH 17/67] fix: inverse of the stereographic projection

---
 sources/core/params.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 849aed4..65b0be9 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -375,16 +375,16 @@ void params::to_cartesian(const double* invec, params::input intype,
          // vector outvec[0,1,2]
          const double normL = invec[0]*invec[0] + invec[1]*invec[1];
          const double alphL = (1.0 - normL) / (1.0 + normL);
-         outvec[0] = invec[0] + alphL;
-         outvec[1] = invec[1] + alphL;
+         outvec[0] = invec[0] * (1.0 + alphL);
+         outvec[1] = invec[1] * (1.0 + alphL);
          outvec[2] = alphL;
 
          // Project the 2D direction on the surface invec[2,3] to the Light
          // vector outvec[3,4,5]
          const double normV = invec[2]*invec[2] + invec[3]*invec[3];
          const double alphV = (1.0 - normV) / (1.0 + normV);
-         outvec[3] = invec[2] + alphV;
-         outvec[4] = invec[3] + alphV;
+         outvec[3] = invec[2] * (1.0 + alphV);
+         outvec[4] = invec[3] * (1.0 + alphV);
          outvec[5] = alphV;
 		}
          break;
-- 
2.43.0


From 1d69a1520a9a3ab18e1d3bc7d3a3b94931e62f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:46 +0000
Subject: [PATCH 18/67] fix: orientation of the view vector of the projected
 azimuth parametrizations

---
 sources/core/params.cpp | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 65b0be9..93b97df 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -223,8 +223,10 @@ void params::to_cartesian(const double* invec, params::input intype,
 			// not matter (normal direction).
 			if(theta > 0.0)
 			{
+				// The azimuth of the light is zero and the azimuthal
+				// difference is the one from the view to the light.
 				outvec[0] = (invec[1]/theta)*sin(theta);
-				outvec[1] = (invec[2]/theta)*sin(theta);
+				outvec[1] = - (invec[2]/theta)*sin(theta);
 			}
 			else
 			{
@@ -250,7 +252,7 @@ void params::to_cartesian(const double* invec, params::input intype,
 			//     r = 2 |l.n| n - l = {-lx, -ly, lz }
 			const double theta = sqrt(invec[1]*invec[1] + invec[2]*invec[2]);
 			const double Kx = (theta > 0.0) ? (invec[1]/theta)*sin(theta) : 0.0;
-			const double Ky = (theta > 0.0) ? (invec[2]/theta)*sin(theta) : 0.0;
+			const double Ky = (theta > 0.0) ? - (invec[2]/theta)*sin(theta) : 0.0;
 			const double Kz = cos(theta);
 			const double dotKR = outvec[5]*Kz - outvec[3]*Kx;
 			outvec[0] = 2.0*dotKR*Kx + outvec[3];
@@ -271,20 +273,11 @@ void params::to_cartesian(const double* invec, params::input intype,
 			// Compute the cosine of the outgoing vector using the
 			// spherical law of cosines
 			const double cos_v = cos_l*cos_vl + cos_phi*sin_l*sin_vl;
-			const double sin_v = sqrt(1.0 - std::min(cos_v*cos_v, 1.0));
 
-			if(sin_v != 0.0)
-			{
-				const double sin_dphi = (sin_vl*sin_phi) / sin_v;
-
-				outvec[0] = sin_v * sqrt(1.0 - std::min(sin_dphi*sin_dphi, 1.0));
-				outvec[1] = sin_v * sin_dphi;
-			}
-			else
-			{
-				outvec[0] = 0.0;
-				outvec[1] = 0.0;
-			}
+			// The azimuth of the light is zero, the view is on the other side
+			// of the light plane when the azimuthal difference is positive.
+			outvec[0] = sin_l*cos_vl - cos_phi*cos_l*sin_vl;
+			outvec[1] = - sin_vl*sin_phi;
 			outvec[2] = cos_v;
 			outvec[3] = sin(invec[0]);
 			outvec[4] = 0.0;
-- 
2.43.0


From 5756f5941ca62bf5b9579c6391acb0f2bc478f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:46 +0000
Subject: [PATCH 19/67] fix: STARK_3D and NEUMANN_3D swapped the view and light
 vectors

---
 sources/core/params.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 93b97df..448859c 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -298,7 +298,7 @@ void params::to_cartesian(const double* invec, params::input intype,
 #define STARK_BUILDING_THETA
 
 #ifdef STARK_BUILDING_THETA
-			const double Theta  = atan2(-Hz, invec[0]*cosPhi);
+			const double Theta  = atan2(Hz, -invec[0]*cosPhi);
 			const double cosThe = cos(Theta);
 			const double sinThe = sin(Theta);
 #else
@@ -324,10 +324,10 @@ void params::to_cartesian(const double* invec, params::input intype,
 			const double sinPhi = sin(invec[2]);
 
 			// Build the projected Half and Back vectors
-			outvec[0] =   invec[0] + cosPhi*invec[1];
-			outvec[1] =   sinPhi*invec[1];
-			outvec[3] =   invec[0] - cosPhi*invec[1];
-			outvec[4] = - sinPhi*invec[1];
+			outvec[0] =   invec[0] - cosPhi*invec[1];
+			outvec[1] = - sinPhi*invec[1];
+			outvec[3] =   invec[0] + cosPhi*invec[1];
+			outvec[4] =   sinPhi*invec[1];
 
 			// Safeguard, if the vectors are not under unit length return an
 			// invalid configuration
-- 
2.43.0


From 9deb24c36080cb8653ef5b6d2dc49dfcd1cf660d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 20/67] fix: clamp cosines that may exceed one by rounding
 before taking their angle

---
 sources/core/params.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 448859c..f3fbde2 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -521,7 +521,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 		case params::RUSIN_TH_PH_TD:
 			outvec[0] = acos(half[2]);
 			outvec[1] = atan2(half[1], half[0]);
-			outvec[2] = acos(half[0]*invec[0] + half[1]*invec[1] + half[2]*invec[2]);
+			outvec[2] = acos(clamp(half[0]*invec[0] + half[1]*invec[1] + half[2]*invec[2], -1.0, 1.0));
 			break;
 		case params::RUSIN_TH_TD_PD:
 			outvec[0] = acos(half[2]);
@@ -542,7 +542,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
       //     view[2] = invec[2];
       //     outvec[1] = acos(clamp(half.dot(view),0.,1.));
       // }
-      outvec[1] = acos(diff[2]);
+      outvec[1] = acos(clamp(diff[2], -1.0, 1.0));
 
       // By convention, when DIFF is alongside z⃗, return φd = 0.
       if (alongside_z(diff))
@@ -596,7 +596,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 		{
 			const double cos_v  = invec[2];
 			const double cos_l  = invec[5];
-			const double cos_vl = invec[0]*invec[3] + invec[1]*invec[4] + invec[2]*invec[5];
+			const double cos_vl = clamp(invec[0]*invec[3] + invec[1]*invec[4] + invec[2]*invec[5], -1.0, 1.0);
 			const double sin_l  = sqrt(1.0 - cos_l * cos_l);
 			const double sin_v  = sqrt(1.0 - cos_v * cos_v);
 			const double sin_vl = sqrt(1.0 - cos_vl* cos_vl);
-- 
2.43.0


From 95229f515f088a55c92307c7c93ba53872523847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:10 +0000
Subject: [PATCH 21/67] fix: names and dimensions of SCHLICK_VK, RUSIN_TH_PH_TD
 and INV_STERADIAN_COSINE_FACTOR

---
 sources/core/params.cpp | 3 ++-
 sources/core/params.h   | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index f3fbde2..f1911ea 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -42,10 +42,11 @@ std::map<params::input, const param_info> create_map()
 	_map.insert(std::make_pair<params::input, const param_info>(params::NEUMANN_2D, param_info("NEUMANN_2D", 2, "Neumann parametrization H, B but without third component.")));
 
 	/* 3D Params */
+	_map.insert(std::make_pair<params::input, const param_info>(params::RUSIN_TH_PH_TD, param_info("RUSIN_TH_PH_TD", 3, "Half angle parametrization without the azimuth of the difference vector")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::RUSIN_TH_TD_PD, param_info("RUSIN_TH_TD_PD", 3, "Isotropic Half angle parametrization")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::ISOTROPIC_TV_TL_DPHI, param_info("ISOTROPIC_TV_TL_DPHI", 3, "Isotropic Light/View angle parametrization")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::RUSIN_VH, param_info("RUSIN_VH", 3, "Vector representation of the Half angle only")));
-	_map.insert(std::make_pair<params::input, const param_info>(params::SCHLICK_VK, param_info("SCHLICK_VH", 3, "Vector representation of the Back angle only")));
+	_map.insert(std::make_pair<params::input, const param_info>(params::SCHLICK_VK, param_info("SCHLICK_VK", 3, "Vector representation of the Back angle only")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::ISOTROPIC_TL_TV_PROJ_DPHI, param_info("ISOTROPIC_TL_TV_PROJ_DPHI", 3, "Isoptropic projected phi parametrization.")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::SCHLICK_TL_TK_PROJ_DPHI, param_info("SCHLICK_TL_TK_PROJ_DPHI", 3, "Isoptropic projected phi parametrization centered around the back vector.")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::RETRO_TL_TVL_PROJ_DPHI, param_info("RETRO_TL_TVL_PROJ_DPHI", 3, "Isoptropic retro projected phi parametrization.")));
diff --git a/sources/core/params.h b/sources/core/params.h
index a89fb93..10c2997 100644
--- a/sources/core/params.h
+++ b/sources/core/params.h
@@ -298,6 +298,7 @@ class params
             {
                 // 1D Parametrizations
                 case params::INV_STERADIAN:
+                case params::INV_STERADIAN_COSINE_FACTOR:
                 case params::ENERGY:
                     return 1;
                     break;
-- 
2.43.0


From 26f33beea77ad5a1825b76dc601e76941e3bb471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:10 +0000
Subject: [PATCH 22/67] fix: the average of several output channels does not
 depend on the destination

---
 sources/core/params.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/core/params.h b/sources/core/params.h
index 10c2997..734ccf7 100644
--- a/sources/core/params.h
+++ b/sources/core/params.h
@@ -229,6 +229,7 @@ class params
           // input vector values.
           else if(outdim == 1)
           {
+            outvec[0] = 0.0;
             for(int i=0; i<indim; ++i) 
             { 
                 outvec[0] += invec[i]; 
-- 
2.43.0


From 78bb26a6bce971eff2fd2f20702adf6a56b0a79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 23/67] fix: initialise the sums of the numerator and
 denominator of rational functions

---
 sources/core/rational_function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index 7d2bced..bc938b5 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -263,7 +263,7 @@ void rational_function_1d::resize(unsigned int np, unsigned int nq)
 // Get the p_i and q_j function
 vec rational_function_1d::p(const vec& x) const
 {
-	vec res(1) ;
+	vec res = vec::Zero(1) ;
 
 	const unsigned int np = _p_coeffs.size() ;
 	for(unsigned int i=0; i<np; ++i)
@@ -275,7 +275,7 @@ vec rational_function_1d::p(const vec& x) const
 }
 vec rational_function_1d::q(const vec& x) const 
 {
-	vec res(1) ;
+	vec res = vec::Zero(1) ;
 
 	const unsigned int np = _q_coeffs.size() ;
 	for(unsigned int i=0; i<np; ++i)
-- 
2.43.0


From 0375835a91dcadb0ed8e8b1dfdca03e15b69755c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 24/67] fix: set the degrees of the coefficients added by
 rational_function_1d::update

---
 sources/core/rational_function.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index bc938b5..4ae57e3 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -182,7 +182,9 @@ void rational_function_1d::update(const vec& in_a,
   const unsigned int np = in_a.size();
   const unsigned int nq = in_b.size();
 
-	// Resize the coefficient vector if they do not match
+	// Resize the coefficient vector if they do not match. The degrees of
+	// the new coefficients have to be set as well.
+	resize(np, nq);
 	if(np != _p_coeffs.size()) {
 		_p_coeffs.resize(np);
 	}
-- 
2.43.0


From 3e9c07f4c18ca28d3f89e6f4eea2466512b8b71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 25/67] fix: the upper bound of a symmetrical confidence
 interval is above the value

---
 sources/core/vertical_segment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/vertical_segment.cpp b/sources/core/vertical_segment.cpp
index 8b8ca79..6a395a0 100644
--- a/sources/core/vertical_segment.cpp
+++ b/sources/core/vertical_segment.cpp
@@ -125,7 +125,7 @@ void vertical_segment::get(int i, vec& x, vec& yl, vec& yu) const
 	case SYMMETRICAL_CONFIDENCE_INTERVAL:
 	    yl = y - row.segment(_parameters.dimX() + _parameters.dimY(),
 			         _parameters.dimY());
-	    yu = y - row.segment(_parameters.dimX() + _parameters.dimY(),
+	    yu = y + row.segment(_parameters.dimX() + _parameters.dimY(),
 			         _parameters.dimY());
 	    break;
 	
-- 
2.43.0


From a10b392645823096de070552a293fca15f3d2123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 26/67] fix: --dt-max takes the larger of the relative and
 absolute sizes below the value too

---
 sources/core/data_storage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index cf76980..5a3b260 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -129,7 +129,7 @@ static void read_confidence_interval(std::istream& input,
         }
         else if(args.is_defined("dt-max"))
         {
-            v(dimX +   dimY+i) = v(dimX + i) + std::max(v(dimX + i) * min_dt, min_dt);
+            v(dimX +   dimY+i) = v(dimX + i) + std::min(v(dimX + i) * min_dt, min_dt);
             v(dimX + 2*dimY+i) = v(dimX + i) + std::max(v(dimX + i) * max_dt, max_dt);
         }
         else
-- 
2.43.0


From 357dc1bd7ae8722dc64cdbefa3b0d3a05c9c051d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 27/67] fix: data::equals uses a small default tolerance and
 rejects NaN

---
 sources/core/data.cpp | 2 +-
 sources/core/data.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/core/data.cpp b/sources/core/data.cpp
index 3dffbbb..8008b15 100644
--- a/sources/core/data.cpp
+++ b/sources/core/data.cpp
@@ -50,7 +50,7 @@ bool data::equals(const data& data, double epsilon)
         for (int j = 0; j < self.size(); j++)
         {
             double diff = std::abs(self[j] - other[j]);
-            if (diff > epsilon)
+            if (!(diff <= epsilon))               // also when DIFF is NaN
                 return false;
         }
     }
diff --git a/sources/core/data.h b/sources/core/data.h
index ecd7797..cb35c9b 100644
--- a/sources/core/data.h
+++ b/sources/core/data.h
@@ -82,7 +82,7 @@ class data
     //! \brief Return true if this object is equal to DATA ±ε.
     virtual bool equals(const data& data,
                         double epsilon =
-                        std::pow(1.0, -int(std::numeric_limits<double>::digits10 - 1)));
+                        std::pow(10.0, -int(std::numeric_limits<double>::digits10 - 1)));
 
 
     const parameters& parametrization() const {
-- 
2.43.0


From f3cc04ff40a9a7d8b9beab4dd78367439a666e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 28/67] fix: text data files keep every digit of the samples

---
 sources/core/data_storage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 5a3b260..49eb3bf 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -282,7 +282,7 @@ void alta::save_data_as_text(std::ostream& out, const alta::data &data)
         vec x = data.get(i);
         for(int j=0; j< data.parametrization().dimX() + data.parametrization().dimY(); ++j)
         {
-                    out << std::setprecision(std::numeric_limits<double>::digits10)
+                    out << std::setprecision(std::numeric_limits<double>::max_digits10)
                         << x[j] << "\t";
         }
         out << std::endl;
-- 
2.43.0


From 1e6dc351947c51b63c790a9389fa5ada4e9fbf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 29/67] fix: raw data after #BEGIN_STREAM is never read as a
 header line

---
 sources/core/args.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/core/args.h b/sources/core/args.h
index 15ee362..2f868f6 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -480,6 +480,11 @@ class arguments
 
 						std::string key, data;
 						linestream >> key;
+
+						// What follows is raw data, not header lines.
+						if (key == "BEGIN_STREAM")
+							break;
+
 						if (!key.empty()) {
 
 							// ALTA header starts and ends with '#ALTA'
-- 
2.43.0


From d7df841bc86bbca165769caea6e40ada5de42911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:46 +0000
Subject: [PATCH 30/67] fix: the value of an option may start with a dash
 (negative numbers)

---
 sources/core/args.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index 2f868f6..eac42e2 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -66,7 +66,7 @@ class arguments
             if(++i < argc)
             {
                 std::string next(argv[i]) ;
-                if(next[0] == '-')
+                if(next.compare(0, 2, "--") == 0)
                 {
                     --i;
                 }
-- 
2.43.0


From b78201bb92313cab8159c1f55da977b26de2ffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:46 +0000
Subject: [PATCH 31/67] fix: a number that fills a vector is not rounded to
 single precision

---
 sources/core/args.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index eac42e2..1c1e2d8 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -266,7 +266,9 @@ class arguments
 				}
 			}
 
-			float val = get_float(key, default_value);
+			double val = default_value;
+			if(_map.count(key) > 0)
+				val = atof(_map.find(key)->second.c_str());
 			for(int i=0; i<size; ++i)
 			{
 				res[i] = val;
-- 
2.43.0


From 72d578063f30fabe901263cedbcea6767fc24722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:46 +0000
Subject: [PATCH 32/67] fix: an empty vector has no components

---
 sources/core/args.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/core/args.h b/sources/core/args.h
index 1c1e2d8..bdccc7c 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -299,6 +299,8 @@ class arguments
 					{
 						// Extract the value v from the stream s
 						stream.get(s, 256, ',');
+						if(stream.fail()) // no component, as in "[]"
+							break;
 						stream.ignore(1);
 						std::stringstream sstream(s);
 						T v;
-- 
2.43.0


From a259ff02c03c4869549357ba6adf47ce3588a201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:46 +0000
Subject: [PATCH 33/67] fix: image slices never address a pixel outside the
 image, and are zero outside their domain

---
 sources/plugins/data_io/slice.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index 3041d51..a618061 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -11,6 +11,7 @@
 #include <core/common.h>
 #include <core/data.h>
 
+#include <algorithm>
 #include <cstdio>
 #include <cstdlib>
 #include <cmath>
@@ -173,17 +174,17 @@ class BrdfSlice : public data {
 
 			// Safeguard. We can use either asserting or returning zero in case
 			// the query values are not within reach.
-			if(_x[0] > _max[0] || x[0] < _min[0] || x[1] > _max[1] || x[1] < _min[1] ||
-				alta::isnan(_x[0]) || alta::isnan(x[1])) {
-					vec res(3);
-					return res;
+			if(_x[0] > _max[0] || _x[0] < _min[0] || _x[1] > _max[1] || _x[1] < _min[1] ||
+				alta::isnan(_x[0]) || alta::isnan(_x[1])) {
+					return vec::Zero(3);
 			}
 			/*
 			assert(_x[0] <= 1.0 && x[0] >= 0.0);
 			assert(_x[1] <= 1.0 && x[1] >= 0.0);
 			*/
-			const int i  = floor((_x[0]-_min[0]) * _width  / (_max[0] - _min[0]));
-			const int j  = floor((_x[1]-_min[1]) * _height / (_max[1] - _min[1]));
+			// The upper end of the domain belongs to the last pixel.
+			const int i  = std::min((int)floor((_x[0]-_min[0]) * _width  / (_max[0] - _min[0])), _width-1);
+			const int j  = std::min((int)floor((_x[1]-_min[1]) * _height / (_max[1] - _min[1])), _height-1);
 			const int k  = 1;
 			//const int k  = floor(_x[2] * _slice  / (M_PI));
 			const int id = (i + j*_width)*k;
-- 
2.43.0


From 1fb26910b83d355bee5e8b953ac5b99fb16d3bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:46 +0000
Subject: [PATCH 34/67] fix: the domain of an image slice is the one its base
 class reports

---
 sources/plugins/data_io/slice.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index a618061..ed6fb3f 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -75,7 +75,6 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args);
 class BrdfSlice : public data {
   private:
 		const int _width, _height, _slice;
-		vec _max, _min;
 		double _phi;
 		double* _data;
 		bool _reverse;
-- 
2.43.0


From c4840683a86af72c25f4ab3060579150c42b6f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:46 +0000
Subject: [PATCH 35/67] fix: grid interpolation read one sample past the end

---
 sources/plugins/data_interpolants/grid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index abc5818..8d664ce 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -344,7 +344,7 @@ class BrdfGrid : public vertical_segment {
                cid_s = cid_s*_size[i] + ((bitset) ? 1 : 0);
             }
 
-            if(id+cid_s > size())
+            if(id+cid_s >= size())
                cid_s = 0;
 
             y += alpha * get(id+cid_s).segment(parametrization().dimX(),
-- 
2.43.0


From cb779f65f41acb0857a9f1e9a8b98fe7cce0352f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:46 +0000
Subject: [PATCH 36/67] fix: a grid has the parametrization and the number of
 samples its arguments ask for

---
 sources/plugins/data_interpolants/grid.cpp | 86 ++++++++++++----------
 1 file changed, 47 insertions(+), 39 deletions(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index 8d664ce..b6f89f7 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -12,6 +12,7 @@
 #include <core/data_storage.h>
 #include <core/vertical_segment.h>
 
+#include <algorithm>
 #include <cstdio>
 #include <cstdlib>
 #include <cmath>
@@ -153,62 +154,69 @@ class BrdfGrid : public vertical_segment {
       std::vector<int> _size;
 
       BrdfGrid(size_t size, const parameters& params, const arguments& args)
-        : vertical_segment(params, size)
+        : vertical_segment(grid_parameters(params, args),
+                           std::max<int>(size, grid_samples(params, args))),
+          _size(grid_size(params, args))
       {
-         initialize(args);
+         _min = get_min(parametrization().input_parametrization());
+         _max = get_max(parametrization().input_parametrization());
+
+         // Set the abscissa data
+         const int N = grid_samples(params, args);
+         vec x = vec::Zero(parametrization().dimX() + parametrization().dimY());
+         for(int n=0; n<N; ++n) {
+            get_abscissa(n, x);
+            set(n, x);
+         }
       }
 
-      // FIXME: Move this to constructor.
-      void initialize(const arguments& args, bool preallocate = true) {
-
-         // Allow to load a different parametrization depending on the
-         // parameters provided.
-         params::input in_param;
-         params::output out_param;
-         int nX, nY;
+      // Allow to load a different parametrization depending on the
+      // parameters provided.
+      static parameters grid_parameters(const parameters& params,
+                                        const arguments& args) {
 
+         params::input in_param = params.input_parametrization();
          if(args.is_defined("PARAM_IN")) {
             in_param = params::parse_input(args["PARAM_IN"]);
          } else if(args.is_defined("param")) {
             in_param = params::parse_input(args["param"]);
+         } else if(in_param == params::UNKNOWN_INPUT) {
+            in_param = params::STARK_2D;
          }
-         nX = params::dimension(in_param);
 
+         params::output out_param = params.output_parametrization();
+         int nY = params.dimY();
          if(args.is_defined("PARAM_OUT")) {
             out_param = params::parse_output(args["PARAM_OUT"]);
+            nY = params::dimension(out_param);
+         } else if(nY == 0) {
+            out_param = params::RGB_COLOR;
+            nY = params::dimension(out_param);
          }
-         nY = params::dimension(out_param);
 
-         // Get the grid size, by default use an 10^dimX grid
-         int N = 1;
-         if(args.is_defined("grid-size") && args.is_vec("grid-size")) {
-            _size = args.get_vec<int>("grid-size");
-            assert(_size.size() == nX);
+         return parameters(params::dimension(in_param), nY, in_param, out_param);
+      }
 
-            for(int i=0; i<nX; ++i) {
-               N *= _size[i];
-            }
-         } else {
-            for(int i=0; i<nX; ++i) {
-               _size.push_back(10);
-               N *= 10;
-            }
-         }
-         _min = get_min(in_param);
-         _max = get_max(in_param);
-
-         // Preallocate the grid data
-         if(preallocate) {
-            // Set the abscissa data
-            vec x(parametrization().dimX() + parametrization().dimY());
-            for(int n=0; n<N; ++n) {
-               get_abscissa(n, x);
-               set(n, x);
-            }
+      // Get the grid size, by default use an 10^dimX grid
+      static std::vector<int> grid_size(const parameters& params,
+                                        const arguments& args) {
+
+         const int nX = grid_parameters(params, args).dimX();
+         if(args.is_defined("grid-size") && args.is_vec("grid-size")) {
+            const std::vector<int> size = args.get_vec<int>("grid-size");
+            assert((int)size.size() == nX);
+            return size;
          }
+         return std::vector<int>(nX, 10);
+      }
 
-         parameters p(nX, nY, in_param, out_param);
-         setParametrization(p);
+      static int grid_samples(const parameters& params, const arguments& args) {
+
+         int N = 1;
+         for(int n : grid_size(params, args)) {
+            N *= n;
+         }
+         return N;
       }
 
       inline int get_index(const vec& x) const {
-- 
2.43.0


From 5c372081d2785f648b029e66e4b70afdafb38ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:46 +0000
Subject: [PATCH 37/67] fix: UTIA tables are saved in the binary layout they
 are loaded from

---
 sources/plugins/data_io/utia.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index 065f52d..9fd923e 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -140,13 +140,8 @@ public:
 			delete[] temp;
 		} else {
 			std::ofstream stream(filename.c_str(), std::ios_base::out | std::ios_base::binary);
-			int count = 0;
-			for(int isp=0;isp<planes;isp++)	{
-			  for(int ni=0;ni<nti*npi;ni++)
-			    for(int nv=0;nv<ntv*npv;nv++) {
-			    	stream << Bd[count++];
-			    }
-			}
+			// Raw numbers, as load_data reads them
+			stream.write((const char*)Bd, planes*nPerPlane*sizeof(double));
 		}
 	}
 
-- 
2.43.0


From c0271e2de07660a3ff7e39edd9ef0b59680427a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:14 +0000
Subject: [PATCH 38/67] fix: grids are saved with every digit of their samples

---
 sources/plugins/data_interpolants/grid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index b6f89f7..83ae325 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -281,7 +281,7 @@ class BrdfGrid : public vertical_segment {
 
          save_header(file);
 
-         file << std::setprecision(std::numeric_limits<double>::digits10);
+         file << std::setprecision(std::numeric_limits<double>::max_digits10);
          for(int i=0; i < size(); ++i)
          {
             vec x = get(i);
-- 
2.43.0


From 6db487794e2ff0b665f216b4b50d1b1d9623037f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:46 +0000
Subject: [PATCH 39/67] fix: functions are saved with every digit of their
 parameters

---
 sources/core/function.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 1534a1e..c5358c6 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -16,6 +16,7 @@
 #include "plugins_manager.h"
 
 #include <cassert>
+#include <limits>
 
 using namespace alta;
 
@@ -65,7 +66,7 @@ void function::save(const std::string& filename, const arguments& args) const
 	// If the export is the alta format, use the maximum precision formatting
 	if(is_alta)
 	{
-		file.precision(10);
+		file.precision(std::numeric_limits<double>::max_digits10);
 	}
 
 	if(is_explorer)
-- 
2.43.0


From 71644c012c2dd18575fc360208a0933ca5cc93a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:03 +0000
Subject: [PATCH 40/67] fix: the type of a spherical Gaussian lobe is saved
 with it

---
 .../function.cpp                              | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index 963593a..80818af 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -36,6 +36,9 @@ spherical_gaussian_function::spherical_gaussian_function(const alta::parameters&
     _ks.resize(_parameters.dimY()) ;
 }
 
+// Names of the lobe types in the saved files, in the order of the enumeration
+static const char* const type_names[] = { "MIRROR", "HALF", "RETRO", "BACK", "MOMENT" };
+
 // Overload the function operator
 vec spherical_gaussian_function::operator()(const vec& x) const 
 {
@@ -293,6 +296,24 @@ bool spherical_gaussian_function::load(std::istream& in)
         return false;
 	}
 
+	// Parse the type of the lobe, older files do not have it
+	in >> std::ws;
+	if(in.peek() == '#')
+	{
+		in >> token;
+		if(token.compare("#TYPE") != 0)
+		{
+			std::cerr << "<<ERROR>> parsing the stream. The #TYPE is not the next line defined." << std::endl;
+			return false;
+		}
+
+		in >> token;
+		for(int t=Mirror; t<=Moment; ++t)
+		{
+			if(token == type_names[t]) { _type = type(t); }
+		}
+	}
+
 	// Parse the lobe
     for(int i=0; i<_parameters.dimY(); ++i)
 	{
@@ -320,6 +341,7 @@ void spherical_gaussian_function::save_call(std::ostream& out, const arguments&
     if(is_alta)
     {
 		out << "#FUNC nonlinear_function_spherical_gaussian" << std::endl ;
+		out << "#TYPE " << type_names[_type] << std::endl ;
 
          for(int i=0; i<nY; ++i)
 		 {
-- 
2.43.0


From 32ada8577d577fd4e0d5779db5458af60df11e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:03 +0000
Subject: [PATCH 41/67] fix: the diffuse component of Lafortune lobes is saved
 with them

---
 .../nonlinear_function_lafortune/function.cpp  | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index 858a8a3..f2a7eff 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -406,8 +406,19 @@ bool lafortune_function::load(std::istream& in)
 	 in >> token >> nb_lobes;
 	 setNbLobes(nb_lobes);
 
-	// Parse the lobe
     const int _nY = _parameters.dimY();
+
+	// Parse the diffuse component, older files do not have it
+	in >> std::ws;
+	if(in.peek() == 'K')
+	{
+		for(int i=0; i<_nY; ++i)
+		{
+			in >> token >> _kd[i];
+		}
+	}
+
+	// Parse the lobe
 	for(int n=0; n<_n; ++n)
 	{
 		for(int i=0; i<_nY; ++i)
@@ -436,6 +447,11 @@ void lafortune_function::save_call(std::ostream& out, const arguments& args) con
         out << "#FUNC nonlinear_function_lafortune" << std::endl ;
         out << "#NB_LOBES " << _n << std::endl ;
 
+        for(int i=0; i<_nY; ++i)
+        {
+            out << "Kd " << _kd[i] << std::endl;
+        }
+
         for(int n=0; n<_n; ++n)
         {
 
-- 
2.43.0


From 4c35c4e2a83774cbbfa369dd29886b8372d408b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:54 +0000
Subject: [PATCH 42/67] fix: the error metrics are over the samples the mask
 selects

---
 sources/core/metrics.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/sources/core/metrics.cpp b/sources/core/metrics.cpp
index 782f917..cdb675d 100644
--- a/sources/core/metrics.cpp
+++ b/sources/core/metrics.cpp
@@ -62,7 +62,7 @@ int errors::checkMaskSize(const data* ref, const data* mask) {
    int nb_elems = 0;
    for(auto i=0; i<ref->size(); i++) {
       // If the mask value is set to zero, skip the current entry
-      if(mask->get(i).tail(1)[0] == 0.0) {
+      if(mask->get(i).tail(1)[0] != 0.0) {
          ++nb_elems;
       }
    }
@@ -90,6 +90,9 @@ void errors::evaluate(const data* inp,
    // Is there a mask function to be applied
    const bool has_mask = mask != nullptr;
 
+   // Row of the current sample among the ones the mask selects
+   int row = 0;
+
    // Evaluate the input data at each position of data_x configuration
    for(auto i=0; i<ref->size(); i++) {
 
@@ -117,20 +120,21 @@ void errors::evaluate(const data* inp,
                          inp->parametrization().input_parametrization(),
                          dat_x.data());
 
-         ref_y.row(i) = ref_xy.tail(nY);
-         inp_y.row(i) = inp->value(dat_x);
+         ref_y.row(row) = ref_xy.tail(nY);
+         inp_y.row(row) = inp->value(dat_x);
          /*
          params::convert(inp->value(dat_x).data(),
                          inp->output_parametrization(),
                          inp->parametrization().dimY(),
                          ref->output_parametrization(),
                          ref->parametrization().dimY(),
-                         inp_y.row(i).data());
+                         inp_y.row(row).data());
          */
       } else {
-         ref_y.row(i).setZero();
-         inp_y.row(i).setZero();
+         ref_y.row(row).setZero();
+         inp_y.row(row).setZero();
       }
+      ++row;
    }
 }
 
-- 
2.43.0


From 0a541249f857e2bf50ae2f161ae2772fad69a46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:54 +0000
Subject: [PATCH 43/67] fix: the weighted errors are the ones for the cosines
 they name

---
 sources/softs/data2stats/data2stats.cpp | 4 ++--
 sources/softs/fit2stat/fit2stat.cpp     | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sources/softs/data2stats/data2stats.cpp b/sources/softs/data2stats/data2stats.cpp
index 1744653..8d5a738 100644
--- a/sources/softs/data2stats/data2stats.cpp
+++ b/sources/softs/data2stats/data2stats.cpp
@@ -319,8 +319,8 @@ void computeCosineFactorsFromData( ptr<data> const & data,
       for( unsigned int i=0; i < data->size(); i++)
       {
          data_x = (data->get(i)).head( data->parametrization().dimX() );
-         cosine_theta_light[i] = data_x[2];
-         cosine_theta_view[i]  = data_x[5];
+         cosine_theta_light[i] = data_x[5];
+         cosine_theta_view[i]  = data_x[2];
       }
    }
    else
diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index dea5bcf..c7e05ea 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -331,8 +331,8 @@ void computeCosineFactorsFromData( ptr<data> const & data,
     for( unsigned int i=0; i < data->size(); i++)
     {
       data_x = (data->get(i)).head( data->parametrization().dimX() );
-      cosine_theta_light[i] = data_x[2];
-      cosine_theta_view[i]  = data_x[5];
+      cosine_theta_light[i] = data_x[5];
+      cosine_theta_view[i]  = data_x[2];
     }
   }
   else
@@ -667,8 +667,8 @@ main(int argc, char* argv[])
         fwriter << "RMSE :" << rmse << std::endl;
         fwriter << "MSE * cos(theta_light) :" << w_cosine_light_mse << std::endl;
         fwriter << "RMSE * cos(theta_light) :" << w_cosine_light_rmse << std::endl;
-        fwriter << "MSE * cos(theta_light) * cos(theta_view) :" << w_cosine_light_mse << std::endl;
-        fwriter << "RMSE * cos(theta_light) cos(theta_view)  :" << w_cosine_light_rmse << std::endl;
+        fwriter << "MSE * cos(theta_light) * cos(theta_view) :" << w_cosine_light_view_mse << std::endl;
+        fwriter << "RMSE * cos(theta_light) cos(theta_view)  :" << w_cosine_light_view_rmse << std::endl;
         fwriter << std::endl;
       }
       else
-- 
2.43.0


From 0222806d415186f951a2228086d69799977a693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:54 +0000
Subject: [PATCH 44/67] fix: the quadratic program has no uninitialised linear
 term

---
 sources/plugins/rational_fitters/quadprog_parallel.cpp | 3 ++-
 sources/plugins/rational_fitters/quadratic_program.h   | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/rational_fitters/quadprog_parallel.cpp b/sources/plugins/rational_fitters/quadprog_parallel.cpp
index f9da136..5532e21 100644
--- a/sources/plugins/rational_fitters/quadprog_parallel.cpp
+++ b/sources/plugins/rational_fitters/quadprog_parallel.cpp
@@ -329,10 +329,11 @@ class rational_fitter_parallel : public fitter
 #endif
             Eigen::VectorXd x(n);
             bool solves_qp = qp.solve_program(x, delta, p, q);
-            r->update(p, q);
 
             if(solves_qp)
             {
+               r->update(p, q);
+
                if(qp.test_constraints(ny, r, d))
                {
 #ifdef DEBUG
diff --git a/sources/plugins/rational_fitters/quadratic_program.h b/sources/plugins/rational_fitters/quadratic_program.h
index 196a806..13f685b 100644
--- a/sources/plugins/rational_fitters/quadratic_program.h
+++ b/sources/plugins/rational_fitters/quadratic_program.h
@@ -104,6 +104,9 @@ class quadratic_program
          Eigen::MatrixXd CE(m, 0) ;
          Eigen::VectorXd ce ;
 
+         // There is no linear term in the quadratic objective
+         g.setZero();
+
          if(_compute_delta)
          {
             // Update the ci column with the delta parameter
-- 
2.43.0


From b1fb1bf24dd6238c0eb10fc9b98bed6b6139280a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:54 +0000
Subject: [PATCH 45/67] fix: data converted to intervals keep every sample

---
 sources/plugins/rational_fitters/quadprog_parallel.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/plugins/rational_fitters/quadprog_parallel.cpp b/sources/plugins/rational_fitters/quadprog_parallel.cpp
index 5532e21..a931b60 100644
--- a/sources/plugins/rational_fitters/quadprog_parallel.cpp
+++ b/sources/plugins/rational_fitters/quadprog_parallel.cpp
@@ -111,21 +111,21 @@ class rational_fitter_parallel : public fitter
                const vec x = dat->get(i);
 
                for(int k=0; k<x.size(); ++k) {
-                  content[i + k] = x[k];
+                  content[i*elem_size + k] = x[k];
                }
                for(int k=0; k<dat->parametrization().dimY(); ++k) {
-                  content[i + k + dat->parametrization().dimX() + dat->parametrization().dimY()] =
+                  content[i*elem_size + k + dat->parametrization().dimX() + dat->parametrization().dimY()] =
                      (1.0 - args.get_float("dt", 0.1)) * x[k + dat->parametrization().dimX()];
                }
                for(int k=0; k<dat->parametrization().dimY(); ++k) {
-                  content[i + k + dat->parametrization().dimX() + 2*dat->parametrization().dimY()] =
+                  content[i*elem_size + k + dat->parametrization().dimX() + 2*dat->parametrization().dimY()] =
                      (1.0 + args.get_float("dt", 0.1)) * x[k + dat->parametrization().dimX()];
                }
             }
 
             ptr<vertical_segment> vs(new vertical_segment(dat->parametrization(),
                      dat->size(),
-                     std::shared_ptr<double>(content)));
+                     std::shared_ptr<double>(content, std::default_delete<double[]>())));
 
             d = vs;
          }
-- 
2.43.0


From 423788dde35962574d5c43fc6b737ed7162d55cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:54 +0000
Subject: [PATCH 46/67] fix: the residual of a lobe is read with the dimensions
 of the data

---
 sources/plugins/nonlinear_fitter_eigen/fitter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_fitter_eigen/fitter.cpp b/sources/plugins/nonlinear_fitter_eigen/fitter.cpp
index 73967da..4b2d8d1 100644
--- a/sources/plugins/nonlinear_fitter_eigen/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_eigen/fitter.cpp
@@ -210,7 +210,7 @@ struct CompoundFunctor: Eigen::DenseFunctor<double>
 
 			vec _di = vec(f->parametrization().dimY());
 			for(int i=0; i<f->parametrization().dimY(); ++i)
-				_di[i] = _x[f->parametrization().dimX() + i];
+				_di[i] = _x[_d->parametrization().dimX() + i];
 
 			// Compute the value of the preceding functions
 			vec _fy = vec::Zero(f->parametrization().dimY());
-- 
2.43.0


From 416939909feef4c7a27975f4f9abce4ab8870cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:54 +0000
Subject: [PATCH 47/67] fix: the diffuse term is bootstrapped with every sample

---
 sources/plugins/nonlinear_function_diffuse/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_diffuse/function.cpp b/sources/plugins/nonlinear_function_diffuse/function.cpp
index 930126e..0330eed 100644
--- a/sources/plugins/nonlinear_function_diffuse/function.cpp
+++ b/sources/plugins/nonlinear_function_diffuse/function.cpp
@@ -204,7 +204,7 @@ void diffuse_function::bootstrap(const ptr<data> d, const arguments& args)
             for(int i=0; i<d->parametrization().dimY(); ++i)
                 _kd[i] = std::numeric_limits<double>::max();
 
-            for(int i=1; i<d->size(); ++i)
+            for(int i=0; i<d->size(); ++i)
             {
                 vec x = d->get(i);
                 params::convert(&x[0],
-- 
2.43.0


From 70b8fbcdea445a41ac73412e766217b6b3bc57b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:54 +0000
Subject: [PATCH 48/67] fix: the cosine correction divides values and intervals
 by the cosines

---
 sources/core/data_storage.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 49eb3bf..e7e4623 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -39,20 +39,16 @@ static bool cosine_correction(vecref v, unsigned int dimX, unsigned int dimY,
 {
     using namespace alta;
 
-    assert(v.size() == dimX + dimY);
+    assert(v.size() == dimX + 3*dimY);
 
-    // Correction of the data by 1/cosine(theta_L)
-    double factor = 1.0;
+    // Correction of the data and their intervals by 1/(cosine(theta_L)*cosine(theta_V))
     double cart[6];
     params::convert(&v(0), in_param, params::CARTESIAN, cart);
     if(cart[5] > 0.0 && cart[2] > 0.0)
     {
-        factor = 1.0/cart[5]*cart[2];
-        for(unsigned int i = 0; i < dimY; ++i)
+        const double factor = cart[5]*cart[2];
+        for(unsigned int i = 0; i < 3*dimY; ++i)
         {
-            std::cout << "i = " << i << " dimx = " << dimX
-                      << " + = " << i + dimX << " | " << v.size()
-                      << std::endl;
             v(i + dimX) /= factor;
         }
         return true;
@@ -234,8 +230,7 @@ alta::data* alta::load_data_from_text(std::istream& input,
       }
       else if (args.is_defined("data-correct-cosine"))
       {
-          if (!cosine_correction(v.segment(0, dim.first + dim.second),
-                                 dim.first, dim.second, in_param))
+          if (!cosine_correction(v, dim.first, dim.second, in_param))
               content.resize(start);
       }
     }
-- 
2.43.0


From 4845f0e4fb870612a3a4fece89c3e93401f70ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:15 +0000
Subject: [PATCH 49/67] fix: report plugins, files and models that cannot be
 loaded instead of crashing

---
 sources/core/plugins_manager.cpp | 18 ++++++++++++------
 sources/softs/brdf2brdf/main.cpp |  5 +++++
 sources/softs/brdf2data/main.cpp |  1 +
 sources/softs/data2brdf/main.cpp |  4 +++-
 sources/softs/data2data/main.cpp |  3 ++-
 5 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index b1c6ba4..75bb3e2 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -46,7 +46,7 @@ static std::string library_name(const std::string name)
     filename.append(".dylib");
   }
 #else
-  if(name.substr(n-2, n) != std::string("so")) {
+  if(n < 2 || name.substr(n-2, n) != std::string("so")) {
     filename.append("lib");
     filename.append(name);
     filename.append(".so");
@@ -221,7 +221,7 @@ function* plugins_manager::load_function(const std::string& filename)
   function* f = get_function(args, params);
 
   // Load the function part from the file object
-  if( f->load(file) )
+  if( f != NULL && f->load(file) )
   {
     return f;
   }
@@ -267,8 +267,8 @@ function* plugins_manager::get_function(const arguments& args,
 
    //! For each args_vec element, create a function object and add ! it to the
    //compound one.
-    std::vector<ptr<nonlinear_function> > functions(args_vec.size());
-    std::vector<arguments> function_args(args_vec.size());
+    std::vector<ptr<nonlinear_function> > functions;
+    std::vector<arguments> function_args;
 
     for(unsigned int i=0; i<args_vec.size(); ++i)
     {
@@ -292,11 +292,17 @@ function* plugins_manager::get_function(const arguments& args,
       }
       else
       {
-          functions[i] = ptr<nonlinear_function>(nl_f);
-          function_args[i] = temp_args;
+          functions.push_back(ptr<nonlinear_function>(nl_f));
+          function_args.push_back(temp_args);
       }
     }
 
+    // None of the parts could be loaded.
+    if(functions.empty())
+    {
+        return NULL;
+    }
+
     //! create a *compound* class to store multiple ! functions in it.
     compound_function* compound = new compound_function(functions, function_args);
 
diff --git a/sources/softs/brdf2brdf/main.cpp b/sources/softs/brdf2brdf/main.cpp
index 7b94d07..c8620ef 100644
--- a/sources/softs/brdf2brdf/main.cpp
+++ b/sources/softs/brdf2brdf/main.cpp
@@ -62,6 +62,11 @@ int main(int argc, char** argv)
 
     // Load the function
     function* f = plugins_manager::load_function(args["input"]);
+    if(f == NULL)
+    {
+        std::cerr << "<<ERROR>> cannot open the function file" << std::endl;
+        return 1;
+    }
 
     // Save it
     f->save(args["output"], args) ;
diff --git a/sources/softs/brdf2data/main.cpp b/sources/softs/brdf2data/main.cpp
index 689d52f..1f46d6f 100644
--- a/sources/softs/brdf2data/main.cpp
+++ b/sources/softs/brdf2data/main.cpp
@@ -125,6 +125,7 @@ int main(int argc, char** argv)
    else
    {
       std::cerr << "<<ERROR>> cannot import function or export data" << std::endl ;
+      return 1 ;
    }
 
    return 0 ;
diff --git a/sources/softs/data2brdf/main.cpp b/sources/softs/data2brdf/main.cpp
index e8b0c4c..a0c2662 100644
--- a/sources/softs/data2brdf/main.cpp
+++ b/sources/softs/data2brdf/main.cpp
@@ -121,7 +121,9 @@ int main(int argc, char** argv)
 		}
 		CATCH_FILE_IO_ERROR(args["input"]);
 
-    ptr<function> f = ptr<function>(plugins_manager::get_function(args, d->parametrization()));
+    ptr<function> f;
+    if(d)
+        f = ptr<function>(plugins_manager::get_function(args, d->parametrization()));
 
     if(!f || !d)
     {
diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index b1b4df3..90e3961 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -359,7 +359,8 @@ int main(int argc, char** argv)
 
 	if(!d_in)
 	{
-		std::cout << "<<INFO>> Input data will be treated as ALTA format" << std::endl;
+		std::cerr << "<<ERROR>> Cannot import data" << std::endl;
+		return EXIT_FAILURE;
 	}
 
 
-- 
2.43.0


From 7ef99ea00bc19e81aeb626204519414f9590d163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:43 +0000
Subject: [PATCH 50/67] fix: the starting point of sums and products (option
 bootstrap)

Fixed parts, and the options of every part, were never bootstrapped when a
vector was given; a file without header was read forever and a missing file
left the parameters uninitialised; parts absent from the file were given the
starting point of the whole. A single function could not be bootstrapped from
a saved file, whose header was not skipped.
---
 sources/core/args.h       |  6 +++
 sources/core/function.cpp | 86 ++++++++++++++++++++++++---------------
 2 files changed, 60 insertions(+), 32 deletions(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index bdccc7c..eb66ca7 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -159,6 +159,12 @@ class arguments
         _map[key] = val;
     }
 
+    //! \brief forget the option \a key
+    void remove(const std::string& key)
+    {
+        _map.erase(key);
+    }
+
     //! \brief acces to the string value associated with the parameter
 		//! \a key.
 		//!
diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index c5358c6..dc36ed5 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -22,6 +22,18 @@ using namespace alta;
 
 /*--- Functions implementation ----*/
 
+// Move FILE after the header of a function file. Return false if there is no
+// such file or if it has no header.
+static bool skip_header(std::ifstream& file)
+{
+	std::string line ;
+	while(file.good() && line != "#ALTA HEADER END")
+	{
+		std::getline(file, line) ;
+	}
+	return line == "#ALTA HEADER END";
+}
+
 void function::bootstrap(const ptr<data>, const arguments& args)
 {
   #ifdef BOOTSTRAP_DEBUG
@@ -34,15 +46,21 @@ void function::bootstrap(const ptr<data>, const arguments& args)
     std::ifstream in(args["bootstrap"].c_str());
     if(in.is_open())
     {
+      // The file can be one that was saved by ALTA, or only its body
+      if(!skip_header(in))
+      {
+        in.clear();
+        in.seekg(0);
+      }
+
       if(!load(in))
 			{
 				std::cerr << "<<ERROR>> cannot bootstrap from file \"" << args["bootstrap"] << "\"" << std::endl;
 			}
     }
-    else // No file for the boostrap arguments
+    else
     {
-      std::cerr << " Bootstrapping from command line is not implemented" << std::endl;
-			NOT_IMPLEMENTED();
+      std::cerr << "<<ERROR>> unable to open the file to bootstrap from, \"" << args["bootstrap"] << "\"" << std::endl;
     }
   }//end of if bootstrap is defined and not empty
     
@@ -399,6 +417,14 @@ vec nonlinear_function::getParametersMin() const
 
 
 
+// Return ARGS without the bootstrap option, for the functions that have to
+// start from their own default.
+static arguments regular_bootstrap(arguments args)
+{
+	args.remove("bootstrap");
+	return args;
+}
+
 /*--- Compound functions implementation ----*/
 compound_function::~compound_function()
 {
@@ -550,16 +576,15 @@ void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
 	{
 		if(args.is_vec("bootstrap"))
 		{
-			vec p = args.get_vec("bootstrap", nbParameters());
-			setParameters(p);
-		
+			// The vector has no values for the fixed functions: they start from
+			// their own bootstrap.
 			for(unsigned int i=0; i<fs.size(); ++i)
 			{
-				if(fs[i]->nbParameters() == 0)
-				{
-					fs[i]->bootstrap(d, fs_args[i]);
-				}
+				fs[i]->bootstrap(d, is_fixed[i] ? fs_args[i] : regular_bootstrap(fs_args[i]));
 			}
+
+			vec p = args.get_vec("bootstrap", nbParameters());
+			setParameters(p);
       std::cout << "<<DEBUG>> Number of parameters for compound function: " << nbParameters() << std::endl;
       std::cout << "<<INFO>> Will use " << p << " as a bootstrap vector for the compound non-linear function" << std::endl;
 		}
@@ -567,16 +592,8 @@ void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
 		{
 			std::ifstream file;
 			file.open(args["bootstrap"].c_str()) ;
-			if(file.is_open())
+			if(skip_header(file))
 			{
-				// Skip the header
-				std::string line ;
-				do
-				{
-					std::getline(file, line) ;
-				}
-				while(line != "#ALTA HEADER END");
-
 				// Load the file
 				// For each individual element, the input file is parsed
 				// in order. if the function cannot parse it, the file is
@@ -597,7 +614,7 @@ void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
 							file.seekg(pos);
 
 							// Bootstrap the function as if it was not loaded
-							f1->bootstrap(d, args);
+							f1->bootstrap(d, regular_bootstrap(fs_args[i]));
 							std::cout << "<<DEBUG>> Unable to load first function of product, regular bootstraping" << std::endl;
 						}
 
@@ -609,7 +626,7 @@ void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
 							file.seekg(pos);
 
 							// Bootstrap the function as if it was not loaded
-							f2->bootstrap(d, args);
+							f2->bootstrap(d, regular_bootstrap(fs_args[i]));
 							std::cout << "<<DEBUG>> Unable to load second function of product, regular bootstraping" << std::endl;
 						}
 					}
@@ -631,6 +648,11 @@ void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
 			else
 			{
 				std::cerr << "<<ERROR>> you must provide a vector of parameters or a file to load with the bootstrap" << std::endl;
+
+				for(unsigned int i=0; i<fs.size(); ++i)
+				{
+					fs[i]->bootstrap(d, fs_args[i]);
+				}
 			}
 		}
 	}
@@ -958,6 +980,11 @@ void product_function::bootstrap(const ptr<data> d, const arguments& args)
 	{
 		if(args.is_vec("bootstrap"))
 		{
+			// The vector has no values for a fixed function: it starts from its
+			// own bootstrap.
+			f1->bootstrap(d, regular_bootstrap(args));
+			f2->bootstrap(d, regular_bootstrap(args));
+
 			vec p = args.get_vec("bootstrap", nbParameters());
 			setParameters(p);
 		}
@@ -965,16 +992,8 @@ void product_function::bootstrap(const ptr<data> d, const arguments& args)
 		{
 			std::ifstream file;
 			file.open(args["bootstrap"].c_str()) ;
-			if(file.is_open())
+			if(skip_header(file))
 			{
-				// Skip the header
-				std::string line ;
-				do
-				{
-					std::getline(file, line) ;
-				}
-				while(line != "#ALTA HEADER END");
-
 				std::streampos pos = file.tellg();
 
 				// If the first function cannot be loaded, put the input stream
@@ -984,7 +1003,7 @@ void product_function::bootstrap(const ptr<data> d, const arguments& args)
 					file.seekg(pos);
 
 					// Bootstrap the function as if it was not loaded
-					f1->bootstrap(d, args);
+					f1->bootstrap(d, regular_bootstrap(args));
 					std::cout << "<<DEBUG>> Unable to load first function of product, regular bootstraping" << std::endl;
 				}
 				
@@ -995,13 +1014,16 @@ void product_function::bootstrap(const ptr<data> d, const arguments& args)
 					file.seekg(pos);
 
 					// Bootstrap the function as if it was not loaded
-					f2->bootstrap(d, args);
+					f2->bootstrap(d, regular_bootstrap(args));
 					std::cout << "<<DEBUG>> Unable to load second function of product, regular bootstraping" << std::endl;
 				}
 			}
 			else
 			{
 				std::cerr << "<<ERROR>> you must provide a vector of parameters or a file to load with the bootstrap" << std::endl;
+
+				f1->bootstrap(d, regular_bootstrap(args));
+				f2->bootstrap(d, regular_bootstrap(args));
 			}
 		}
 	}
-- 
2.43.0


From c08d3dd67f9603afb6e10fa9a195f925c25cfa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:43 +0000
Subject: [PATCH 51/67] fix: models start from the parameters given with the
 option bootstrap

All models but Beckmann ignored the vector or file, and Beckmann was left
without parameters when the file could not be read.
---
 .../function.cpp                              |  6 +++++
 .../function.cpp                              |  6 +++++
 .../nonlinear_fresnel_schlick/function.cpp    |  6 +++++
 .../nonlinear_function_abc/function.cpp       |  6 +++++
 .../nonlinear_function_beckmann/function.cpp  | 27 +++++++++----------
 .../nonlinear_function_blinn/function.cpp     |  6 +++++
 .../function.cpp                              |  6 +++++
 .../nonlinear_function_lafortune/function.cpp |  6 +++++
 .../function.cpp                              |  6 +++++
 .../function.cpp                              |  6 +++++
 .../nonlinear_function_retroyoo/function.cpp  |  8 +++++-
 .../function.cpp                              |  6 +++++
 .../nonlinear_function_ward/function.cpp      |  6 +++++
 .../nonlinear_shadowing_schlick/function.cpp  |  8 +++++-
 .../nonlinear_shadowing_smith/function.cpp    |  6 +++++
 .../function.cpp                              |  6 +++++
 16 files changed, 105 insertions(+), 16 deletions(-)

diff --git a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
index 0ed36d5..eda8799 100644
--- a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
@@ -209,5 +209,11 @@ void schlick::bootstrap(const ptr<data> d, const arguments& args)
         R[i] = 0.5; 
     }
     
+    // Start from the parameters given by the user, if any
+    if(args.is_defined("bootstrap"))
+    {
+        nonlinear_function::bootstrap(d, args);
+    }
+
     std::cout << "<<INFO>> Normalized Fresnel with Schlick Approx. Fit will start from " << R << std::endl;
 }
diff --git a/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp b/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp
index 03ed6b5..7f548ec 100644
--- a/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp
@@ -117,6 +117,12 @@ vec retro_schlick::getParametersMax() const
 void retro_schlick::bootstrap(const ptr<data> d, const arguments& args)
 {
 	for(int i=0; i<_parameters.dimY(); ++i) {R[i] = 0.5; }
+
+	// Start from the parameters given by the user, if any
+	if(args.is_defined("bootstrap"))
+	{
+		nonlinear_function::bootstrap(d, args);
+	}
 }
 
 //! Load function specific files
diff --git a/sources/plugins/nonlinear_fresnel_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_schlick/function.cpp
index 8d6521b..87b12b9 100644
--- a/sources/plugins/nonlinear_fresnel_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_schlick/function.cpp
@@ -204,4 +204,10 @@ vec schlick_fresnel::parametersJacobian(const vec& x) const
 void schlick_fresnel::bootstrap(const ptr<data> d, const arguments& args)
 {
     for(int i=0; i<_parameters.dimY(); ++i) { R[i] = 0.5; }
+
+	// Start from the parameters given by the user, if any
+	if(args.is_defined("bootstrap"))
+	{
+		nonlinear_function::bootstrap(d, args);
+	}
 }
diff --git a/sources/plugins/nonlinear_function_abc/function.cpp b/sources/plugins/nonlinear_function_abc/function.cpp
index 81d5be4..ff61c03 100644
--- a/sources/plugins/nonlinear_function_abc/function.cpp
+++ b/sources/plugins/nonlinear_function_abc/function.cpp
@@ -170,6 +170,12 @@ void abc_function::bootstrap(const ptr<data> d, const arguments& args)
 	{
 		std::cerr << "<<ERROR>> the parametrization specifed in the file for the ABC model is incorrect" << std::endl;
 	}
+
+	// Start from the parameters given by the user, if any
+	if(args.is_defined("bootstrap"))
+	{
+		nonlinear_function::bootstrap(d, args);
+	}
 }
 
 //! Load function specific files
diff --git a/sources/plugins/nonlinear_function_beckmann/function.cpp b/sources/plugins/nonlinear_function_beckmann/function.cpp
index 0fe264c..8316e03 100644
--- a/sources/plugins/nonlinear_function_beckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_beckmann/function.cpp
@@ -178,21 +178,20 @@ vec beckmann_function::parametersJacobian(const vec& x) const
 		
 void beckmann_function::bootstrap(const ptr<data> d, const arguments& args)
 {
-  if( args.is_defined("bootstrap") )
-  {
+	// Default starting point
+	for(int i=0; i<_parameters.dimY(); ++i)
+	{
+		_ks[i] = 1.0;
+		_a[i]  = 1.0;
+	}
+
+	if( args.is_defined("bootstrap") )
+	{
 		#ifdef BOOTSTRAP_DEBUG
-	  std::cout << __FILE__ << " " << __LINE__ << " args = " << args << std::endl;
-	  #endif
-  	nonlinear_function::bootstrap(d, args);
-  }
-  else //DEFAULT BOOTSTRAPING
-  {
-		for(int i=0; i<_parameters.dimY(); ++i)
-		{
-			_ks[i] = 1.0;
-			_a[i]  = 1.0;
-		}
-  }
+		std::cout << __FILE__ << " " << __LINE__ << " args = " << args << std::endl;
+		#endif
+		nonlinear_function::bootstrap(d, args);
+	}
 
 	std::cout << "<<INFO>> Beckman Function. Fit will start with ks = " << _ks 
 						<< " and a = " << _a << " " << std::endl;
diff --git a/sources/plugins/nonlinear_function_blinn/function.cpp b/sources/plugins/nonlinear_function_blinn/function.cpp
index 0018de8..e63fd15 100644
--- a/sources/plugins/nonlinear_function_blinn/function.cpp
+++ b/sources/plugins/nonlinear_function_blinn/function.cpp
@@ -182,6 +182,12 @@ void blinn_function::bootstrap(const ptr<data> d, const arguments& args)
         _ks[i] = 1.0;
         _N[i]  = 10.0;
     }
+
+	// Start from the parameters given by the user, if any
+	if(args.is_defined("bootstrap"))
+	{
+		nonlinear_function::bootstrap(d, args);
+	}
 }
 
 void blinn_function::save_call(std::ostream& out, 
diff --git a/sources/plugins/nonlinear_function_isotropic_lafortune/function.cpp b/sources/plugins/nonlinear_function_isotropic_lafortune/function.cpp
index fe4f833..5fd699e 100644
--- a/sources/plugins/nonlinear_function_isotropic_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_isotropic_lafortune/function.cpp
@@ -307,6 +307,12 @@ void isotropic_lafortune_function::bootstrap(const ptr<data> d, const arguments&
 				_N[n*_parameters.dimY()  + i]        = (double)_n;
 			}
 	}
+
+	// Start from the parameters given by the user, if any
+	if(args.is_defined("bootstrap"))
+	{
+		nonlinear_function::bootstrap(d, args);
+	}
 }
 
 std::ofstream& type_definition(std::ofstream& out, int nY)
diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index f2a7eff..9046dc6 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -335,6 +335,12 @@ void lafortune_function::bootstrap(const ptr<data> d, const arguments& args)
             _C[(n*nY + i)*3 + 2] = cos(theta);
             _N[n*nY  + i]        = (double)_n;
         }
+
+	// Start from the parameters given by the user, if any
+	if(args.is_defined("bootstrap"))
+	{
+		nonlinear_function::bootstrap(d, args);
+	}
 }
 
 std::ofstream& type_definition(std::ofstream& out, int nY)
diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index fe19e61..d03cf2c 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -181,6 +181,12 @@ void beckmann_function::bootstrap(const ptr<data> d, const arguments& args)
 	{
 		_use_back_param = true;
 	}
+
+	// Start from the parameters given by the user, if any
+	if(args.is_defined("bootstrap"))
+	{
+		nonlinear_function::bootstrap(d, args);
+	}
 }
 
 //! Load function specific files
diff --git a/sources/plugins/nonlinear_function_retroblinn/function.cpp b/sources/plugins/nonlinear_function_retroblinn/function.cpp
index 05d4d3e..dc4161f 100644
--- a/sources/plugins/nonlinear_function_retroblinn/function.cpp
+++ b/sources/plugins/nonlinear_function_retroblinn/function.cpp
@@ -168,6 +168,12 @@ void retroblinn_function::bootstrap(const ptr<data> d, const arguments& args)
         _ks[i] = 1.0;
         _N[i]  = 1.0;
     }
+
+	// Start from the parameters given by the user, if any
+	if(args.is_defined("bootstrap"))
+	{
+		nonlinear_function::bootstrap(d, args);
+	}
 }
 
 void retroblinn_function::save_call(std::ostream& out, 
diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index 4556531..c8e415b 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -133,13 +133,19 @@ vec yoo_function::parametersJacobian(const vec& x) const
 	return jac;
 }
 		
-void yoo_function::bootstrap(const ptr<data>, const arguments&)
+void yoo_function::bootstrap(const ptr<data> d, const arguments& args)
 {
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
 		_kr[i] = 1.0;
 		_lt[i] = 1.0;
 	}
+
+	// Start from the parameters given by the user, if any
+	if(args.is_defined("bootstrap"))
+	{
+		nonlinear_function::bootstrap(d, args);
+	}
 }
 
 //! Load function specific files
diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index 80818af..a56f54c 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -263,6 +263,12 @@ void spherical_gaussian_function::bootstrap(const ptr<data> d, const arguments&
 			_a = 1.0;
 		}
 	}
+
+	// Start from the parameters given by the user, if any
+	if(args.is_defined("bootstrap"))
+	{
+		nonlinear_function::bootstrap(d, args);
+	}
 }
 
 //! Load function specific files
diff --git a/sources/plugins/nonlinear_function_ward/function.cpp b/sources/plugins/nonlinear_function_ward/function.cpp
index 5e0ad9b..8047265 100644
--- a/sources/plugins/nonlinear_function_ward/function.cpp
+++ b/sources/plugins/nonlinear_function_ward/function.cpp
@@ -174,6 +174,12 @@ void ward_function::bootstrap(const ptr<data> d, const arguments& args)
     {
         isotropic = true;
     }
+
+	// Start from the parameters given by the user, if any
+	if(args.is_defined("bootstrap"))
+	{
+		nonlinear_function::bootstrap(d, args);
+	}
 }
 
 //! Load function specific files
diff --git a/sources/plugins/nonlinear_shadowing_schlick/function.cpp b/sources/plugins/nonlinear_shadowing_schlick/function.cpp
index 3646faa..fcf8da5 100644
--- a/sources/plugins/nonlinear_shadowing_schlick/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_schlick/function.cpp
@@ -197,8 +197,14 @@ vec schlick_masking::parametersJacobian(const vec& x) const
 }
 
 
-void schlick_masking::bootstrap(const ptr<data>, const arguments&)
+void schlick_masking::bootstrap(const ptr<data> d, const arguments& args)
 {
 	// Start with a non occluding value for k
     for(int i=0; i<_parameters.dimY(); ++i) { w[i] = 0.0; }
+
+	// Start from the parameters given by the user, if any
+	if(args.is_defined("bootstrap"))
+	{
+		nonlinear_function::bootstrap(d, args);
+	}
 }
diff --git a/sources/plugins/nonlinear_shadowing_smith/function.cpp b/sources/plugins/nonlinear_shadowing_smith/function.cpp
index cb0c666..bc4a622 100644
--- a/sources/plugins/nonlinear_shadowing_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_smith/function.cpp
@@ -249,4 +249,10 @@ vec smith::parametersJacobian(const vec& x) const
 void smith::bootstrap(const ptr<data> d, const arguments& args)
 {
     for(int i=0; i<_parameters.dimY(); ++i) { w[i] = 1.0; }
+
+	// Start from the parameters given by the user, if any
+	if(args.is_defined("bootstrap"))
+	{
+		nonlinear_function::bootstrap(d, args);
+	}
 }
diff --git a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
index ba909e9..bc36b05 100644
--- a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
@@ -310,6 +310,12 @@ WalterSmith::bootstrap(const ptr<data> d, const arguments& args)
   { 
     _alpha[i] = 1.0; 
   }
+
+	// Start from the parameters given by the user, if any
+	if(args.is_defined("bootstrap"))
+	{
+		nonlinear_function::bootstrap(d, args);
+	}
 }
 
 double  WalterSmith::shadowTerm( double a ) const 
-- 
2.43.0


From 202de2d4a70ef578ee15610310de74cd23356c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:11 +0000
Subject: [PATCH 52/67] fix: tools refuse data that cannot be loaded
 (brdf2gnuplot, data2moments, text without DIM)

---
 sources/core/data_storage.cpp       | 2 +-
 sources/softs/data2moments/main.cpp | 7 +++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index e7e4623..f20c019 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -160,7 +160,7 @@ alta::data* alta::load_data_from_text(std::istream& input,
   if(! header.is_defined("DIM")) {
     std::cerr << "<<ERROR>> Undefined dimensions ! ";
     std::cerr << "Please add DIM [int] [int] into the file header." << std::endl;
-    throw;
+    return NULL;
   }
 
   params::input  in_param  = params::parse_input(header.get_string("PARAM_IN", "UNKNOWN_INPUT"));
diff --git a/sources/softs/data2moments/main.cpp b/sources/softs/data2moments/main.cpp
index 540a243..aa0f56d 100644
--- a/sources/softs/data2moments/main.cpp
+++ b/sources/softs/data2moments/main.cpp
@@ -92,11 +92,11 @@ int main(int argc, char** argv)
 		return 1;
 	}
 
-	// Create output file
-	std::ofstream file(args["output"].c_str(), std::ios_base::trunc);
-
 	if(d)
 	{
+		// Create output file
+		std::ofstream file(args["output"].c_str(), std::ios_base::trunc);
+
 		// Data parametrization
 		/*params::input data_param = d->parametrization();*/
 		const int nX = d->parametrization().dimX();
@@ -349,7 +349,6 @@ int main(int argc, char** argv)
 	}
 	else
 	{
-		file.close();
 		std::cerr << "<<ERROR>> unable to load file \"" << args["input"] << "\"" << std::endl ;
 		return 1;
 	}
-- 
2.43.0


From f53d40244d4fd75c6392f3064e501bbc8c4bb581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:11 +0000
Subject: [PATCH 53/67] fix: brdf2gnuplot takes the cosines of the sample's own
 directions, and refuses missing data

---
 sources/softs/brdf2gnuplot/main.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sources/softs/brdf2gnuplot/main.cpp b/sources/softs/brdf2gnuplot/main.cpp
index 5eaa060..2f18415 100644
--- a/sources/softs/brdf2gnuplot/main.cpp
+++ b/sources/softs/brdf2gnuplot/main.cpp
@@ -88,6 +88,12 @@ int main(int argc, char** argv)
     }
     CATCH_FILE_IO_ERROR (args["data-file"]);
 
+    if(!d)
+    {
+        std::cerr << "<<ERROR>> unable to load the data file \"" << args["data-file"] << "\"" << std::endl;
+        return 1;
+    }
+
 		// Create output file now that we are sure that needed data are loaded
 		std::ofstream file(args["output"].c_str(), std::ios_base::trunc);
 		file.precision(10);
@@ -137,7 +143,7 @@ int main(int argc, char** argv)
 			if(cos_plot) 
 			{
 				double cart[6];
-				params::convert(&x[0], f->parametrization().input_parametrization(),
+				params::convert(&v[0], d->parametrization().input_parametrization(),
                         params::CARTESIAN, cart);
 				costerm = cart[5]*cart[2];
 			}
-- 
2.43.0


From 2257ca3b31034de3c8d7041edaebd1a45368ee68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:11 +0000
Subject: [PATCH 54/67] fix: data_rbf gives back the samples of its file, and
 refuses a file without data

---
 sources/plugins/data_interpolants/rbf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/data_interpolants/rbf.cpp b/sources/plugins/data_interpolants/rbf.cpp
index 01a4ca9..14a1ab5 100644
--- a/sources/plugins/data_interpolants/rbf.cpp
+++ b/sources/plugins/data_interpolants/rbf.cpp
@@ -127,8 +127,7 @@ class rbf_interpolant : public data
 		// Acces to data
 		virtual vec get(int id) const
 		{
-			vec res(parametrization().dimX() + parametrization().dimY()) ;
-			return res ;
+			return _data->get(id) ;
 		}
 		virtual vec operator[](int i) const
 		{
@@ -219,6 +218,7 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
     // Load the data
     ptr<data> proxied = plugins_manager::load_data("vertical_segment",
                                                    input, args);
+    if(!proxied) { return NULL; }
 
     return new rbf_interpolant(proxied);
 }
-- 
2.43.0


From 0d41cd0f58f86ba87aa221bddeb61253a6225eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:11 +0000
Subject: [PATCH 55/67] fix: a saved grid is loaded back instead of aborting

---
 sources/plugins/data_interpolants/grid.cpp | 36 ++++++++++++----------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index 83ae325..f25a095 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -374,20 +374,24 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input,
                                 const arguments& args)
 {
     arguments header = arguments::parse_header(input);
-
-#ifdef __GNUC__
-# warning FIXME we are not returning a "BrdfGrid"
-#endif
-    // We should probably rewrite this class as a transformation from 'data'
-    // to 'data'.
-
-    abort();
-#if 0
-    BrdfGrid* result = new BrdfGrid(args);
-
-    // XXX: Should be done in constructor.
-    result->initialize(header, false);
-#endif
-
-    return load_data_from_text(input, header);
+    ptr<data> samples(load_data_from_text(input, header, args));
+    if(!samples) { return NULL; }
+
+    // The header tells the size of the grid
+    arguments grid_args;
+    if(header.is_defined("grid-size")) {
+       grid_args.update("grid-size", header["grid-size"]);
+    }
+
+    const int N = BrdfGrid::grid_samples(samples->parametrization(), grid_args);
+    if(samples->size() != N) {
+       std::cerr << "<<ERROR>> the number of samples is not the size of the grid" << std::endl;
+       return NULL;
+    }
+
+    data* result = new BrdfGrid(N, samples->parametrization(), grid_args);
+    for(int i=0; i<N; ++i) {
+       result->set(i, samples->get(i));
+    }
+    return result;
 }
-- 
2.43.0


From ad62bc3835afbffb3185a3132eaa29a890f4ea4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:11 +0000
Subject: [PATCH 56/67] fix: broken ASTM, MERL, UTIA and slice files are
 refused

---
 sources/plugins/data_io/astm.cpp  | 20 +++++++++++++++-----
 sources/plugins/data_io/merl.cpp  | 15 ++++++++++++---
 sources/plugins/data_io/slice.cpp |  5 ++++-
 sources/plugins/data_io/utia.cpp  | 18 ++++++++++++++++--
 4 files changed, 47 insertions(+), 11 deletions(-)

diff --git a/sources/plugins/data_io/astm.cpp b/sources/plugins/data_io/astm.cpp
index 16950cc..2e311e9 100644
--- a/sources/plugins/data_io/astm.cpp
+++ b/sources/plugins/data_io/astm.cpp
@@ -145,6 +145,10 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 		// Parse the header, get the output/input dimensions and params
 		arguments header = parse_header(input);
     auto vars = header.get_vec<std::string>("VARS");
+    if(vars.empty() || header.get_int("NUM_POINTS", -1) < 0) {
+        std::cerr << "<<ERROR>> the file has no ASTM header" << std::endl;
+        return NULL;
+    }
     auto params = compute_parameters(vars);
 
     // Check data size from header
@@ -157,10 +161,12 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 
     for (size_t i = 0; i < size * n; i += n)
     {
-        assert(input.good());
-
 	do {
-	    std::getline(input, line);
+	    if(!std::getline(input, line)) {
+	        std::cerr << "<<ERROR>> the file has less points than announced" << std::endl;
+	        delete[] data;
+	        return NULL;
+	    }
 	} while(line.size() == 0 || line.rfind(',') == std::string::npos);
 
         std::replace(line.begin(), line.end(), ',', ' ');
@@ -169,11 +175,15 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
         // a vec of dim parametrization().dimX() + parametrization().dimY().
         std::stringstream stream(line);
         for(int j = 0; j < n; ++j) {
-            stream >> data[i + j];
+            if(!(stream >> data[i + j])) {
+                std::cerr << "<<ERROR>> a point has less values than announced" << std::endl;
+                delete[] data;
+                return NULL;
+            }
         }
     }
 
-    return new ASTM(params, size, std::shared_ptr<double>(data));
+    return new ASTM(params, size, std::shared_ptr<double>(data, std::default_delete<double[]>()));
 }
 
 }
diff --git a/sources/plugins/data_io/merl.cpp b/sources/plugins/data_io/merl.cpp
index 5042c55..82d0e8a 100644
--- a/sources/plugins/data_io/merl.cpp
+++ b/sources/plugins/data_io/merl.cpp
@@ -426,7 +426,11 @@ private: //methods
 static bool read_brdf(std::istream& input, double* &brdf)
 {
 		int dims[3];
-    input.read((char *) &dims, sizeof dims);
+    if (!input.read((char *) &dims, sizeof dims))
+		{
+        fprintf(stderr, "The file has no dimensions\n");
+        return false;
+		}
 		int n = dims[0] * dims[1] * dims[2];
 		if (n != BRDF_SAMPLING_RES_THETA_H *
         BRDF_SAMPLING_RES_THETA_D *
@@ -436,7 +440,11 @@ static bool read_brdf(std::istream& input, double* &brdf)
         return false;
 		}
 
-    input.read((char *) brdf, 3 * n * sizeof(double));
+    if (!input.read((char *) brdf, 3 * n * sizeof(double)))
+		{
+        fprintf(stderr, "The file ends before its last value\n");
+        return false;
+		}
 
 		return true;
 }
@@ -455,7 +463,8 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
     if(!read_brdf(input, result->brdf))
 		{
         std::cerr << "<<ERROR>> unable to load the data as a MERL file" << std::endl ;
-        throw;
+        delete result;
+        return NULL;
 		}
 
     return result;
diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index ed6fb3f..0d0afa8 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -273,7 +273,10 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 {
     int width, height, slice = 1;
     double *data;
-    t_EXR_IO<double>::LoadEXR(input, width, height, data);
+    if(!t_EXR_IO<double>::LoadEXR(input, width, height, data)) {
+        std::cerr << "<<ERROR>> unable to load image file" << std::endl;
+        return NULL;
+    }
 
     BrdfSlice* result = new BrdfSlice(args, width, height, slice, data);
 
diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index 9fd923e..b3e098a 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -321,7 +321,17 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 	if(filename.substr(filename.find_last_of(".") + 1) == "exr") {
 		// EXR data reading
 		double *temp; int W, H;
-    	t_EXR_IO<double>::LoadEXR(input, W, H, temp);
+		if(!t_EXR_IO<double>::LoadEXR(input, W, H, temp)) {
+			std::cerr << "<<ERROR>> unable to load the data as an EXR file" << std::endl;
+			delete result;
+			return NULL;
+		}
+		if(W != result->npi*result->nti || H != result->npv*result->ntv) {
+			std::cerr << "<<ERROR>> the image has not the size of an UTIA file" << std::endl;
+			delete[] temp;
+			delete result;
+			return NULL;
+		}
 
 		// Data copy
 		for(int i=0; i<H; ++i)
@@ -338,7 +348,11 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 	} else {
 		int count = result->planes * result->nti * result->npi
                                    * result->ntv * result->npv;
-		input.read((char*)result->Bd, count*sizeof(double));
+		if(!input.read((char*)result->Bd, count*sizeof(double))) {
+			std::cerr << "<<ERROR>> unable to load the data as an UTIA file" << std::endl;
+			delete result;
+			return NULL;
+		}
 		std::cout << "<<INFO>> Successfully read binary BRDF file" << std::endl;
 	}
 
-- 
2.43.0


From 6c3310b9add3d125b590656f9d7e65e00a7b1c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:14 +0000
Subject: [PATCH 57/67] fix: truncated EXR images are refused, and a failed
 save is reported

---
 sources/plugins/data_io/EXR_IO.h | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/sources/plugins/data_io/EXR_IO.h b/sources/plugins/data_io/EXR_IO.h
index 408c67a..9d67613 100644
--- a/sources/plugins/data_io/EXR_IO.h
+++ b/sources/plugins/data_io/EXR_IO.h
@@ -36,23 +36,17 @@ class t_EXR_IO
 		{
 			/* Convert the input std::istream into an unsigned char array */
 			std::vector<unsigned char> _memory;
-			size_t _n = 0, _m = 0;
-			while(input.good()) {
-				if(_n == _m) {
-					_m += 256;
-					_memory.resize(_m);
-				}
-
-				_memory[_n++] = (unsigned char)input.get();
+			for(int _c = input.get(); input.good(); _c = input.get()) {
+				_memory.push_back((unsigned char)_c);
 			}
 
 			/* Check the different part of loading */
 			int _r = -1;
-			const char* _err;
+			const char* _err = NULL;
 
 			/* Load the EXR version using TinyEXR */
 			EXRVersion _version;
-			_r = ParseEXRVersionFromMemory(&_version, &_memory[0], _memory.size());
+			_r = ParseEXRVersionFromMemory(&_version, _memory.data(), _memory.size());
 			if(_r != TINYEXR_SUCCESS) {
 				std::cerr << "<<ERROR>> Could not load EXR version from stream" << std::endl;
 				return false;
@@ -63,10 +57,10 @@ class t_EXR_IO
 			/* Load the EXR header */
 			EXRHeader _header;
   			InitEXRHeader(&_header);
-			_r = ParseEXRHeaderFromMemory(&_header, &_version, &_memory[0], _memory.size(), &_err);
+			_r = ParseEXRHeaderFromMemory(&_header, &_version, _memory.data(), _memory.size(), &_err);
 			if(_r != TINYEXR_SUCCESS) {
 				std::cerr << "<<ERROR>> Could not load EXR header from stream" << std::endl;
-				std::cerr << "<<ERROR>> " << _err << std::endl;
+				std::cerr << "<<ERROR>> " << (_err ? _err : "") << std::endl;
 				return false;
 			} else {
 				std::cout << "<<DEBUG>> Loading a " << _header.num_channels << " channels EXR file" << std::endl;
@@ -81,10 +75,10 @@ class t_EXR_IO
 			EXRImage _image;
   			InitEXRImage(&_image);
 
-			_r = LoadEXRImageFromMemory(&_image, &_header, &_memory[0], _memory.size(), &_err);
+			_r = LoadEXRImageFromMemory(&_image, &_header, _memory.data(), _memory.size(), &_err);
 			if (_r != TINYEXR_SUCCESS) {
 				std::cerr << "<<ERROR>> Could not load EXR image from stream" << std::endl;
-				std::cerr << "<<ERROR>> " << _err << std::endl;
+				std::cerr << "<<ERROR>> " << (_err ? _err : "") << std::endl;
 				return false;
 			} else {
 				std::cout << "<<DEBUG>> Loading a " << _image.width << "x" << _image.height << " EXR file" << std::endl;
@@ -97,7 +91,7 @@ class t_EXR_IO
 			/* Recopy the image into the provided pixel array */
 			W = _image.width;
 			H = _image.height;
-			pix = new FType[W*H*3];
+			pix = new FType[W*H*3]();
 			for(int k=0; k<_image.num_channels; ++k) {
 				for(int i=0; i<W*H; ++i) {
 					const FType val = (FType)(reinterpret_cast<float **>(_image.images)[k][i]);
@@ -172,12 +166,12 @@ class t_EXR_IO
 				header.requested_pixel_types[i] = TINYEXR_PIXELTYPE_FLOAT; // pixel type of output image to be stored in .EXR
 			}
 
-			const char* err;
+			const char* err = NULL;
 			int ret = SaveEXRImageToFile(&image, &header, filename, &err);
 			if (ret != TINYEXR_SUCCESS) {
 				std::cerr << "<<ERROR>> Unable to save to EXR file" << std::endl;
-				std::cerr << "<<ERROR>> " << err << std::endl;
-				return ret;
+				std::cerr << "<<ERROR>> " << (err ? err : "") << std::endl;
+				return false;
 			}
 
 			free(header.channels);
-- 
2.43.0


From 7f7b2a3aa1abfbb13ad28f94808d7c5a4f3dc6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:59 +0000
Subject: [PATCH 58/67] fix: an output that cannot be written is an error

---
 sources/core/data.cpp                      |  2 +-
 sources/core/function.cpp                  |  7 +++++++
 sources/plugins/data_interpolants/grid.cpp |  2 +-
 sources/plugins/data_io/merl.cpp           | 13 ++++++++++---
 sources/plugins/data_io/slice.cpp          |  2 +-
 sources/plugins/data_io/utia.cpp           | 10 ++++++++--
 sources/softs/brdf2brdf/main.cpp           |  5 ++++-
 sources/softs/brdf2data/main.cpp           |  6 +++++-
 sources/softs/brdf2gnuplot/main.cpp        | 12 +++++++++++-
 sources/softs/data2brdf/main.cpp           |  5 ++++-
 sources/softs/data2data/main.cpp           | 11 +++++++++--
 sources/softs/data2moments/main.cpp        |  5 +++++
 sources/softs/data2stats/data2stats.cpp    |  4 +++-
 13 files changed, 69 insertions(+), 15 deletions(-)

diff --git a/sources/core/data.cpp b/sources/core/data.cpp
index 8008b15..3811121 100644
--- a/sources/core/data.cpp
+++ b/sources/core/data.cpp
@@ -21,7 +21,7 @@ void data::save(const std::string& filename) const
 
     file.exceptions(std::ios_base::failbit);
     file.open(filename.c_str(), std::ios_base::trunc);
-    file.exceptions(std::ios_base::goodbit);
+    file.exceptions(std::ios_base::failbit | std::ios_base::badbit);
 
         alta::save_data_as_text(file, *this);
 
diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index dc36ed5..9feb1ef 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -142,6 +142,13 @@ void function::save(const std::string& filename, const arguments& args) const
 	{
 		file << "::end shader" << std::endl;
 	}
+
+	// Also when the file could not be opened
+	file.close();
+	if(!file)
+	{
+		throw std::ios_base::failure("unable to write the file");
+	}
 }
 		
 //! \brief save the header of the output function file. The header should
diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index f25a095..36482c1 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -277,7 +277,7 @@ class BrdfGrid : public vertical_segment {
 
          file.exceptions(std::ios_base::failbit);
          file.open(filename.c_str(), std::ios_base::trunc);
-         file.exceptions(std::ios_base::goodbit);
+         file.exceptions(std::ios_base::failbit | std::ios_base::badbit);
 
          save_header(file);
 
diff --git a/sources/plugins/data_io/merl.cpp b/sources/plugins/data_io/merl.cpp
index 82d0e8a..9af47f9 100644
--- a/sources/plugins/data_io/merl.cpp
+++ b/sources/plugins/data_io/merl.cpp
@@ -113,6 +113,10 @@ public: // methods
 	void save(const std::string& filename) const
 	{
 		FILE *f = fopen(filename.c_str(), "wb");
+		if(f == NULL)
+		{
+			throw std::ios_base::failure("unable to open the file");
+		}
 
 		int dims[3];
 		dims[0] = BRDF_SAMPLING_RES_THETA_H;
@@ -121,10 +125,13 @@ public: // methods
 
 		const int n = dims[0]*dims[1]*dims[2];
 
-		fwrite(dims, sizeof(int), 3, f);
-		fwrite(brdf, sizeof(double), 3*n, f);
+		const bool written = fwrite(dims, sizeof(int), 3, f) == 3
+		                  && fwrite(brdf, sizeof(double), 3*n, f) == size_t(3*n);
 
-		fclose(f);
+		if(fclose(f) != 0 || !written)
+		{
+			throw std::ios_base::failure("unable to write the file");
+		}
 	}
 
 	// Acces to data
diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index 0d0afa8..8ff681c 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -122,7 +122,7 @@ class BrdfSlice : public data {
 		{
 			if(!t_EXR_IO<double>::SaveEXR(filename.c_str(), _width, _slice*_height, _data))
 			{
-				std::cerr << "<<ERROR>> unable to save image file" << std::endl;
+				throw std::ios_base::failure("unable to save image file");
 			}
 		}
 
diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index b3e098a..a470c1f 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -136,12 +136,18 @@ public:
 	    			temp[3*indexEXR + 1] = Bd[indexUTIA + 1*nPerPlane];
 	    			temp[3*indexEXR + 2] = Bd[indexUTIA + 2*nPerPlane];
 	  			}
-	  		t_EXR_IO<double>::SaveEXR(filename.c_str(), W, H, temp, 3);
+	  		const bool written = t_EXR_IO<double>::SaveEXR(filename.c_str(), W, H, temp, 3);
 			delete[] temp;
+			if(!written) {
+				throw std::ios_base::failure("unable to save image file");
+			}
 		} else {
-			std::ofstream stream(filename.c_str(), std::ios_base::out | std::ios_base::binary);
+			std::ofstream stream;
+			stream.exceptions(std::ios_base::failbit | std::ios_base::badbit);
+			stream.open(filename.c_str(), std::ios_base::out | std::ios_base::binary);
 			// Raw numbers, as load_data reads them
 			stream.write((const char*)Bd, planes*nPerPlane*sizeof(double));
+			stream.close();
 		}
 	}
 
diff --git a/sources/softs/brdf2brdf/main.cpp b/sources/softs/brdf2brdf/main.cpp
index c8620ef..05e0a4b 100644
--- a/sources/softs/brdf2brdf/main.cpp
+++ b/sources/softs/brdf2brdf/main.cpp
@@ -69,7 +69,10 @@ int main(int argc, char** argv)
     }
 
     // Save it
-    f->save(args["output"], args) ;
+    try {
+        f->save(args["output"], args) ;
+    }
+    CATCH_FILE_IO_ERROR(args["output"]);
 
 	return 0 ;
 }
diff --git a/sources/softs/brdf2data/main.cpp b/sources/softs/brdf2data/main.cpp
index 1f46d6f..2096f7f 100644
--- a/sources/softs/brdf2data/main.cpp
+++ b/sources/softs/brdf2data/main.cpp
@@ -120,7 +120,11 @@ int main(int argc, char** argv)
       }  
 
       // Save data to file
-      d->save(args["output"]);
+      try
+      {
+         d->save(args["output"]);
+      }
+      CATCH_FILE_IO_ERROR(args["output"]);
    }  
    else
    {
diff --git a/sources/softs/brdf2gnuplot/main.cpp b/sources/softs/brdf2gnuplot/main.cpp
index 2f18415..d49da5d 100644
--- a/sources/softs/brdf2gnuplot/main.cpp
+++ b/sources/softs/brdf2gnuplot/main.cpp
@@ -180,6 +180,11 @@ int main(int argc, char** argv)
 		}
 
 		file.close();
+		if(!file)
+		{
+			std::cerr << "<<ERROR>> unable to write the output file \"" << args["output"] << "\"" << std::endl;
+			return 1;
+		}
 	}
 	else if(args.is_defined("polar-plot"))
 	{
@@ -224,7 +229,12 @@ int main(int argc, char** argv)
 			for(int k=0; k<f->parametrization().dimY(); ++k) { file << y[k] << "\t"; }
 			file << std::endl;
 		}
-			file.close();
+		file.close();
+		if(!file)
+		{
+			std::cerr << "<<ERROR>> unable to write the output file \"" << args["output"] << "\"" << std::endl;
+			return 1;
+		}
 	}
 
 	return 0 ;
diff --git a/sources/softs/data2brdf/main.cpp b/sources/softs/data2brdf/main.cpp
index a0c2662..f6caff0 100644
--- a/sources/softs/data2brdf/main.cpp
+++ b/sources/softs/data2brdf/main.cpp
@@ -167,7 +167,10 @@ int main(int argc, char** argv)
         args.update("L2",   L2string.str());
         args.update("Linf", Linfstring.str());
 
-        f->save(args["output"], args) ;
+        try {
+            f->save(args["output"], args) ;
+        }
+        CATCH_FILE_IO_ERROR(args["output"]);
 
         return 0;
     }
diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index 90e3961..a21cda3 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -402,14 +402,21 @@ int main(int argc, char** argv)
       try
       {
           std::ofstream out;
-          out.exceptions(std::ios_base::failbit);
+          out.exceptions(std::ios_base::failbit | std::ios_base::badbit);
           out.open(args["output"]);
           save_data_as_binary(out, *d_out);
+          out.close();
       }
       CATCH_FILE_IO_ERROR(args["output"]);
   }
   else
-      d_out->save(args["output"]);
+  {
+      try
+      {
+          d_out->save(args["output"]);
+      }
+      CATCH_FILE_IO_ERROR(args["output"]);
+  }
 
 	return EXIT_SUCCESS;
 }
diff --git a/sources/softs/data2moments/main.cpp b/sources/softs/data2moments/main.cpp
index aa0f56d..988d36a 100644
--- a/sources/softs/data2moments/main.cpp
+++ b/sources/softs/data2moments/main.cpp
@@ -345,6 +345,11 @@ int main(int argc, char** argv)
 #endif
 
 		file.close();
+		if(!file)
+		{
+			std::cerr << "<<ERROR>> unable to write the output file \"" << args["output"] << "\"" << std::endl;
+			return 1;
+		}
 		return 0 ;
 	}
 	else
diff --git a/sources/softs/data2stats/data2stats.cpp b/sources/softs/data2stats/data2stats.cpp
index 8d5a738..e04fca0 100644
--- a/sources/softs/data2stats/data2stats.cpp
+++ b/sources/softs/data2stats/data2stats.cpp
@@ -575,8 +575,10 @@ int main(int argc, char* argv[])
             fwriter << "MSE :"  << mse       << std::endl;
             fwriter << "RMSE :" << rmse      << std::endl;
             fwriter << std::endl;
+            fwriter.close();
+         }
 
-         } else {
+         if(!fwriter.good()) {
             std::cerr << "<<ERROR>> Could not save metrics to "
                       << output_filename << std::endl;
             return EXIT_FAILURE;
-- 
2.43.0


From 4722d9588f4ac53c0090bc9733f2a4930c1e02c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:43 +0000
Subject: [PATCH 59/67] fix: MERL tables of other sizes with the same number of
 cells are refused

---
 sources/plugins/data_io/merl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/data_io/merl.cpp b/sources/plugins/data_io/merl.cpp
index 9af47f9..d01a967 100644
--- a/sources/plugins/data_io/merl.cpp
+++ b/sources/plugins/data_io/merl.cpp
@@ -439,9 +439,9 @@ static bool read_brdf(std::istream& input, double* &brdf)
         return false;
 		}
 		int n = dims[0] * dims[1] * dims[2];
-		if (n != BRDF_SAMPLING_RES_THETA_H *
-        BRDF_SAMPLING_RES_THETA_D *
-        BRDF_SAMPLING_RES_PHI_D / 2)
+		if (dims[0] != BRDF_SAMPLING_RES_THETA_H ||
+        dims[1] != BRDF_SAMPLING_RES_THETA_D ||
+        dims[2] != BRDF_SAMPLING_RES_PHI_D / 2)
 		{
         fprintf(stderr, "Dimensions don't match\n");
         return false;
-- 
2.43.0


From f74d9516661fbe4e842af3a2b4603a808cd6112c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:50 +0000
Subject: [PATCH 60/67] fix: fit2stat reports metrics that it could not write

---
 sources/softs/fit2stat/fit2stat.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index c7e05ea..419adb4 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -670,8 +670,10 @@ main(int argc, char* argv[])
         fwriter << "MSE * cos(theta_light) * cos(theta_view) :" << w_cosine_light_view_mse << std::endl;
         fwriter << "RMSE * cos(theta_light) cos(theta_view)  :" << w_cosine_light_view_rmse << std::endl;
         fwriter << std::endl;
+        fwriter.close();
       }
-      else
+
+      if( !fwriter.good() )
       {
         std::cerr << "<<ERROR>> Could not save metrics to " << output_filename << std::endl;
         return EXIT_FAILURE;
-- 
2.43.0


From 90b8b9fa85ca65a6b0523345632d4d147dd87648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:50 +0000
Subject: [PATCH 61/67] fix: an EXR image that does not fit on its device is an
 error

---
 sources/plugins/data_io/EXR_IO.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/sources/plugins/data_io/EXR_IO.h b/sources/plugins/data_io/EXR_IO.h
index 9d67613..6b39b6d 100644
--- a/sources/plugins/data_io/EXR_IO.h
+++ b/sources/plugins/data_io/EXR_IO.h
@@ -12,6 +12,7 @@
 // STL includes
 #include <stdexcept>
 #include <cassert>
+#include <fstream>
 
 // TinyEXR includes
 #define TINYEXR_IMPLEMENTATION
@@ -167,17 +168,26 @@ class t_EXR_IO
 			}
 
 			const char* err = NULL;
-			int ret = SaveEXRImageToFile(&image, &header, filename, &err);
-			if (ret != TINYEXR_SUCCESS) {
+			unsigned char* memory = NULL;
+			const size_t size = SaveEXRImageToMemory(&image, &header, &memory, &err);
+			bool saved = size > 0;
+			if (saved) {
+				// TinyEXR's own file output does not notice a failing fclose
+				std::ofstream file(filename, std::ios_base::out | std::ios_base::binary);
+				file.write((const char*)memory, size);
+				file.close();
+				saved = file.good();
+			}
+			if (!saved) {
 				std::cerr << "<<ERROR>> Unable to save to EXR file" << std::endl;
 				std::cerr << "<<ERROR>> " << (err ? err : "") << std::endl;
-				return false;
 			}
 
+			free(memory);
 			free(header.channels);
 			free(header.pixel_types);
 			free(header.requested_pixel_types);
-			return true ;
+			return saved;
 		}
 };
 
-- 
2.43.0


From 0ad0de1cb54e3a69115fbd06169a3ed49f05ff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:53 +0000
Subject: [PATCH 62/67] fix: the Jacobian of the Ceres log fit is the
 derivative of its residual

---
 sources/plugins/nonlinear_fitter_ceres/fitter.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
index 202a7ce..3f5446e 100644
--- a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
@@ -74,15 +74,16 @@ class CeresFunctor : public ceres::CostFunction
 
 			if(dy != NULL)
 			{
-				df(_di, dy);
+				df(_yi, dy);
 			}
 
 			return true;
 		}
 
 		// The parameter of the function _f should be set prior to this function
-		// call. If not it will produce undesirable results.
-		virtual void df(const vec& di, double ** fjac) const
+		// call. If not it will produce undesirable results. yi is the value of the
+		// function at position x_i for these parameters.
+		virtual void df(const vec& yi, double ** fjac) const
 		{
 			// Get the jacobian of the function at position x_i for the current
 			// set of parameters (set prior to function call)
@@ -95,7 +96,7 @@ class CeresFunctor : public ceres::CostFunction
 				// Fill the columns of the matrix
 				for(int j=0; j<_f->nbParameters(); ++j)
 				{
-                    fjac[0][i*_f->nbParameters() + j] = - ((_log_fit) ? _jac[i*_f->nbParameters() + j]/(1.0 + di[i]) : _jac[i*_f->nbParameters() + j]);
+                    fjac[0][i*_f->nbParameters() + j] = - ((_log_fit) ? _jac[i*_f->nbParameters() + j]/(1.0 + yi[i]) : _jac[i*_f->nbParameters() + j]);
 				}
          }
 		}
-- 
2.43.0


From 2ba2ed6810ad4045f516d3e758fe59352948d2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:53 +0000
Subject: [PATCH 63/67] fix: the Ceres tolerance options set the tolerances
 they name

---
 sources/plugins/nonlinear_fitter_ceres/fitter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
index 3f5446e..0669f67 100644
--- a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
@@ -214,13 +214,13 @@ void nonlinear_fitter_ceres::set_parameters(const arguments& args)
     std::string const GRADIENT_TOLERANCE_OPTION = "ceres-gradient-tolerance";
     if( args.is_defined(GRADIENT_TOLERANCE_OPTION))
     {
-      options.function_tolerance = args.get_double(GRADIENT_TOLERANCE_OPTION, 1e-10); //Default value = 1e-10
+      options.gradient_tolerance = args.get_double(GRADIENT_TOLERANCE_OPTION, 1e-10); //Default value = 1e-10
     }
 
     std::string const PARAMETER_TOLERANCE_OPTION = "ceres-parameter-tolerance";
     if( args.is_defined(PARAMETER_TOLERANCE_OPTION))
     {
-      options.function_tolerance = args.get_double(PARAMETER_TOLERANCE_OPTION, 1e-8); //Default value = 1e-8
+      options.parameter_tolerance = args.get_double(PARAMETER_TOLERANCE_OPTION, 1e-8); //Default value = 1e-8
     }
 
 
-- 
2.43.0


From 1c91de0b0f2db276435246e85379112de710f073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:15 +0000
Subject: [PATCH 64/67] fix: a fit that Ceres fails is an error

---
 sources/plugins/nonlinear_fitter_ceres/fitter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
index 0669f67..2818786 100644
--- a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
@@ -180,6 +180,11 @@ bool nonlinear_fitter_ceres::fit_data(const ptr<data>& d, ptr<function>& fit, co
 	 std::cout << "<<INFO>> found parameters: " << p << std::endl;
 
 	 nf->setParameters(p);
+	 if(!summary.IsSolutionUsable())
+	 {
+		 std::cerr << "<<ERROR>> Ceres was unable to fit the function" << std::endl;
+		 return false;
+	 }
 	 return true;
 }
 
-- 
2.43.0


From 935b3374b2a8d152bd2193008488fcf96ab5dee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:15 +0000
Subject: [PATCH 65/67] fix: --nlop-relative-function-tolerance sets the
 tolerance on the function

---
 sources/plugins/nonlinear_fitter_nlopt/fitter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp b/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
index a5ea002..e7b1e45 100644
--- a/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
@@ -258,9 +258,9 @@ bool nonlinear_fitter_nlopt::fit_data(const ptr<data>& d, ptr<function>& fit, co
 	if( args.is_defined(FUNC_TOLERANCE) )
 	{
 			double const new_func_tol = args.get_double(FUNC_TOLERANCE,1e-4);			
-			res = nlopt_set_xtol_rel(opt, new_func_tol );		
+			res = nlopt_set_ftol_rel(opt, new_func_tol );		
 			
-			if( res < 0 ) { print_nlopt_error(res, "nlopt_set_xtol_rel"); }
+			if( res < 0 ) { print_nlopt_error(res, "nlopt_set_ftol_rel"); }
 	}
 
 	//Absolute Tolerance Function on a value
-- 
2.43.0


From dbf0142e35467f31574c05cec313ecbaa2442096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:34:51 +0000
Subject: [PATCH 66/67] fix: the worst-set-first order of the quadratic solver
 keeps the worst inequalities

---
 external/quadprog++/QuadProg++.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/external/quadprog++/QuadProg++.cc b/external/quadprog++/QuadProg++.cc
index ed390c4..ef01c88 100644
--- a/external/quadprog++/QuadProg++.cc
+++ b/external/quadprog++/QuadProg++.cc
@@ -131,7 +131,7 @@ void partial_sort(ValuesType &values, MatrixType &M, VectorType &m, int start, i
   typedef typename ValuesType::Index Index;
   using std::swap;
   Index mid;
-  Index n = values.size()-start;
+  Index n = values.size();
   Index first, last ;
 
   ncut--; // to fit the zero-based indices
@@ -387,7 +387,7 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
 
         // Pack worst inequalities right after the active set
         chunk_size = std::min(m,std::max(chunk_size,iq*2));
-        partial_sort(s,CI,ci0,iq,chunk_size-iq);
+        partial_sort(s,CI,ci0,iq,chunk_size);
 
         done_with_current_subset = true;
         continue;
-- 
2.43.0


From 47bc03ee005af1c4a8f189f5f9ddf974f8031212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:34:51 +0000
Subject: [PATCH 67/67] fix: a quadratic program without inequalities is solved

---
 external/quadprog++/QuadProg++.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/external/quadprog++/QuadProg++.cc b/external/quadprog++/QuadProg++.cc
index ef01c88..678dee9 100644
--- a/external/quadprog++/QuadProg++.cc
+++ b/external/quadprog++/QuadProg++.cc
@@ -280,7 +280,7 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
   bool done_with_current_subset = false;
   long flops0 = 0, flops1 = 0;
   int iter = 0;
-  int nb_chunks = (m+chunk_size-1)/chunk_size;
+  int nb_chunks = m>0 ? (m+chunk_size-1)/chunk_size : 0;
   int nb_satisfied_chunks = 0;
   while(iter<=10*m) // make sure we do not run into an infinite loop
   {
-- 
2.43.0

